SPECIFICATION MSpec
CONSTANTS
  Slice = "book"
  MaxMsgs = 1
  MaxIn = 1
INVARIANTS OnePlace QueueOwn Belongs Conserved
PROPERTIES NotLost InOrder Local
CHECK_DEADLOCK FALSE
