SPECIFICATION MSpec
CONSTANTS
  Slice = "in"
  MaxMsgs = 3
  MaxIn = 3
INVARIANTS OnePlace QueueOwn Belongs Conserved
PROPERTIES NotLost InOrder Local
CHECK_DEADLOCK FALSE
