SPECIFICATION MSpec
CONSTANTS
  Slice = "out"
  MaxMsgs = 3
  MaxIn = 2
INVARIANTS OnePlace QueueOwn Belongs Conserved
PROPERTIES NotLost InOrder Local
CHECK_DEADLOCK FALSE
