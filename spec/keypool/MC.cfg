SPECIFICATION MSpec
CONSTANTS
  MaxKeys = 2
  Stores = {"db"}
  MaxNow = 35
  Alts = {"none", "x"}
INVARIANTS Sound OneEach HandedOut
PROPERTIES Keeps
CHECK_DEADLOCK FALSE
