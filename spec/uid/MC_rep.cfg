SPECIFICATION MSpec
CONSTANTS
  N = 3
  Mode = "rep"
INVARIANTS Unforged Unchained Genuine One Confirmed OnlyOne KiUnforged KiOne
CHECK_DEADLOCK FALSE
