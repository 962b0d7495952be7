SPECIFICATION MSpec
CONSTANTS
  N = 4
  Mode = "ki"
INVARIANTS Unforged Unchained Genuine One Confirmed OnlyOne KiUnforged KiOne
CHECK_DEADLOCK FALSE
