SPECIFICATION MSpec
CONSTANTS
  N = 3
  Mode = "rec"
INVARIANTS Unforged Unchained Genuine One Confirmed OnlyOne KiUnforged KiOne
CHECK_DEADLOCK FALSE
