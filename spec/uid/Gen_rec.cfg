SPECIFICATION GSpec
CONSTANTS
  Depth = 100
  Part = "rec"
INVARIANT Emit
CHECK_DEADLOCK FALSE
