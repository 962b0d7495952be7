SPECIFICATION GSpec
CONSTANTS
  Depth = 120
  Part = "out"
INVARIANT Emit
CHECK_DEADLOCK FALSE
