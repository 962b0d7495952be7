SPECIFICATION GSpec
CONSTANTS
  Depth = 120
  Part = "in"
INVARIANT Emit
CHECK_DEADLOCK FALSE
