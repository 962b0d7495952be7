SPECIFICATION GSpec
CONSTANTS
  Depth = 100
  Part = "ki"
INVARIANT Emit
CHECK_DEADLOCK FALSE
