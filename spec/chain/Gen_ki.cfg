SPECIFICATION GSpec
CONSTANTS
  Depth = 60
  Part = "ki"
INVARIANT Emit
CHECK_DEADLOCK FALSE
