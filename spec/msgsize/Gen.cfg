SPECIFICATION GSpec
CONSTANTS
  Depth = 80
  Run = 40
INVARIANT Emit
CHECK_DEADLOCK FALSE
