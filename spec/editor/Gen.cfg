SPECIFICATION GSpec
CONSTANTS
  Depth = 80
INVARIANT Emit
CHECK_DEADLOCK FALSE
