SPECIFICATION GSpec
CONSTANTS
  Depth = 100
INVARIANT Emit
CHECK_DEADLOCK FALSE
