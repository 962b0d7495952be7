SPECIFICATION GSpec
CONSTANTS
  Depth = 150
INVARIANT Emit
CHECK_DEADLOCK FALSE
