SPECIFICATION GSpec
CONSTANTS
  None = 0
  Depth = 120
INVARIANT Emit
CHECK_DEADLOCK FALSE
