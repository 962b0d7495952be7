SPECIFICATION GSpec
CONSTANTS
  Depth = 60
  Part = "chain"
INVARIANT Emit
CHECK_DEADLOCK FALSE
