SPECIFICATION GSpec
CONSTANTS
  Depth = 120
  Part = "book"
INVARIANT Emit
CHECK_DEADLOCK FALSE
