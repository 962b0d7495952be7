SPECIFICATION GSpec
CONSTANTS
  Party = {"a", "b", "c"}
  Rank <- GenRank
  NK = 3
  MaxMsg = 0
  Limit = 301
  Depth = 45
  Menu <- MenuAll
INVARIANT Emit
CHECK_DEADLOCK FALSE
