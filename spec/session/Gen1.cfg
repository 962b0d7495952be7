SPECIFICATION GSpec
CONSTANTS
  Party = {"a", "b"}
  Rank <- GenRank
  NK = 1
  MaxMsg = 0
  Limit = 301
  Depth = 40
  Menu <- MenuAll
INVARIANT Emit
CHECK_DEADLOCK FALSE
