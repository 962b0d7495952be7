SPECIFICATION GSpec
CONSTANTS
  Party = {"a", "b"}
  Rank <- GenRank
  NK = 2
  MaxMsg = 0
  Limit = 301
  Depth = 40
  Menu <- MenuEager
INVARIANT Emit
CHECK_DEADLOCK FALSE
