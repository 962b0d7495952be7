SPECIFICATION GSpec
CONSTANTS
  Party = {"a", "b"}
  Rank <- GenRank
  NK = 1
  MaxMsg = 0
  Limit = 301
  MaxCut = 1000
  Depth = 45
INVARIANT Emit
CHECK_DEADLOCK FALSE
