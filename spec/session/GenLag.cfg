SPECIFICATION GSpecLag
CONSTANTS
  Party = {"a", "b"}
  Rank <- GenRank
  NK = 50
  MaxMsg = 0
  Limit = 301
  Depth = 480
  Menu <- MenuMono
INVARIANT Emit
CHECK_DEADLOCK FALSE
