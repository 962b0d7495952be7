SPECIFICATION GSpec
CONSTANTS
  Party = {"a", "b"}
  Rank <- GenRank
  NK = 50
  MaxMsg = 0
  Limit = 301
  Depth = 900
  Menu <- MenuMonoIn
INVARIANT Emit
CHECK_DEADLOCK FALSE
