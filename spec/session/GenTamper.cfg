SPECIFICATION GSpecForge
CONSTANTS
  Party = {"a", "b", "c"}
  Rank <- GenRank
  NK = 2
  MaxMsg = 0
  Limit = 301
  Depth = 36
  Menu <- MenuTamper
INVARIANT Emit
CHECK_DEADLOCK FALSE
