SPECIFICATION TSpec
CONSTANTS
  Party = {"a", "b", "c"}
  Rank <- TraceRank
  NK = 1
  MaxMsg = 0
  Limit = 301
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
