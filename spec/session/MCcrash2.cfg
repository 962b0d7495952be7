SPECIFICATION CSpec
CONSTANTS
  Party = {"a", "b"}
  Rank <- CRank
  NK = 1
  MaxMsg = 4
  Limit = 10
  MaxCut = 1
INVARIANTS SameAsSession CDeliverable COnlyOnce CCanEncrypt KeysOnce Agreement OneChain StillNeeded
CHECK_DEADLOCK FALSE
