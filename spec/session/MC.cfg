SPECIFICATION Spec
CONSTANTS
  Party = {"a", "b"}
  Rank <- MCRank
  NK = 1
  MaxMsg = 4
  Limit = 100
INVARIANTS Deliverable OnlyOnce CanEncrypt KeysOnce Agreement StillNeeded Erased
PROPERTY Refines
CHECK_DEADLOCK FALSE
