SPECIFICATION Spec
CONSTANTS
  Party = {"a", "b"}
  Rank <- MCRank
  NK = 2
  MaxMsg = 5
  Limit = 100
INVARIANTS Deliverable OnlyOnce CanEncrypt KeysOnce Agreement StillNeeded Erased
PROPERTY Refines
CHECK_DEADLOCK FALSE
