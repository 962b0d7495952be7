SPECIFICATION Spec
CONSTANTS
  Party = {"a", "b", "c"}
  Rank <- MCRank
  NK = 1
  MaxMsg = 3
  Limit = 100
INVARIANTS Deliverable OnlyOnce CanEncrypt KeysOnce Agreement StillNeeded Erased
PROPERTY Refines
CHECK_DEADLOCK FALSE
