SPECIFICATION Spec
CONSTANTS
  Hash = {"h1"}
  Usage = {"A"}
  Owner = {"o1"}
  Ver = {1}
  Exp = {4}
  Kind = {"no"}
  Cred = {"c1", "c2"}
INVARIANTS TypeOK LockedStored
PROPERTIES NoDoubleHand NoSteal ContentKept DiskFollows
CHECK_DEADLOCK FALSE
