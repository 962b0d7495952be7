SPECIFICATION Spec
CONSTANTS
  Hash = {"h1", "h2"}
  Usage = {"A"}
  Owner = {"o1", "o2"}
  Ver = {1}
  Exp = {1, 3, 4}
  Kind = {"no", "packet"}
  Cred = {}
INVARIANTS TypeOK LockedStored
PROPERTIES NoDoubleHand NoSteal ContentKept DiskFollows
CHECK_DEADLOCK FALSE
