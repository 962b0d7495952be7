SPECIFICATION Spec
CONSTANTS
  Party = {"a", "b", "c"}
  MaxLen = 10
  Size = 100
INVARIANT GotWasSent
PROPERTY Forever
CHECK_DEADLOCK FALSE
