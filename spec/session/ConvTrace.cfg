SPECIFICATION TSpec
CONSTANTS
  Party = {"a", "b", "c"}
  MaxLen = 41691
  Size = 65536
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
