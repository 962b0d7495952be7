SPECIFICATION TSpec
CONSTANTS
  Nyms = {1, 2}
  People = {1, 2, 3, 4}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
