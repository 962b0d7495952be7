SPECIFICATION TSpec
CONSTANTS
  None = 0
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
