SPECIFICATION TSpec
CONSTANTS Servers = {1, 2, 3} MaxAge = 14400
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
