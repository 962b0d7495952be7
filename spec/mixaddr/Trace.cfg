SPECIFICATION TSpec
CONSTANTS Mixes = {1, 2} Lists = {1, 2} Dur = 1000
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
