SPECIFICATION TSpec
CONSTANTS FwdMin = 1024 RelMin = 4096 MaxSize = 65536
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
