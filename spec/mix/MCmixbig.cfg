SPECIFICATION Spec
CONSTANTS FwdMin = 1 RelMin = 2 MaxSize = 3 MaxNyms = 2 MaxEnvs = 3 MaxMsgs = 2 MaxNow = 2
INVARIANTS Addressee Owner Replay
CHECK_DEADLOCK FALSE
