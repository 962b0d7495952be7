SPECIFICATION Spec
CONSTANTS MaxOps = 4 MaxFaults = 2 MaxTok = 4
INVARIANTS Lossless Right Gone OneRequest NoStop
CHECK_DEADLOCK FALSE
