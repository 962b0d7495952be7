SPECIFICATION Spec
CONSTANTS MaxOps = 5 MaxFaults = 4 MaxTok = 5
INVARIANTS Lossless Right Gone OneRequest NoStop
CHECK_DEADLOCK FALSE
