SPECIFICATION MSpec
CONSTANTS P = {1, 2, 3}
MaxGen = 3
INVARIANTS AlwaysOpens Whole
PROPERTY Atomic
CHECK_DEADLOCK FALSE
