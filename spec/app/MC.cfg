SPECIFICATION Spec
CONSTANTS MaxIssued = 4 Pass = {1, 2, 3}
INVARIANTS Closed Session
CHECK_DEADLOCK FALSE
