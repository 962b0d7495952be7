SPECIFICATION Spec
CONSTANTS MaxIssued = 7 Pass = {1, 2, 3, 4}
INVARIANTS Closed Session
CHECK_DEADLOCK FALSE
