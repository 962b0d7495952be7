SPECIFICATION Spec
CONSTANT N = 6
INVARIANTS Split Chunked Name
CHECK_DEADLOCK FALSE
