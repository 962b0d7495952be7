SPECIFICATION Spec
CONSTANT N = 7
INVARIANTS Split Chunked Name
CHECK_DEADLOCK FALSE
