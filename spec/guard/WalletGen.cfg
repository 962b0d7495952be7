SPECIFICATION GSpec
CONSTANT Depth = 30
INVARIANT Emit
CHECK_DEADLOCK FALSE
