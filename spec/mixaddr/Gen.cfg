SPECIFICATION GSpec
CONSTANT Depth = 80
INVARIANT Emit
CHECK_DEADLOCK FALSE
