SPECIFICATION Spec
CONSTANTS Mixes = {1, 2} Lists = {1} Dur = 1 MaxKeys = 3 MaxBlobs = 2 MaxStmts = 2 MaxNow = 3
INVARIANTS Served Advertised Own Signed CrashSafe
CHECK_DEADLOCK FALSE
