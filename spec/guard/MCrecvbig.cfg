SPECIFICATION Spec
CONSTANTS MaxKeys = 2 MaxToks = 3 MaxNow = 4
INVARIANTS Genuine PoolTrusted OnlyListed
PROPERTIES InTime
CHECK_DEADLOCK FALSE
