SPECIFICATION Spec
CONSTANTS MaxKeys = 2 MaxToks = 2 MaxNow = 2
INVARIANTS Genuine PoolTrusted OnlyListed
PROPERTIES InTime
CHECK_DEADLOCK FALSE
