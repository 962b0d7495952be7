SPECIFICATION Spec
CONSTANTS Servers = {1, 3} MaxAge = 2 MaxOffers = 2 MaxNow = 3 Hashes = {0, 1, 2}
INVARIANTS Trusted Pinned Known Live
PROPERTY Monotone
CHECK_DEADLOCK FALSE
