--------------------------- MODULE SessionCrashMC ---------------------------
EXTENDS SessionCrash
CRank == [p \in Party |-> IF p = "a" THEN 1 ELSE 2]
=============================================================================
