----------------------------- MODULE IdentityGen -----------------------------
(* Random identities: legal text with separators, then some characters are   *)
(* replaced by others; lengths around the boundaries.                        *)
EXTENDS Identity, Json
CONSTANTS Depth
VARIABLES hist
R(S) == RandomElement(S)
\* definitions without parameters are evaluated once, unless they depend on the state
Live == hist = hist
Common == 97..122 \cup 48..57
Special == {45, 46, 45, 46, 32, 9, 64, 65, 74, 79, 90, 73, 48, 49, 106, 47, 58, 96, 123, 91, 95, 43, 0, 127, 304, 8490, 220, 252, 570,
            937, 1046, 160, 133, 8232, 12288, 65533, 128512, -255, -128, 305, 383, 8209}
Sp2 == {45, 46, 65, 79, 48, 49, 106, 74, 32}
LenSet == 0..12
Text(n, odd) == [i \in 1..n |-> IF odd /\ R(1..6) = 1 THEN R(Special) ELSE IF R(1..4) = 1 THEN R(Sp2) ELSE R(Common)]
Plain(n) == [i \in 1..n |-> IF R(1..5) = 1 THEN R(65..90) ELSE R(Common)]
Dom(n, odd) == [i \in 1..n |-> IF odd /\ R(1..8) = 1 THEN R({46, 65, 90, 32, 220, 252, 570, 8490, 304, 45, 64}) ELSE R(Common)]
Pad == IF Live THEN R({<<>>, <<>>, <<>>, <<>>, <<32>>, <<32, 9>>, <<160>>, <<12288>>}) ELSE CHOOSE x \in {} : FALSE
One(k) ==
  CASE k \in 1..3 -> LET n == R(LenSet) IN Pad \o Text(n, TRUE) \o Pad \o <<64>> \o Dom(R(0..10), TRUE)
    [] k \in 4..5 -> Pad \o Text(R(3..10), FALSE) \o Pad \o <<64>> \o Dom(R(1..10), FALSE)
    [] k = 6 -> Pad \o Plain(R({2, 3, 4, 63, 64, 65, 66})) \o Pad \o <<64>> \o Dom(R({1, 5, 188, 189, 190, 191}), R(BOOLEAN))
    [] k = 7 -> Plain(R(3..64)) \o (IF R(1..5) = 1 THEN <<>> ELSE <<64>>) \o Dom(R(180..252), R(BOOLEAN))
    [] k = 8 -> LET n == R(3..60) IN Plain(n) \o <<64>> \o [i \in 1..(253 - n) \div 2 |-> 570] \o Dom(R(0..2), FALSE)
    [] k = 9 -> LET p == Plain(R(3..8)) IN [p EXCEPT ![R(1..Len(p))] = R(Special)] \o <<64>> \o Dom(R(1..10), FALSE)
    [] k = 10 -> LET n == R(40..64) IN Pad \o Plain(n) \o Pad \o <<64>> \o
                    (LET t == Plain(R({252 - n, 253 - n, 254 - n, 250 - n})) IN t)
GInit == hist = <<>>
GNext == Len(hist) < Depth /\ \E k \in {R(1..10)} : hist' = Append(hist, [op |-> "Map", in |-> One(k)])
GSpec == GInit /\ [][GNext]_hist
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
