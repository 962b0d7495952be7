----------------------------- MODULE MsgSizeMC -----------------------------
(* All content lengths, and all combinations of header parameters at their  *)
(* boundaries.                                                              *)
EXTENDS MsgSize
VARIABLE c
BASE == 1184
Base == [idl |-> 10, doml |-> 4, upd |-> 0, nym |-> 0, next |-> FALSE, seen |-> FALSE, d1 |-> 1, d2 |-> 1,
         len |-> 0, sign |-> FALSE, status |-> "ok"]
Init == \/ \E len \in 0..MaxContent, s \in BOOLEAN, st \in {"ok", "error"} :
             c = [Base EXCEPT !.len = len, !.sign = s, !.status = st]
        \/ \E i \in {5, 6, 100, 253, 254}, d \in {1, 50, 190, 250}, u \in {0, 1, 9, 10, 999}, n \in {0, 1, 800, 1567, 1568},
              x, y \in BOOLEAN, d1, d2 \in {1, 5, 20} :
             /\ d + 4 <= i
             /\ c = [Base EXCEPT !.idl = i, !.doml = d, !.upd = u, !.nym = n, !.next = x, !.seen = y, !.d1 = d1, !.d2 = d2]
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
U == UIDLen(c, BASE)
(* everything adds up to one size *)
OneSize == Total(c) = RawSize /\ EncodedSize = (RawSize \div 3) * 4
OneHeader == Fits(c, U) => Variable(c, U) + HeaderPad(c, U)
                           = Wiggle + MaxIdentity + 2 * Entry + MaxNym + 60 + MaxUID
Paddable == Fits(c, U) => HeaderPad(c, U) >= Wiggle /\ BodyPad(c) >= 0
(* lengths fit their two-byte fields *)
Fields == \A i \in 1..6 : Packets(c)[i][2] < 65536
(* every legal identity fits *)
AllFit == Fits(c, U)
=============================================================================
