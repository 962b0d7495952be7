-------------------------- MODULE SessionCrashGen --------------------------
(* Conversations with crashes as operation scripts for the driver. *)
EXTENDS SessionCrash, Json
CONSTANTS Depth
VARIABLE hist
GenRank == [p \in Party |-> IF p = "a" THEN 1 ELSE IF p = "b" THEN 2 ELSE 3]
R(S) == RandomElement(S)
Rec(op) == hist' = Append(hist, op)
Fresh == {m \in net : m.id \notin got}
Oldest == CHOOSE m \in Fresh : \A x \in Fresh : x.id >= m.id
Pair == CHOOSE x \in {<<p, q>> : p \in Party, q \in Party} : x[1] # x[2]

GEncrypt ==
  \E p \in {R(Party)} : \E q \in {R(Peers(p))}, renew \in {R(BOOLEAN)}, s \in {R(1..14)} :
    \E st \in {IF s = 1 THEN "reset" ELSE IF s = 2 THEN "error" ELSE "ok"} :
      /\ CEncrypt(p, q, renew, st, 0, Cardinality(net) + 1)
      /\ Rec([op |-> "Encrypt", p |-> p, q |-> q, renew |-> renew, status |-> st, sign |-> FALSE, len |-> 20, nymn |-> 0])
GDecrypt(m) == \E r \in {"ok", "err"} : CDecrypt(m, r) /\ Rec([op |-> "Decrypt", id |-> m.id])
GCutEncrypt ==
  \E p \in {R(Party)} : \E q \in {R(Peers(p))}, renew \in {R({TRUE, TRUE, FALSE})}, s \in {R(1..10)} :
    \E st \in {IF s = 1 THEN "reset" ELSE "ok"} : \E k \in {R(0..(Len(EncWrites(p, q, renew, st, 0)) - 1))} :
      /\ CutEncrypt(p, q, renew, st, k)
      /\ Rec([op |-> "CutEncrypt", p |-> p, q |-> q, renew |-> renew, status |-> st, k |-> k])
GCutDecrypt(m) ==
  \E n \in {Len(DecOutcome(m.to, m).ws)} :
    IF n = 0 THEN GDecrypt(m)
    ELSE \E k \in {R(0..(n - 1))} : CutDecrypt(m, k) /\ Rec([op |-> "CutDecrypt", id |-> m.id, k |-> k])

(* a message whose decryption was interrupted often comes again at once *)
Pick == \E x \in {R(1..20)} :
  CASE x <= 7 \/ net = {} -> GEncrypt
    [] x \in {8, 9} -> GCutEncrypt
    [] x \in 10..12 /\ Fresh # {} -> \E m \in {R(Fresh)} : GCutDecrypt(m)
    [] x = 13 /\ Fresh # {} -> GCutDecrypt(Oldest)
    [] x = 14 -> \E m \in {R(net)} : GCutDecrypt(m)
    [] x \in 15..17 /\ Fresh # {} -> GDecrypt(Oldest)
    [] x = 18 /\ Fresh # {} -> \E m \in {R(Fresh)} : GDecrypt(m)
    [] x = 19 -> \E m \in {R(net)} : GDecrypt(m)
    [] OTHER -> GEncrypt
GInit == CInit /\ hist = <<>>
GNext == Len(hist) < Depth /\ Pick
GSpec == GInit /\ [][GNext]_<<cvars, hist>>
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
