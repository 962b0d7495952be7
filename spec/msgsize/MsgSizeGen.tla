----------------------------- MODULE MsgSizeGen -----------------------------
(* Cases for the driver: a stretch of consecutive content lengths, then     *)
(* random cases with boundary values preferred.                             *)
EXTENDS MsgSize, Json
CONSTANTS Depth, Run
VARIABLE hist
R(S) == RandomElement(S)
Case(idl, doml, upd, nym, start, next, seen, d1, d2, len, sign, status) ==
  [op |-> "Enc", idl |-> idl, doml |-> doml, upd |-> upd, nym |-> nym, start |-> start,
   next |-> next /\ ~start, seen |-> seen /\ ~start, d1 |-> IF start THEN 1 ELSE d1, d2 |-> IF start THEN 1 ELSE d2,
   len |-> len, sign |-> sign, status |-> status]
GInit == hist = <<>>
Random ==
  \E d \in {R({1, 2, 3, 50, 150, 190, 250} \cup {R(1..250)})} :
  \E i \in {LET top == IF d + 65 > 254 THEN 254 ELSE d + 65 IN R({d + 4, top, R((d + 4)..top)})}, u \in {R({0, 0, 1, 9, 10, 100})},
     n \in {R({0, 1, 1567, 1568, 1568, 1569, 2000} \cup {R(2..1566)})}, x \in {R(BOOLEAN)}, y \in {R(BOOLEAN)}, s \in {R(BOOLEAN)}, sg \in {R(BOOLEAN)},
     d1 \in {R(1..20)}, d2 \in {R(1..20)}, st \in {R({"ok", "ok", "ok2", "ok3", "reset", "error"})},
     len \in {R({0, 1, 2, 3, MaxContent - 2, MaxContent - 1, MaxContent, MaxContent + 1, MaxContent + 2,
                 MaxContent + 64, MaxContent + 69, MaxContent + 70, 49152, 65535, 65536, 65540, 131072 + 5}
                \cup {R(0..MaxContent), R(0..MaxContent), R(0..MaxContent), R(0..MaxContent)})} :
    LET status == IF st \in {"ok2", "ok3"} THEN "ok" ELSE st IN
    hist' = Append(hist, Case(i, d, u, n, s \/ status = "reset", x, y, d1, d2, len, sg, status))
Stretch ==
  IF hist = <<>> \/ Len(hist) >= Run
  THEN \E from \in {R(0..(MaxContent - Run))}, sg \in {R(BOOLEAN)} :
         hist' = Append(hist, Case(15, 11, 0, 30, TRUE, FALSE, FALSE, 1, 1, from, sg, "ok"))
  ELSE hist' = Append(hist, [hist[Len(hist)] EXCEPT !.len = @ + 1])
GNext == Len(hist) < Depth /\ (IF Len(hist) < Run THEN Stretch ELSE Random)
GSpec == GInit /\ [][GNext]_hist
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
