------------------------------ MODULE KeyDBGen ------------------------------
EXTENDS KeyDB, Json
CONSTANTS Depth
VARIABLES hist, n     \* n: counter that makes values differ
R(S) == RandomElement(S)
Id == {"a", "b", "c"}
Dom == {"d", "e"}
Ss == {"s1", "s2", "s3"}
Rec(op) == hist' = Append(hist, op) /\ n' = n + 1
Ks(c, k) == [i \in 1..c |-> 1000 * n + 10 * i + k]
Free(d) == {p \in 0..6 : <<d, p>> \notin DOMAIN chain}
Menu == <<"SetVal", "GetVal", "AddPUID", "AddPUID", "AddReply", "DelPUID", "GetPUID", "GetPUID", "ListIDs", "ListDom",
          "AddPKI", "GetPKI", "AddOKI", "GetOKI", "AddOUID", "GetOUID", "GetOUID",
          "AddSess", "AddSess", "AddSess", "AddSess", "GetSess", "GetMK", "GetMK", "GetMK", "GetMK", "DelMK", "DelMK",
          "SetState", "SetState", "GetState", "GetState", "AddSK", "GetSK", "GetSK", "DelSK",
          "AddHC", "AddHC", "AddHC", "GetHC", "LastPos", "LastHC", "DelHC", "Reopen", "Rekey", "Vacuum">>
NewP == {<<i, k>> \in Id \X (0..3) : <<i, k>> \notin DOMAIN puid}
NewO == {<<i, k>> \in Id \X (0..5) : <<i, k>> \notin DOMAIN ouid}
NewK == {h \in {"h1", "h2", "h3", "h4", "h5"} : h \notin DOMAIN skeys}
NewH == {<<d, p>> \in Dom \X (0..6) : <<d, p>> \notin DOMAIN chain}
Can(name) == CASE name = "AddPUID" -> NewP # {}
               [] name = "AddOUID" -> NewO # {}
               [] name = "AddSK" -> NewK # {}
               [] name = "AddHC" -> NewH # {}
               [] OTHER -> TRUE
(* writes that are made to fail: nothing happens *)
F == IF hist = hist THEN R(1..9) = 1 ELSE FALSE
Fail(op, f) == UNCHANGED vars /\ Rec([fault |-> f] @@ op)
(* what shows the effect of a write *)
Probe(op) ==
  CASE op.op = "SetVal" -> <<[op |-> "GetVal", k |-> op.k]>>
    [] op.op \in {"AddPUID", "AddReply", "DelPUID"} -> <<[op |-> "GetPUID", i |-> op.i, keys |-> TRUE]>>
    [] op.op = "AddPKI" -> <<[op |-> "GetPKI", i |-> op.i, n |-> op.n]>>
    [] op.op = "AddOKI" -> <<[op |-> "GetOKI", i |-> op.i]>>
    [] op.op = "AddOUID" -> <<[op |-> "GetOUID", i |-> op.i, max |-> op.pos]>>
    [] op.op = "DelMK" -> <<[op |-> "GetMK", s |-> op.s, sender |-> TRUE, i |-> op.i], [op |-> "GetMK", s |-> op.s, sender |-> FALSE, i |-> op.i]>>
    [] op.op = "SetState" -> <<[op |-> "GetState", k |-> op.k]>>
    [] op.op \in {"AddSK", "DelSK"} -> <<[op |-> "GetSK", h |-> op.h]>>
    [] op.op \in {"AddHC", "DelHC"} -> <<[op |-> "LastPos", d |-> op.d, sp |-> ~op.sp], [op |-> "LastHC", d |-> op.d, sp |-> op.sp]>>
    [] OTHER -> <<>>
Try(A, op, f) == IF F THEN Fail(op, f)
                 ELSE A /\ n' = n + 1 /\ hist' = Append(hist, op) \o (IF R(1..2) = 1 THEN Probe(op) ELSE <<>>)
(* replies mostly go to stored identities, half of the time to answered ones *)
Answered == {x \in DOMAIN puid : puid[x] # 0}
ForReply == IF DOMAIN puid = {} \/ (hist = hist /\ R(1..6) = 1) THEN Id \X (0..3)
            ELSE IF Answered # {} /\ R(1..2) = 1 THEN Answered ELSE DOMAIN puid
Lookups(s, k) == <<[op |-> "GetSess", s |-> s]>>
                 \o [j \in 1..2 * k |-> [op |-> "GetMK", s |-> s, sender |-> j % 2 = 0,
                                       i |-> (IF s \in DOMAIN sess THEN Len(sess[s].send) ELSE 0) + (j - 1) \div 2]]
(* a failing addition to a session, after which nothing of it may be there *)
FailSess(s, op, k) ==
  \E f \in {R({IF s \in DOMAIN sess THEN "Sessions/UPDATE" ELSE "Sessions/INSERT"} \cup
              (IF k = 0 THEN {} ELSE {"MessageKeys/INSERT", "MessageKeys/INSERT/NEW.Direction=0"}) \cup
              (IF k < 2 THEN {} ELSE {"MessageKeys/INSERT/NEW.Number%2=1", "MessageKeys/INSERT/NEW.Direction=0 AND NEW.Number%2=0"}))} :
    /\ UNCHANGED vars /\ n' = n + 1
    /\ hist' = hist \o <<[fault |-> f] @@ op>> \o Lookups(s, k)
(* the result of queries does not matter here: the driver reports it *)
Ask(op) == UNCHANGED vars /\ Rec(op)
G(name) ==
  CASE name = "SetVal" -> \E k \in {R({"k1", "k2", "k3"})} : Try(SetVal(k, n), [op |-> name, k |-> k, v |-> n], IF k \in DOMAIN vals THEN "KeyValueStore/UPDATE" ELSE "KeyValueStore/INSERT")
    [] name = "GetVal" -> \E k \in {R({"k1", "k2", "k3"})} : Ask([op |-> name, k |-> k])
    [] name = "AddPUID" -> \E x \in {R(NewP)} : Try(AddPUID(x[1], x[2]), [op |-> name, i |-> x[1], n |-> x[2]], "PrivateUIDs/INSERT")
    [] name = "AddReply" -> \E x \in {R(ForReply)} : Try(AddReply(x[1], x[2], n), [op |-> name, i |-> x[1], n |-> x[2], r |-> n], "PrivateUIDs/UPDATE")
    [] name = "DelPUID" -> \E i \in {R(Id)}, k \in {R(0..3)} : Try(DelPUID(i, k), [op |-> name, i |-> i, n |-> k], "PrivateUIDs/DELETE")
    [] name = "GetPUID" -> \E i \in {R(Id)}, w \in {R(BOOLEAN)} : Ask([op |-> name, i |-> i, keys |-> w])
    [] name = "ListIDs" -> Ask([op |-> name])
    [] name = "ListDom" -> \E d \in {R(Dom)}, sp \in {R(BOOLEAN)} : Ask([op |-> name, d |-> d, sp |-> sp])
    [] name = "AddPKI" -> \E i \in {R(Id)}, k \in {R(0..2)} :
         IF <<i, k>> \in pki THEN Ask([op |-> "GetPKI", i |-> i, n |-> k])
         ELSE Try(AddPKI(i, k), [op |-> name, i |-> i, n |-> k], "PrivateKeyInits/INSERT")
    [] name = "GetPKI" -> \E i \in {R(Id)}, k \in {R(0..2)} : Ask([op |-> name, i |-> i, n |-> k])
    [] name = "AddOKI" -> \E i \in {R(Id)}, k \in {R(0..2)} : Try(AddOKI(i, k), [op |-> name, i |-> i, n |-> k], "PublicKeyInits/INSERT")
    [] name = "GetOKI" -> \E i \in {R(Id)} : Ask([op |-> name, i |-> i])
    [] name = "AddOUID" -> \E x \in {R(NewO)}, k \in {R(0..3)} :
         Try(AddOUID(x[1], k, x[2]), [op |-> name, i |-> x[1], n |-> k, pos |-> x[2]], "PublicUIDs/INSERT")
    [] name = "GetOUID" -> \E i \in {R(Id)}, m \in {R(0..6)} : Ask([op |-> name, i |-> i, max |-> m])
    [] name = "AddSess" -> \E s \in {R(IF R(1..20) = 1 THEN {""} ELSE Ss)}, c \in {R(0..3)},
         d \in {R({0, 0, 0, 0, 0, 0, 0, 0, 1, 3})}, root \in {R({n, n, n, n, n, n, n, n, 0, n} \cup {n})},
         ck \in {IF R(1..15) = 1 THEN 0 ELSE n} :
           \E op \in {[op |-> name, s |-> s, root |-> root, ck |-> ck, send |-> Ks(c, 1), recv |-> Ks(IF d = 3 THEN 0 ELSE c + d, 2)]} :
           IF d = 0 /\ s # "" /\ root # 0 /\ ck # 0 /\ R(1..3) = 1 THEN FailSess(s, op, c)
           ELSE \E r \in {"ok", "err"} : AddSess(s, root, ck, op.send, op.recv, r) /\ Rec(op)
    [] name = "GetSess" -> \E s \in {R(Ss)} : Ask([op |-> name, s |-> s])
    [] name = "GetMK" -> \E s \in {R(Ss)}, b \in {R(BOOLEAN)} :
         \E i \in {R(0..(IF s \in DOMAIN sess THEN Len(sess[s].send) ELSE 1))} : Ask([op |-> name, s |-> s, sender |-> b, i |-> i])
    [] name = "DelMK" -> \E s \in {R(Ss)}, b \in {R(BOOLEAN)} :
         \E i \in {R(0..(IF s \in DOMAIN sess THEN Len(sess[s].send) ELSE 1))}, r \in {"ok", "err"} :
           Try(DelMK(s, b, i, r), [op |-> name, s |-> s, sender |-> b, i |-> i], "MessageKeys/DELETE")
    [] name = "SetState" -> \E k \in {R({"p1", "p2", "p3"})} : Try(SetState(k, n), [op |-> name, k |-> k, v |-> n], IF k \in DOMAIN states THEN "SessionStates/UPDATE" ELSE "SessionStates/INSERT")
    [] name = "GetState" -> \E k \in {R({"p1", "p2", "p3"})} : Ask([op |-> name, k |-> k])
    [] name = "AddSK" -> \E h \in {R(NewK)} : Try(AddSK(h, n), [op |-> name, h |-> h, v |-> n], "SessionKeys/INSERT")
    [] name = "GetSK" -> \E h \in {R({"h1", "h2", "h3", "h4", "h5"})} : Ask([op |-> name, h |-> h])
    [] name = "DelSK" -> \E h \in {R({"h1", "h2", "h3", "h4", "h5"})} : Try(DelSK(h), [op |-> name, h |-> h], "SessionKeys/UPDATE")
    [] name = "AddHC" -> \E x \in {R(NewH)}, sp \in {R(BOOLEAN)} :
         Try(AddHC(x[1], x[2], n), [op |-> name, d |-> x[1], pos |-> x[2], e |-> n, sp |-> sp], "Hashchains/INSERT")
    [] name = "GetHC" -> \E d \in {R(Dom)}, p \in {R(0..6)}, sp \in {R(BOOLEAN)} : Ask([op |-> name, d |-> d, pos |-> p, sp |-> sp])
    [] name = "LastPos" -> \E d \in {R(Dom)}, sp \in {R(BOOLEAN)} : Ask([op |-> name, d |-> d, sp |-> sp])
    [] name = "LastHC" -> \E d \in {R(Dom)}, sp \in {R(BOOLEAN)} : Ask([op |-> name, d |-> d, sp |-> sp])
    [] name = "DelHC" -> \E d \in {R(Dom)}, sp \in {R(BOOLEAN)} : Try(DelHC(d), [op |-> name, d |-> d, sp |-> sp], "Hashchains/DELETE")
    [] name = "Reopen" -> Ask([op |-> name])
    [] name = "Rekey" -> Ask([op |-> name, right |-> R(BOOLEAN)])
    [] name = "Vacuum" -> Ask([op |-> name, mode |-> R({"", "NONE", "FULL", "INCREMENTAL"}), pages |-> R({0, 1})])
GInit == Init /\ hist = <<>> /\ n = 1
GNext == Len(hist) < Depth /\ \E i \in {R({j \in DOMAIN Menu : Can(Menu[j])})} : G(Menu[i])
GSpec == GInit /\ [][GNext]_<<vars, hist, n>>
Emit == Len(hist) >= Depth => PrintT(ToJson(hist))
=============================================================================
