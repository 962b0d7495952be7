------------------------------ MODULE KeyDBMC ------------------------------
(* Locality: what is stored stays until it is overwritten or deleted, and   *)
(* an operation on one record never changes another.  Explored in slices    *)
(* (sessions; identities; the rest), since the parts do not interact.       *)
EXTENDS KeyDB
CONSTANTS MaxKeys, Slice, V
VARIABLE touched
Id == {"a", "b"}
S == {"s", "t"}
T(x) == touched' = x
Sessions ==
  \/ \E s \in S \cup {""}, n \in 0..1, m \in 0..1, ck \in 1..V, k \in 1..V :
       /\ (s \in DOMAIN sess => Len(sess[s].send) + n <= MaxKeys)
       /\ \E r \in {"ok", "err"} :
            AddSess(s, k, ck, [i \in 1..n |-> k], [i \in 1..m |-> k + 2], r) /\ T(<<"s", s>>)
  \/ \E s \in S, d \in BOOLEAN, i \in 0..MaxKeys, r \in {"ok", "err"} : DelMK(s, d, i, r) /\ T(<<"s", s>>)
Identities ==
  \/ \E i \in Id, n \in 0..1 : AddPUID(i, n) /\ T(<<"p", i>>)
  \/ \E i \in Id, n \in 0..1, r \in 1..2 : AddReply(i, n, r) /\ T(<<"p", i>>)
  \/ \E i \in Id, n \in 0..1 : DelPUID(i, n) /\ T(<<"p", i>>)
  \/ \E i \in Id, n \in 0..1, pos \in 0..1 : AddOUID(i, n, pos) /\ T(<<"o", i>>)
Rest ==
  \/ \E k \in {"x", "y"}, v \in 1..V : SetVal(k, v) /\ T(<<"v", k>>)
  \/ \E k \in {"x", "y"}, v \in 1..V : SetState(k, v) /\ T(<<"st", k>>)
  \/ \E h \in {"x", "y"}, v \in 1..V : AddSK(h, v) /\ T(<<"sk", h>>)
  \/ \E h \in {"x", "y"} : DelSK(h) /\ T(<<"sk", h>>)
  \/ \E d \in {"x", "y"}, p \in 0..1, e \in 1..V : AddHC(d, p, e) /\ T(<<"hc", d>>)
  \/ \E d \in {"x", "y"} : DelHC(d) /\ T(<<"hc", d>>)
Next == CASE Slice = 1 -> Sessions [] Slice = 2 -> Identities [] OTHER -> Rest
Spec == Init /\ touched = <<"", "">> /\ [][Next]_<<vars, touched>>

KeyCount == \A s \in DOMAIN sess : Len(sess[s].send) = Len(sess[s].recv)
(* a used key never comes back, a key never changes, the root never changes *)
Append1(s) == LET a == sess[s] b == sess'[s] IN
  /\ b.root = a.root
  /\ Len(b.send) >= Len(a.send)
  /\ \A i \in 1..Len(a.send) : /\ b.send[i] \in {a.send[i], None}
                               /\ b.recv[i] \in {a.recv[i], None}
Monotone == [][\A s \in DOMAIN sess : s \in DOMAIN sess' /\ Append1(s)]_<<vars, touched>>
Local == [][/\ \A s \in DOMAIN sess : <<"s", s>> = touched' \/ sess'[s] = sess[s]
            /\ \A x \in DOMAIN puid : <<"p", x[1]>> = touched' \/ (x \in DOMAIN puid' /\ puid'[x] = puid[x])
            /\ \A x \in DOMAIN ouid : x \in DOMAIN ouid' /\ ouid'[x] = ouid[x]
            /\ \A x \in DOMAIN vals : <<"v", x>> = touched' \/ vals'[x] = vals[x]
            /\ \A x \in DOMAIN states : <<"st", x>> = touched' \/ states'[x] = states[x]
            /\ \A x \in DOMAIN skeys : skeys'[x].v = skeys[x].v /\ (skeys'[x].priv => skeys[x].priv)
            /\ \A x \in DOMAIN chain : <<"hc", x[1]>> = touched' \/ (x \in DOMAIN chain' /\ chain'[x] = chain[x])]_<<vars, touched>>
=============================================================================
