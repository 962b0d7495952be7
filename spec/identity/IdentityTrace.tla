---------------------------- MODULE IdentityTrace ----------------------------
EXTENDS Identity, TraceLib
VARIABLE x
TInit == l = 1 /\ x = 0
Right(e) ==
  LET m == MapId(e.in) IN
  /\ e.res = m.res /\ e.out = m.out
  /\ e.mapped = Canonical(e.in)
  /\ e.plus = m.res /\ e.plusout = m.out
  /\ e.res = "ok" => e.dom = Lower(Domain(e.in))
  /\ e.split = (IF Cardinality(Ats(e.in)) = 1 THEN "ok" ELSE "err")
  /\ e.split = "ok" => LET p == CHOOSE i \in 1..Len(e.in) : e.in[i] = At2 IN
        LET lm == MapLocal(SubSeq(e.in, 1, p - 1)) IN
        /\ e.lp = SubSeq(e.in, 1, p - 1) /\ e.sdom = SubSeq(e.in, p + 1, Len(e.in))
        /\ e.lres = lm.res /\ e.lout = lm.out
(* every code point at the start, in the middle and at the end of a localpart *)
Accepted == {<<c, Alike(Low(c))>> : c \in {c \in 0..127 \cup DOMAIN LowTable : Legal(Low(c))}}
Swept(e) == {<<p[1], p[2]>> : p \in SeqSet(e.acc)} =
  CASE e.where = "mid" -> Accepted
    [] OTHER -> {p \in Accepted : ~Sep(p[1])}
(* mapping all pairs and triples of a set of characters *)
TNext ==
  \/ AtReset /\ UNCHANGED x
  \/ At("Map") /\ UNCHANGED x /\ Right(E)
  \/ At("All") /\ UNCHANGED x /\ \A i \in 1..Len(E.cases) :
        LET c == E.cases[i]  m == MapLocal(c.in) IN c.res = m.res /\ c.out = m.out
  \/ At("Sweep") /\ UNCHANGED x /\ Swept(E)
TSpec == TInit /\ [][TNext]_<<x, l>>
=============================================================================
