----------------------------- MODULE MixAddrGen ------------------------------
(* Histories of keys, statements, what is done to statements, and lists.    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLES hist, t
gvars == <<hist, t>>
R(S) == RandomElement(S)
W(s) == s[RandomElement(1..Len(s))]
P(n) == IF R(1..3) < 3 THEN 0 ELSE R(0..19)
Forms(x) == W(<<"expire", "expireneg", "expirehigh", "address", "pubkey", "token", "tokennone", "drop", "dropall", "add", "addempty", "twice",
  "swapkeys", "shift1", "shift2", "shift3", "merge", "slide", "split", "sig", "siglong", "sigcut", "pub", "publong", "pubother", "resign", "weak">>)
One(x) == [exp |-> t + W(<<2000, 1000, 1000, 500, 100, 1, 0, -1>>), alen |-> W(<<0, 5, 10, 40, 100, 200>>), tok |-> R(1..4) > 1]
E1(o) == hist' = Append(hist, o) /\ UNCHANGED t
M(x) == R(1..2)
L(x) == R(1..2)
Add(x) == E1([op |-> "AddKey", m |-> M(x)])
Conc(x) == E1([op |-> "Conc", m |-> M(x)])
Exp(x) == E1([op |-> "Expire", m |-> M(x)])
Look(x) == E1([op |-> "Lookup", m |-> M(x), k |-> R(0..20), flip |-> R(1..8) = 1, v |-> R(0..255)])
(* every recent key, at every mix *)
Looks(x) == hist' = hist \o [i \in 1..12 |-> [op |-> "Lookup", m |-> (i % 2) + 1, k |-> (i + 1) \div 2, flip |-> FALSE, v |-> 0]] /\ UNCHANGED t
Stm(x) == E1([op |-> "Statement", m |-> M(x)])
Bnd(x) == E1([op |-> "Boundary", m |-> M(x)])
Sav(x) == E1([op |-> "Save", m |-> M(x)])
Loa(x) == E1([op |-> "Load", b |-> P(0), restart |-> R(BOOLEAN)])
Bad(x) == E1([op |-> "LoadBad", b |-> P(0), v |-> R(0..9999)])
Cra(x) == E1([op |-> "Crash", m |-> M(x)])
Mak(x) == \E n \in {R(0..4)} : E1([op |-> "Make", m |-> M(x), addrs |-> [i \in 1..n |-> One(i)]])
Alt(x) == hist' = hist \o <<[op |-> "AlterStmt", s |-> P(0), f |-> Forms(x), v |-> R(0..99999)], [op |-> "Verify", s |-> 0]>> /\ UNCHANGED t
Ver(x) == E1([op |-> "Verify", s |-> R(0..19)])
AdS(x) == E1([op |-> "AddStatement", s |-> P(0), l |-> L(x)])
LEx(x) == E1([op |-> "ListExpire", l |-> L(x), t |-> W(<<0, 0, t, t + 100, t + 500, t + 1000, 1>>)])
LSv(x) == E1([op |-> "ListSave", l |-> L(x)])
Rnd(x) == E1([op |-> "Rand", l |-> L(x)])
Adv(x) == \E d \in {W(<<1, 1, 100, 500, 500, 999, 1000, 1001>>)} : hist' = Append(hist, [op |-> "Advance", d |-> d]) /\ t' = t + d

GInit == hist = <<>> /\ t = 0
GNext == Len(hist) < Depth /\ \E z \in {R(1..52)} :
  \/ z <= 6 /\ Add(z)
  \/ z = 7 /\ Conc(z)
  \/ z = 8 /\ Exp(z)
  \/ z \in 9..11 /\ Look(z)
  \/ z \in 12..14 /\ Looks(z)
  \/ z \in 15..18 /\ Stm(z)
  \/ z \in 19..20 /\ Bnd(z)
  \/ z \in 21..22 /\ Sav(z)
  \/ z = 23 /\ Loa(z)
  \/ z = 24 /\ Bad(z)
  \/ z = 25 /\ Cra(z)
  \/ z \in 26..29 /\ Mak(z)
  \/ z \in 30..36 /\ Alt(z)
  \/ z = 37 /\ Ver(z)
  \/ z \in 38..42 /\ AdS(z)
  \/ z \in 43..44 /\ LEx(z)
  \/ z = 45 /\ LSv(z)
  \/ z \in 46..47 /\ Rnd(z)
  \/ z \in 48..52 /\ Adv(z)
GSpec == GInit /\ [][GNext]_gvars
Emit == Len(hist) >= Depth => PrintT(ToJson(hist))
=============================================================================
