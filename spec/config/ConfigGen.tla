----------------------------- MODULE ConfigGen -----------------------------
(* Histories of a client and its configuration servers.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Depth
VARIABLE hist
R(S) == RandomElement(S)
W(s) == s[RandomElement(1..Len(s))]

Good(x) == <<"none", "none", "none", "none", "none", "same">>
Alts(x) == <<"value", "keyname", "drop", "dropall", "null", "add", "shift", "shift2", "merge", "merge8", "mergelong", "mergelong", "swap", "hash",
  "nohash", "date", "date", "sigbit", "sigcut", "siglong", "signone", "other", "imageonly", "garbage", "trunc", "cutoff",
  "byte", "byte", "silent", "weak">>
CAlts(x) == <<"none", "none", "none", "none", "silent", "evil", "garbage", "empty", "notcert", "append", "append", "prepend", "bit", "trunc", "cutoff">>

Pub(x) == \E s \in {R(1..3)} : \E a \in {IF R(1..5) <= 3 THEN W(Good(x)) ELSE W(Alts(x))} :
          \E d \in {W(<<0, 0, 0, 1, -1, -100, 100, -14399, -14400, -14401, 14400, 14401, -5000, 5000, -82000>>)} :
          \E h \in {W(<<0, 0, 1, 1, 1, 2, 2, 3, 8, 9>>)} : \E k \in {W(<<"trusted", "trusted", "trusted", "trusted", "trusted", "trusted", "other">>)} :
          \E v \in {R(0..999)} :
  hist' = Append(hist, [op |-> "Publish", s |-> s, alt |-> a, d |-> d, hash |-> h, key |-> k, v |-> v])
CertOp(x) == \E s \in {R(1..3)} : \E c \in {R(1..3)} : \E a \in {W(CAlts(x))} : \E v \in {R(0..199)} :
  hist' = Append(hist, [op |-> "Cert", s |-> s, c |-> c, alt |-> a, v |-> v])
Adv(x) == \E d \in {W(<<1, 1, 100, 5000, 14400, 14401, 30000>>)} : hist' = Append(hist, [op |-> "Advance", d |-> d])
NewOp(x) == \E p \in {W(<< <<10, 10, 20>>, <<10, 10, 20>>, <<10, 20, 30>>, <<30, 20, 10>>, <<-1, -1, 5>>, <<0, 0, 0>>, <<20, 10, 10>>, <<-1, -1, -1>>, <<10, -1, 9>> >>)} :
            \E k \in {W(<<32, 32, 32, 32, 32, 32, 0, 16, 31>>)} :
  hist' = Append(hist, [op |-> "New", prios |-> p, klen |-> k])
Simple(o) == hist' = Append(hist, [op |-> o])

GInit == hist = <<>>
GNext == Len(hist) < Depth /\ \E z \in {R(1..20)} :
  \/ z <= 6 /\ Pub(z)
  \/ z \in 7..9 /\ CertOp(z)
  \/ z = 10 /\ Adv(z)
  \/ z = 11 /\ NewOp(z)
  \/ z = 12 /\ Simple("Restart")
  \/ z >= 13 /\ Simple("Update")
GSpec == GInit /\ [][GNext]_hist
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
