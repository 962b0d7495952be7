------------------------------- MODULE MailGen -------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, Sends, Recvs, Books   \* weights of sending, receiving, contacts
VARIABLES hist
R(S) == RandomElement(S)
W(s) == s[RandomElement(1..Len(s))]
E1(o) == hist' = Append(hist, o)
EE(s) == hist' = hist \o s
D1(x) == IF R(1..100) <= 14 THEN R(1..16) ELSE 0
PlanOf(k) == [i \in 1..k |-> D1(i)]
Plan(x) == IF R(1..100) <= 40 THEN <<>> ELSE PlanOf(R(1..12))
Outs(x) == IF R(1..100) <= 50 THEN <<>> ELSE [i \in 1..R(1..8) |-> IF R(1..100) <= 40 THEN R(1..16) ELSE 0]
Decs(x) == IF R(1..100) <= 70 THEN <<>> ELSE [i \in 1..R(1..8) |-> IF R(1..100) <= 20 THEN R(1..6) ELSE 0]
\* killed at one of the first writes
Kill(x, m) == IF R(1..100) <= 12 THEN W(<<-1, 1>>) * R(1..m) ELSE 0
Nym(x) == W(<<1, 1, 2>>)
Peer(n) == IF n = 1 THEN W(<<2, 2, 2, 3, 3, 4>>) ELSE W(<<1, 1, 3, 4, 4>>)
Add(x) == \E n \in {IF R(1..25) = 1 THEN 0 ELSE Nym(x)} : \E min \in {W(<<0, 0, 60, 200>>)} : \E p \in {IF n = 0 THEN 2 ELSE Peer(n)} :
  E1([op |-> "Add", nym |-> n, nsp |-> R(0..1), peer |-> p, sp |-> R(0..1), body |-> R(0..6), form |-> W(<<0, 0, 0, 1>>), min |-> min, max |-> min + R(1..50),
      mail |-> R(1..4) = 1, file |-> R(1..3) = 1, crash |-> Kill(x, 1)])
Send(x) == E1([op |-> "Send", nym |-> W(<<0, 1, 1, 2>>), plan |-> Plan(x), outs |-> Outs(x), faildel |-> R(1..12) = 1, crash |-> Kill(x, 9)])
Fetch(x) == E1([op |-> "Fetch", nym |-> W(<<0, 0, 1, 2>>), plan |-> Plan(x), decs |-> Decs(x), crash |-> Kill(x, 9)])
Inc(n, x) == [op |-> "Incoming", nym |-> n, peer |-> Peer(n), form |-> W(<<0, 0, 0, 1, 1, 2>>), same |-> R(1..3) = 1,
  kind |-> W(<<"good", "good", "good", "good", "good", "good", "good", "good", "good", "good", "good", "good", "good", "wrong", "wrong", IF R(1..3) = 1 THEN "junk" ELSE "good">>)]
Incs(x) == \E k \in {R(1..4)} : \E n \in {Nym(x)} : EE([i \in 1..k |-> Inc(n, i)])
Tok(x) == E1([op |-> "Token", n |-> R(1..4), kind |-> W(<<"good", "good", "good", "good", "usage", "owner">>)])
Con(x) == \E n \in {Nym(x)} : E1([op |-> "Contact", cmd |-> W(<<"add", "add", "add", "edit", "remove", "block", "unblock">>), nym |-> n, nsp |-> R(0..1),
  peer |-> Peer(n), sp |-> R(0..1), name |-> R(0..2), plan |-> IF R(1..3) = 1 THEN <<R(1..13)>> ELSE <<>>, crash |-> Kill(x, 2)])
Cons(x) == E1([op |-> "Contacts", nym |-> Nym(x), black |-> R(1..3) = 1])
Show(x) == E1([op |-> "Show", nym |-> Nym(x)])
Read(x) == E1([op |-> W(<<"Read", "Read", "Delete">>), nym |-> Nym(x), k |-> R(0..9), of |-> W(<<"own", "own", "own", "own", "other">>)])
GInit == \E k \in {R(2..6)} : hist = <<[op |-> "Token", n |-> k, kind |-> "good"]>>
GNext == Len(hist) < Depth /\ \E z \in {R(1..(Sends + Recvs + Books))} : \E y \in {R(1..12)} :
  \/ z <= Sends /\ y <= 5 /\ Add(z)
  \/ z <= Sends /\ y \in 6..10 /\ Send(z)
  \/ z <= Sends /\ y \in 11..12 /\ Tok(z)
  \/ z > Sends /\ z <= Sends + Recvs /\ y <= 5 /\ Incs(z)
  \/ z > Sends /\ z <= Sends + Recvs /\ y \in 6..12 /\ Fetch(z)
  \/ z > Sends + Recvs /\ y <= 6 /\ Con(z)
  \/ z > Sends + Recvs /\ y = 7 /\ Cons(z)
  \/ z > Sends + Recvs /\ y = 8 /\ Show(z)
  \/ z > Sends + Recvs /\ y \in 9..12 /\ Read(z)
GSpec == GInit /\ [][GNext]_hist
Emit == Len(hist) >= Depth => PrintT(ToJson(hist))
=============================================================================
