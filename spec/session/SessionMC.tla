----------------------------- MODULE SessionMC -----------------------------
EXTENDS Session
MCRank == [p \in Party |-> IF p = "a" THEN 1 ELSE IF p = "b" THEN 2 ELSE 3]

(* The protocol does what Conversation asks for: for every message and every *)
(* party the outcome of an arrival is the one Conversation prescribes.        *)
Sent(id) == CHOOSE m \in net : m.id = id
AbsSent == [i \in 1..Cardinality(net) |-> [from |-> Sent(i).from, to |-> Sent(i).to, sign |-> FALSE]]
Conv == INSTANCE Conversation WITH sent <- AbsSent, got <- got, MaxLen <- 0, Size <- 1
Refines == Conv!Init /\ [][\/ \E p, q \in Party : Conv!Send(p, q, FALSE, 0, 1, "ok")
                           \/ \E id \in DOMAIN AbsSent : \E r \in {"ok", "err"} :
                                Conv!Deliver(AbsSent[id].to, id, r, AbsSent[id].from, TRUE, "none")]_Conv!vars
=============================================================================
