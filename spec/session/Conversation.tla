---------------------------- MODULE Conversation ----------------------------
(* What users rely on in encrypted conversations, without any protocol: a   *)
(* message is what one party sent to another; it is accepted from its bytes *)
(* exactly once, as that message; nothing else is ever accepted.            *)
(* Session.tla is the protocol that has to achieve this (SessionMC checks   *)
(* that it does).                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Party, MaxLen, Size

VARIABLES sent,   \* sequence of messages [from, to, sign]; the identifier is the index
          got     \* identifiers accepted so far

vars == <<sent, got>>

Init == sent = <<>> /\ got = {}

(* every content up to MaxLen is encrypted, into exactly Size bytes *)
Send(p, q, sign, len, size, res) ==
  /\ IF len <= MaxLen THEN /\ res = "ok"
                           /\ size = Size
                           /\ sent' = Append(sent, [from |-> p, to |-> q, sign |-> sign])
     ELSE res = "err" /\ size = 0 /\ UNCHANGED sent
  /\ UNCHANGED got

(* The bytes of message id arrive at party p.                               *)
Deliver(p, id, res, sender, same, sig) ==
  LET m == sent[id] IN
  IF p = m.to /\ id \notin got
  THEN /\ res = "ok"
       /\ sender = m.from
       /\ same = TRUE
       /\ sig = IF m.sign THEN "ok" ELSE "none"
       /\ got' = got \cup {id}
       /\ UNCHANGED sent
  ELSE res = "err" /\ UNCHANGED vars

(* Altered bytes, or bytes somebody made up, arrive.                        *)
Bad(res) == res = "err" /\ UNCHANGED vars

Next == \/ \E p, q \in Party, s \in BOOLEAN : p # q /\ Len(sent) < 3 /\ Send(p, q, s, 0, Size, "ok")
        \/ \E id \in DOMAIN sent, p \in Party, r \in {"ok", "err"}, f \in Party, same \in BOOLEAN, g \in {"none", "ok", "bad"} :
             Deliver(p, id, r, f, same, g)
        \/ Bad("err")

Spec == Init /\ [][Next]_vars

(* derived *)
GotWasSent == got \subseteq DOMAIN sent
Forever == [][got \subseteq got']_vars
=============================================================================
