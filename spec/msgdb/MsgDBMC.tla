------------------------------ MODULE MsgDBMC ------------------------------
EXTENDS MsgDB
CONSTANTS Slice, MaxMsgs, MaxIn
VARIABLES dropped, arrived, log   \* log: queue entries in the order they were handed out and sent
A == "alice@mute.one"
B == "bob@mute.one"
Rs == {"ok", "err"}
Fresh == IF msgs = <<>> THEN 1 ELSE Max(DOMAIN msgs) + 1
Same == UNCHANGED <<dropped, arrived, log>>
Queues ==
  \/ \E my \in {A, B}, r \in Rs : Fresh <= MaxMsgs
       /\ AddMsg(Fresh, my, IF my = A THEN B ELSE A, 1, TRUE, 1, FALSE, 0, 0, r) /\ Same
  \/ \E my \in {A, B}, r \in Rs : Enqueue(my, IF Oldest(my) = 0 THEN 99 ELSE Oldest(my), 1, 1, 0, 0, r) /\ Same
  \/ \E my \in {A, B} : SetOut(my, 2) /\ Same
  \/ \E my \in {A, B}, r \in Rs : RemOut(my, 2, r) /\ UNCHANGED <<dropped, arrived>>
       /\ log' = IF r = "ok" THEN <<>> ELSE <<>>
  \/ \E my \in {A, B}, r \in Rs : Retract(my, r) /\ Same
  \/ \E my \in {A, B} : Resend(my) /\ Same
  \/ \E my \in {A, B}, r \in Rs : ClearResend(my, r) /\ Same
  \/ \E my \in {A, B}, m \in DOMAIN msgs, r \in Rs : DelMsg(my, m, r) /\ Same
Incoming ==
  \/ \E my \in {A, B}, r \in Rs : arrived < MaxIn /\ AddIn(my, "", 1, arrived + 1, r) /\ arrived' = arrived + 1 /\ UNCHANGED <<dropped, log>>
  \/ SetIn(1) /\ Same
  \/ \E from \in {A, B}, d \in BOOLEAN, r \in Rs : Fresh <= MaxIn
       /\ RemIn(Fresh, 1, from, d, r)
       /\ dropped' = (IF d /\ r = "ok" THEN dropped + 1 ELSE dropped) /\ UNCHANGED <<arrived, log>>
  \/ \E m \in DOMAIN msgs : ReadMsg(m) /\ Same
  \/ \E my \in {A, B}, c \in {"", B}, x \in {"x", "y"}, r \in Rs : Len(cache) < 3 /\ CacheAdd(my, c, x, r) /\ Same
  \/ \E my \in {A, B}, c \in {"", B}, x \in {"x", "y"}, r \in Rs : CacheRem(my, c, x, r) /\ Same
Book ==
  \/ \E s \in {<<A, A>>, <<B, B>>, <<A, B>>}, n \in {"", "N"}, r \in Rs : AddNym(s[1], s[2], n, r) /\ Same
  \/ \E id \in {A, B}, r \in Rs : DelNym(id, r) /\ Same
  \/ \E my \in {A, B}, s \in {<<B, B>>, <<A, B>>}, t \in 1..2, r \in Rs : AddContact(my, s[1], s[2], "", t, r) /\ Same
  \/ \E my \in {A, B}, c \in {A, B}, r \in Rs : RemContact(my, c, r) /\ Same
  \/ \E my \in {A, B}, c \in {"", B}, r \in Rs : AddAccount(my, c, 1, "s", 1, 0, 0, r) /\ Same
  \/ \E my \in {A, B}, c \in {"", B}, w \in {"load"}, r \in Rs : SetAccount(my, c, w, 1, r) /\ Same
  \/ \E my \in {A, B}, r \in Rs : Upkeep(my, "all", 1, r) /\ Same
  \/ \E my \in {A, B}, r \in Rs : Fresh <= MaxMsgs
       /\ AddMsg(Fresh, my, B, 1, TRUE, 1, FALSE, 0, 0, r) /\ Same
Setup == [x \in {A, B} |-> [un |-> x, name |-> "", all |-> 0, acc |-> 0]]
MInit == /\ IF Slice = "book" THEN nyms = <<>> /\ con = <<>>
            ELSE nyms = Setup /\ con = [x \in {<<A, B>>, <<B, A>>} |-> [un |-> x[2], name |-> "", typ |-> 0]]
         /\ acct = <<>> /\ msgs = <<>> /\ outq = <<>> /\ inq = <<>> /\ cache = <<>> /\ vals = <<>>
         /\ dropped = 0 /\ arrived = 0 /\ log = <<>>
MNext == CASE Slice = "out" -> Queues [] Slice = "in" -> Incoming [] OTHER -> Book
MSpec == MInit /\ [][MNext]_<<vars, dropped, arrived, log>>

One(b) == IF b THEN 1 ELSE 0
(* every outgoing message is in exactly one place *)
OnePlace == \A m \in DOMAIN msgs : msgs[m].out =>
  One(msgs[m].toSend) + One(msgs[m].sent) + Cardinality({i \in DOMAIN outq : outq[i].msg = m}) = 1
QueueOwn == \A i \in DOMAIN outq : outq[i].msg \in DOMAIN msgs /\ msgs[outq[i].msg].self = outq[i].my
Belongs == /\ \A m \in DOMAIN msgs : msgs[m].self \in DOMAIN nyms /\ <<msgs[m].self, msgs[m].peer>> \in DOMAIN con
           /\ \A x \in DOMAIN con : x[1] \in DOMAIN nyms
           /\ \A x \in DOMAIN acct : x[1] \in DOMAIN nyms /\ (x[2] = "" \/ x \in DOMAIN con)
           /\ \A i \in DOMAIN inq : inq[i].my \in DOMAIN nyms
Conserved == Slice = "in" => arrived = Len(inq) + dropped + Cardinality(DOMAIN msgs)
(* nothing but sending or deletion takes a message away *)
NotLost == [][\A m \in DOMAIN msgs : m \in DOMAIN msgs' => (msgs[m].sent => msgs'[m].sent)]_<<vars, dropped, arrived, log>>
InOrder == [][Len(inq') >= Len(inq) - 1 /\ (Len(inq') < Len(inq) => inq' = Tail(inq))]_<<vars, dropped, arrived, log>>
Local == [][/\ \A x \in DOMAIN con : x \in DOMAIN con' => (con'[x] = con[x] \/ \A y \in DOMAIN con \ {x} : y \in DOMAIN con' /\ con'[y] = con[y])
            /\ \A x \in Ids : (x \in DOMAIN nyms /\ x \notin DOMAIN nyms') =>
                 /\ \A y \in DOMAIN con : (y[1] = x) = (y \notin DOMAIN con')
                 /\ \A y \in DOMAIN msgs : (msgs[y].self = x) = (y \notin DOMAIN msgs')
                 /\ \A y \in DOMAIN acct : (y[1] = x) = (y \notin DOMAIN acct')]_<<vars, dropped, arrived, log>>
=============================================================================
