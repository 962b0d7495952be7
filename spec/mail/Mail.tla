-------------------------------- MODULE Mail --------------------------------
(* Sending and receiving messages, and the contacts they are exchanged with: *)
(* one run of mutectrl at a time works on its database step by step, calls   *)
(* other programs and servers, which may fail, and may be killed at any      *)
(* point. Numbers stand for what the driver keeps in order: messages of the  *)
(* user (m), encrypted messages (b), envelopes (e), messages in mailboxes    *)
(* (c), tokens (t).                                                          *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Nyms, People   \* Nyms \subseteq People, numbers

None == [t |-> "none", n |-> 0, sp |-> 0]

Entry(t, n) == [t |-> t, n |-> n, sp |-> 0]

Idle == [pc |-> "idle", nyms |-> <<>>, k |-> 0, keys |-> FALSE, fd |-> FALSE, b |-> 0, e |-> 0, t |-> 0,
         lst |-> <<>>, got |-> <<>>, top |-> 0, peer |-> 0, own |-> 0, name |-> 0, tries |-> 0, res |-> "none"]

Empty == [msgs  |-> <<>>,                       \* [nym, peer, ok]
          todo  |-> [n \in Nyms |-> <<>>],      \* m
          queue |-> [n \in Nyms |-> <<>>],      \* [b, e, again]
          sent  |-> [n \in Nyms |-> {}],        \* m
          gone  |-> {},                         \* m deleted after it was sent
          blobs |-> <<>>,                       \* [m, peer]
          envs  |-> <<>>,                       \* [b, t]
          free  |-> {}, locked |-> {}, spent |-> {}, ntok |-> 0, other |-> 0,
          inc   |-> <<>>,                       \* [nym, from, kind, t]
          inq   |-> <<>>,                       \* [c, env]
          cache |-> [n \in Nyms |-> {}],
          last  |-> [n \in Nyms |-> 0],
          filed |-> {},                         \* [nym, from, c, read]
          tossed |-> {},                        \* c which were taken out without being filed
          con   |-> [n \in Nyms |-> [p \in People |-> None]],
          taken |-> {},                         \* e the mix accepted
          r     |-> Idle]

First == [Empty EXCEPT !.con = [n \in Nyms |-> [p \in People |->
             CASE n = 1 /\ p = 2 -> Entry("white", 0)
               [] n = 1 /\ p = 3 -> Entry("white", 1)
               [] n = 2 /\ p = 3 -> Entry("black", 0)
               [] OTHER -> None]]]

Min(S) == CHOOSE a \in S : \A b \in S : a <= b
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)

To(x, pc) == [x EXCEPT !.r.pc = pc]
End(x, res) == [x EXCEPT !.r.pc = "end", !.r.res = res]
Nym(x) == Head(x.r.nyms)

\* the entry of the out queue to be processed next: 0 if there is none
Fresh(q) == {i \in 1..Len(q) : ~q[i].again}
Next1(q) == IF Fresh(q) = {} THEN 0 ELSE Min(Fresh(q))

\* s without its i-th element
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

\* the numbers of s and m, in order
InOrder(s, m) ==
  LET i == Cardinality({j \in 1..Len(s) : s[j] < m})
  IN SubSeq(s, 1, i) \o <<m>> \o SubSeq(s, i + 1, Len(s))

\* the mailbox of n from time t on, the newest message first
Mailbox(x, n, t) ==
  LET S == {c \in 1..Len(x.inc) : x.inc[c].nym = n /\ x.inc[c].t >= t}
      k == Cardinality(S)
  IN [i \in 1..k |-> CHOOSE c \in S : Cardinality({d \in S : d > c}) = i - 1]

-----------------------------------------------------------------------------
(* What a run does by itself: the possible next states *)

OutStep(x) ==
  LET n == Nym(x)
      q == x.queue[n]
      i == Next1(q)
  IN IF i = 0
     THEN IF x.r.k = 1 THEN To(x, "add") ELSE [x EXCEPT !.r.pc = "nym", !.r.nyms = Tail(@)]
     ELSE IF q[i].e = 0
          THEN IF x.free = {} THEN End(x, "err")
               ELSE LET t == Min(x.free)
                    IN [x EXCEPT !.r.pc = "create", !.r.b = q[i].b, !.r.t = t, !.free = @ \ {t}, !.locked = @ \cup {t}]
          ELSE IF x.r.fd THEN End(x, "err") ELSE [x EXCEPT !.r.pc = "deliver", !.r.b = q[i].b, !.r.e = q[i].e]

InStep(x) ==
  IF x.inq = <<>>
  THEN IF x.r.k = 1 THEN To(x, "acct") ELSE End(x, "ok")
  ELSE LET h == Head(x.inq)
           kind == x.inc[h.c].kind
       IN IF ~h.env THEN To(x, "dec")
          ELSE CASE kind = "good"  -> [x EXCEPT !.inq[1].env = FALSE]
                 [] kind = "wrong" -> [x EXCEPT !.inq = Tail(@), !.tossed = @ \cup {h.c}]
                 [] OTHER          -> End(x, "err")

Succ(x) ==
  LET r == x.r
  IN CASE r.pc = "nym" ->
            {IF r.nyms = <<>> THEN End(x, "ok")
             ELSE LET q == x.queue[Nym(x)] IN
                  [x EXCEPT !.queue[Nym(x)] = [i \in 1..Len(q) |-> [q[i] EXCEPT !.again = FALSE]],
                            !.r.pc = "out", !.r.k = 1, !.r.keys = FALSE]}
       [] r.pc = "out" -> {OutStep(x)}
       [] r.pc = "uncreate" -> {[End(x, "err") EXCEPT !.locked = @ \ {r.t}, !.free = @ \cup {r.t}]}
       [] r.pc = "created" -> {[x EXCEPT !.queue[Nym(x)][Next1(x.queue[Nym(x)])].e = r.e, !.r.pc = "deltok"]}
       [] r.pc = "deltok" -> {LET y == [x EXCEPT !.locked = @ \ {r.t}, !.spent = @ \cup {r.t}]
                              IN IF r.fd THEN End(y, "err") ELSE To(y, "deliver")}
       [] r.pc = "remove" -> {[x EXCEPT !.queue[Nym(x)] = Without(@, Next1(@)), !.sent[Nym(x)] = @ \cup {x.blobs[r.b].m}, !.r.pc = "out"]}
       [] r.pc = "again" -> {[x EXCEPT !.queue[Nym(x)][Next1(x.queue[Nym(x)])].again = TRUE, !.r.pc = "out"]}
       [] r.pc = "retract" -> {[x EXCEPT !.queue[Nym(x)] = Without(@, Next1(@)), !.todo[Nym(x)] = InOrder(@, x.blobs[r.b].m), !.r.pc = "out"]}
       [] r.pc = "add" -> {IF x.todo[Nym(x)] = <<>> THEN [x EXCEPT !.r.pc = "out", !.r.k = 2]
                           ELSE To(x, IF r.keys THEN "enc" ELSE "keys")}
       [] r.pc = "encd" -> {[x EXCEPT !.todo[Nym(x)] = Tail(@), !.queue[Nym(x)] = Append(@, [b |-> r.b, e |-> 0, again |-> FALSE]), !.r.pc = "add"]}
       [] r.pc = "in" -> {InStep(x)}
       [] r.pc = "drop" -> {[x EXCEPT !.tossed = @ \cup {Head(x.inq).c}, !.inq = Tail(@), !.r.pc = "in"]}
       [] r.pc = "decd" -> {LET c == Head(x.inq).c
                                t == x.con[x.inc[c].nym][x.inc[c].from].t
                            IN CASE t = "none" -> [x EXCEPT !.r.pc = "learn", !.r.own = x.inc[c].nym, !.r.peer = x.inc[c].from]
                                 [] t = "black" -> To(x, "drop")
                                 [] OTHER -> To(x, "file")}
       [] r.pc = "addgray" -> {[x EXCEPT !.con[r.own][r.peer] = Entry("gray", 0), !.r.pc = "file"]}
       [] r.pc = "file" -> {LET c == Head(x.inq).c
                            IN [x EXCEPT !.filed = @ \cup {[nym |-> x.inc[c].nym, from |-> x.inc[c].from, c |-> c, read |-> FALSE]},
                                         !.inq = Tail(@), !.r.pc = "in"]}
       [] r.pc = "acct" -> {IF r.nyms = <<>> THEN [x EXCEPT !.r.pc = "in", !.r.k = 2] ELSE To(x, "list")}
       [] r.pc = "gets" -> {To(x, IF r.lst = <<>> THEN "store" ELSE "get")}
       [] r.pc = "quit" -> {[x EXCEPT !.cache[Nym(x)] = {c \in @ : c >= Head(r.lst)}, !.r.pc = "store"]}
       [] r.pc = "store" ->
            {IF r.got = <<>>
             THEN LET y == [x EXCEPT !.r.pc = "acct", !.r.nyms = Tail(@), !.r.top = 0]
                  IN IF r.top = 0 THEN y ELSE [y EXCEPT !.last[Nym(x)] = x.inc[r.top].t]
             ELSE LET c == Last(r.got)
                  IN [x EXCEPT !.inq = Append(@, [c |-> c, env |-> TRUE]), !.cache[Nym(x)] = @ \cup {c}, !.r.got = Front(@)]}
       [] r.pc = "addwhite" -> {[End(x, "ok") EXCEPT !.con[r.own][r.peer] = Entry("white", r.name)]}
       [] OTHER -> {}

\* the states a run can get to by itself
RECURSIVE Reach(_, _)
Reach(S, W) == LET N == (UNION {Succ(y) : y \in W}) \ S IN IF N = {} THEN S ELSE Reach(S \cup N, N)
Closure(x) == Reach({x}, {x})

-----------------------------------------------------------------------------
(* Calls: the states in which the run goes on after call e, if it is a call  *)
(* the run makes in state x.                                                 *)

Dead(x) == To(x, "dead")
Killed(x, e) == IF e.res = "killed" THEN {Dead(x)} ELSE {}
Failed(x, e) == IF e.res = "fail" THEN {End(x, "err")} ELSE {}

\* a request turned down because of its counter is repeated, with a greater
\* counter than the one announced, three times
Again(x, e) == IF e.res = "replay" THEN {IF x.r.tries < 3 THEN [x EXCEPT !.r.tries = @ + 1] ELSE End(x, "err")} ELSE {}
Counted(x, e) == x.r.tries > 0 => e.fresh

Ext(x, e) ==
  LET r == x.r
  IN CASE e.op = "Keys" /\ r.pc = "keys" ->
            IF e.res = "ok" THEN {[x EXCEPT !.r.keys = TRUE, !.r.pc = "enc"]} ELSE Failed(x, e) \cup Killed(x, e)
       [] e.op = "Enc" /\ r.pc = "enc" /\ e.nym = Nym(x) /\ e.m = Head(x.todo[Nym(x)]) /\ e.peer = x.msgs[e.m].peer /\ e.addr ->
            IF e.res = "ok"
            THEN IF e.b = Len(x.blobs) + 1
                 THEN {[x EXCEPT !.blobs = Append(@, [m |-> e.m, peer |-> e.peer]), !.r.b = e.b, !.r.pc = "encd"]}
                 ELSE {}
            ELSE Failed(x, e) \cup Killed(x, e)
       [] e.op = "Create" /\ r.pc = "create" /\ e.b = r.b /\ e.t = r.t /\ e.good ->
            CASE e.res = "ok" /\ e.e = Len(x.envs) + 1 ->
                   {[x EXCEPT !.envs = Append(@, [b |-> e.b, t |-> e.t]), !.r.e = e.e, !.r.pc = "created"]}
              [] e.res = "fail" -> {To(x, "uncreate")}
              [] OTHER -> Killed(x, e)
       [] e.op = "Deliver" /\ r.pc = "deliver" /\ e.e = r.e ->
            LET acc == e.smtp \in {"accepted", "lost"}
                p   == x.blobs[x.envs[e.e].b].peer
                new == acc /\ p \in Nyms /\ e.e \notin x.taken
                y   == [x EXCEPT !.taken = IF acc THEN @ \cup {e.e} ELSE @,
                                 !.inc = IF new THEN Append(@, [nym |-> p, from |-> x.msgs[x.blobs[x.envs[e.e].b].m].nym, kind |-> "good", t |-> e.t]) ELSE @]
            IN IF (IF new THEN e.c = Len(x.inc) + 1 ELSE e.c = 0) = FALSE THEN {}
               ELSE IF e.res = "killed" THEN {Dead(y)}
               ELSE CASE e.out = "ok" /\ e.smtp = "accepted" -> {To(y, "remove")}
                      [] e.out = "resend" /\ e.smtp \in {"lost", "temp", "none"} -> {To(y, "again")}
                      [] e.out = "retract" /\ e.smtp = "final" -> {To(y, "retract")}
                      [] e.out = "fail" /\ e.smtp \in {"perm", "none"} -> {End(y, "err")}
                      [] OTHER -> {}
       [] e.op = "Dec" /\ r.pc = "dec" /\ e.c = Head(x.inq).c ->
            CASE e.res = "ok" -> {To(x, "decd")}
              [] e.res = "nohdr" -> {To(x, "drop")}
              [] OTHER -> Failed(x, e) \cup Killed(x, e)
       [] e.op = "Learn" /\ r.pc \in {"learn", "learn2"} /\ e.ok /\ (e.peer = r.peer \/ (e.peer = 0 /\ e.res # "ok")) ->
            IF e.res = "ok" THEN {To(x, IF r.pc = "learn" THEN "addgray" ELSE "addwhite")} ELSE Failed(x, e) \cup Killed(x, e)
       [] e.op = "List" /\ r.pc = "list" /\ e.nym = Nym(x) /\ e.last = x.last[Nym(x)] /\ Counted(x, e) ->
            IF e.res = "ok"
            THEN LET l == Mailbox(x, Nym(x), x.last[Nym(x)])
                 IN {IF l = <<>> THEN [x EXCEPT !.r.pc = "acct", !.r.nyms = Tail(@), !.r.tries = 0]
                     ELSE [x EXCEPT !.r.pc = "gets", !.r.lst = l, !.r.got = <<>>, !.r.tries = 0]}
            ELSE Failed(x, e) \cup Killed(x, e) \cup Again(x, e)
       [] e.op = "Get" /\ r.pc = "get" /\ e.nym = Nym(x) /\ e.c = Head(r.lst) /\ Counted(x, e) ->
            IF e.res = "ok"
            THEN {IF e.c \in x.cache[Nym(x)] THEN [x EXCEPT !.r.pc = "quit", !.r.tries = 0]
                  ELSE [x EXCEPT !.r.got = Append(@, e.c), !.r.top = IF @ = 0 THEN e.c ELSE @, !.r.lst = Tail(@), !.r.pc = "gets", !.r.tries = 0]}
            ELSE Failed(x, e) \cup Killed(x, e) \cup Again(x, e)
       [] OTHER -> {}

-----------------------------------------------------------------------------
(* What the user does *)

NymSeq(n) == IF n = 0 THEN [i \in 1..Cardinality(Nyms) |-> i] ELSE <<n>>

Start(x, pc) == [x EXCEPT !.r = [Idle EXCEPT !.pc = pc, !.k = 1]]

BeginSend(x, n, fd) == [Start(x, "nym") EXCEPT !.r.nyms = NymSeq(n), !.r.fd = fd]
BeginFetch(x, n) == [Start(x, "in") EXCEPT !.r.nyms = NymSeq(n)]

Known(x, n, p) == x.con[n][p].t # "none"

\* only to contacts which are neither pending nor blocked
Added(x, n, p) ==
  LET k == Len(x.msgs) + 1
      ok == n \in Nyms /\ (IF n \in Nyms THEN x.con[n][p].t = "white" ELSE FALSE)
      y == [x EXCEPT !.msgs = Append(@, [nym |-> n, peer |-> p, ok |-> ok])]
  IN IF ok THEN [End(Start(y, "end"), "ok") EXCEPT !.todo[n] = Append(@, k)] ELSE End(Start(y, "end"), "err")

BeginContact(x, cmd, n, p, sp, name) ==
  LET y == [Start(x, "end") EXCEPT !.r.own = n, !.r.peer = p, !.r.name = name]
      old == x.con[n][p]
      ok(v) == [End(y, "ok") EXCEPT !.con[n][p] = v]
  IN CASE cmd = "add"     -> IF Known(x, n, p) THEN ok([old EXCEPT !.t = "white"]) ELSE To(y, "learn2")
       [] cmd = "edit"    -> IF Known(x, n, p) THEN ok([old EXCEPT !.n = name, !.sp = sp]) ELSE End(y, "err")
       [] cmd = "remove"  -> IF Known(x, n, p) THEN ok([old EXCEPT !.t = "gray"]) ELSE End(y, "ok")
       [] cmd = "block"   -> ok([t |-> "black", n |-> old.n, sp |-> 0])
       [] cmd = "unblock" -> IF old.t = "black" THEN ok([old EXCEPT !.t = "white"]) ELSE End(y, "err")

\* a message arrives at the account server
Arrive(x, n, p, kind, t) == [x EXCEPT !.inc = Append(@, [nym |-> n, from |-> p, kind |-> kind, t |-> t])]

Tokens(x, k, kind) ==
  IF kind = "good" THEN [x EXCEPT !.free = @ \cup ((x.ntok + 1)..(x.ntok + k)), !.ntok = @ + k] ELSE [x EXCEPT !.other = @ + k]

Own(x, n) == {m \in 1..Len(x.msgs) : x.msgs[m].nym = n /\ x.msgs[m].ok} \ x.gone
Mails(x, n) == {f \in x.filed : f.nym = n}

\* message k of n, by direction, is taken as read / deleted
DoRead(x, n, dir, k) ==
  IF dir = "in" THEN [x EXCEPT !.filed = {IF f.nym = n /\ f.c = k THEN [f EXCEPT !.read = TRUE] ELSE f : f \in @}] ELSE x
DoDelete(x, n, dir, k) ==
  IF dir = "in" THEN [x EXCEPT !.filed = {f \in @ : ~(f.nym = n /\ f.c = k)}, !.tossed = @ \cup {k}]
  ELSE [x EXCEPT !.sent[n] = @ \ {k}, !.gone = @ \cup {k}]
=============================================================================
