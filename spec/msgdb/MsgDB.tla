------------------------------- MODULE MsgDB -------------------------------
(* The message database: identities, address book, accounts, messages, the *)
(* outgoing and the incoming queue, the message id cache.  Every action is *)
(* one call of the API; its answer is a parameter.  Texts, keys and times  *)
(* are numbers.                                                            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES nyms,   \* identity -> [un, name, all, acc]
          con,    \* <<own identity, partner>> -> [un, name, typ]
          acct,   \* <<own identity, partner or "">> -> account
          msgs,   \* number -> message
          outq,   \* sequence of [my, msg, k, nym, min, max, env, resend]
          inq,    \* sequence of [my, c, date, k, env]
          cache,  \* sequence of <<own identity, partner or "", message id>>
          vals
vars == <<nyms, con, acct, msgs, outq, inq, cache, vals>>

Ids == {"alice@mute.one", "bob@mute.one", "iane@mute.berlin"}
(* the spellings that are used: a (mapped form, spelling) table *)
Spellings == {<<"alice@mute.one", "alice@mute.one">>, <<"alice@mute.one", "Alice@mute.one">>,
              <<"bob@mute.one", "bob@mute.one">>, <<"bob@mute.one", "B0B@MUTE.one">>,
              <<"iane@mute.berlin", "jane@mute.berlin">>, <<"iane@mute.berlin", "Jane@mute.berlin">>}
Mapped(x) == x \in Ids \cup {"nobody@mute.one"}
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Filter(s, T(_)) == SelectSeq(s, T)
DropAt(s, i) == [j \in 1..Len(s) - 1 |-> IF j < i THEN s[j] ELSE s[j + 1]]
First(s, T(_)) == LET I == {i \in DOMAIN s : T(s[i])} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j

Init == /\ nyms = <<>> /\ con = <<>> /\ acct = <<>> /\ msgs = <<>> /\ outq = <<>> /\ inq = <<>> /\ cache = <<>> /\ vals = <<>>

(* Whether the pair of identities is known; the partner may be left out. *)
Known(my) == Mapped(my) /\ my \in DOMAIN nyms
Pair(my, c) == Known(my) /\ (c = "" \/ <<my, c>> \in DOMAIN con)
Partner(my, c) == Known(my) /\ <<my, c>> \in DOMAIN con

(*------------------------------- identities ------------------------------*)
AddNym(id, un, name, r) ==
  /\ r = IF Mapped(id) /\ <<id, un>> \in Spellings THEN "ok" ELSE "err"
  /\ nyms' = IF r = "err" THEN nyms
             ELSE Put(nyms, id, IF id \in DOMAIN nyms THEN [nyms[id] EXCEPT !.un = un, !.name = name]
                                ELSE [un |-> un, name |-> name, all |-> 0, acc |-> 0])
  /\ UNCHANGED <<con, acct, msgs, outq, inq, cache, vals>>
(* takes everything of that identity with it, and nothing else *)
DelNym(id, r) ==
  /\ r = IF Known(id) THEN "ok" ELSE "err"
  /\ IF r = "err" THEN UNCHANGED vars
     ELSE /\ nyms' = Without(nyms, {id})
          /\ con' = Without(con, {x \in DOMAIN con : x[1] = id})
          /\ acct' = Without(acct, {x \in DOMAIN acct : x[1] = id})
          /\ msgs' = Without(msgs, {m \in DOMAIN msgs : msgs[m].self = id})
          /\ outq' = Filter(outq, LAMBDA e : e.my # id)
          /\ inq' = Filter(inq, LAMBDA e : e.my # id)
          /\ cache' = Filter(cache, LAMBDA e : e[1] # id)
          /\ UNCHANGED vals
Upkeep(id, what, t, r) ==
  /\ r = IF Mapped(id) THEN "ok" ELSE "err"
  /\ nyms' = IF id \notin DOMAIN nyms THEN nyms
             ELSE IF what = "all" THEN [nyms EXCEPT ![id].all = t] ELSE [nyms EXCEPT ![id].acc = t]
  /\ UNCHANGED <<con, acct, msgs, outq, inq, cache, vals>>

(*------------------------------ address book -----------------------------*)
AddContact(my, id, un, name, typ, r) ==
  /\ r = IF Known(my) /\ Mapped(id) /\ <<id, un>> \in Spellings THEN "ok" ELSE "err"
  /\ con' = IF r = "ok" THEN Put(con, <<my, id>>, [un |-> un, name |-> name, typ |-> typ]) ELSE con
  /\ UNCHANGED <<nyms, acct, msgs, outq, inq, cache, vals>>
(* a removed contact is one that has not been accepted *)
RemContact(my, id, r) ==
  /\ r = IF Known(my) /\ Mapped(id) THEN "ok" ELSE "err"
  /\ con' = IF <<my, id>> \in DOMAIN con /\ r = "ok" THEN [con EXCEPT ![<<my, id>>].typ = 1] ELSE con
  /\ UNCHANGED <<nyms, acct, msgs, outq, inq, cache, vals>>
GetContact(my, id, r, un, name, typ) ==
  /\ r = IF Known(my) /\ Mapped(id) THEN "ok" ELSE "err"
  /\ IF <<my, id>> \in DOMAIN con /\ r = "ok" THEN [un |-> un, name |-> name, typ |-> typ] = con[<<my, id>>]
     ELSE un = "" /\ name = "" /\ typ = 0
  /\ UNCHANGED vars

(*-------------------------------- accounts -------------------------------*)
AddAccount(my, c, key, server, secret, min, max, r) ==
  /\ r = IF Pair(my, c) /\ <<my, c>> \notin DOMAIN acct THEN "ok" ELSE "err"
  /\ acct' = IF r = "err" THEN acct
             ELSE Put(acct, <<my, c>>, [key |-> key, server |-> server, secret |-> secret, min |-> min, max |-> max,
                                        load |-> 0, last |-> 0])
  /\ UNCHANGED <<nyms, con, msgs, outq, inq, cache, vals>>
SetAccount(my, c, what, t, r) ==
  /\ r = IF Pair(my, c) THEN "ok" ELSE "err"
  /\ acct' = IF r = "err" \/ <<my, c>> \notin DOMAIN acct THEN acct
             ELSE IF what = "load" THEN [acct EXCEPT ![<<my, c>>].load = t] ELSE [acct EXCEPT ![<<my, c>>].last = t]
  /\ UNCHANGED <<nyms, con, msgs, outq, inq, cache, vals>>
GetAccount(my, c, r, a) ==
  /\ r = IF Pair(my, c) /\ <<my, c>> \in DOMAIN acct THEN "ok" ELSE "err"
  /\ r = "ok" => a = acct[<<my, c>>]
  /\ UNCHANGED vars

(*-------------------------------- messages -------------------------------*)
NewNumber(m) == m > 0 /\ \A x \in DOMAIN msgs : x < m
Msg(my, c, out, date, k, sign, min, max) ==
  [self |-> my, peer |-> c, out |-> out, toSend |-> out, sent |-> FALSE, date |-> date, k |-> k, sign |-> sign,
   min |-> min, max |-> max, read |-> FALSE]
AddMsg(m, my, c, date, out, k, sign, min, max, r) ==
  /\ r = IF Partner(my, c) /\ Mapped(c) THEN "ok" ELSE "err"
  /\ IF r = "err" THEN UNCHANGED msgs
     ELSE NewNumber(m) /\ msgs' = Put(msgs, m, Msg(my, c, out, date, k, sign, min, max))
  /\ UNCHANGED <<nyms, con, acct, outq, inq, cache, vals>>
Show(un, name) == IF name = "" THEN un ELSE name \o " <" \o un \o ">"
GetMsg(my, m, r, from, to, k, date) ==
  /\ r = IF Mapped(my) /\ m \in DOMAIN msgs /\ msgs[m].self = my THEN "ok" ELSE "err"
  /\ r = "ok" => LET x == msgs[m]
                     me == Show(nyms[my].un, nyms[my].name)
                     it == Show(con[<<my, x.peer>>].un, con[<<my, x.peer>>].name)
                 IN from = (IF x.out THEN me ELSE it) /\ to = (IF x.out THEN it ELSE me) /\ k = x.k /\ date = x.date
  /\ UNCHANGED vars
ReadMsg(m) ==
  /\ msgs' = IF m \in DOMAIN msgs THEN [msgs EXCEPT ![m].read = TRUE] ELSE msgs
  /\ UNCHANGED <<nyms, con, acct, outq, inq, cache, vals>>
DelMsg(my, m, r) ==
  /\ r = IF Known(my) /\ m \in DOMAIN msgs /\ msgs[m].self = my THEN "ok" ELSE "err"
  /\ IF r = "err" THEN UNCHANGED <<msgs, outq>>
     ELSE msgs' = Without(msgs, {m}) /\ outq' = Filter(outq, LAMBDA e : e.msg # m)
  /\ UNCHANGED <<nyms, con, acct, inq, cache, vals>>

(*----------------------------- outgoing queue ----------------------------*)
ToSend(my) == {m \in DOMAIN msgs : msgs[m].self = my /\ msgs[m].toSend}
Oldest(my) == LET S == ToSend(my) IN IF S = {} THEN 0 ELSE CHOOSE m \in S : \A x \in S : m <= x
OutFirst(my) == First(outq, LAMBDA e : e.my = my /\ ~e.resend)
(* the oldest unsent message is encrypted and queued *)
Enqueue(my, m, k, nym, min, max, r) ==
  /\ r = IF Known(my) /\ m \in DOMAIN msgs THEN "ok" ELSE "err"
  /\ r = "ok" => m = Oldest(my)
  /\ IF r = "err" THEN UNCHANGED <<msgs, outq>>
     ELSE /\ msgs' = [msgs EXCEPT ![m].toSend = FALSE]
          /\ outq' = Append(outq, [my |-> my, msg |-> m, k |-> k, nym |-> nym, min |-> min, max |-> max,
                                   env |-> FALSE, resend |-> FALSE])
  /\ UNCHANGED <<nyms, con, acct, inq, cache, vals>>
(* the following operate on the entry handed out for my; there is none if  *)
(* the index of something that is not in the queue is given                *)
SetOut(my, k) ==
  /\ outq' = IF OutFirst(my) = 0 THEN outq ELSE [outq EXCEPT ![OutFirst(my)].k = k, ![OutFirst(my)].env = TRUE]
  /\ UNCHANGED <<nyms, con, acct, msgs, inq, cache, vals>>
RemOut(my, date, r) ==
  /\ r = IF OutFirst(my) = 0 THEN "err" ELSE "ok"
  /\ IF r = "err" THEN UNCHANGED <<msgs, outq>>
     ELSE /\ msgs' = [msgs EXCEPT ![outq[OutFirst(my)].msg].date = date, ![outq[OutFirst(my)].msg].sent = TRUE]
          /\ outq' = DropAt(outq, OutFirst(my))
  /\ UNCHANGED <<nyms, con, acct, inq, cache, vals>>
Retract(my, r) ==
  /\ r = IF OutFirst(my) = 0 THEN "err" ELSE "ok"
  /\ IF r = "err" THEN UNCHANGED <<msgs, outq>>
     ELSE /\ msgs' = [msgs EXCEPT ![outq[OutFirst(my)].msg].toSend = TRUE]
          /\ outq' = DropAt(outq, OutFirst(my))
  /\ UNCHANGED <<nyms, con, acct, inq, cache, vals>>
Resend(my) ==
  /\ outq' = IF OutFirst(my) = 0 THEN outq ELSE [outq EXCEPT ![OutFirst(my)].resend = TRUE]
  /\ UNCHANGED <<nyms, con, acct, msgs, inq, cache, vals>>
ClearResend(my, r) ==
  /\ r = IF Known(my) THEN "ok" ELSE "err"
  /\ outq' = IF r = "err" THEN outq
             ELSE [i \in DOMAIN outq |-> IF outq[i].my = my THEN [outq[i] EXCEPT !.resend = FALSE] ELSE outq[i]]
  /\ UNCHANGED <<nyms, con, acct, msgs, inq, cache, vals>>

(*----------------------------- incoming queue ----------------------------*)
AddIn(my, c, date, k, r) ==
  /\ r = IF Pair(my, c) THEN "ok" ELSE "err"
  /\ inq' = IF r = "err" THEN inq ELSE Append(inq, [my |-> my, c |-> c, date |-> date, k |-> k, env |-> TRUE])
  /\ UNCHANGED <<nyms, con, acct, msgs, outq, cache, vals>>
SetIn(k) ==
  /\ inq' = IF inq = <<>> THEN inq ELSE [inq EXCEPT ![1].k = k, ![1].env = FALSE]
  /\ UNCHANGED <<nyms, con, acct, msgs, outq, cache, vals>>
(* the first entry becomes a message from its sender, unless dropped *)
RemIn(m, k, from, drop, r) ==
  /\ r = IF inq # <<>> /\ Mapped(from) /\ <<inq[1].my, from>> \in DOMAIN con THEN "ok" ELSE "err"
  /\ IF r = "err" THEN UNCHANGED <<msgs, inq>>
     ELSE /\ inq' = Tail(inq)
          /\ IF drop THEN UNCHANGED msgs
             ELSE NewNumber(m) /\ msgs' = Put(msgs, m, Msg(inq[1].my, from, FALSE, inq[1].date, k, FALSE, 0, 0))
  /\ UNCHANGED <<nyms, con, acct, outq, cache, vals>>
DelIn ==
  /\ inq' = IF inq = <<>> THEN inq ELSE Tail(inq)
  /\ UNCHANGED <<nyms, con, acct, msgs, outq, cache, vals>>

(*---------------------------- message id cache ---------------------------*)
Of(my, c) == {i \in DOMAIN cache : cache[i][1] = my /\ cache[i][2] = c}
CacheAdd(my, c, x, r) ==
  /\ r = IF Pair(my, c) /\ x # "" THEN "ok" ELSE "err"
  /\ cache' = IF r = "ok" THEN Append(cache, <<my, c, x>>) ELSE cache
  /\ UNCHANGED <<nyms, con, acct, msgs, outq, inq, vals>>
CacheGet(my, c, r, X) ==
  /\ r = IF Pair(my, c) THEN "ok" ELSE "err"
  /\ r = "ok" => X = {cache[i][3] : i \in Of(my, c)}
  /\ UNCHANGED vars
(* forgets what is older than x *)
CacheRem(my, c, x, r) ==
  LET at == {i \in Of(my, c) : cache[i][3] = x}
  IN /\ r = IF Pair(my, c) /\ x # "" /\ at # {} THEN "ok" ELSE "err"
     /\ IF r = "err" THEN UNCHANGED cache
        ELSE \E p \in at : cache' = LET keep == {i \in DOMAIN cache : ~(i \in Of(my, c) /\ i < p)}
                                    IN Filter([i \in DOMAIN cache |-> IF i \in keep THEN cache[i] ELSE <<>>], LAMBDA e : e # <<>>)
     /\ UNCHANGED <<nyms, con, acct, msgs, outq, inq, vals>>

(*--------------------------------- values --------------------------------*)
SetVal(k, v, r) ==
  /\ r = IF k # "" /\ v # "" THEN "ok" ELSE "err"
  /\ vals' = IF r = "ok" THEN Put(vals, k, v) ELSE vals
  /\ UNCHANGED <<nyms, con, acct, msgs, outq, inq, cache>>
GetVal(k, r, v) ==
  /\ r = IF k # "" THEN "ok" ELSE "err"
  /\ v = IF k \in DOMAIN vals THEN vals[k] ELSE ""
  /\ UNCHANGED vars
Still == UNCHANGED vars

(*------------------- what a user sees of the database --------------------*)
Names(my, typ) == {Show(con[x].un, con[x].name) : x \in {y \in DOMAIN con : y[1] = my /\ con[y].typ = typ}}
ListCount(my, typ) == Cardinality({y \in DOMAIN con : y[1] = my /\ con[y].typ = typ})
Accounts(my) == {x[2] : x \in {y \in DOMAIN acct : y[1] = my}}
Subject(k) == IF k = 1 THEN 0 ELSE k   \* texts 0 and 1 have an empty subject
Shown(m) == LET x == msgs[m] IN
  [id |-> m, from |-> IF x.out THEN x.self ELSE x.peer, to |-> IF x.out THEN x.peer ELSE x.self, inc |-> ~x.out,
   sent |-> x.sent, date |-> x.date, k |-> Subject(x.k), read |-> x.read]
Listing(my) == {Shown(m) : m \in {x \in DOMAIN msgs : msgs[x].self = my}}
Next2Send(my) == LET m == Oldest(my) IN
  IF m = 0 THEN [id |-> 0, c |-> "", k |-> 0, sign |-> FALSE, min |-> 0, max |-> 0]
  ELSE [id |-> m, c |-> msgs[m].peer, k |-> msgs[m].k, sign |-> msgs[m].sign, min |-> msgs[m].min, max |-> msgs[m].max]
OutHead(my) == LET i == OutFirst(my) IN
  IF i = 0 THEN [k |-> 0, nym |-> 0, min |-> 0, max |-> 0, env |-> FALSE]
  ELSE [k |-> outq[i].k, nym |-> outq[i].nym, min |-> outq[i].min, max |-> outq[i].max, env |-> outq[i].env]
InHead == IF inq = <<>> THEN [my |-> "", c |-> "", k |-> 0, env |-> FALSE]
          ELSE [my |-> inq[1].my, c |-> inq[1].c, k |-> inq[1].k, env |-> inq[1].env]
=============================================================================
