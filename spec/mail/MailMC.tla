-------------------------------- MODULE MailMC --------------------------------
(* All runs of a few sends, fetches and contact commands, with a few faults: *)
(* calls which fail, replies which are lost, runs which are killed.          *)
EXTENDS Mail, TLC
CONSTANTS MaxMsgs, MaxTok, MaxInc, MaxFaults, MaxRuns, Cmds, Start0
VARIABLES x, faults, runs, kills, clean, cmd, unsure   \* unsure: envelopes which were accepted, but the run did not live to note that
mcvars == <<x, faults, runs, kills, clean, cmd, unsure>>

\* the calls the run may make now, with all their outcomes; the second
\* component tells whether the outcome is a fault
Cand ==
  LET r == x.r
      Res3(f) == {<<[f EXCEPT !.res = "ok"], FALSE>>, <<[f EXCEPT !.res = "fail"], TRUE>>, <<[f EXCEPT !.res = "killed"], TRUE>>}
      Res4(f) == Res3(f) \cup {<<[f EXCEPT !.res = "replay"], TRUE>>}
  IN CASE r.pc = "keys" -> Res3([op |-> "Keys", res |-> "ok"])
       [] r.pc = "enc" -> LET m == Head(x.todo[Nym(x)]) IN
            Res3([op |-> "Enc", nym |-> Nym(x), m |-> m, peer |-> x.msgs[m].peer, addr |-> TRUE, b |-> Len(x.blobs) + 1, res |-> "ok"])
       [] r.pc = "create" -> Res3([op |-> "Create", b |-> r.b, t |-> r.t, good |-> TRUE, e |-> Len(x.envs) + 1, res |-> "ok"])
       [] r.pc = "deliver" ->
            LET p == x.blobs[x.envs[r.e].b].peer
                new == p \in Nyms /\ r.e \notin x.taken
                c(smtp) == IF smtp \in {"accepted", "lost"} /\ new THEN Len(x.inc) + 1 ELSE 0
            IN {<<[op |-> "Deliver", e |-> r.e, smtp |-> s, out |-> o, res |-> k, c |-> c(s), t |-> Len(x.inc) + 1],
                  k = "killed" \/ s # "accepted">> :
                  s \in {"accepted", "lost", "temp", "final", "perm", "none"}, o \in {"ok", "resend", "retract", "fail"}, k \in {"ok", "killed"}}
       [] r.pc = "dec" -> LET f == [op |-> "Dec", c |-> Head(x.inq).c, res |-> "ok"] IN Res3(f) \cup {<<[f EXCEPT !.res = "nohdr"], FALSE>>}
       [] r.pc \in {"learn", "learn2"} -> Res3([op |-> "Learn", ok |-> TRUE, peer |-> r.peer, res |-> "ok"])
       [] r.pc = "list" -> Res4([op |-> "List", nym |-> Nym(x), last |-> x.last[Nym(x)], fresh |-> TRUE, res |-> "ok"])
       [] r.pc = "get" -> Res4([op |-> "Get", nym |-> Nym(x), c |-> Head(r.lst), fresh |-> TRUE, res |-> "ok"])
       [] OTHER -> {}

Running == x.r.pc \notin {"idle", "end", "dead"}

MInit == /\ x = Start0 /\ faults = 0 /\ runs = 0 /\ kills = 0 /\ clean = TRUE /\ cmd = "none" /\ unsure = {}

DoStep == \E y \in Succ(x) : x' = y /\ UNCHANGED <<faults, runs, kills, clean, cmd, unsure>>

DoCall == \E p \in Cand : \E y \in Ext(x, p[1]) :
            /\ p[2] => faults < MaxFaults
            /\ x' = y /\ faults' = IF p[2] THEN faults + 1 ELSE faults
            /\ clean' = (clean /\ ~p[2])
            /\ kills' = IF y.r.pc = "dead" THEN kills + 1 ELSE kills
            /\ unsure' = IF p[1].op = "Deliver" /\ y.r.pc # "remove" THEN unsure \cup (x'.taken \ x.taken) ELSE unsure
            /\ UNCHANGED <<runs, cmd>>

\* killed between two writes
DoKill == /\ Running /\ Succ(x) # {} /\ faults < MaxFaults
          /\ x' = Dead(x) /\ faults' = faults + 1 /\ kills' = kills + 1 /\ clean' = FALSE
          /\ unsure' = IF x.r.pc = "remove" THEN unsure \cup {x.r.e} ELSE unsure
          /\ UNCHANGED <<runs, cmd>>

DoEnd == x.r.pc \in {"end", "dead"} /\ x' = [x EXCEPT !.r = Idle] /\ clean' = TRUE /\ cmd' = "none" /\ UNCHANGED <<faults, runs, kills, unsure>>

Begin(c, y) == /\ x.r.pc = "idle" /\ runs < MaxRuns /\ c \in Cmds /\ x' = y /\ runs' = runs + 1 /\ cmd' = c /\ UNCHANGED <<faults, kills, clean, unsure>>

DoSend == \E n \in Nyms \cup {0}, fd \in BOOLEAN : Begin("send", BeginSend(x, n, fd))
DoFetch == \E n \in Nyms \cup {0} : Begin("fetch", BeginFetch(x, n))
DoContact == \E n \in Nyms, p \in People, c \in {"add", "remove", "block", "unblock"} :
               n # p /\ Begin("contact", BeginContact(x, c, n, p, 0, 0))

\* the rest of the world, at any time
Add == x.r.pc = "idle" /\ Len(x.msgs) < MaxMsgs /\ \E n \in Nyms, p \in People :
         n # p /\ x.con[n][p].t = "white" /\ x' = [Added(x, n, p) EXCEPT !.r = Idle]
World == /\ \/ Add
            \/ x.r.pc = "idle" /\ x.ntok < MaxTok /\ x' = Tokens(x, 1, "good")
            \/ Len(x.inc) < MaxInc /\ \E n \in Nyms, p \in People, k \in {"good", "wrong"}, same \in BOOLEAN :
                 LET now == IF x.inc = <<>> THEN 1 ELSE Last(x.inc).t + (IF same THEN 0 ELSE 1)
                 IN n # p /\ x' = Arrive(x, n, p, k, now)
         /\ UNCHANGED <<faults, runs, kills, clean, cmd, unsure>>

Spec == MInit /\ [][DoStep \/ DoCall \/ DoKill \/ DoEnd \/ DoSend \/ DoFetch \/ DoContact \/ World]_mcvars

-----------------------------------------------------------------------------
Ok == {m \in 1..Len(x.msgs) : x.msgs[m].ok}
Todo(m) == {i \in 1..Len(x.todo[x.msgs[m].nym]) : x.todo[x.msgs[m].nym][i] = m}
Queued(m) == {i \in 1..Len(x.queue[x.msgs[m].nym]) : x.blobs[x.queue[x.msgs[m].nym][i].b].m = m}
IsSent(m) == m \in x.sent[x.msgs[m].nym] \cup x.gone
TakenOf(m) == {e \in x.taken : x.blobs[x.envs[e].b].m = m}

\* a message is in exactly one place, and only once
OnePlace == \A m \in Ok : Cardinality(Todo(m)) + Cardinality(Queued(m)) + (IF IsSent(m) THEN 1 ELSE 0) = 1
\* it is sent only if the mix has it, which gets it only once unless the run
\* could not know that it has it
SentIsTaken == \A m \in Ok : IsSent(m) => TakenOf(m) # {}
Once == \A m \in Ok : Cardinality(TakenOf(m) \ unsure) <= 1
\* messages not taken up wait in the order they were written in
Ordered == \A n \in Nyms : \A i, j \in 1..Len(x.todo[n]) : i < j => x.todo[n][i] < x.todo[n][j]
\* a token is free, reserved or spent, and in one envelope at most
TokenParts == /\ x.free \cup x.locked \cup x.spent = 1..x.ntok
              /\ x.free \cap x.locked = {} /\ x.free \cap x.spent = {} /\ x.locked \cap x.spent = {}
TokenOnce == \A d, e \in 1..Len(x.envs) : d # e => x.envs[d].t # x.envs[e].t
TokenUsed == \A e \in 1..Len(x.envs) : x.envs[e].t \notin x.free
\* a token is spent on an envelope only; none stays reserved unless a run was killed
SpentInEnv == \A t \in x.spent : \E e \in 1..Len(x.envs) : x.envs[e].t = t
NoneLocked == x.r.pc \in {"idle", "end"} => Cardinality(x.locked) <= kills
EnvsPaid == \A n \in Nyms : \A i \in 1..Len(x.queue[n]) : x.queue[n][i].e # 0 => x.envs[x.queue[n][i].e].b = x.queue[n][i].b
\* an undisturbed run sends everything it can
Sends == (x.r.pc = "end" /\ cmd = "send" /\ clean) =>
           \/ x.r.res = "ok"
           \/ x.r.res = "err" /\ (x.free = {} \/ x.r.fd)

Stored(n) == {x.inq[i].c : i \in {j \in 1..Len(x.inq) : x.inc[x.inq[j].c].nym = n}}
             \cup {f.c : f \in {g \in x.filed : g.nym = n}} \cup {c \in x.tossed : x.inc[c].nym = n}
\* what was fetched are all messages up to some point of time: none is lost
Prefix == \A n \in Nyms : \A c \in Stored(n) : \A d \in 1..(c - 1) : x.inc[d].nym = n => d \in Stored(n)
\* and each of them is there once
FetchedOnce == /\ \A i, j \in 1..Len(x.inq) : i # j => x.inq[i].c # x.inq[j].c
               /\ \A i \in 1..Len(x.inq) : x.inq[i].c \notin x.tossed /\ \A f \in x.filed : f.c # x.inq[i].c
               /\ \A f, g \in x.filed : f # g => f.c # g.c
               /\ \A f \in x.filed : f.c \notin x.tossed
\* under the identity and sender it belongs to
FiledRight == \A f \in x.filed : x.inc[f.c].kind = "good" /\ x.inc[f.c].nym = f.nym /\ x.inc[f.c].from = f.from
FiledKnown == \A f \in x.filed : x.con[f.nym][f.from].t # "none"
\* an undisturbed fetch of everything leaves nothing behind
Fetches == (x.r.pc = "end" /\ cmd = "fetch" /\ clean) => x.r.res = "ok" /\ x.inq = <<>>

\* blocked senders' messages are not filed; an unknown sender gets pending, no more
Policy == [][/\ \A f \in x'.filed \ x.filed : x.con[f.nym][f.from].t \in {"white", "gray"}
             /\ \A n \in Nyms : \A p \in People :
                  (x.con[n][p].t = "none" /\ x'.con[n][p].t # "none" /\ cmd = "fetch") => x'.con[n][p].t = "gray"
             /\ cmd \in {"send", "fetch"} => \A n \in Nyms : \A p \in People : x.con[n][p].t # "none" => x'.con[n][p] = x.con[n][p]
             /\ \A c \in x'.tossed \ x.tossed : x.inc[c].kind # "good" \/ x.con[x.inc[c].nym][x.inc[c].from].t = "black" \/ x.r.pc = "drop"
            ]_mcvars
\* what was sent once is never taken back
Stays == [][\A n \in Nyms : x.sent[n] \subseteq x'.sent[n] \cup x'.gone]_mcvars
=============================================================================
