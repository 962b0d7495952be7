-------------------------------- MODULE MixMC --------------------------------
(* Small worlds: two mixes, two owners; addresses, messages and everything  *)
(* passed on may be altered by anyone at any time.                          *)
EXTENDS Mix
CONSTANTS MaxNyms, MaxEnvs, MaxMsgs, MaxNow
VARIABLES read, got  \* what owners have read, what mixes have received
mcvars == <<vars, read, got>>
Mixes == {1, 2}

MInit == Init /\ read = {} /\ got = {}
DoNym == Len(nyms) < MaxNyms /\ \E m \in Mixes : \E s \in {1, 2} : \E x \in {1, 2} : \E sg \in BOOLEAN :
  NewNym([sec |-> s, box |-> s, nym |-> x, exp |-> x, single |-> sg, sys |-> 0, min |-> 0, max |-> 0], m)
  /\ UNCHANGED <<now, envs, recs, msgs, uniq, read, got>>
DoAlterNym == Len(nyms) < MaxNyms /\ \E i \in 1..Len(nyms) : \E f \in {"mixaddr", "expire", "mixpub", "cut", "priv"} : \E v \in {0, 1} :
  nyms' = Append(nyms, Altered(nyms[i], f, [v |-> v, exp |-> now + v], v + 1))
  /\ UNCHANGED <<now, envs, recs, msgs, uniq, read, got>>
DoFwd == Len(envs) < MaxEnvs /\ \E m \in Mixes :
  envs' = Append(envs, Fwd([m |-> m, b |-> Len(envs) + 1, size |-> RelMin, tok |-> 0, min |-> 0, max |-> 0, next |-> 1]))
  /\ UNCHANGED <<now, nyms, recs, msgs, uniq, read, got>>
DoRel == Len(envs) < MaxEnvs /\ \E i \in 1..Len(nyms) : TRUE \in Usable(nyms[i])
  /\ envs' = Append(envs, Rel([n |-> i, b |-> Len(envs) + 1, size |-> RelMin, tok |-> 0, min |-> 0, max |-> 0]))
  /\ UNCHANGED <<now, nyms, recs, msgs, uniq, read, got>>
DoAlterEnv == Len(envs) < MaxEnvs /\ \E i \in 1..Len(envs) : \E f \in {"to", "body"} : \E c \in Mixes :
  envs' = Append(envs, EnvAltered(envs[i], f, c))
  /\ UNCHANGED <<now, nyms, recs, msgs, uniq, read, got>>
Ids(t) == [i \in 1..Len(t) |-> IF t[i].k = "body" THEN t[i].x ELSE 100 + t[i].x]
DoReceive == Len(recs) < MaxMsgs /\ \E i \in 1..Len(envs) : \E m \in Mixes : \E force \in BOOLEAN : TRUE \in Opens(envs[i], m, force)
  /\ Consistent(Things(envs[i]), Ids(Things(envs[i])))
  /\ Receive(envs[i], Things(envs[i]), Ids(Things(envs[i])))
  /\ got' = got \cup {[m |-> m, e |-> envs[i]]}
  /\ UNCHANGED <<now, nyms, envs, msgs, read>>
DoSend == Len(msgs) < MaxMsgs /\ \E i \in 1..Len(recs) : recs[i].kind = "relay" /\ msgs' = Append(msgs, Passed(recs[i].env))
  /\ UNCHANGED <<now, nyms, envs, recs, uniq, read, got>>
DoAlterMsg == Len(msgs) < MaxMsgs /\ \E i \in 1..Len(msgs) : msgs' = Append(msgs, [msgs[i] EXCEPT !.ok = FALSE])
  /\ UNCHANGED <<now, nyms, envs, recs, uniq, read, got>>
DoFinal == \E i \in 1..Len(msgs) : \E s \in {1, 2} : Reads(msgs[i], s, s)
  /\ read' = read \cup {[sec |-> s, nym |-> msgs[i].nym, b |-> msgs[i].b]}
  /\ UNCHANGED <<now, nyms, envs, recs, msgs, uniq, got>>
Tick == now < MaxNow /\ now' = now + 1 /\ UNCHANGED <<nyms, envs, recs, msgs, uniq, read, got>>
Spec == MInit /\ [][DoNym \/ DoAlterNym \/ DoFwd \/ DoRel \/ DoAlterEnv \/ DoReceive \/ DoSend \/ DoAlterMsg \/ DoFinal \/ Tick]_mcvars

(* a mix opens only what was wrapped for its key, and only addresses made for it *)
Addressee == \A g \in got : g.e.key = g.m /\ g.e.ok /\ (g.e.kind = "relay" => nyms[g.e.nym].mix = g.m)
(* what an owner reads was sent to an address it made, under the nym put in *)
Owner == \A r \in read : \E i \in 1..Len(envs) : envs[i].kind = "relay" /\ envs[i].b = r.b
           /\ nyms[nyms[envs[i].nym].orig].sec = r.sec /\ nyms[nyms[envs[i].nym].orig].nym = r.nym
(* different messages have different identities, and the uses of a single-use address the same *)
Replay == \A g, h \in got : g.e.kind = "relay" /\ h.e.kind = "relay" /\ nyms[g.e.nym].single
            /\ nyms[g.e.nym].orig = nyms[h.e.nym].orig =>
            \E u \in uniq : u.t = Things(g.e)[2] /\ u.t = Things(h.e)[2]
=============================================================================
