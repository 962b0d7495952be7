------------------------------- MODULE MixTrace -------------------------------
(* Checks recorded operations of the mix packages against Mix.              *)
EXTENDS Mix, TraceLib
tvars == <<vars, l>>

Claim(e) == IF Has(e, "claim") THEN e.claim ELSE 0
PrivateEq(e, n) ==
  /\ e.sys = n.sys /\ e.box = n.box /\ e.pexp = n.pexp /\ e.psingle = n.single /\ e.pmin = n.min /\ e.pmax = n.max

TNewNym == At("NewNym") /\ \E e \in {E} :
  IF Fit(e.cands, e.exp) = {} THEN e.res = "err" /\ UNCHANGED vars
  ELSE /\ e.res = "ok" /\ e.id = Len(nyms) + 1
       /\ \E i \in Fit(e.cands, e.exp) : e.cands[i].m = e.mix
       /\ e.single2 = e.single /\ e.exp2 = e.exp /\ e.fresh
       /\ NewNym(e, e.mix) /\ UNCHANGED <<now, envs, recs, msgs, uniq>>
TAlterNym == At("AlterNym") /\ \E e \in {E} :
  /\ e.id = Len(nyms) + 1
  /\ nyms' = Append(nyms, Altered(nyms[e.n], e.f, e, Claim(e)))
  /\ UNCHANGED <<now, envs, recs, msgs, uniq>>
TOpen == At("Open") /\ \E e \in {E} :
  /\ \E u \in Usable(nyms[e.n]) :
       IF u /\ NymOpens(nyms[e.n], e.m, e.force) THEN e.res = "ok" /\ PrivateEq(e, nyms[e.n]) ELSE e.res = "err"
  /\ UNCHANGED vars
Add(x) == envs' = Append(envs, x) /\ UNCHANGED <<now, nyms, recs, msgs, uniq>>
TForward == At("Forward") /\ \E e \in {E} :
  \/ e.res = "ok" /\ e.id = Len(envs) + 1 /\ e.to /\ e.fresh /\ Add(Fwd(e))
  \/ e.res = "err" /\ (Big(Fwd(e)) \/ Edge(Fwd(e))) /\ UNCHANGED vars
TRelay == At("Relay") /\ \E e \in {E} : \E u \in Usable(nyms[e.n]) :
  \/ u /\ e.res = "ok" /\ e.id = Len(envs) + 1 /\ e.to = nyms[e.n].to /\ e.fresh /\ Add(Rel(e))
  \/ (~u \/ Big(Rel(e)) \/ nyms[e.n].claim = 0) /\ e.res = "err" /\ UNCHANGED vars
TAlterEnv == At("AlterEnv") /\ \E e \in {E} : e.id = Len(envs) + 1 /\ Add(EnvAltered(envs[e.e], e.f, Claim(e)))
TReceive == At("Receive") /\ \E e \in {E} : \E x \in {envs[e.e]} : \E o \in Opens(x, e.m, e.force) :
  IF ~o THEN e.res = "err" /\ UNCHANGED vars
  ELSE /\ e.res = "ok" /\ e.id = Len(recs) + 1 /\ e.kind = x.kind
       /\ e.b = x.b /\ e.size = x.size /\ e.min = x.min /\ e.max = x.max /\ e.tok = x.tok
       /\ IF x.kind = "fwd" THEN e.next = x.next /\ e.revoke = 0 /\ \A i \in 1..Len(e.uexp) : e.uexp[i] >= now + Remember
          ELSE /\ e.revoke = 32 /\ PrivateEq(e, nyms[x.nym])
               /\ e.nym > 0 /\ nyms[e.nym].orig = nyms[x.nym].orig
               /\ \A i \in 1..Len(e.uexp) : e.uexp[i] >= nyms[x.nym].pexp
       /\ Len(e.uexp) = Len(e.uniq) /\ Consistent(Things(x), e.uniq)
       /\ Consistent(Things(x) \o Revoke(x), e.uniq \o e.rid)
       /\ Receive(x, Things(x) \o Revoke(x), e.uniq \o e.rid)
       /\ UNCHANGED <<now, nyms, envs, msgs>>
TSendOn == At("SendOn") /\ \E e \in {E} : \E x \in {recs[e.r].env} :
  CASE x.kind = "fwd" -> e.res = "ok" /\ e.next = x.next /\ e.b = x.b /\ e.size = x.size /\ UNCHANGED vars
    [] x.kind = "relay" /\ nyms[x.nym].sys # 0 -> e.res = "err" /\ UNCHANGED vars
    [] OTHER -> /\ e.res = "ok" /\ e.box = nyms[x.nym].box /\ e.id = Len(msgs) + 1
                /\ msgs' = Append(msgs, Passed(x)) /\ UNCHANGED <<now, nyms, envs, recs, uniq>>
TAlterMsg == At("AlterMsg") /\ \E e \in {E} : e.id = Len(msgs) + 1
  /\ msgs' = Append(msgs, [msgs[e.x] EXCEPT !.ok = FALSE]) /\ UNCHANGED <<now, nyms, envs, recs, uniq>>
TFinal == At("Final") /\ \E e \in {E} : \E x \in {msgs[e.x]} :
  /\ IF Reads(x, e.sec, e.box) THEN e.res = "ok" /\ x.nym \in SeqSet(e.nyms) /\ e.b = x.b /\ e.size = x.size
     ELSE e.res = "err"
  /\ UNCHANGED vars
(* messages against the format: nothing but an answer, and nothing but messages of known types and sizes *)
TCraft == At("Craft") /\ \E e \in {E} :
  /\ e.res = "ok" => \/ e.type = 1 /\ e.len >= FwdMin /\ e.len <= MaxSize
                     \/ e.type = 2 /\ e.len >= RelMin /\ e.len <= MaxSize
  /\ UNCHANGED vars
(* the same data between the same keys: nothing is ever encrypted the same way twice *)
TBox == At("Box") /\ E.res = "ok" /\ E.opened /\ E.fresh /\ UNCHANGED vars
TFuzz == At("Fuzz") /\ E.wrong = 0 /\ UNCHANGED vars
TAdvance == At("Advance") /\ \E e \in {E} : now' = now + e.d /\ UNCHANGED <<nyms, envs, recs, msgs, uniq>>
TNop == At("Nop") /\ UNCHANGED vars
TReset == AtReset /\ now' = 0 /\ nyms' = <<>> /\ envs' = <<>> /\ recs' = <<>> /\ msgs' = <<>> /\ uniq' = {}
TInit == Init /\ l = 1
TNext == TNewNym \/ TAlterNym \/ TOpen \/ TForward \/ TRelay \/ TAlterEnv \/ TReceive \/ TSendOn \/ TAlterMsg \/ TFinal
         \/ TCraft \/ TBox \/ TFuzz \/ TAdvance \/ TNop \/ TReset
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
