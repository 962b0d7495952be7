---------------------------- MODULE ConfigTrace ----------------------------
(* Checks recorded updates against Config.                                  *)
EXTENDS Config, TraceLib
tvars == <<vars, l>>

Seen(e, c) == e.map = c.map /\ e.ca = c.ca /\ (c.map # 0 => e.date = c.date) /\ e.rest

TPublish == At("Publish") /\ E.id = Len(offers) + 1 /\ \E e \in {E} :
  IF e.alt = "silent" THEN offers' = Append(offers, [key |-> "none", alt |-> "silent", date |-> 0, hash |-> 0])
                           /\ at' = [at EXCEPT ![e.s] = 0] /\ UNCHANGED <<now, certs, prio, keyok, conf>>
  ELSE Publish(e.s, [key |-> e.key, alt |-> e.alt, date |-> e.date, hash |-> e.hash])
TCert == At("Cert") /\ \E e \in {E} : Cert(e.s, e.c, e.alt)
TUpdate == At("Update") /\ \E e \in {E} : \E o \in Outcomes :
  /\ e.res = o.res /\ Seen(e, o.conf)
  /\ Update(o)
TRestart == At("Restart") /\ E.res = "ok" /\ Seen(E, conf) /\ Restart
TNew == At("New") /\ \E e \in {E} : New([s \in Servers |-> e.prios[s]], e.klen >= 32)
TAdvance == At("Advance") /\ \E e \in {E} : Advance(e.d)
TReset == AtReset /\ now' = 0 /\ offers' = <<>> /\ at' = [s \in Servers |-> 0]
  /\ certs' = [s \in Servers |-> [c |-> 0, alt |-> "silent"]]
  /\ prio' = [s \in Servers |-> IF s = 3 THEN 20 ELSE 10] /\ keyok' = TRUE /\ conf' = None
TNop == At("Nop") /\ UNCHANGED vars
TInit == Init /\ l = 1
TNext == (TPublish \/ TCert \/ TUpdate \/ TRestart \/ TNew \/ TAdvance \/ TReset \/ TNop)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
