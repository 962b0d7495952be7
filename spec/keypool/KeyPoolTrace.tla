---------------------------- MODULE KeyPoolTrace ----------------------------
EXTENDS KeyPool, TraceLib
TInit == Init /\ l = 1
(* a key handed out is the one that was made, in all its parts *)
Given(e, o) == e.got = o[2] /\ (o[2] = 0 => e.res = o[1]) /\ (o[2] # 0 => e.res = "ok")
TNext ==
  \/ AtReset /\ now' = 5 /\ made' = <<>> /\ pools' = <<>> /\ sdir' = <<>> /\ sdb' = <<>> /\ sdb2' = <<>> /\ broken' = {}
  \/ At("Nop") /\ UNCHANGED vars
  \/ l <= Len(Trace) /\ \E e \in {E} :
     \/ At("Advance") /\ Advance(e.d)
     \/ At("Pool") /\ NewPool(e.p, e.usage, e.t, e.gen, e.dir, e.db, e.db2)
     \/ At("Trust") /\ Trust(e.p, e.s)
     \/ At("Verifiers") /\ UNCHANGED vars /\ SeqSet(e.list) = pools[e.p].trust /\ Len(e.list) = Cardinality(pools[e.p].trust) /\ e.has = e.list
     \/ At("Make") /\ Make([signer |-> e.signer, usage |-> e.usage, exp |-> e.exp, alt |-> e.alt, id |-> e.id])
     \/ At("LoadKey") /\ LoadKey(e.p, e.k) /\ e.res \in LoadRes(e.p, e.k)
     \/ /\ At("Lookup") /\ Lookup(e.p, e.i)
        /\ \E o \in LookupOut(e.p, e.i) : Given(e, o)
     \/ /\ At("Current") /\ e.same /\ e.res = CurrentRes(e.p) /\ Current(e.p)
        /\ e.res = "ok" =>
             /\ e.cur = pools'[e.p].cur /\ e.prev = pools'[e.p].prev
             /\ e.made = Len(made') /\ e.pair
             /\ made'[e.cur] = [signer |-> e.csigner, usage |-> e.cusage, exp |-> e.cexp, alt |-> "none", id |-> e.cur]
     \/ At("Save") /\ e.res = SaveRes(e.p, e.i) /\ Save(e.p, e.i)
     \/ /\ At("LoadAll")
        /\ IF pools[e.p].dir /\ "dir" \in broken THEN e.res = "err" /\ UNCHANGED vars
           ELSE IF e.damaged
           THEN (* an unreadable file: an error, and maybe not all keys *)
                /\ e.res = "err"
                /\ UNCHANGED <<now, made, sdir, sdb, sdb2, broken>>
                /\ \E S \in {{k \in After(e.p, Stored(e.p)) : Id(k) \in SeqSet(e.known)}} :
                     /\ Known(e.p) \subseteq S
                     /\ pools' = [pools EXCEPT ![e.p].known = S]
           ELSE e.res = "ok" /\ LoadAll(e.p)
     \/ At("Plant") /\ Plant(e.store, e.k, e.i)
     \/ At("Break") /\ Break(e.store, e.on)
     \/ At("Fuzz") /\ UNCHANGED vars /\ e.wrong = 0
     (* many look keys up and load others at the same time *)
     \/ /\ At("Par")
        /\ \E F \in {UNION {LookupNew(e.p, e.is[j]) : j \in 1..Len(e.is)}}, L \in {SeqSet(e.loads)} :
             /\ Learn(e.p, F \cup L) /\ UNCHANGED <<now, made, sdir, sdb, sdb2, broken>>
             /\ \A j \in 1..Len(e.outs) :
                  LET i == e.outs[j].i
                      also == {k \in After(e.p, F \cup L) : Id(k) = i}
                  IN \/ \E o \in LookupOut(e.p, i) : Given(e.outs[j], o)
                     \/ \E k \in also : Given(e.outs[j], IF made[k].exp > now THEN <<"ok", k>> ELSE <<"expired", 0>>)
             /\ \A k \in L :
                  LET O == {j \in 1..Len(e.louts) : e.louts[j].k = k}
                      ok == {j \in O : e.louts[j].res = "ok"}
                  IN IF LoadRes(e.p, k) = {"ok"}
                     THEN /\ \A j \in O : e.louts[j].res \in {"ok", "exists"}
                          (* it is new to one of them, if not to a lookup *)
                          /\ Cardinality(ok) = 1 \/ (ok = {} /\ Id(k) \in Ids(F))
                     ELSE \A j \in O : e.louts[j].res \in LoadRes(e.p, k)
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
