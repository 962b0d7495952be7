----------------------------- MODULE KeyDBTrace -----------------------------
EXTENDS KeyDB, TraceLib
DomOf == [a |-> "d", b |-> "e", c |-> "d"]
Ok == E.res = "ok"
(* a write that is made to fail may fail, and then does nothing *)
Injected == "fault" \in DOMAIN E /\ E.fault # "" /\ E.res = "err" /\ Still
TInit == Init /\ l = 1
TNext ==
  \/ /\ AtReset
     /\ vals' = <<>> /\ puid' = <<>> /\ pki' = {} /\ oki' = {} /\ ouid' = <<>>
     /\ sess' = <<>> /\ states' = <<>> /\ skeys' = <<>> /\ chain' = <<>>
  \/ At("SetVal") /\ ((Ok /\ SetVal(E.k, E.v)) \/ Injected)
  \/ At("GetVal") /\ Ok /\ GetVal(E.k, E.v)
  \/ At("AddPUID") /\ ((Ok /\ AddPUID(E.i, E.n)) \/ Injected)
  \/ At("AddReply") /\ ((Ok /\ AddReply(E.i, E.n, E.r)) \/ Injected)
  \/ At("DelPUID") /\ ((Ok /\ DelPUID(E.i, E.n)) \/ Injected)
  \/ At("GetPUID") /\ GetPUID(E.i, E.res, E.n, E.r) /\ (Ok => E.priv = E.keys)
  \/ At("ListIDs") /\ Ok /\ ListIDs(SeqSet(E.ids)) /\ Len(E.ids) = Cardinality(Ids)
  \/ At("ListDom") /\ Ok /\ ListDom(E.d, DomOf, SeqSet(E.ids)) /\ Len(E.ids) = Cardinality(SeqSet(E.ids))
  \/ At("AddPKI") /\ ((Ok /\ AddPKI(E.i, E.n)) \/ Injected)
  \/ At("GetPKI") /\ GetPKI(E.i, E.n, E.res) /\ (Ok => E.same)
  \/ At("AddOKI") /\ ((Ok /\ AddOKI(E.i, E.n)) \/ Injected)
  \/ At("GetOKI") /\ GetOKI(E.i, E.res, E.n)
  \/ At("AddOUID") /\ ((Ok /\ AddOUID(E.i, E.n, E.pos)) \/ Injected)
  \/ At("GetOUID") /\ Ok /\ GetOUID(E.i, E.max, E.found, E.n, E.pos)
  \/ At("AddSess") /\ (AddSess(E.s, E.root, E.ck, E.send, E.recv, E.res) \/ Injected)
  \/ At("GetSess") /\ GetSess(E.s, E.res, E.root, E.ck, E.n)
  \/ At("GetMK") /\ GetMK(E.s, E.sender, E.i, E.res, E.k)
  \/ At("DelMK") /\ (DelMK(E.s, E.sender, E.i, E.res) \/ Injected)
  \/ At("SetState") /\ ((Ok /\ SetState(E.k, E.v)) \/ Injected)
  \/ At("GetState") /\ Ok /\ GetState(E.k, E.v)
  \/ At("AddSK") /\ ((Ok /\ AddSK(E.h, E.v)) \/ Injected)
  \/ At("GetSK") /\ GetSK(E.h, E.res, E.v, E.priv)
  \/ At("DelSK") /\ ((Ok /\ DelSK(E.h)) \/ Injected)
  \/ At("AddHC") /\ ((Ok /\ AddHC(E.d, E.pos, E.e)) \/ Injected)
  \/ At("GetHC") /\ GetHC(E.d, E.pos, E.res, E.e)
  \/ At("LastPos") /\ Ok /\ LastPos(E.d, E.found, E.pos)
  \/ At("LastHC") /\ LastHC(E.d, E.res, E.e)
  \/ At("DelHC") /\ ((Ok /\ DelHC(E.d)) \/ Injected)
  \/ At("Reopen") /\ Ok /\ Still
  \/ At("Rekey") /\ E.res = (IF E.right THEN "ok" ELSE "err") /\ Still
  \/ At("Vacuum") /\ Ok /\ Still
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
