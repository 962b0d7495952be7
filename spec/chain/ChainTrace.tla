----------------------------- MODULE ChainTrace -----------------------------
EXTENDS Chain, TraceLib
View(v) ==
  /\ \A d \in Doms : v.chain[d] = chain'[d]
  /\ SeqSet(v.pub) = pub' /\ Len(v.pub) = Cardinality(pub')
  /\ SeqSet(v.priv) = {[d |-> k[1], who |-> k[2], n |-> Top(priv[k]).n, pos |-> Top(priv[k]).rep.pos, t |-> Top(priv[k]).rep.t] : k \in DOMAIN priv}'
  /\ Len(v.priv) = Cardinality(DOMAIN priv')
  /\ SeqSet(v.pkis) = pkis'
  /\ v.mine = mine'
Now == \E v \in {E.view} : View(v)
TInit == Init /\ l = 1
TNext ==
  \/ /\ AtReset
     /\ ents' = <<>> /\ srv' = [d \in Doms |-> <<>>] /\ chain' = [d \in Doms |-> <<>>]
     /\ pub' = {} /\ priv' = <<>> /\ pkis' = {} /\ skis' = {} /\ mine' = 0 /\ uidno' = 0
  \/ At("Pub") /\ Pub(E.d, E.who, E.how)
  \/ At("Cut") /\ Cut(E.d, E.n)
  \/ At("Sync") /\ Sync(E.d, E.bad, E.p, E.f, E.s, E.flt, E.res) /\ Now
  \/ At("Nop") /\ Still /\ Now
  \/ At("Validate") /\ Validate(E.d, E.res) /\ Now
  \/ At("Delete") /\ Delete(E.d, E.res) /\ Now
  \/ At("Show") /\ Show(E.d, E.res, E.out) /\ Now
  \/ At("Search") /\ Search(E.d, E.who, E.only, E.lie, E.lt, E.res) /\ Now
  \/ At("Lookup") /\ Lookup(E.d, E.who, E.bad, E.ps, E.lie, E.lt, E.res) /\ Now
  \/ At("Generate") /\ Generate(E.d, E.who, E.res) /\ Now
  \/ At("GenUpdate") /\ GenUpdate(E.d, E.who, E.res) /\ Now
  \/ At("DelUid") /\ DelUid(E.d, E.who, E.res) /\ Now
  \/ At("Register") /\ Register(E.d, E.who, E.lie, E.res) /\ Now
  \/ At("AddKI") /\ AddKI(E.d, E.who, E.lie, E.res) /\ Now
  \/ At("FetchKI") /\ FetchKI(E.d, E.who, E.lie, E.res) /\ Now
  \/ At("Flush") /\ Flush(E.d, E.who, E.lie, E.res, E.valid) /\ Now
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
