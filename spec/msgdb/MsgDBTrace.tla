---------------------------- MODULE MsgDBTrace ----------------------------
EXTENDS MsgDB, TraceLib
Ok == E.res = "ok"
View(v) ==
  /\ "broken" \notin DOMAIN v
  /\ v.inq = InHead'
  /\ SeqSet(v.mapped) = DOMAIN nyms' /\ Len(v.mapped) = Cardinality(DOMAIN nyms')
  /\ SeqSet(v.shown) = {Show(nyms'[x].un, nyms'[x].name) : x \in DOMAIN nyms'}
  /\ \A i \in DOMAIN v.per : \E p \in {v.per[i]} : \E my \in {p.my} :
       IF ~p.known THEN my \notin DOMAIN nyms'
       ELSE /\ my \in DOMAIN nyms'
            /\ SeqSet(p.white) = Names(my, 0)' /\ Len(p.white) = ListCount(my, 0)'
            /\ SeqSet(p.black) = Names(my, 2)' /\ Len(p.black) = ListCount(my, 2)'
            /\ SeqSet(p.accts) = Accounts(my)' /\ Len(p.accts) = Cardinality(Accounts(my)')
            /\ SeqSet(p.msgs) = Listing(my)' /\ Len(p.msgs) = Cardinality(Listing(my)')
            /\ p.und = Next2Send(my)'
            /\ p.out = OutHead(my)'
            /\ p.all = nyms'[my].all /\ p.acc = nyms'[my].acc
(* the number of the message that the event shows to be new *)
NewIds == IF Has(E.view, "broken") THEN {}
          ELSE UNION {LET p == E.view.per[i] IN IF p.known THEN {p.msgs[j].id : j \in DOMAIN p.msgs} ELSE {} : i \in DOMAIN E.view.per} \ DOMAIN msgs
NewId == IF NewIds = {} THEN 0 ELSE CHOOSE x \in NewIds : TRUE
(* With an injected failure of the database the operation may fail, without any effect. *)
Mut(name, A(_)) == At(name) /\ (A(E.res) \/ (E.fault # "" /\ E.res = "err" /\ Still)) /\ (\E v \in {E.view} : View(v))
Nil(name, A) == At(name) /\ ((Ok /\ A) \/ (E.fault # "" /\ E.res = "err" /\ Still)) /\ (\E v \in {E.view} : View(v))
TInit == Init /\ l = 1
TNext ==
  \/ /\ AtReset
     /\ nyms' = <<>> /\ con' = <<>> /\ acct' = <<>> /\ msgs' = <<>> /\ outq' = <<>> /\ inq' = <<>> /\ cache' = <<>> /\ vals' = <<>>
  \/ Mut("AddNym", LAMBDA r : AddNym(E.id, E.un, E.name, r))
  \/ Mut("DelNym", LAMBDA r : DelNym(E.id, r))
  \/ Mut("Upkeep", LAMBDA r : Upkeep(E.id, E.what, E.t, r))
  \/ Mut("AddContact", LAMBDA r : AddContact(E.my, E.id, E.un, E.name, E.typ, r))
  \/ Mut("RemContact", LAMBDA r : RemContact(E.my, E.id, r))
  \/ At("GetContact") /\ GetContact(E.my, E.id, E.res, E.un, E.name, E.typ)
  \/ Mut("AddAccount", LAMBDA r : AddAccount(E.my, E.c, E.key, E.server, E.secret, E.min, E.max, r))
  \/ Mut("SetAccount", LAMBDA r : SetAccount(E.my, E.c, E.what, E.t, r))
  \/ At("GetAccount") /\ GetAccount(E.my, E.c, E.res, E.a)
  \/ Mut("AddMsg", LAMBDA r : AddMsg(NewId, E.my, E.c, E.date, E.out, E.k, E.sign, E.min, E.max, r))
  \/ At("GetMsg") /\ GetMsg(E.my, E.m, E.res, E.from, E.to, E.k, E.date)
  \/ Nil("ReadMsg", ReadMsg(E.m))
  \/ Mut("DelMsg", LAMBDA r : DelMsg(E.my, E.m, r))
  \/ Mut("Enqueue", LAMBDA r : Enqueue(E.my, E.m, E.k, E.nym, E.min, E.max, r))
  \/ Nil("SetOut", SetOut(E.my, E.k))
  \/ Mut("RemOut", LAMBDA r : RemOut(E.my, E.date, r))
  \/ Mut("Retract", LAMBDA r : Retract(E.my, r))
  \/ Nil("Resend", Resend(E.my))
  \/ Mut("ClearResend", LAMBDA r : ClearResend(E.my, r))
  \/ Mut("AddIn", LAMBDA r : AddIn(E.my, E.c, E.date, E.k, r))
  \/ Nil("SetIn", SetIn(E.k))
  \/ Mut("RemIn", LAMBDA r : RemIn(NewId, E.k, E.from, E.drop, r))
  \/ Nil("DelIn", DelIn)
  \/ Mut("CacheAdd", LAMBDA r : CacheAdd(E.my, E.c, E.x, r))
  \/ At("CacheGet") /\ CacheGet(E.my, E.c, E.res, SeqSet(E.ids))
  \/ Mut("CacheRem", LAMBDA r : CacheRem(E.my, E.c, E.x, r))
  \/ Mut("SetVal", LAMBDA r : SetVal(E.k, E.v, r))
  \/ At("GetVal") /\ GetVal(E.k, E.res, E.v)
  \/ At("Reopen") /\ Ok /\ Still /\ (\E v \in {E.view} : View(v))
  \/ At("Rekey") /\ E.res = (IF E.right THEN "ok" ELSE "err") /\ Still /\ (\E v \in {E.view} : View(v))
  \/ At("Vacuum") /\ Ok /\ Still /\ (\E v \in {E.view} : View(v))
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
