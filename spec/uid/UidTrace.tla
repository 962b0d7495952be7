------------------------------ MODULE UidTrace ------------------------------
EXTENDS Uid, TraceLib
Ok(b) == E.res = (IF b THEN "ok" ELSE "err")
Same == UNCHANGED vars
TInit == Init /\ l = 1
TNext ==
  \/ AtReset /\ recs' = <<>> /\ reps' = <<>> /\ kis' = <<>> /\ nonces' = <<>>
  \/ /\ At("New") /\ Ok(CreateOk(E.id, E.last))
     /\ IF E.res = "ok" THEN AddRec(Created(NextRec, E.id, E.fs, E.esc, E.mix, E.nym, E.last)) ELSE Same
  \/ At("Update") /\ Ok(TRUE) /\ E.orig /\ AddRec(Updated(NextRec, recs[E.h]))
  \/ At("Alter") /\ AddRec(Alt(recs[E.h], E.f, E.v))
  \/ At("SignR") /\ AddRec(Signed(recs[E.h], recs[E.k].c.sk.pub))
  \/ At("SignU") /\ AddRec(SignedUser(recs[E.h], recs[E.k].c.sk.pub))
  \/ At("Splice") /\ AddRec(Spliced(recs[E.h], recs[E.o], E.part))
  \/ At("Check") /\ Ok(WellFormed(recs[E.h])) /\ Same
  \/ At("Self") /\ Ok(SelfSigned(recs[E.h])) /\ Same
  \/ At("User") /\ Ok(Continues(recs[E.h], recs[E.p])) /\ Same
  \/ At("SignN") /\ AddNonce(E.h)
  \/ At("VerN") /\ Ok(E.k > 0 /\ E.k = nonces[E.x] /\ E.d = 0) /\ Same
  \/ At("Confirm") /\ AddRep(Reply(recs[E.a], recs[E.b], recs[E.c], "e", E.pos, E.k))
  \/ At("AltRep") /\ AddRep(AltReply(reps[E.p], E.f, E.v))
  \/ At("Resign") /\ AddRep(Resigned(reps[E.p], E.k))
  \/ At("VerSrv") /\ Ok(Confirms(reps[E.p], recs[E.h], E.k)) /\ Same
  \/ /\ At("MakeKI") /\ Ok(InitOk(recs[E.h], E.after, E.before, E.repo))
     /\ IF E.res = "ok"
        THEN AddKI(MadeKI(NextKI, recs[E.h], E.count, E.after, E.before, E.fallback, E.repo, E.mix, E.nym)) /\ E.pair
        ELSE Same
  \/ At("AltKI") /\ AddKI(AltKI(kis[E.m], E.f, E.v))
  \/ At("Anchor") /\ AddKI(Anchored(NextKI, kis[E.m], E.k, [mix |-> "", nym |-> "a", keys |-> E.keys], E.fix))
  \/ At("SignK") /\ AddKI(SignedKI(kis[E.m], recs[E.k].c.sk.pub))
  \/ At("CheckKI") /\ Ok(CheckKI(kis[E.m])) /\ Same
  \/ At("VerKI") /\ Ok(VerifyKI(kis[E.m], SeqSet(E.uris), E.k)) /\ Same
  \/ /\ At("EntryKI") /\ Ok(EntryOk(kis[E.m], E.k)) /\ Same
     /\ E.res = "ok" => LET x == ECDHE(kis[E.m])[1] IN E.pub = x.pub /\ E.hash = x.hash /\ E.nym = kis[E.m].b.sa.nym
  \/ At("SrvKI") /\ Ok(E.s = 0 /\ E.k = 2000001 /\ kis[E.m] = kis[E.o]) /\ Same
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
