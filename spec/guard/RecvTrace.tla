----------------------------- MODULE RecvTrace -----------------------------
(* Checks recorded calls of Verify and ReceiveToken against Recv.           *)
EXTENDS Recv, TraceLib
tvars == <<vars, l>>
KFs == JsonDeserialize(IOEnv.KF)
Open(id) == \E i \in 1..Len(KFs) : KFs[i] = id

Ok(e) == e.res = "ok"
(* answers to lookups: the first mode counts *)
Mode(e) == IF Len(e.modes) = 0 THEN "ok" ELSE e.modes[1]

TKey == At("Key") /\ \E e \in {E} : Key(e.signer, e.u, e.life)
TAdvance == At("Advance") /\ \E e \in {E} : Advance(e.d)
TToken == At("Token") /\ \E e \in {E} : Token(e.k, e.o)
TAlter == At("Alter") /\ \E e \in {E} : Tok(Altered(e.t, e.f, e.v, e.o))
TRestart == At("Restart") /\ Restart
TOnline == At("Online") /\ \E e \in {E} : Online(e.on)
TList == At("List") /\ \E e \in {E} :
  /\ List(IF Len(e.list) = 0 THEN list ELSE SeqSet(e.list), Mode(e))
  /\ (on /\ Mode(e) # "ok") => ~Ok(e)
  /\ SeqSet(e.stored) = stored'

(* a forged signature is not told from a genuine one *)
Forged(t, mode) == (Known(t) \/ Fetched(t, mode)) /\ keys[toks[t].k].exp >= now /\ toks[t].kf
KnownForgery(t, mode) == Forged(t, mode) /\ Open("KF2") /\ PrintT(<<"KNOWN", "KF2">>)

TVerify == At("Verify") /\ \E e \in {E} :
  /\ Verify(e.t, Mode(e))
  /\ IF Ok(e) THEN /\ Valid(e.t, Mode(e)) \/ KnownForgery(e.t, Mode(e))
                   /\ e.u = keys[toks[e.t].k].u /\ e.o = toks[e.t].o /\ e.raw /\ e.exp
     ELSE ~Valid(e.t, Mode(e)) \/ Edge(e.t)
  /\ (~on => e.calls = 0)

TReceive == At("Receive") /\ \E e \in {E} :
  /\ Receive(e.t, e.u, Mode(e), Ok(e))
  /\ IF Ok(e) THEN /\ \/ Acceptable(e.t, e.u, Mode(e))
                      \/ keys[toks[e.t].k].u = e.u /\ toks[e.t].o = "me" /\ toks[e.t].id \notin has /\ KnownForgery(e.t, Mode(e))
                   /\ e.added = 1
     ELSE (~Acceptable(e.t, e.u, Mode(e)) \/ Edge(e.t)) /\ e.added = 0

TInit == Init /\ l = 1
TReset == AtReset /\ now' = 0 /\ keys' = <<>> /\ toks' = <<>> /\ trusted' = {} /\ stored' = {} /\ list' = {"s1", "s2"} /\ pool' = {} /\ on' = FALSE /\ has' = {}
TNext == TReset \/ TKey \/ TAdvance \/ TToken \/ TAlter \/ TRestart \/ TOnline \/ TList \/ TVerify \/ TReceive
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
