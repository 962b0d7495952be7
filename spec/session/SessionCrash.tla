---------------------------- MODULE SessionCrash ----------------------------
(* The session protocol with crashes: Encrypt and Decrypt as the sequences  *)
(* of writes to the key store they consist of (each write is atomic).  The  *)
(* process may die, or the store may fail, before any of the writes; what   *)
(* was being encrypted is then not sent, and what was being decrypted is    *)
(* delivered again later, like every message.                               *)
EXTENDS Session, SequencesExt

CONSTANT MaxCut
VARIABLE cuts
cvars == <<vars, cuts>>

Local(p) == [ss |-> ss[p], sess |-> sess[p], nk |-> nk[p], priv |-> priv[p]]

WKey(k) == <<[w |-> "key", k |-> k]>>
WSess(key, root) == <<[w |-> "sess", key |-> key, root |-> root]>>
WMore(key, n) == <<[w |-> "more", key |-> key, n |-> n]>>
WState(q, s) == <<[w |-> "state", q |-> q, s |-> s]>>
WSent(key, i) == <<[w |-> "sent", key |-> key, i |-> i]>>
WRead(key, i) == <<[w |-> "read", key |-> key, i |-> i]>>
WForget(k) == <<[w |-> "forget", k |-> k]>>

Write(x, w) ==
  CASE w.w = "key" -> [x EXCEPT !.nk = @ + 1, !.priv = @ \cup {w.k}]
    [] w.w = "sess" -> [x EXCEPT !.sess = Store(@, w.key, w.root, NK)]
    [] w.w = "more" -> [x EXCEPT !.sess[w.key].n = @ + w.n]
    [] w.w = "state" -> [x EXCEPT !.ss[w.q] = w.s]
    [] w.w = "sent" -> [x EXCEPT !.sess[w.key].send = @ \cup {w.i}]
    [] w.w = "read" -> [x EXCEPT !.sess[w.key].recv = @ \cup {w.i}]
    [] w.w = "forget" -> [x EXCEPT !.priv = @ \ {w.k}]
After(p, ws) == FoldLeft(Write, Local(p), ws)
First(ws, k) == SubSeq(ws, 1, k)

(* The counter is written before the key it counts is destroyed: the other  *)
(* way round a crash in between leaves a counter that points to a used key, *)
(* and nothing can be encrypted in that session any more.                   *)
EncWrites(p, q, renew, status, nym) ==
  LET e == Enc(p, q, renew, status, nym)
      start == ss[p][q] = NoState \/ status = "reset"
      pre == IF start THEN WKey(e.s.own) \o WSess(e.key, Root(e.s.own, KI(q), <<>>)) \o WState(q, e.s)
             ELSE IF e.s # ss[p][q] THEN WKey(e.s.next) \o WState(q, e.s)
             ELSE <<>>
      n == After(p, pre).sess[e.key].n
  IN pre \o (IF e.s.n >= n THEN WMore(e.key, NK) ELSE <<>>)
     \o WState(q, [e.s EXCEPT !.n = @ + 1]) \o WSent(e.key, e.s.n)

(* what the header of m makes its addressee write.  A session that is there *)
(* already is not agreed on again (a crash may have left it without a state *)
(* that uses it): its keys would start over.                                *)
Once(p, key, root) == IF key \in DOMAIN sess[p] THEN <<>> ELSE WSess(key, root)
AdoptWrites(p, m) ==
  LET q == m.from
      own == m.peer
      peer == m.own
      key == <<q, own, peer>>
      s == ss[p][q]
      k == Key(p, nk[p] + 1)
      known == key \in DOMAIN sess[p]
      root == IF known THEN sess[p][key].root ELSE Root(peer, own, <<>>)
      fresh == [own |-> own, peer |-> peer, cnt |-> 0, n |-> 0, next |-> k, seen |-> m.next, ki |-> FALSE, nym |-> m.nym]
      switched(o, r) == [own |-> o, peer |-> r, cnt |-> s.cnt + s.n, n |-> 0,
                         next |-> NoKey, seen |-> NoKey, ki |-> FALSE, nym |-> m.nym]
  IN IF ~known \/ s = NoState
     THEN IF own # KI(p) THEN <<>>
          ELSE Once(p, key, root)
               \o IF s = NoState \/ (s.ki /\ Before(q, p))
                  THEN WKey(k) \o (IF m.next = NoKey THEN <<>> ELSE WSess(<<q, k, m.next>>, Root(k, m.next, <<root>>)))
                       \o WState(q, fresh)
                  ELSE <<>>
     ELSE (IF own = s.own /\ peer = s.peer
           THEN IF m.next = NoKey THEN <<>>
                ELSE IF s.next = NoKey
                THEN WKey(k) \o WState(q, [s EXCEPT !.next = k]) \o WSess(<<q, k, m.next>>, Root(k, m.next, <<root>>))
                     \o (IF s.seen = NoKey THEN WState(q, [s EXCEPT !.next = k, !.seen = m.next]) ELSE <<>>)
                ELSE IF m.seen = s.next
                THEN Once(p, <<q, s.next, m.next>>, Root(m.next, s.next, <<root>>)) \o WState(q, switched(s.next, m.next))
                ELSE <<>>
           ELSE IF s.next # NoKey /\ s.seen # NoKey /\ s.next = own /\ s.seen = peer
                THEN WState(q, switched(own, peer))
                ELSE <<>>)
          \o WForget(own)

DecOutcome(p, m) ==
  LET ws == AdoptWrites(p, m)
      key == <<m.from, m.peer, m.own>>
      f == After(p, ws).sess
      known == key \in DOMAIN f
      short == known /\ m.idx >= f[key].n
      tooMany == short /\ m.idx - f[key].n >= Limit
      batch == (((m.idx - f[key].n) \div NK) + 1) * NK
      ok == known /\ ~tooMany /\ m.idx \notin f[key].recv /\ f[key].root = m.root /\ f[key].chains = 1
  IN [res |-> IF ok THEN "ok" ELSE "err",
      ws |-> ws \o (IF short /\ ~tooMany THEN WMore(key, batch) ELSE <<>>) \o (IF ok THEN WRead(key, m.idx) ELSE <<>>)]

Commit(p, x) == /\ ss' = [ss EXCEPT ![p] = x.ss]
                /\ sess' = [sess EXCEPT ![p] = x.sess]
                /\ nk' = [nk EXCEPT ![p] = x.nk]
                /\ priv' = [priv EXCEPT ![p] = x.priv]

CEncrypt(p, q, renew, status, nym, id) ==
  /\ Commit(p, After(p, EncWrites(p, q, renew, status, nym)))
  /\ net' = net \cup {[id |-> id] @@ Enc(p, q, renew, status, nym).m}
  /\ UNCHANGED <<got, cuts>>
CutEncrypt(p, q, renew, status, k) ==
  LET ws == EncWrites(p, q, renew, status, 0) IN
  /\ cuts < MaxCut /\ k < Len(ws)
  /\ Commit(p, After(p, First(ws, k)))
  /\ cuts' = cuts + 1
  /\ UNCHANGED <<net, got>>
CDecrypt(m, res) ==
  LET d == DecOutcome(m.to, m) IN
  /\ res = d.res
  /\ Commit(m.to, After(m.to, d.ws))
  /\ got' = IF res = "ok" THEN got \cup {m.id} ELSE got
  /\ UNCHANGED <<net, cuts>>
CutDecrypt(m, k) ==
  LET d == DecOutcome(m.to, m) IN
  /\ cuts < MaxCut /\ k < Len(d.ws)
  /\ Commit(m.to, After(m.to, First(d.ws, k)))
  /\ cuts' = cuts + 1
  /\ UNCHANGED <<net, got>>

CInit == Init /\ cuts = 0
CNext == \/ \E p \in Party : \E q \in Peers(p), renew \in BOOLEAN, st \in {"ok", "reset"} :
              \/ /\ Cardinality(net) < MaxMsg
                 /\ CEncrypt(p, q, renew, st, 0, Cardinality(net) + 1)
              \/ \E k \in 0..6 : CutEncrypt(p, q, renew, st, k)
         \/ \E m \in net : \/ \E r \in {"ok", "err"} : CDecrypt(m, r)
                           \/ \E k \in 0..8 : CutDecrypt(m, k)
CSpec == CInit /\ [][CNext]_cvars

-----------------------------------------------------------------------------
(* all writes together are the actions of Session *)
SameAsSession ==
  /\ \A p \in Party : \A q \in Peers(p), renew \in BOOLEAN, st \in {"ok", "reset", "error"} :
       LET e == Enc(p, q, renew, st, 0)
           x == After(p, EncWrites(p, q, renew, st, 0))
       IN x.ss[q] = [e.s EXCEPT !.n = @ + 1] /\ x.nk = e.nk /\ x.priv = e.priv
          /\ x.sess = [e.f EXCEPT ![e.key].send = @ \cup {e.s.n}]
  /\ \A m \in net : LET d == Dec(m.to, m) 
                        o == DecOutcome(m.to, m)
                        x == After(m.to, o.ws)
                    IN cuts = 0 => x.ss[m.from] = d.s /\ x.nk = d.nk /\ x.priv = d.priv /\ x.sess = d.f /\ o.res = d.res
CDeliverable == \A m \in net : m.id \notin got => DecOutcome(m.to, m).res = "ok"
COnlyOnce == \A m \in net : m.id \in got => DecOutcome(m.to, m).res = "err"
CCanEncrypt == \A p \in Party : \A q \in Peers(p), renew \in BOOLEAN :
                 LET e == Enc(p, q, renew, "ok", 0) IN e.s.n \notin e.f[e.key].send
=============================================================================
