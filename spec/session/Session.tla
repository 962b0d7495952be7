------------------------------ MODULE Session ------------------------------
(* The session protocol of encrypted conversations, as the code runs it.    *)
(*                                                                          *)
(* A party opens a session towards a peer with a fresh session key and the  *)
(* peer's published key (key initialisation message); sessions are renewed  *)
(* by announcing a next session key and having the announcement seen by the *)
(* peer.  Every message carries, in its encrypted header, the session keys  *)
(* it uses, its number, and the announcements; it is protected by the       *)
(* message key with that number, derived from the root key of the session,  *)
(* and each message key may be used once.                                   *)
(*                                                                          *)
(* Crypto is symbolic: a key is a name, a root key is the record of what it *)
(* was agreed from, so two parties have the same root key iff they agreed   *)
(* in complementary roles on the same keys and the same previous root.      *)
(* One action per call: Encrypt, Decrypt (any message, any number of times, *)
(* in any order, or never), and Refused (content too long).                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Party, Rank, NK, MaxMsg, Limit

(* Rank: order of the parties' names; NK: message keys derived at a time;   *)
(* MaxMsg: bound on messages in the model; Limit: bound on the number of    *)
(* message keys a recipient derives at once                                 *)

VARIABLES ss,    \* [Party -> [Party -> session state]]
          sess,  \* [Party -> [key -> session]], key = <<peer, own, peer's key>>
          nk,    \* [Party -> number of session keys generated]
          priv,  \* [Party -> own session keys whose private part is kept]
          net,   \* messages ever sent
          got    \* identifiers of messages decrypted so far

vars == <<ss, sess, nk, priv, net, got>>

NoKey == <<"none", 0>>
KI(p) == <<p, 0>>            \* the published key of p
Key(p, n) == <<p, n>>        \* the n-th session key of p
NoState == [own |-> NoKey]
NoRoot == [s |-> NoKey, r |-> NoKey, prev |-> <<>>]

Root(s, r, prev) == [s |-> s, r |-> r, prev |-> prev]

Peers(p) == Party \ {p}

Init == /\ ss = [p \in Party |-> [q \in Party |-> NoState]]
        /\ sess = [p \in Party |-> <<>>]
        /\ nk = [p \in Party |-> 0]
        /\ priv = [p \in Party |-> {}]
        /\ net = {}
        /\ got = {}

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

(* storing a session under an existing key only appends message keys        *)
Store(f, k, root, n) ==
  IF k \in DOMAIN f THEN [f EXCEPT ![k].n = @ + n, ![k].chains = @ + 1]
  ELSE Put(f, k, [root |-> root, n |-> n, chains |-> 1, send |-> {}, recv |-> {}])

-----------------------------------------------------------------------------
(* Encryption by p for q. The local outcome is a record; it does not depend *)
(* on anything outside p.                                                   *)
(* renew: the coin that decides about announcing a next session key; nym:   *)
(* the address for answers, which the peer takes over with a new session    *)
Enc(p, q, renew, status, nym) ==
  LET s0 == ss[p][q]
      start == s0 = NoState \/ status = "reset"
      announce == ~start /\ status # "error" /\ s0.next = NoKey /\ renew
      fresh == start \/ announce
      k == Key(p, nk[p] + 1)
      s1 == IF start
            THEN [own |-> k, peer |-> KI(q), cnt |-> 0, n |-> 0,
                  next |-> NoKey, seen |-> NoKey, ki |-> TRUE, nym |-> 0]
            ELSE IF announce THEN [s0 EXCEPT !.next = k] ELSE s0
      key == <<q, s1.own, s1.peer>>
      f1 == IF start THEN Store(sess[p], key, Root(k, KI(q), <<>>), NK) ELSE sess[p]
      f2 == IF s1.n >= f1[key].n THEN [f1 EXCEPT ![key].n = @ + NK] ELSE f1
  IN [s |-> s1, f |-> f2, key |-> key,
      nk |-> IF fresh THEN nk[p] + 1 ELSE nk[p],
      priv |-> IF fresh THEN priv[p] \cup {k} ELSE priv[p],
      m |-> [from |-> p, to |-> q, own |-> s1.own, peer |-> s1.peer,
             next |-> s1.next, seen |-> s1.seen, idx |-> s1.n, cnt |-> s1.cnt,
             root |-> f2[key].root, status |-> status, nym |-> nym]]

Encrypt(p, q, renew, status, nym, id) ==
  LET e == Enc(p, q, renew, status, nym) IN
  /\ e.s.n \notin e.f[e.key].send          \* the key is unused
  /\ ss' = [ss EXCEPT ![p][q] = [e.s EXCEPT !.n = @ + 1]]
  /\ sess' = [sess EXCEPT ![p] = [e.f EXCEPT ![e.key].send = @ \cup {e.s.n}]]
  /\ nk' = [nk EXCEPT ![p] = e.nk]
  /\ priv' = [priv EXCEPT ![p] = e.priv]
  /\ net' = net \cup {[id |-> id] @@ e.m}
  /\ UNCHANGED got

(* where the message is delivered to: nowhere if it is an error status *)
Address(p, q, renew, status) ==
  IF status = "error" /\ ss[p][q] # NoState THEN -1 ELSE Enc(p, q, renew, status, 0).s.nym

(* The content does not fit: nothing is sent and no message key is used up, *)
(* but a session may have been opened or a renewal announced.               *)
Refused(p, q, renew) ==
  LET e == Enc(p, q, renew, "ok", 0) IN
  /\ ss' = [ss EXCEPT ![p][q] = e.s]
  /\ sess' = [sess EXCEPT ![p] = e.f]
  /\ nk' = [nk EXCEPT ![p] = e.nk]
  /\ priv' = [priv EXCEPT ![p] = e.priv]
  /\ UNCHANGED <<net, got>>

-----------------------------------------------------------------------------
(* Decryption of m by its addressee: local outcome.                         *)
Before(q, p) == Rank[q] < Rank[p]

(* what the header makes p do to its session state before the content is    *)
(* looked at                                                                *)
Adopt(p, m) ==
  LET q == m.from
      own == m.peer
      peer == m.own
      key == <<q, own, peer>>
      s == ss[p][q]
      k == Key(p, nk[p] + 1)
      same == [s |-> s, f |-> sess[p], fresh |-> FALSE, del |-> {}]
  IN IF key \notin DOMAIN sess[p]
     THEN IF own # KI(p) THEN same
          ELSE LET root == Root(peer, own, <<>>)
                   f1 == Store(sess[p], key, root, NK)
               IN IF s = NoState \/ (s.ki /\ Before(q, p))
                  THEN [s |-> [own |-> own, peer |-> peer, cnt |-> 0, n |-> 0,
                               next |-> k, seen |-> m.next, ki |-> FALSE, nym |-> m.nym],
                        f |-> IF m.next = NoKey THEN f1
                              ELSE Store(f1, <<q, k, m.next>>, Root(k, m.next, <<root>>), NK),
                        fresh |-> TRUE, del |-> {}]
                  ELSE [same EXCEPT !.f = f1]
     ELSE LET root == sess[p][key].root
              r == IF own = s.own /\ peer = s.peer
                   THEN IF m.next = NoKey THEN same
                        ELSE IF s.next = NoKey
                        THEN [s |-> [s EXCEPT !.next = k,
                                              !.seen = IF @ = NoKey THEN m.next ELSE @],
                              f |-> Store(sess[p], <<q, k, m.next>>, Root(k, m.next, <<root>>), NK),
                              fresh |-> TRUE, del |-> {}]
                        ELSE IF m.seen = s.next
                        THEN [s |-> [own |-> s.next, peer |-> m.next, cnt |-> s.cnt + s.n, n |-> 0,
                                     next |-> NoKey, seen |-> NoKey, ki |-> FALSE, nym |-> m.nym],
                              f |-> Store(sess[p], <<q, s.next, m.next>>,
                                          Root(m.next, s.next, <<root>>), NK),
                              fresh |-> FALSE, del |-> {}]
                        ELSE same
                   ELSE IF s.next # NoKey /\ s.seen # NoKey /\ s.next = own /\ s.seen = peer
                   THEN [same EXCEPT !.s = [own |-> s.next, peer |-> peer, cnt |-> s.cnt + s.n, n |-> 0,
                                            next |-> NoKey, seen |-> NoKey, ki |-> FALSE, nym |-> m.nym]]
                   ELSE same
          IN [r EXCEPT !.del = {own}]

Dec(p, m) ==
  LET a == Adopt(p, m)
      key == <<m.from, m.peer, m.own>>
      known == key \in DOMAIN a.f
      short == known /\ m.idx >= a.f[key].n
      (* whole batches covering the number asked for *)
      batch == (((m.idx - a.f[key].n) \div NK) + 1) * NK
      tooMany == short /\ m.idx - a.f[key].n >= Limit
      f == IF short /\ ~tooMany THEN [a.f EXCEPT ![key].n = @ + batch] ELSE a.f
      ok == /\ known
            /\ ~tooMany
            /\ m.idx \notin f[key].recv
            /\ f[key].root = m.root
  IN [s |-> a.s,
      f |-> IF ok THEN [f EXCEPT ![key].recv = @ \cup {m.idx}] ELSE f,
      nk |-> IF a.fresh THEN nk[p] + 1 ELSE nk[p],
      priv |-> (IF a.fresh THEN priv[p] \cup {Key(p, nk[p] + 1)} ELSE priv[p]) \ a.del,
      res |-> IF ok THEN "ok" ELSE "err"]

Decrypt(m, res) ==
  LET p == m.to
      d == Dec(p, m)
  IN /\ res = d.res
     /\ ss' = [ss EXCEPT ![p][m.from] = d.s]
     /\ sess' = [sess EXCEPT ![p] = d.f]
     /\ nk' = [nk EXCEPT ![p] = d.nk]
     /\ priv' = [priv EXCEPT ![p] = d.priv]
     /\ got' = IF res = "ok" THEN got \cup {m.id} ELSE got
     /\ UNCHANGED net

(* The message is altered on its way (the body, not the header): it is      *)
(* refused, but its header was honest and is acted upon; no key is used up. *)
BadBody(m) ==
  LET p == m.to
      d == Dec(p, m)
      a == Adopt(p, m)
      key == <<m.from, m.peer, m.own>>
  IN /\ ss' = [ss EXCEPT ![p][m.from] = d.s]
     /\ sess' = [sess EXCEPT ![p] = IF d.res = "ok" THEN [d.f EXCEPT ![key].recv = @ \ {m.idx}] ELSE d.f]
     /\ nk' = [nk EXCEPT ![p] = d.nk]
     /\ priv' = [priv EXCEPT ![p] = d.priv]
     /\ UNCHANGED <<net, got>>

Next == \/ \E p \in Party : \E q \in Peers(p), renew \in BOOLEAN, st \in {"ok", "reset", "error"} :
             /\ Cardinality(net) < MaxMsg
             /\ Encrypt(p, q, renew, st, 0, Cardinality(net) + 1)
        \/ \E m \in net, r \in {"ok", "err"} : Decrypt(m, r)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* C01: a message that was not decrypted yet decrypts now, whatever happened *)
Deliverable == \A m \in net : m.id \notin got => Dec(m.to, m).res = "ok"
(* ... and one that was, does not *)
OnlyOnce == \A m \in net : m.id \in got => Dec(m.to, m).res = "err"
(* an encryption is always possible *)
CanEncrypt == \A p \in Party : \A q \in Peers(p), renew \in BOOLEAN :
                LET e == Enc(p, q, renew, "ok", 0) IN e.s.n \notin e.f[e.key].send

(* C03: no two messages share a key *)
KeysOnce == \A m1, m2 \in net :
              m1.id # m2.id /\ m1.from = m2.from => <<m1.root, m1.idx>> # <<m2.root, m2.idx>>
(* sessions known to both sides have the same root *)
Agreement == \A p \in Party : \A q \in Peers(p) : \A k \in DOMAIN sess[p] :
               k[1] = q => LET o == <<p, k[3], k[2]>> IN
                           o \in DOMAIN sess[q] => sess[q][o].root = sess[p][k].root
(* a session is agreed on once: all its message keys come from one chain *)
OneChain == \A p \in Party : \A k \in DOMAIN sess[p] : sess[p][k].chains = 1
StillNeeded == \A p \in Party : \A q \in Peers(p) :
                 ss[p][q] # NoState /\ ss[p][q].next # NoKey => ss[p][q].next \in priv[p]
(* after a message was received in a session, the private session key of it is gone *)
Erased == \A p \in Party : \A k \in DOMAIN sess[p] :
            (sess[p][k].recv # {} /\ k[2] # KI(p)) => k[2] \notin priv[p]
=============================================================================
