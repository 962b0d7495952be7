------------------------------- MODULE KeyDB -------------------------------
(* The key database as an ideal store: finite maps, and nothing else.       *)
(* Every operation takes its result as a parameter.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS None

VARIABLES vals,   \* key -> value
          puid,   \* own identities: <<identity, number>> -> reply (or None)
          pki,    \* own key initialisation messages: <<identity, number>>
          oki,    \* others' key initialisation messages: <<identity, number>>
          ouid,   \* others' identities: <<identity, position>> -> number
          sess,   \* sessions: key -> [root, chain, send, recv]
          states, \* session states: key -> value
          skeys,  \* session keys: hash -> [v, priv]
          chain   \* hash chains: <<domain, position>> -> entry

vars == <<vals, puid, pki, oki, ouid, sess, states, skeys, chain>>

Init == /\ vals = <<>> /\ puid = <<>> /\ pki = {} /\ oki = {} /\ ouid = <<>>
        /\ sess = <<>> /\ states = <<>> /\ skeys = <<>> /\ chain = <<>>

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE None
Top(S) == CHOOSE x \in S : \A y \in S : y <= x

(* values *)
SetVal(k, v) == vals' = Put(vals, k, v) /\ UNCHANGED <<puid, pki, oki, ouid, sess, states, skeys, chain>>
GetVal(k, v) == v = Get(vals, k) /\ UNCHANGED vars

(* own identities: the latest message of an identity is the current one *)
AddPUID(i, n) == /\ <<i, n>> \notin DOMAIN puid
                 /\ puid' = Put(puid, <<i, n>>, None)
                 /\ UNCHANGED <<vals, pki, oki, ouid, sess, states, skeys, chain>>
AddReply(i, n, r) == /\ puid' = IF <<i, n>> \in DOMAIN puid THEN Put(puid, <<i, n>>, r) ELSE puid
                     /\ UNCHANGED <<vals, pki, oki, ouid, sess, states, skeys, chain>>
DelPUID(i, n) == /\ puid' = Without(puid, {<<i, n>>})
                 /\ UNCHANGED <<vals, pki, oki, ouid, sess, states, skeys, chain>>
Own(i) == {x[2] : x \in {x \in DOMAIN puid : x[1] = i}}
GetPUID(i, res, n, r) ==
  /\ IF Own(i) = {} THEN res = "err"
     ELSE res = "ok" /\ n = Top(Own(i)) /\ r = puid[<<i, n>>]
  /\ UNCHANGED vars
Ids == {x[1] : x \in DOMAIN puid}
ListIDs(s) == s = Ids /\ UNCHANGED vars
ListDom(d, dom, s) == s = {i \in Ids : dom[i] = d} /\ UNCHANGED vars

(* key initialisation messages *)
AddPKI(i, n) == pki' = pki \cup {<<i, n>>} /\ UNCHANGED <<vals, puid, oki, ouid, sess, states, skeys, chain>>
GetPKI(i, n, res) == res = (IF <<i, n>> \in pki THEN "ok" ELSE "err") /\ UNCHANGED vars
AddOKI(i, n) == oki' = oki \cup {<<i, n>>} /\ UNCHANGED <<vals, puid, pki, ouid, sess, states, skeys, chain>>
GetOKI(i, res, n) == /\ LET S == {x \in oki : x[1] = i} IN
                          IF S = {} THEN res = "err" ELSE res = "ok" /\ <<i, n>> \in S
                     /\ UNCHANGED vars

(* others' identities: the one with the highest position not above the bound *)
AddOUID(i, n, pos) == /\ <<i, pos>> \notin DOMAIN ouid
                      /\ ouid' = Put(ouid, <<i, pos>>, n)
                      /\ UNCHANGED <<vals, puid, pki, oki, sess, states, skeys, chain>>
GetOUID(i, max, found, n, pos) ==
  /\ LET S == {x[2] : x \in {x \in DOMAIN ouid : x[1] = i /\ x[2] <= max}} IN
       IF S = {} THEN ~found ELSE found /\ pos = Top(S) /\ n = ouid[<<i, pos>>]
  /\ UNCHANGED vars

(* sessions: storing a known one appends message keys and advances the chain *)
AddSess(s, root, ck, send, recv, res) ==
  IF Len(send) # Len(recv) \/ s = "" \/ root = None \/ ck = None
  THEN res = "err" /\ UNCHANGED vars
  ELSE /\ res = "ok"
       /\ sess' = Put(sess, s, IF s \in DOMAIN sess
                               THEN [sess[s] EXCEPT !.chain = ck, !.send = @ \o send, !.recv = @ \o recv]
                               ELSE [root |-> root, chain |-> ck, send |-> send, recv |-> recv])
       /\ UNCHANGED <<vals, puid, pki, oki, ouid, states, skeys, chain>>
GetSess(s, res, root, ck, n) ==
  /\ IF s \notin DOMAIN sess THEN res = "err"
     ELSE res = "ok" /\ root = sess[s].root /\ ck = sess[s].chain /\ n = Len(sess[s].send)
  /\ UNCHANGED vars
Keys(s, sender) == IF sender THEN sess[s].send ELSE sess[s].recv
GetMK(s, sender, i, res, k) ==
  /\ IF s \notin DOMAIN sess THEN res = "err"
     ELSE IF i >= Len(Keys(s, sender)) THEN res = "err"
     ELSE IF Keys(s, sender)[i + 1] = None THEN res = "err"
     ELSE res = "ok" /\ k = Keys(s, sender)[i + 1]
  /\ UNCHANGED vars
(* deleting a key that is not there is not an error, unless the session is unknown *)
DelMK(s, sender, i, res) ==
  /\ res = IF s \in DOMAIN sess THEN "ok" ELSE "err"
  /\ sess' = IF s \notin DOMAIN sess THEN sess
             ELSE IF i >= Len(Keys(s, sender)) THEN sess
             ELSE IF sender THEN [sess EXCEPT ![s].send[i + 1] = None]
             ELSE [sess EXCEPT ![s].recv[i + 1] = None]
  /\ UNCHANGED <<vals, puid, pki, oki, ouid, states, skeys, chain>>

SetState(k, v) == states' = Put(states, k, v) /\ UNCHANGED <<vals, puid, pki, oki, ouid, sess, skeys, chain>>
GetState(k, v) == v = Get(states, k) /\ UNCHANGED vars

AddSK(h, v) == /\ h \notin DOMAIN skeys
               /\ skeys' = Put(skeys, h, [v |-> v, priv |-> TRUE])
               /\ UNCHANGED <<vals, puid, pki, oki, ouid, sess, states, chain>>
GetSK(h, res, v, priv) ==
  /\ IF h \notin DOMAIN skeys THEN res = "err" ELSE res = "ok" /\ skeys[h] = [v |-> v, priv |-> priv]
  /\ UNCHANGED vars
DelSK(h) == /\ skeys' = IF h \in DOMAIN skeys THEN [skeys EXCEPT ![h].priv = FALSE] ELSE skeys
            /\ UNCHANGED <<vals, puid, pki, oki, ouid, sess, states, chain>>

AddHC(d, pos, e) == /\ <<d, pos>> \notin DOMAIN chain
                    /\ chain' = Put(chain, <<d, pos>>, e)
                    /\ UNCHANGED <<vals, puid, pki, oki, ouid, sess, states, skeys>>
Poss(d) == {x[2] : x \in {x \in DOMAIN chain : x[1] = d}}
GetHC(d, pos, res, e) == /\ IF <<d, pos>> \in DOMAIN chain THEN res = "ok" /\ e = chain[<<d, pos>>] ELSE res = "err"
                         /\ UNCHANGED vars
LastPos(d, found, pos) == /\ IF Poss(d) = {} THEN ~found ELSE found /\ pos = Top(Poss(d))
                          /\ UNCHANGED vars
LastHC(d, res, e) == /\ IF Poss(d) = {} THEN res = "err" ELSE res = "ok" /\ e = chain[<<d, Top(Poss(d))>>]
                     /\ UNCHANGED vars
DelHC(d) == /\ chain' = Without(chain, {x \in DOMAIN chain : x[1] = d})
            /\ UNCHANGED <<vals, puid, pki, oki, ouid, sess, states, skeys>>

(* closing and opening again, a new passphrase, housekeeping *)
Still == UNCHANGED vars
=============================================================================
