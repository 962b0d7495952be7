-------------------------------- MODULE Recv --------------------------------
(* Verifying and receiving tokens.                                          *)
(* keys: issuing keys [signer, u: usage, exp]; toks: tokens, genuine ones   *)
(* and altered ones [dec: it can be decoded, k: key it names (0: one that   *)
(* does not exist), o: owner, id: what is signed (key, owner and nonce),    *)
(* ok: carries a signature of that by that key, kf: carries a forged        *)
(* signature, see KF2, hint: the key it may name if it is damaged].  trusted: the issuers the client trusts, stored:    *)
(* the list of them in its wallet; list: the list of the lookup service;    *)
(* pool: the keys the client knows; has: ids of tokens in its wallet.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES now, keys, toks, trusted, stored, list, pool, on, has
vars == <<now, keys, toks, trusted, stored, list, pool, on, has>>

Owners == {"me", "a", "b"}
Init == now = 0 /\ keys = <<>> /\ toks = <<>> /\ trusted = {} /\ stored = {} /\ list = {"s1", "s2"} /\ pool = {} /\ on = FALSE /\ has = {}

Key(signer, u, life) == keys' = Append(keys, [signer |-> signer, u |-> u, exp |-> now + life]) /\ UNCHANGED <<now, toks, trusted, stored, list, pool, on, has>>
Advance(d) == now' = now + d /\ UNCHANGED <<keys, toks, trusted, stored, list, pool, on, has>>
Tok(t) == toks' = Append(toks, t) /\ UNCHANGED <<now, keys, trusted, stored, list, pool, on, has>>
Token(k, o) == Tok([dec |-> TRUE, k |-> k, o |-> o, id |-> Len(toks) + 1, ok |-> TRUE, kf |-> FALSE, hint |-> 0])

(* what an alteration f of token t makes of it *)
Content == {"key", "unkkey", "owner", "flag", "nonce", "bitowner"}
Signature == {"r", "s", "rx", "ry", "zero", "zeror", "zeropt", "neg"}
Broken == {"shift", "shiftkey", "cut", "byte", "empty"}   \* not decodable, or another content or signature
Altered(t, f, v, o) ==
  LET x == toks[t]
      y == [x EXCEPT !.id = Len(toks) + 1, !.ok = FALSE, !.kf = FALSE]
  IN CASE ~x.dec -> x
       [] f \in {"same", "mod", "trail"} -> x
       [] f = "key" -> IF x.k = v THEN x ELSE [y EXCEPT !.k = v]
       [] f = "unkkey" -> [y EXCEPT !.k = 0]
       [] f = "owner" -> IF x.o = o THEN x ELSE [y EXCEPT !.o = o]
       [] f = "flag" -> [y EXCEPT !.o = IF x.o = "none" THEN "junk" ELSE "none"]
       [] f = "nonce" -> y
       [] f = "bitowner" -> [y EXCEPT !.o = IF x.o = "none" THEN "none" ELSE "junk"]
       [] f \in Signature -> [x EXCEPT !.ok = FALSE, !.kf = FALSE]
       [] f = "sigof" -> [x EXCEPT !.ok = toks[v].dec /\ toks[v].id = x.id /\ toks[v].ok, !.kf = toks[v].dec /\ toks[v].id = x.id /\ toks[v].kf]
       [] f = "forge" -> [y EXCEPT !.k = v, !.kf = TRUE, !.id = IF x.k = v THEN x.id ELSE @]
       [] f \in Broken -> [y EXCEPT !.dec = FALSE, !.k = 0, !.hint = IF f = "byte" THEN x.k ELSE 0]

Restart == trusted' = {} /\ pool' = {} /\ on' = FALSE /\ UNCHANGED <<now, keys, toks, stored, list, has>>
(* going online trusts the issuers last known, and their list is fetched if *)
(* the client was online already                                            *)
Online(b) ==
  /\ on' = b /\ stored' = (IF b /\ on THEN list ELSE stored)
  /\ trusted' = (IF b THEN trusted \cup stored' ELSE trusted)
  /\ UNCHANGED <<now, keys, toks, list, pool, has>>
(* the list of trusted issuers is taken over if it is genuine *)
List(l, mode) ==
  /\ list' = l
  /\ IF on /\ mode = "ok" THEN stored' = l /\ trusted' = trusted \cup l
     ELSE stored' = stored /\ trusted' = trusted \cup stored
  /\ UNCHANGED <<now, keys, toks, pool, on, has>>

(* the client can get at the key a token names *)
Usable(k) == keys[k].signer \in trusted /\ keys[k].exp > now
Known(t) == toks[t].dec /\ toks[t].k # 0 /\ toks[t].k \in pool
Fetched(t, mode) == toks[t].dec /\ toks[t].k # 0 /\ toks[t].k \notin pool /\ on /\ mode = "ok" /\ keys[toks[t].k].signer \in trusted /\ keys[toks[t].k].exp >= now
Valid(t, mode) == (Known(t) \/ Fetched(t, mode)) /\ keys[toks[t].k].exp >= now /\ toks[t].ok
(* a token that is damaged somewhere may still name its key *)
Hint(t, mode) == LET k == toks[t].hint IN k # 0 /\ k \notin pool /\ on /\ mode = "ok" /\ keys[k].signer \in trusted /\ keys[k].exp >= now
Learn(t, mode) == \/ pool' = IF Fetched(t, mode) THEN pool \cup {toks[t].k} ELSE pool
                  \/ Hint(t, mode) /\ pool' = pool \cup {toks[t].hint}
(* the last second of a key may count or not *)
Edge(t) == toks[t].dec /\ toks[t].k # 0 /\ keys[toks[t].k].exp = now
Verify(t, mode) == Learn(t, mode) /\ UNCHANGED <<now, keys, toks, trusted, stored, list, on, has>>
Acceptable(t, u, mode) == Valid(t, mode) /\ keys[toks[t].k].u = u /\ toks[t].o = "me" /\ toks[t].id \notin has
Receive(t, u, mode, acc) ==
  /\ Learn(t, mode)
  /\ has' = IF acc THEN has \cup {toks[t].id} ELSE has
  /\ UNCHANGED <<now, keys, toks, trusted, stored, list, on>>
=============================================================================
