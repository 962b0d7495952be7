--------------------------- MODULE WalletStore ---------------------------
(* The token store of the wallet: tokens with usage, owner, expiry and      *)
(* optional state of an unfinished exchange; locks that reserve a token for *)
(* one user of the store; cached credentials.  Every public operation of    *)
(* the store is one action (they are the linearization points); an action   *)
(* takes its arguments and the result it returns.                           *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Hash,    \* token identifiers
          Usage, Owner, Ver, Exp, Kind, Cred

(* Exp: 1 = expired beyond repair, 2 = expired, within the renewal edge,    *)
(* 3 = valid, within the renewal edge, 4.. = valid for long                 *)
Unusable == {1}
Edge == {1, 2, 3}

(* Kind of the exchange state stored with a token *)
StateKinds == {"packet", "blind", "newpriv"}

VARIABLES tok,     \* [Hash -> token or None]
          lock,    \* [Hash -> {"no", "mine", "other"}]
          cred,    \* cached credentials [auth, tries, keys]
          disk,    \* the credentials a reopened store knows
          handed   \* token given out by the last operation, or "none"

vars == <<tok, lock, cred, disk, handed>>

None == [u |-> "none"]
Stored == {h \in Hash : tok[h] # None}
NoCred == [auth |-> "none", tries |-> 0, keys |-> {}]

Init == /\ tok = [h \in Hash |-> None]
        /\ lock = [h \in Hash |-> "no"]
        /\ cred = NoCred /\ disk = NoCred
        /\ handed = "none"

Token(u, o, self, exp, ren, kind, par, v) ==
  [u |-> u, o |-> o, self |-> self, exp |-> exp, ren |-> ren,
   kind |-> kind, par |-> par, v |-> v]

InExchange(t) == t.kind \in StateKinds
Free(h) == h \in Stored /\ lock[h] = "no" /\ ~InExchange(tok[h])

Own(u) == {h \in Stored : Free(h) /\ tok[h].self /\ tok[h].u = u}
(* o = "any": every owner but ourselves *)
Foreign(u, o) == {h \in Stored : /\ Free(h) /\ ~tok[h].self /\ tok[h].u = u
                                 /\ (o = "any" \/ tok[h].o = o)}
First(S) == {h \in S : \A g \in S : tok[h].exp <= tok[g].exp}

SetToken(h, t) ==
  /\ tok' = [tok EXCEPT ![h] = t]
  /\ handed' = "none"
  /\ UNCHANGED <<lock, cred, disk>>      \* an update keeps the lock

(* who: "noid" reads regardless of locks; "mine" presents the identifier of *)
(* the lock taken last with Lock; "wrong" another one                       *)
GetToken(h, who, res) ==
  /\ res = IF tok[h] = None THEN "none"
           ELSE IF who = "noid" \/ lock[h] = "no" \/ (who = "mine" /\ lock[h] = "mine")
                THEN "ok" ELSE "locked"
  /\ handed' = "none"
  /\ UNCHANGED <<tok, lock, cred, disk>>

Lock(h, res) ==
  /\ res = IF tok[h] # None /\ lock[h] = "no" THEN "ok" ELSE "fail"
  /\ lock' = IF res = "ok" THEN [lock EXCEPT ![h] = "mine"] ELSE lock
  /\ handed' = IF res = "ok" THEN h ELSE "none"
  /\ UNCHANGED <<tok, cred, disk>>

Unlock(h) ==
  /\ lock' = [lock EXCEPT ![h] = "no"]
  /\ handed' = "none"
  /\ UNCHANGED <<tok, cred, disk>>

Del(h) ==
  /\ tok' = [tok EXCEPT ![h] = None]
  /\ lock' = [lock EXCEPT ![h] = "no"]
  /\ handed' = "none"
  /\ UNCHANGED <<cred, disk>>

(* the earliest expiring free token is given out, reserved *)
GetAndLock(u, o, got) ==
  LET C == Foreign(u, o) IN
  /\ IF C = {} THEN got = "none" ELSE got \in First(C)
  /\ lock' = IF got = "none" THEN lock ELSE [lock EXCEPT ![got] = "other"]
  /\ handed' = got
  /\ UNCHANGED <<tok, cred, disk>>

(* several users at once: no token goes to two of them, and nobody goes     *)
(* away with a token that was reserved                                      *)
GetAndLockMany(u, o, n, gots) ==
  LET S == {gots[i] : i \in 1..Len(gots)} IN
  /\ Len(gots) <= n
  /\ Cardinality(S) = Len(gots)
  /\ S \subseteq Foreign(u, o)
  /\ lock' = [h \in Hash |-> IF h \in S THEN "other" ELSE lock[h]]
  /\ handed' = "none"
  /\ UNCHANGED <<tok, cred, disk>>

Find(u, got) ==
  /\ IF Own(u) = {} THEN got = "none" ELSE got \in First(Own(u))
  /\ handed' = "none"
  /\ UNCHANGED <<tok, lock, cred, disk>>

GetExpire(got) ==
  LET C == {h \in Stored : /\ Free(h) /\ tok[h].ren /\ ~tok[h].par
                           /\ tok[h].self /\ tok[h].exp \in Edge}
  IN /\ IF C = {} THEN got = "none" ELSE got \in First(C)
     /\ handed' = "none"
     /\ UNCHANGED <<tok, lock, cred, disk>>

GetInReissue(got) ==
  LET C == {h \in Stored : lock[h] = "no" /\ InExchange(tok[h])}
  IN /\ IF C = {} THEN got = "none" ELSE got \in First(C)
     /\ handed' = "none"
     /\ UNCHANGED <<tok, lock, cred, disk>>

BalanceOwn(u, n) == /\ n = Cardinality(Own(u))
                    /\ handed' = "none" /\ UNCHANGED <<tok, lock, cred, disk>>
Balance(u, o, n) == /\ n = Cardinality(Foreign(u, o))
                    /\ handed' = "none" /\ UNCHANGED <<tok, lock, cred, disk>>

(* at most ten at a time; more = call again *)
ExpireUnusable(gone, more) ==
  LET C == {h \in Stored : tok[h].exp \in Unusable}
  IN /\ gone \subseteq C
     /\ Cardinality(gone) = IF Cardinality(C) > 10 THEN 10 ELSE Cardinality(C)
     /\ more = (Cardinality(C) >= 10)
     /\ tok' = [h \in Hash |-> IF h \in gone THEN None ELSE tok[h]]
     /\ lock' = [h \in Hash |-> IF h \in gone THEN "no" ELSE lock[h]]
     /\ handed' = "none"
     /\ UNCHANGED <<cred, disk>>

(* aged: all locks are older than the maximum age of a lock *)
CleanLocks(force, aged) ==
  /\ lock' = IF force \/ aged THEN [h \in Hash |-> "no"] ELSE lock
  /\ handed' = "none"
  /\ UNCHANGED <<tok, cred, disk>>

Reopen(aged) == /\ lock' = IF aged THEN [h \in Hash |-> "no"] ELSE lock
                /\ cred' = disk
                /\ handed' = "none"
                /\ UNCHANGED <<tok, disk>>

SetAuth(a, n) == /\ cred' = [cred EXCEPT !.auth = a, !.tries = n] /\ disk' = cred'
                 /\ handed' = "none" /\ UNCHANGED <<tok, lock>>
GetAuth(a, n) == /\ a = cred.auth /\ n = cred.tries
                 /\ handed' = "none" /\ UNCHANGED <<tok, lock, cred, disk>>
SetKeys(ks) == /\ cred' = [cred EXCEPT !.keys = ks] /\ disk' = cred'
               /\ handed' = "none" /\ UNCHANGED <<tok, lock>>
(* writing them failed: they may be in use, but a reopened store knows the old ones *)
SetAuthFails(a, n) == /\ cred' \in {cred, [cred EXCEPT !.auth = a, !.tries = n]}
                      /\ handed' = "none" /\ UNCHANGED <<tok, lock, disk>>
SetKeysFails(ks) == /\ cred' \in {cred, [cred EXCEPT !.keys = ks]}
                    /\ handed' = "none" /\ UNCHANGED <<tok, lock, disk>>
GetKeys(ks) == /\ ks = cred.keys
               /\ handed' = "none" /\ UNCHANGED <<tok, lock, cred, disk>>

Tokens == {Token(u, o, self, exp, ren, kind, par, v) :
             u \in Usage, o \in Owner, self \in BOOLEAN, exp \in Exp,
             ren \in BOOLEAN, kind \in Kind, par \in BOOLEAN, v \in Ver}

Next ==
  \/ \E h \in Hash, t \in Tokens : SetToken(h, t)
  \/ \E h \in Hash, w \in {"noid", "mine", "wrong"}, r \in {"ok", "none", "locked"} : GetToken(h, w, r)
  \/ \E h \in Hash, r \in {"ok", "fail"} : Lock(h, r)
  \/ \E h \in Hash : Unlock(h) \/ Del(h)
  \/ \E u \in Usage, o \in Owner \cup {"any"}, g \in Hash \cup {"none"} : GetAndLock(u, o, g)
  \/ \E u \in Usage, a, b \in Hash : GetAndLockMany(u, "any", 2, <<a, b>>)
  \/ \E u \in Usage, g \in Hash \cup {"none"} : Find(u, g) \/ GetExpire(g) \/ GetInReissue(g)
  \/ \E u \in Usage, n \in 0..Cardinality(Hash) : BalanceOwn(u, n) \/ Balance(u, "any", n)
  \/ \E g \in SUBSET Hash, m \in BOOLEAN : ExpireUnusable(g, m)
  \/ \E f, a \in BOOLEAN : CleanLocks(f, a)
  \/ \E a \in Cred, n \in {0, 1} : SetAuth(a, n) \/ GetAuth(a, n) \/ SetAuthFails(a, n)
  \/ \E ks \in SUBSET Cred : SetKeys(ks) \/ GetKeys(ks) \/ SetKeysFails(ks)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == /\ \A h \in Hash : tok[h] = None \/ tok[h] \in Tokens
          /\ lock \in [Hash -> {"no", "mine", "other"}]

(* only stored tokens are locked *)
LockedStored == \A h \in Hash : lock[h] # "no" => h \in Stored

(* A token is handed out only if nobody holds it, it is not being           *)
(* exchanged unless it was locked by name, and it is reserved from then on. *)
NoDoubleHand == [][handed' # "none" => lock[handed'] = "no" /\ lock'[handed'] # "no"]_vars

(* A reservation ends only by an unlock, deletion, purge or lock cleanup:   *)
(* it never passes from one user to another directly.                       *)
NoSteal == [][\A h \in Hash : lock[h] # "no" => lock'[h] \in {lock[h], "no"}]_vars

(* Tokens change only by the operation that names them or by the purge.     *)
ContentKept == [][\A h \in Hash :
                    tok'[h] # tok[h] => \/ tok'[h] # None
                                        \/ lock'[h] = "no"]_vars

(* What a reopened store knows changes only by writing what is in use.      *)
DiskFollows == [][disk' # disk => disk' = cred']_vars
=============================================================================
