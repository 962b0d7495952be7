------------------------------ MODULE KeyPool ------------------------------
(* Pools of the public keys that issuers sign tokens with.  made: all keys  *)
(* that exist, genuine ones and altered ones; pools: name -> what it is     *)
(* configured for (usage, or any if ""; t: lifetime of the keys it          *)
(* generates; gen: the signer whose key it holds, 0 if none; dir, db, db2:  *)
(* the storages it uses), whom it trusts, the keys it knows, and the        *)
(* current and previous signing key.  sdir, sdb, sdb2: the storages, id ->  *)
(* key.                                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES now, made, pools, sdir, sdb, sdb2, broken
vars == <<now, made, pools, sdir, sdb, sdb2, broken>>

(* alterations after which a key still carries the identity of the one it   *)
(* was made from                                                            *)
SameId == {"x", "y", "expire", "usage", "signer", "sig", "resign", "shift"}
Genuine(k) == made[k].alt = "none"
Id(k) == made[k].id

Reasons(p, k) ==
  (IF pools[p].usage # "" /\ made[k].usage # pools[p].usage THEN {"usage"} ELSE {})
  \cup (IF made[k].exp < now THEN {"expired"} ELSE {})
  \cup (IF made[k].signer \notin pools[p].trust \/ ~Genuine(k) THEN {"signer"} ELSE {})
Ids(S) == {Id(k) : k \in S}
Known(p) == pools[p].known
(* known keys after some more were offered *)
After(p, S) == Known(p) \cup {k \in S : Reasons(p, k) = {} /\ Id(k) \notin Ids(Known(p))}
Learn(p, S) == pools' = [pools EXCEPT ![p].known = After(p, S)]

Range(f) == {f[x] : x \in DOMAIN f}
Init == now = 5 /\ made = <<>> /\ pools = <<>> /\ sdir = <<>> /\ sdb = <<>> /\ sdb2 = <<>> /\ broken = {}

Advance(d) == now' = now + 10 * d /\ UNCHANGED <<made, pools, sdir, sdb, sdb2, broken>>
NewPool(p, usage, t, gen, dir, db, db2) ==
  /\ pools' = (p :> [usage |-> usage, t |-> t, gen |-> gen, dir |-> dir, db |-> db, db2 |-> db2, trust |-> {}, known |-> {}, cur |-> 0, prev |-> 0]) @@ pools
  /\ UNCHANGED <<now, made, sdir, sdb, sdb2, broken>>
Trust(p, s) == pools' = [pools EXCEPT ![p].trust = @ \cup {s}] /\ UNCHANGED <<now, made, sdir, sdb, sdb2, broken>>
Make(k) == made' = Append(made, k) /\ UNCHANGED <<now, pools, sdir, sdb, sdb2, broken>>
LoadRes(p, k) == IF Reasons(p, k) # {} THEN Reasons(p, k) ELSE IF Id(k) \in Ids(Known(p)) THEN {"exists"} ELSE {"ok"}
LoadKey(p, k) == Learn(p, {k}) /\ UNCHANGED <<now, made, sdir, sdb, sdb2, broken>>

(* the key with identity i the pool has, 0 if none *)
Has0(p, i) == LET S == {k \in Known(p) : Id(k) = i} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE
(* what the databases have for it: the second one is asked if the first one *)
(* does not have the key                                                    *)
Fetched(p, i) == IF pools[p].db /\ i \in DOMAIN sdb THEN {sdb[i]}
                 ELSE IF pools[p].db2 /\ i \in DOMAIN sdb2 THEN {sdb2[i]} ELSE {}
(* what looking up i may give: results and the key *)
LookupOut(p, i) ==
  LET k == Has0(p, i) IN
  IF k # 0 THEN (IF made[k].exp > now THEN {<<"ok", k>>} ELSE {<<"expired", 0>>})
  ELSE LET F == Fetched(p, i) IN
       IF F = {} THEN {<<"notfound", 0>>}
       ELSE LET f == CHOOSE f \in F : TRUE IN
            IF Reasons(p, f) # {} THEN {<<r, 0>> : r \in {"notfound"} \cup Reasons(p, f)}
            ELSE IF Id(f) = i THEN {<<"ok", f>>} ELSE {<<"notfound", 0>>}
LookupNew(p, i) == IF Has0(p, i) # 0 THEN {} ELSE Fetched(p, i)
Lookup(p, i) == Learn(p, LookupNew(p, i)) /\ UNCHANGED <<now, made, sdir, sdb, sdb2, broken>>

(* writing a key to the storage of a pool: directory first, then the        *)
(* databases; a database keeps the first key of an identity                 *)
DirFails(p) == pools[p].dir /\ "dir" \in broken
DbFails(p, k) == pools[p].db /\ IF Id(k) \in DOMAIN sdb THEN sdb[Id(k)] # k ELSE "db" \in broken
Db2Fails(p, k) == pools[p].db2 /\ IF Id(k) \in DOMAIN sdb2 THEN sdb2[Id(k)] # k ELSE "db2" \in broken
WriteFails(p, k) == DirFails(p) \/ DbFails(p, k) \/ Db2Fails(p, k)
Write(p, k) ==
  /\ sdir' = IF pools[p].dir /\ ~DirFails(p) THEN (Id(k) :> k) @@ sdir ELSE sdir
  /\ sdb' = IF pools[p].db /\ ~DirFails(p) /\ ~DbFails(p, k) THEN (Id(k) :> k) @@ sdb ELSE sdb
  /\ sdb2' = IF pools[p].db2 /\ ~WriteFails(p, k) THEN (Id(k) :> k) @@ sdb2 ELSE sdb2

(* the signing key has at least half of its life ahead *)
Fresh(p) == pools[p].cur # 0 /\ made[pools[p].cur].exp >= now + pools[p].t \div 2
NewKey(p) == [signer |-> pools[p].gen, usage |-> pools[p].usage, exp |-> now + pools[p].t, alt |-> "none", id |-> Len(made) + 1]
CurrentRes(p) ==
  IF pools[p].gen = 0 THEN "nogen"
  ELSE IF Fresh(p) THEN "ok"
  ELSE IF DirFails(p) \/ (pools[p].db /\ "db" \in broken) \/ (pools[p].db2 /\ "db2" \in broken) THEN "err" ELSE "ok"
Current(p) ==
  IF CurrentRes(p) # "ok" \/ Fresh(p) THEN UNCHANGED vars
  ELSE LET k == Len(made) + 1 IN
       /\ made' = Append(made, NewKey(p))
       /\ pools' = [pools EXCEPT ![p].prev = pools[p].cur, ![p].cur = k, ![p].known = @ \cup {k}]
       /\ sdir' = IF pools[p].dir THEN (k :> k) @@ sdir ELSE sdir
       /\ sdb' = IF pools[p].db THEN (k :> k) @@ sdb ELSE sdb
       /\ sdb2' = IF pools[p].db2 THEN (k :> k) @@ sdb2 ELSE sdb2
       /\ UNCHANGED <<now, broken>>

SaveRes(p, i) == LET k == Has0(p, i) IN
  IF k = 0 THEN "notfound" ELSE IF made[k].exp <= now THEN "expired" ELSE IF WriteFails(p, k) THEN "err" ELSE "ok"
Save(p, i) == LET k == Has0(p, i) IN
  IF SaveRes(p, i) \in {"notfound", "expired"} THEN UNCHANGED vars
  ELSE Write(p, k) /\ UNCHANGED <<now, made, pools, broken>>

Stored(p) == (IF pools[p].dir THEN Range(sdir) ELSE {}) \cup (IF pools[p].db THEN Range(sdb) ELSE {})
  \cup (IF pools[p].db2 THEN Range(sdb2) ELSE {})
LoadAll(p) == Learn(p, Stored(p)) /\ UNCHANGED <<now, made, sdir, sdb, sdb2, broken>>
(* somebody writes to the storage *)
Plant(store, k, i) ==
  /\ sdir' = IF store = "dir" THEN (i :> k) @@ sdir ELSE sdir
  /\ sdb' = IF store = "db" THEN (i :> k) @@ sdb ELSE sdb
  /\ sdb2' = IF store = "db2" THEN (i :> k) @@ sdb2 ELSE sdb2
  /\ UNCHANGED <<now, made, pools, broken>>
Break(store, on) == broken' = (IF on THEN broken \cup {store} ELSE broken \ {store}) /\ UNCHANGED <<now, made, pools, sdir, sdb, sdb2>>

(* ------------------------------------------------------------ properties *)
(* only genuine keys of trusted signers and the right usage are known *)
Sound == \A p \in DOMAIN pools : \A k \in Known(p) :
  /\ Genuine(k)
  /\ made[k].signer \in pools[p].trust \/ made[k].signer = pools[p].gen
  /\ pools[p].usage = "" \/ made[k].usage = pools[p].usage
OneEach == \A p \in DOMAIN pools : \A k, j \in Known(p) : Id(k) = Id(j) => k = j
=============================================================================
