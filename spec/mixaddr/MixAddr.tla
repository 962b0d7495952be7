------------------------------- MODULE MixAddr -------------------------------
(* The keys of mixes, the statements they publish about them, and the lists *)
(* of addresses clients build from such statements.                         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Mixes, Lists, Dur
VARIABLES
  now,
  keys,   \* every key ever made: [m, exp]
  held,   \* mix -> keys it holds
  pub,    \* mix -> its statement: [some, need, may]
  file,   \* mix -> the newest file: [some, keys]
  blobs,  \* key lists that were saved: [m, keys]
  stmts,  \* statements in circulation: [good, addrs]; addrs only for those used in lists
  lists   \* lists of addresses: sets of [id, exp]
vars == <<now, keys, held, pub, file, blobs, stmts, lists>>

Init == now = 0 /\ keys = <<>> /\ held = [m \in Mixes |-> {}]
  /\ pub = [m \in Mixes |-> [some |-> FALSE, need |-> {}, may |-> {}]]
  /\ file = [m \in Mixes |-> [some |-> FALSE, keys |-> {}]]
  /\ blobs = <<>> /\ stmts = <<>> /\ lists = [l \in Lists |-> {}]

Live(S) == {k \in S : keys[k].exp >= now}       \* what may still be used
Sure(S, ks) == {k \in S : ks[k].exp > now}      \* what must still be usable
(* publishing: everything unexpired, only keys of the mix *)
Published(S, ks) == [some |-> TRUE, need |-> Sure(S, ks), may |-> S]

NewKeys(m, new) ==
  /\ \A i \in 1..Len(new) : new[i] = Len(keys) + i
  /\ LET ks == keys \o [i \in 1..Len(new) |-> [m |-> m, exp |-> now + Dur]]
         h == held[m] \cup {new[i] : i \in 1..Len(new)} IN
     /\ keys' = ks /\ held' = [held EXCEPT ![m] = h]
     /\ pub' = [pub EXCEPT ![m] = Published(h, ks)]
     /\ file' = [file EXCEPT ![m] = [some |-> TRUE, keys |-> h]]
Expire(m) == held' = [held EXCEPT ![m] = Live(held[m])]
Replace(m, S) == LET h == Live(S) IN
  /\ held' = [held EXCEPT ![m] = h] /\ pub' = [pub EXCEPT ![m] = Published(h, keys)]
Restart(m) == IF file[m].some THEN Replace(m, file[m].keys)
  ELSE held' = [held EXCEPT ![m] = {}] /\ pub' = [pub EXCEPT ![m] = [some |-> FALSE, need |-> {}, may |-> {}]]
Save(m) == blobs' = Append(blobs, [m |-> m, keys |-> held[m]])

(* can the mix use the key?  At its last second, either. *)
Found(m, k) == IF k = 0 \/ k \notin held[m] \/ keys[k].exp < now THEN {FALSE}
               ELSE IF keys[k].exp = now THEN {TRUE, FALSE} ELSE {TRUE}
(* first and last expiry of what is held; what has expired may be gone *)
Min(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x <= y
Max(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x >= y
Boundaries(m) == {[first |-> Min({keys[k].exp : k \in S}), last |-> Max({keys[k].exp : k \in S})] :
  S \in {Sure(held[m], keys) \cup {k \in held[m] : keys[k].exp <= now /\ keys[k].exp >= x} : x \in {keys[j].exp : j \in held[m]} \cup {now + 1}}}

Fresh(A, t) == {a \in A : a.exp > t}
Edge(A, t) == {a \in A : a.exp = t}
(* the list after dropping what has expired *)
Dropped(A, t, B) == Fresh(A, t) \subseteq B /\ B \subseteq Fresh(A, t) \cup Edge(A, t)
Added(l, s) == lists[l] \cup (IF stmts[s].good THEN Fresh(stmts[s].addrs, now) ELSE {})
=============================================================================
