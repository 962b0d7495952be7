--------------------------------- MODULE Mix ---------------------------------
(* Messages wrapped for a mix, nym addresses, and messages passed on by a   *)
(* mix, symbolically: each is known by what was put in, whom it was made    *)
(* for, and whether what counts of it is still as it was made.              *)
(*                                                                          *)
(* A mix opens what was made for its key.  A nym address consists of a      *)
(* public part, which anyone can change (the sender needs it: address and   *)
(* key of the mix, expiry), and a part that only the mix can open.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS FwdMin, RelMin, MaxSize
VARIABLES now, nyms, envs, recs, msgs, uniq
vars == <<now, nyms, envs, recs, msgs, uniq>>

Init == now = 0 /\ nyms = <<>> /\ envs = <<>> /\ recs = <<>> /\ msgs = <<>> /\ uniq = {}

(* an empty token and the marker for none are no token *)
NormTok(t) == IF t <= 2 THEN 0 ELSE t

---------------------------------------------------------------------------
(* Nym addresses.  n: [orig, mix, claim, ok, parse, to, sec, box, nym, exp, pexp, single, sys, min, max] *)

(* the mixes that a new address may use: their key lives longer than it *)
Fit(cands, exp) == {i \in 1..Len(cands) : cands[i].exp > (IF exp = -now THEN now ELSE exp)}

NewNym(r, m) ==
  nyms' = Append(nyms, [orig |-> Len(nyms) + 1, mix |-> m, claim |-> m, ok |-> TRUE, parse |-> TRUE, to |-> m,
                        sec |-> r.sec, box |-> r.box, nym |-> r.nym, exp |-> r.exp, pexp |-> r.exp, single |-> r.single,
                        sys |-> r.sys, min |-> r.min, max |-> r.max])

Alive(n) == IF n.exp < now THEN {FALSE} ELSE IF n.exp = now THEN {TRUE, FALSE} ELSE {TRUE}
Usable(n) == IF ~n.parse THEN {FALSE} ELSE Alive(n)

(* a mix has a private key for what the address names as key *)
HasKey(m, claim, force) == force \/ claim = m
NymOpens(n, m, force) == n.ok /\ n.mix = m /\ HasKey(m, n.claim, force)

Altered(n, f, e, claim) ==
  CASE f = "mixaddr" -> [n EXCEPT !.to = (e.v % 3) + 1]
    [] f = "expire"  -> [n EXCEPT !.exp = e.exp]
    [] f \in {"single", "token", "spare", "trail"} -> n
    [] f \in {"mixpub", "mixbit", "mixcut"} -> [n EXCEPT !.claim = claim]
    [] f = "cut" -> [n EXCEPT !.parse = FALSE]
    [] OTHER -> [n EXCEPT !.ok = FALSE]

---------------------------------------------------------------------------
(* Wrapped messages.  e: [kind, mix, claim, key, ok, orig, b, size, tok, min, max, next, nym] *)
(* key: the key it is really made for, 0 if none of a mix's                             *)

Fwd(r) == [kind |-> "fwd", key |-> r.m, claim |-> r.m, ok |-> TRUE, orig |-> Len(envs) + 1, b |-> r.b, size |-> r.size, tok |-> NormTok(r.tok),
           min |-> r.min, max |-> r.max, next |-> r.next, nym |-> 0]
Rel(r) == [kind |-> "relay", key |-> nyms[r.n].claim, claim |-> nyms[r.n].claim, ok |-> TRUE, orig |-> Len(envs) + 1, b |-> r.b, size |-> r.size,
           tok |-> NormTok(r.tok), min |-> r.min, max |-> r.max, next |-> 0, nym |-> r.n]
(* a header takes two bytes for its length *)
Big(e) == e.tok = 6 \/ e.next = 6
Edge(e) == e.next >= 7

EnvAltered(e, f, claim) ==
  CASE f \in {"to", "tobit"} -> [e EXCEPT !.claim = claim]
    [] f = "spare" -> e
    [] OTHER -> [e EXCEPT !.ok = FALSE]

SizeOk(e) == e.size <= MaxSize /\ e.size >= (IF e.kind = "fwd" THEN FwdMin ELSE RelMin)

(* how long a mix remembers a message that has no expiry of its own *)
Remember == 172800

(* what the mix may answer *)
Opens(e, m, force) ==
  IF ~(e.ok /\ e.key = m /\ HasKey(m, e.claim, force) /\ SizeOk(e) /\ ~Big(e)) THEN {FALSE}
  ELSE IF Edge(e) THEN {TRUE, FALSE}
  ELSE IF e.kind = "fwd" THEN {TRUE}
  ELSE IF NymOpens(nyms[e.nym], m, force) THEN Usable(nyms[e.nym]) ELSE {FALSE}

(* what a mix remembers, so that nothing passes twice: the message, and an address for single use.  uniq holds  *)
(* pairs of what was seen and how it is identified; equal things and only they have equal identities.           *)
Things(e) == <<[k |-> "body", x |-> e.b]>> \o
             IF e.kind = "relay" /\ nyms[e.nym].single THEN << [k |-> "nym", x |-> nyms[e.nym].orig] >> ELSE <<>>
(* what the sender of a message can revoke it with, each of them with another one *)
Revoke(e) == IF e.kind = "relay" THEN <<[k |-> "rev", x |-> e.orig]>> ELSE <<>>
Consistent(things, ids) ==
  /\ Len(ids) = Len(things)
  /\ \A i \in 1..Len(ids) : \A u \in uniq : (u.t = things[i]) <=> (u.id = ids[i])

Rec(e) == [kind |-> e.kind, env |-> e]

Receive(e, things, ids) ==
  /\ recs' = Append(recs, Rec(e))
  /\ uniq' = uniq \cup {[t |-> things[i], id |-> ids[i]] : i \in 1..Len(ids)}

---------------------------------------------------------------------------
(* Passing on.  msgs: [ok, sec, box, nym, b, size] *)
Passed(e) == LET n == nyms[e.nym] IN [ok |-> TRUE, sec |-> n.sec, box |-> n.box, nym |-> n.nym, b |-> e.b, size |-> e.size]

Reads(x, sec, box) == x.ok /\ x.sec = sec /\ x.box = box
=============================================================================
