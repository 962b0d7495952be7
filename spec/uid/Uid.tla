-------------------------------- MODULE Uid --------------------------------
(* Identity records, their updates and confirmations, and key initialisation *)
(* messages, with symbolic keys and signatures: a key is a number (negative: *)
(* not a key), a signature is the pair of key and signed value.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES recs, \* records by handle
          reps, \* confirmations by handle
          kis,  \* key initialisation messages by handle
          nonces \* signed nonces
vars == <<recs, reps, kis, nonces>>

Suite == "default"
IdTable == ("alice@mute.berlin" :> [canon |-> TRUE, dom |-> "mute.berlin", ks |-> FALSE])
        @@ ("bob@mute.berlin" :> [canon |-> TRUE, dom |-> "mute.berlin", ks |-> FALSE])
        @@ ("alice@mute.one" :> [canon |-> TRUE, dom |-> "mute.one", ks |-> FALSE])
        @@ ("keyserver@mute.one" :> [canon |-> TRUE, dom |-> "mute.one", ks |-> TRUE])
        @@ ("Alice@mute.berlin" :> [canon |-> FALSE, dom |-> "mute.berlin", ks |-> FALSE])
        @@ ("jane@mute.berlin" :> [canon |-> FALSE, dom |-> "mute.berlin", ks |-> FALSE])
        @@ ("alice" :> [canon |-> FALSE, dom |-> "", ks |-> FALSE])
        @@ ("" :> [canon |-> FALSE, dom |-> "", ks |-> FALSE])

Key(fn, k) == [cs |-> Suite, fn |-> fn, hash |-> k, pub |-> k]
ZeroKey == [cs |-> "", fn |-> "", hash |-> 0, pub |-> 0]
SigKeyOf(h) == 4 * h + 1      \* keys made for the record or message with handle h
EncKeyOf(h) == 4 * h + 2
EscKeyOf(h) == 4 * h + 3

NoContent == [ver |-> "", count |-> 0, after |-> 0, before |-> 0, mix |-> "", nym |-> "", id |-> "", sk |-> ZeroKey,
              pks |-> <<>>, escrow |-> <<>>, last |-> "", repos |-> <<>>, fs |-> "", suites |-> <<>>, link |-> <<>>]
NoSig == [by |-> 0, over |-> NoContent]
BadSig(k) == [by |-> k, over |-> NoContent]   \* -1: garbage, -2: not even base64
Sig(k, c) == [by |-> k, over |-> c]
Verifies(s, k, c) == k > 0 /\ s.by = k /\ s.over = c

(* records *)
LastOk(x) == x \in {"good", "other"}
CreateOk(id, last) == IdTable[id].canon /\ (IdTable[id].ks \/ LastOk(last))
Content0(h, id, fs, esc, mix, nym, last) ==
  [ver |-> "1.0", count |-> 0, after |-> 0, before |-> 0,
   mix |-> IF fs = "optional" THEN mix ELSE "", nym |-> IF fs = "optional" THEN nym ELSE "",
   id |-> id, sk |-> Key("ED25519", SigKeyOf(h)), pks |-> <<Key("ECDHE25519", EncKeyOf(h))>>,
   escrow |-> IF esc THEN <<Key("ED25519", EscKeyOf(h))>> ELSE <<>>,
   last |-> last, repos |-> <<IdTable[id].dom>>, fs |-> fs, suites |-> <<Suite>>, link |-> <<>>]
Rec(c, self, user, own) == [c |-> c, self |-> self, user |-> user, esc |-> "", auth |-> "", own |-> own]
Created(h, id, fs, esc, mix, nym, last) ==
  LET c == Content0(h, id, fs, esc, mix, nym, last) IN Rec(c, Sig(SigKeyOf(h), c), NoSig, TRUE)
Updated(h, r) ==
  LET c == [r.c EXCEPT !.count = @ + 1, !.sk = Key("ED25519", SigKeyOf(h))] IN
  [r EXCEPT !.c = c, !.self = Sig(SigKeyOf(h), c), !.user = Sig(r.c.sk.pub, c)]
(* alteration of one field, without the private keys *)
Alt(r, f, v) ==
  LET c == r.c IN
  [ [r EXCEPT !.own = FALSE] EXCEPT
      !.self = IF f = "self" THEN BadSig(v) ELSE @, !.user = IF f = "user" THEN BadSig(v) ELSE @,
      !.esc = IF f = "esc" THEN v ELSE @, !.auth = IF f = "auth" THEN v ELSE @,
      !.c = CASE f = "ver" -> [c EXCEPT !.ver = v] [] f = "count" -> [c EXCEPT !.count = v]
              [] f = "after" -> [c EXCEPT !.after = v] [] f = "before" -> [c EXCEPT !.before = v]
              [] f = "mix" -> [c EXCEPT !.mix = v] [] f = "nym" -> [c EXCEPT !.nym = v] [] f = "id" -> [c EXCEPT !.id = v]
              [] f = "skcs" -> [c EXCEPT !.sk.cs = v] [] f = "skfn" -> [c EXCEPT !.sk.fn = v]
              [] f = "skhash" -> [c EXCEPT !.sk.hash = v] [] f = "skpub" -> [c EXCEPT !.sk.pub = v]
              [] f = "sk" -> [c EXCEPT !.sk = Key("ED25519", v)]
              [] f = "pks" -> [c EXCEPT !.pks = [i \in 1..v |-> @[1]]]
              [] f = "pkcs" -> [c EXCEPT !.pks[1].cs = v] [] f = "pkfn" -> [c EXCEPT !.pks[1].fn = v]
              [] f = "pkhash" -> [c EXCEPT !.pks[1].hash = v] [] f = "pkpub" -> [c EXCEPT !.pks[1].pub = v]
              [] f = "escrow" -> [c EXCEPT !.escrow = IF v = "none" THEN <<>> ELSE IF v = "zero" THEN <<ZeroKey>> ELSE <<[ZeroKey EXCEPT !.cs = v]>>]
              [] f = "escfn" -> [c EXCEPT !.escrow = <<[ZeroKey EXCEPT !.fn = v]>>]
              [] f = "eschash" -> [c EXCEPT !.escrow = <<[ZeroKey EXCEPT !.hash = v]>>]
              [] f = "escpub" -> [c EXCEPT !.escrow = <<[ZeroKey EXCEPT !.pub = v]>>]
              [] f = "last" -> [c EXCEPT !.last = v]
              [] f = "repos" -> [c EXCEPT !.repos = v] [] f = "fs" -> [c EXCEPT !.fs = v]
              [] f = "suites" -> [c EXCEPT !.suites = v] [] f = "link" -> [c EXCEPT !.link = v]
              [] f = "linkx" -> [c EXCEPT !.link = <<v>>]
              [] OTHER -> c ]
Signed(r, k) == [r EXCEPT !.self = Sig(k, r.c), !.own = FALSE]
SignedUser(r, k) == [r EXCEPT !.user = Sig(k, r.c), !.own = FALSE]
Spliced(r, o, which) == [r EXCEPT !.self = IF which = "self" THEN o.self ELSE @, !.user = IF which = "user" THEN o.user ELSE @,
                                  !.c = IF which = "content" THEN o.c ELSE @, !.own = FALSE]

(* what makes a record well-formed in version 1.0 *)
WellFormed(r) ==
  LET c == r.c IN
  /\ c.ver = "1.0"
  /\ (c.fs # "optional" => c.mix = "" /\ c.nym = "")
  /\ IdTable[c.id].canon
  /\ c.sk.cs = Suite /\ c.sk.fn = "ED25519"
  /\ (IdTable[c.id].ks \/ LastOk(c.last))
  /\ ~(r.esc # "" /\ r.user.by # 0)
  /\ c.fs = "strict"
  /\ Len(c.pks) = 1 /\ c.pks[1].cs = Suite /\ c.pks[1].fn = "ECDHE25519"
  /\ (c.escrow = <<>> \/ c.escrow[1] = ZeroKey)
  /\ c.repos = <<IdTable[c.id].dom>>
  /\ c.link = <<>>
SelfSigned(r) == Verifies(r.self, r.c.sk.pub, r.c)
Continues(r, p) == r.c.count = p.c.count + 1 /\ Verifies(r.user, p.c.sk.pub, r.c)
Value(r) == [r EXCEPT !.own = FALSE]

(* confirmations: index and key are hashes of a record, msg the record inside *)
NoEntry(rep) == [rep EXCEPT !.sig = [by |-> 0, over |-> 0]]
Entry(rep) == [idx |-> rep.idx, key |-> rep.key, msg |-> rep.msg, hc |-> rep.hc, pos |-> rep.pos, broken |-> rep.broken]
SignEntry(k, e) == [by |-> k, over |-> e]
Reply(idx, key, msg, hc, pos, k) ==
  LET e == [idx |-> Value(idx), key |-> Value(key), msg |-> Value(msg), hc |-> hc, pos |-> pos, broken |-> 0] IN
  [idx |-> e.idx, key |-> e.key, msg |-> e.msg, hc |-> hc, pos |-> pos, broken |-> 0, sig |-> SignEntry(k, e)]
AltReply(p, f, v) ==
  CASE f = "hc" -> [p EXCEPT !.hc = v] [] f = "pos" -> [p EXCEPT !.pos = v]
    [] f = "broken" -> [p EXCEPT !.broken = v]        \* cut to v - 1 bytes
    [] f = "sig" -> [p EXCEPT !.sig.by = v]
Resigned(p, k) == [p EXCEPT !.sig = SignEntry(k, Entry(p))]
Confirms(p, r, k) == /\ p.broken = 0
                     /\ p.idx = Value(r) /\ p.key = Value(r) /\ p.msg = Value(r)
                     /\ k > 0 /\ p.sig.by = k /\ p.sig.over = Entry(p)

(* key initialisation messages; times are relative to now, in seconds *)
Day == 86400
NoBody == [ver |-> "", count |-> 0, after |-> 0, before |-> 0, fallback |-> FALSE, skh |-> 0, repo |-> "",
           aid |-> 0, akey |-> 0, sa |-> [mix |-> "", nym |-> "", keys |-> <<>>], sah |-> [mix |-> "", nym |-> "", keys |-> <<>>], broken |-> 0]
InitOk(r, after, before, repo) == before < after /\ after >= 0 /\ after <= 90 * Day /\ Len(r.c.repos) > 0 /\ repo = r.c.repos[1]
MadeKI(h, r, count, after, before, fallback, repo, mix, nym) ==
  LET sa == [mix |-> mix, nym |-> nym, keys |-> <<Key("ECDHE25519", EncKeyOf(h) + 100000)>>]
      b == [ver |-> "1.0", count |-> count, after |-> after, before |-> before, fallback |-> fallback, skh |-> r.c.sk.hash,
            repo |-> repo, aid |-> h, akey |-> r.c.sk.hash, sa |-> sa, sah |-> sa, broken |-> 0]
  IN [b |-> b, sig |-> [by |-> r.c.sk.pub, over |-> b]]
AltKI(m, f, v) ==
  LET b == m.b IN
  IF f = "sig" THEN [m EXCEPT !.sig = [by |-> v, over |-> NoBody]]
  ELSE [m EXCEPT !.b =
     CASE f = "ver" -> [b EXCEPT !.ver = v] [] f = "count" -> [b EXCEPT !.count = v]
       [] f = "after" -> [b EXCEPT !.after = v] [] f = "before" -> [b EXCEPT !.before = v]
       [] f = "fallback" -> [b EXCEPT !.fallback = v] [] f = "skh" -> [b EXCEPT !.skh = v]
       [] f = "repo" -> [b EXCEPT !.repo = v] [] f = "broken" -> [b EXCEPT !.broken = v] ]
(* another session anchor encrypted for signature key k, with or without the right hash *)
Anchored(h, m, k, sa, fixhash) == [m EXCEPT !.b.aid = h, !.b.akey = k, !.b.sa = sa, !.b.broken = 0, !.b.sah = IF fixhash THEN sa ELSE @]
SignedKI(m, k) == [m EXCEPT !.sig = [by |-> k, over |-> m.b]]
AnchorOk(m, k) == k > 0 /\ m.b.skh = k /\ m.b.broken = 0 /\ m.b.akey = k /\ m.b.sah = m.b.sa
ECDHE(m) == SelectSeq(m.b.sa.keys, LAMBDA x : x.fn = "ECDHE25519")
EntryOk(m, k) == AnchorOk(m, k) /\ ECDHE(m) # <<>>
GoodKey(x) == x.cs = Suite /\ x.pub > 0 /\ x.hash = x.pub
VerifyKI(m, uris, k) ==
  /\ m.b.repo \in uris
  /\ EntryOk(m, k) /\ GoodKey(ECDHE(m)[1])
  /\ m.b.before < m.b.after /\ m.b.after >= 0
  /\ k > 0 /\ m.sig.by = k /\ m.sig.over = m.b
CheckKI(m) == m.b.ver = "1.0" /\ m.b.count = 0

(* transitions *)
Init == recs = <<>> /\ reps = <<>> /\ kis = <<>> /\ nonces = <<>>
AddRec(r) == recs' = Append(recs, r) /\ UNCHANGED <<reps, kis, nonces>>
AddRep(p) == reps' = Append(reps, p) /\ UNCHANGED <<recs, kis, nonces>>
AddKI(m) == kis' = Append(kis, m) /\ UNCHANGED <<recs, reps, nonces>>
AddNonce(h) == nonces' = Append(nonces, recs[h].c.sk.pub) /\ UNCHANGED <<recs, reps, kis>>
NextRec == Len(recs) + 1
NextKI == Len(kis) + 1
=============================================================================
