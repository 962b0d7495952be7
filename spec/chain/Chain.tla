------------------------------- MODULE Chain -------------------------------
(* The crypt engine's view of the key servers: the local copy of each     *)
(* domain's key hash chain, the identity records found through it, the    *)
(* engine's own identities with the servers' confirmations, and the key   *)
(* initialisation messages.  The key server is an adversary: it publishes *)
(* what it likes, forks its chain and lies in any reply.                  *)
(*                                                                        *)
(* An entry is named by its number in ents ("token"); what matters about  *)
(* it is recorded there: the identity it is filed under (d, who), the     *)
(* identity in the record it commits to (own), whether that record is     *)
(* self-signed (self) and really the committed one (commit), its counter  *)
(* (kv), the key server record whose key signed the confirmation (sk),    *)
(* the predecessor hashed into it (prev; 0: none, -1: something else),    *)
(* and whether its hash (hash) and form (form) are right.                 *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES ents,   \* all entries ever made
          srv,    \* per domain: the chain the server holds
          chain,  \* per domain: the local copy
          pub,    \* stored records: [d, who, pos, t]
          priv,   \* own identities: <<d, who>> -> sequence of versions [u, n, rep]
          pkis,   \* tokens for whose record a key initialisation message is stored
          skis,   \* own identity versions (u) for which the server has key initialisation messages
          mine,   \* number of own key initialisation messages stored with their private keys
          uidno
vars == <<ents, srv, chain, pub, priv, pkis, skis, mine, uidno>>
Doms == {"d1", "d2"}
NoRep == [pos |-> -1, t |-> 0]
Init == /\ ents = <<>> /\ srv = [d \in Doms |-> <<>>] /\ chain = [d \in Doms |-> <<>>]
        /\ pub = {} /\ priv = <<>> /\ pkis = {} /\ skis = {} /\ mine = 0 /\ uidno = 0
Still == UNCHANGED vars
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Top(s) == s[Len(s)]
(* ---------------------------------------------------------------------- *)
(* the server                                                             *)
Known(t) == t \in DOMAIN ents
KSOf(d) == {t \in DOMAIN ents : ents[t].d = d /\ ents[t].who = "keyserver"}
Active(d) == LET S == {t \in KSOf(d) : ents[t].how = "good"} IN IF S = {} THEN 0 ELSE Max(S)
Entry(d, who, how, u, n) ==
  LET last == IF srv[d] = <<>> THEN 0 ELSE Top(srv[d])
  IN [d |-> d, who |-> who, how |-> how, u |-> u, pos |-> Len(srv[d]),
      own |-> IF how = "foreign" THEN "mallory" ELSE who,
      self |-> how # "badself", commit |-> how # "miscommit",
      kv |-> IF who = "keyserver" THEN Cardinality(KSOf(d)) ELSE n,
      sk |-> IF how = "fakesig" THEN 0 ELSE Active(d),
      prev |-> IF how = "unlinked" THEN -1 ELSE IF last = 0 THEN 0 ELSE IF ents[last].form THEN last ELSE -1,
      hash |-> how # "badhash", form |-> how \notin {"short", "long", "type", "junk"}]
Hows == {"good", "foreign", "badself", "miscommit", "fakesig", "unlinked", "badhash", "short", "long", "type", "junk"}
Pub(d, who, how) ==
  /\ ents' = Append(ents, Entry(d, who, how, 0, 0))
  /\ srv' = [srv EXCEPT ![d] = Append(@, Len(ents) + 1)]
  /\ UNCHANGED <<chain, pub, priv, pkis, skis, mine, uidno>>
Cut(d, n) == /\ srv' = [srv EXCEPT ![d] = SubSeq(@, 1, IF n < Len(@) THEN n ELSE Len(@))]
             /\ UNCHANGED <<ents, chain, pub, priv, pkis, skis, mine, uidno>>
(* ---------------------------------------------------------------------- *)
(* synchronisation: the server claims p to be its last position, and      *)
(* sends the entries s (0: not a string) saying that the first is at      *)
(* position f.  bad: a reply is an error or has the wrong type.  flt: the *)
(* database refuses to store position flt (-1: none).                     *)
LastBad == {"last", "lastnil", "lasttype", "lastpos"}
FetchBad == {"fetch", "fetchnil", "fetchtype", "fetchpos"}
Sync(d, bad, p, f, s, flt, r) ==
  LET c == chain[d]
      want == p + 1 - Len(c)                                       \* entries missing
      at(j) == Len(c) + j - f                                      \* index in s of the j-th missing one
      have(j) == at(j) \in DOMAIN s /\ s[at(j)] # 0 /\ Len(c) + j - 1 # flt
      \* entries that may be appended
      can == IF bad \in LastBad THEN {0} ELSE {k \in 0..Len(s) : k <= want /\ \A j \in 1..k : have(j)}
      ext(k) == c \o [j \in 1..k |-> s[at(j)]]
      all == bad = "" /\ want > 0 /\ want \in can
  IN /\ \/ bad \notin LastBad /\ c # <<>> /\ p >= 0 /\ want <= 0 /\ r = "ok" /\ chain' = chain
        \/ bad = "" /\ p < 0 /\ r \in {"ok", "err"} /\ chain' = chain
        \/ r = "err" /\ (bad # "" \/ want > 0) /\ ~(all /\ f = Len(c) /\ Len(s) = want)
           /\ \E k \in (IF bad = "" THEN can ELSE {0}) \ (IF all THEN {want} ELSE {}) : chain' = [chain EXCEPT ![d] = ext(k)]
        \/ r = "ok" /\ all /\ chain' = [chain EXCEPT ![d] = ext(want)]
     /\ UNCHANGED <<ents, srv, pub, priv, pkis, skis, mine, uidno>>
Delete(d, r) == /\ r = "ok" /\ chain' = [chain EXCEPT ![d] = <<>>]
                /\ UNCHANGED <<ents, srv, pub, priv, pkis, skis, mine, uidno>>
Show(d, r, out) == Still /\ (IF chain[d] = <<>> THEN r = "err" ELSE r = "ok" /\ out = chain[d])
(* ---------------------------------------------------------------------- *)
(* validation                                                             *)
Linked(s) == \A i \in DOMAIN s : LET e == ents[s[i]] IN e.form /\ e.hash /\ e.prev = IF i = 1 THEN 0 ELSE s[i - 1]
Recorded(d) == \A k \in DOMAIN priv : k[1] = d /\ Top(priv[k]).rep # NoRep =>
                 LET x == Top(priv[k]).rep IN x.pos < Len(chain[d]) => chain[d][x.pos + 1] = x.t
Validate(d, r) == Still /\ r = (IF chain[d] # <<>> /\ Linked(chain[d]) /\ Recorded(d) THEN "ok" ELSE "err")
(* ---------------------------------------------------------------------- *)
(* search and lookup                                                      *)
LatestKS(P, d, i) == LET S == {x \in P : x.d = d /\ x.who = "keyserver" /\ x.pos <= i}
                     IN IF S = {} THEN 0 ELSE (CHOOSE x \in S : \A y \in S : y.pos <= x.pos).t
Genuine(P, d, who, i, t) ==
  LET e == ents[t]
  IN /\ e.own = who /\ e.self /\ e.commit
     /\ \/ who = "keyserver" /\ e.kv = 0
        \/ e.sk # 0 /\ e.sk = LatestKS(P, d, i)
(* ps: the positions to look at; the server answers the fetch of the      *)
(* record of entry lt with a lie                                          *)
RecLies == {"err", "type", "etype", "enctype", "postype", "sigtype", "swap", "garbage", "badsig"}
\* the signature of a first key server record is not looked at
Lied(lie, lt, t) == lie # "" /\ lt = t /\ ~(lie = "badsig" /\ ents[t].who = "keyserver" /\ ents[t].kv = 0)
RECURSIVE Scan(_, _, _, _, _, _, _, _, _)
Scan(P, m, d, who, ps, strict, only, lie, lt) ==
  IF ps = <<>> THEN [P |-> P, res |-> IF m THEN "ok" ELSE "err"]
  ELSE LET i == ps[1]
           rest == SubSeq(ps, 2, Len(ps))
           stop == [P |-> P, res |-> "err"]
       IN IF i < 0 \/ i >= Len(chain[d]) THEN stop
          ELSE LET t == chain[d][i + 1]
                   e == ents[t]
               IN IF ~e.form THEN stop
                  ELSE IF e.d # d \/ e.who # who
                       THEN IF strict THEN stop ELSE Scan(P, m, d, who, rest, strict, only, lie, lt)
                  ELSE IF only THEN [P |-> P, res |-> "ok"]
                  ELSE IF \E x \in P : x.d = d /\ x.who = who /\ x.pos = i THEN Scan(P, TRUE, d, who, rest, strict, only, lie, lt)
                  ELSE IF Lied(lie, lt, t) \/ ~Genuine(P, d, who, i, t) THEN stop
                  ELSE Scan(P \cup {[d |-> d, who |-> who, pos |-> i, t |-> t]}, TRUE, d, who, rest, strict, only, lie, lt)
Search(d, who, only, lie, lt, r) ==
  LET o == Scan(pub, FALSE, d, who, [i \in 1..Len(chain[d]) |-> i - 1], FALSE, only, lie, lt)
  IN /\ r = o.res /\ pub' = o.P
     /\ UNCHANGED <<ents, srv, chain, priv, pkis, skis, mine, uidno>>
(* bad: the list of positions is missing or of the wrong type ("elt": its last element) *)
Lookup(d, who, bad, ps, lie, lt, r) ==
  LET o == Scan(pub, FALSE, d, who, IF bad = "elt" THEN Append(ps, -1) ELSE ps, TRUE, FALSE, lie, lt)
  IN /\ IF bad \notin {"", "elt"} THEN r = "err" /\ pub' = pub
        ELSE r = o.res /\ pub' = o.P
     /\ UNCHANGED <<ents, srv, chain, priv, pkis, skis, mine, uidno>>
(* ---------------------------------------------------------------------- *)
(* own identities                                                         *)
Generate(d, who, r) ==
  LET ok == chain[d] # <<>> /\ ents[Top(chain[d])].form
  IN /\ <<d, who>> \notin DOMAIN priv
     /\ r = (IF ok THEN "ok" ELSE "err")
     /\ IF ok THEN /\ priv' = [k \in DOMAIN priv \cup {<<d, who>>} |-> IF k = <<d, who>> THEN <<[u |-> uidno + 1, n |-> 0, rep |-> NoRep]>> ELSE priv[k]]
                   /\ uidno' = uidno + 1
        ELSE UNCHANGED <<priv, uidno>>
     /\ UNCHANGED <<ents, srv, chain, pub, pkis, skis, mine>>
GenUpdate(d, who, r) ==
  LET k == <<d, who>>
  IN /\ IF k \in DOMAIN priv
        THEN r = "ok" /\ priv' = [priv EXCEPT ![k] = Append(@, [u |-> uidno + 1, n |-> Top(@).n + 1, rep |-> NoRep])] /\ uidno' = uidno + 1
        ELSE r = "err" /\ UNCHANGED <<priv, uidno>>
     /\ UNCHANGED <<ents, srv, chain, pub, pkis, skis, mine>>
DelUid(d, who, r) ==
  LET k == <<d, who>>
  IN /\ IF k \in DOMAIN priv
        THEN /\ r = "ok"
             /\ priv' = (IF Len(priv[k]) = 1 THEN [x \in DOMAIN priv \ {k} |-> priv[x]] ELSE [priv EXCEPT ![k] = SubSeq(@, 1, Len(@) - 1)])
        ELSE r = "err" /\ UNCHANGED priv
     /\ UNCHANGED <<ents, srv, chain, pub, pkis, skis, mine, uidno>>
(* register or update: the server publishes the record (once) and answers *)
(* rightly or with a lie; lies that a signature does not show are kept as *)
(* proof against the server                                               *)
RegLies == {"", "err", "type", "badjson", "badsig", "wrongmsg", "nokeys", "wrongentry", "wrongpos"}
EntryOfUid(u) == LET S == {t \in DOMAIN ents : ents[t].u = u} IN IF S = {} THEN 0 ELSE Max(S)
Register(d, who, lie, r) ==
  LET k == <<d, who>>
  IN IF k \notin DOMAIN priv \/ (k \in DOMAIN priv /\ Top(priv[k]).rep # NoRep)
     THEN r = "err" /\ Still
     ELSE LET v == Top(priv[k])
              old == EntryOfUid(v.u)
              t == IF old = 0 THEN Len(ents) + 1 ELSE old
              e == IF old = 0 THEN Entry(d, who, "good", v.u, v.n) ELSE ents[old]
              keep == lie \in {"", "badsig", "wrongmsg", "nokeys", "wrongentry", "wrongpos"}
              good == lie \in {"", "wrongentry", "wrongpos"} /\ Active(d) # 0 /\ e.sk = Active(d)
              rep == [pos |-> IF lie = "wrongpos" THEN e.pos + 1 ELSE e.pos, t |-> IF lie = "wrongentry" THEN 0 ELSE t]
          IN /\ IF lie # "err" /\ old = 0
                THEN ents' = Append(ents, e) /\ srv' = [srv EXCEPT ![d] = Append(@, t)]
                ELSE UNCHANGED <<ents, srv>>
             /\ r = (IF good THEN "ok" ELSE "err")
             \* a reply without any key to check it against may be kept or not
             /\ \/ keep /\ priv' = [priv EXCEPT ![k][Len(priv[k])].rep = rep]
                \/ ~good /\ priv' = priv
             /\ UNCHANGED <<chain, pub, pkis, skis, mine, uidno>>
(* ---------------------------------------------------------------------- *)
(* key initialisation messages                                            *)
AddLies == {"", "err", "type", "count", "elt", "badsig", "nokeys"}
AddKI(d, who, lie, r) ==
  LET k == <<d, who>>
      ok == k \in DOMAIN priv /\ lie = "" /\ Active(d) # 0
  IN /\ r = (IF ok THEN "ok" ELSE "err")
     /\ mine' = mine + (IF ok THEN 1 ELSE 0)
     /\ skis' = skis \cup (IF k \in DOMAIN priv /\ lie # "err" THEN {Top(priv[k]).u} ELSE {})
     /\ UNCHANGED <<ents, srv, chain, pub, priv, pkis, uidno>>
FetchLies == {"", "err", "type", "json", "foreign", "forged", "expired", "sig", "anchor", "repo"}
RecordOf(d, who) == LET S == {x \in pub : x.d = d /\ x.who = who}
                    IN IF S = {} THEN 0 ELSE (CHOOSE x \in S : \A y \in S : y.pos <= x.pos).t
FetchKI(d, who, lie, r) ==
  LET t == RecordOf(d, who)
      ok == t # 0 /\ lie = "" /\ (IF ents[t].u = 0 THEN TRUE ELSE ents[t].u \in skis)
  IN /\ r = (IF ok THEN "ok" ELSE "err")
     /\ pkis' = pkis \cup (IF ok THEN {t} ELSE {})
     /\ UNCHANGED <<ents, srv, chain, pub, priv, skis, mine, uidno>>
(* valid: the server could verify the request *)
Flush(d, who, lie, r, valid) ==
  /\ r = (IF <<d, who>> \in DOMAIN priv /\ lie = "" THEN "ok" ELSE "err")
  /\ r = "ok" => valid
  /\ Still
(* ---------------------------------------------------------------------- *)
(* what the property says                                                 *)
(* the local chain only grows, except that the user deletes it *)
IsPrefix(a, b) == Len(a) <= Len(b) /\ \A i \in DOMAIN a : a[i] = b[i]
AppendOnly == [][\A d \in Doms : IsPrefix(chain[d], chain'[d]) \/ (chain'[d] = <<>> /\ UNCHANGED <<pub, priv, ents>>)]_vars
(* a record is stored only for its owner, as committed to by the entry at that position *)
OnlyGenuine == \A x \in pub : /\ ents[x.t].own = x.who /\ ents[x.t].who = x.who /\ ents[x.t].d = x.d
                              /\ ents[x.t].self /\ ents[x.t].commit /\ ents[x.t].form
OnePerPos == \A x, y \in pub : x.d = y.d /\ x.who = y.who /\ x.pos = y.pos => x = y
NeverDropped == [][pub \subseteq pub' /\ pkis \subseteq pkis' /\ mine <= mine']_vars
(* every stored record but a first key server record was confirmed with the key of an earlier stored key server record *)
Confirmed == \A x \in pub : (x.who = "keyserver" /\ ents[x.t].kv = 0) \/ \E y \in pub : y.d = x.d /\ y.who = "keyserver" /\ y.t = ents[x.t].sk
KIOwners == \A t \in pkis : \E x \in pub : x.t = t
============================================================================
