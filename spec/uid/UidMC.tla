------------------------------- MODULE UidMC -------------------------------
(* Two honest owners and an attacker who sees everything, can alter and      *)
(* recombine anything and signs with the attacker's own keys only.           *)
EXTENDS Uid
CONSTANTS N, Mode
VARIABLES who     \* who made the record: "alice", "bob", "eve" (also: altered by eve)
mvars == <<recs, reps, kis, nonces, who>>
H == DOMAIN recs
IdOf == [alice |-> "alice@mute.berlin", bob |-> "bob@mute.berlin", eve |-> "alice@mute.berlin"]
EveKeys == {SigKeyOf(h) : h \in {x \in H : who[x] = "eve" /\ recs[x].own}}
HonestKeys == {SigKeyOf(h) : h \in {x \in H : who[x] # "eve"}}
EveSigns == EveKeys \cup {-1}
MInit == Init /\ who = <<>>
New(w) == AddRec(Created(NextRec, IdOf[w], "strict", FALSE, "", "", "good")) /\ who' = Append(who, w)
Up(h) == recs[h].own /\ AddRec(Updated(NextRec, recs[h])) /\ who' = Append(who, who[h])
Eve(r) == AddRec(r) /\ who' = Append(who, "eve")
RecNext ==
  /\ Len(recs) < N
  /\ \/ \E w \in {"alice", "bob", "eve"} : New(w)
     \/ \E h \in H : Up(h)
     \/ \E h \in H : \E f \in {<<"count", 1>>, <<"count", 2>>, <<"id", "bob@mute.berlin">>, <<"esc", "x">>, <<"fs", "optional">>} :
          Eve(Alt(recs[h], f[1], f[2]))
     \/ \E h \in H, k \in EveKeys \cup HonestKeys : Eve(Alt(recs[h], "sk", k)) \/ Eve(Alt(recs[h], "skpub", k))
     \/ \E h \in H, k \in EveSigns : Eve(Signed(recs[h], k)) \/ Eve(SignedUser(recs[h], k))
     \/ \E h, o \in H, x \in {"self", "user", "content"} : h # o /\ Eve(Spliced(recs[h], recs[o], x))
Made(c) == \E h \in H : who[h] # "eve" /\ recs[h].c = c
Unforged == \A h \in H : (SelfSigned(recs[h]) /\ recs[h].c.sk.pub \in HonestKeys) => Made(recs[h].c)
Unchained == \A h, p \in H : (Continues(recs[h], recs[p]) /\ recs[p].c.sk.pub \in HonestKeys)
                => Made(recs[h].c) /\ recs[h].c.count = recs[p].c.count + 1
(* an honest update continues the record it was made from and no other that is honest *)
Genuine == \A h \in H : who[h] # "eve" => SelfSigned(recs[h]) /\ WellFormed(recs[h])
One == \A h, p, q \in H : (who[h] # "eve" /\ who[p] # "eve" /\ who[q] # "eve"
                           /\ Continues(recs[h], recs[p]) /\ Continues(recs[h], recs[q])) => p = q

(* confirmations: the honest server signs only what it was sent *)
RepNext ==
  /\ Len(reps) < N
  /\ UNCHANGED who
  /\ \/ \E h \in H : AddRep(Reply(recs[h], recs[h], recs[h], "e", Len(reps), 1000))
     \/ \E a, b, c \in H : AddRep(Reply(recs[a], recs[b], recs[c], "e", 0, 2000))
     \/ \E p \in DOMAIN reps : \E f \in {<<"hc", "f">>, <<"pos", 7>>, <<"broken", 2>>, <<"sig", 1000>>} : AddRep(AltReply(reps[p], f[1], f[2]))
Confirmed == \A p \in DOMAIN reps, h \in H : Confirms(reps[p], recs[h], 1000) =>
               \E q \in DOMAIN reps : reps[q].sig.by = 1000 /\ Entry(reps[q]) = Entry(reps[p]) /\ reps[q].msg = Value(recs[h])
OnlyOne == \A p \in DOMAIN reps, g, h \in H : (Confirms(reps[p], recs[g], 1000) /\ Confirms(reps[p], recs[h], 1000)) => Value(recs[g]) = Value(recs[h])

(* key initialisation messages *)
Sas == {[mix |-> "", nym |-> "", keys |-> ks] : ks \in {<<>>, <<Key("ECDHE25519", 77)>>, <<[Key("ECDHE25519", 77) EXCEPT !.hash = 78]>>}}
KiNext ==
  /\ Len(kis) < N
  /\ UNCHANGED who
  /\ \/ \E h \in H, a \in {-10, 10, 91 * Day}, b \in {-20, 5, 20} :
          /\ recs[h].own /\ InitOk(recs[h], a, b, "mute.berlin")
          /\ AddKI(MadeKI(NextKI, recs[h], 0, a, b, FALSE, "mute.berlin", "", "n"))
     \/ \E m \in DOMAIN kis : \E f \in {<<"after", 20>>, <<"before", 15>>, <<"count", 1>>, <<"broken", 1>>, <<"repo", "x">>, <<"sig", -1>>} :
          AddKI(AltKI(kis[m], f[1], f[2]))
     \/ \E m \in DOMAIN kis, k \in EveKeys \cup HonestKeys : AddKI(AltKI(kis[m], "skh", k))
     \/ \E m \in DOMAIN kis, k \in EveKeys \cup HonestKeys, sa \in Sas, b \in BOOLEAN : AddKI(Anchored(NextKI, kis[m], k, sa, b))
     \/ \E m \in DOMAIN kis, k \in EveSigns : AddKI(SignedKI(kis[m], k))
KeyOf(m) == ECDHE(m)[1].pub
KiUnforged == \A m \in DOMAIN kis, k \in HonestKeys : VerifyKI(kis[m], {"mute.berlin"}, k) =>
                 /\ \E q \in DOMAIN kis : kis[q].sig = kis[m].sig /\ kis[q].b = kis[m].b /\ KeyOf(kis[q]) = EncKeyOf(q) + 100000
                 /\ kis[m].b.after >= 0
KiOne == \A m \in DOMAIN kis, j, k \in EveKeys \cup HonestKeys :
           (EntryOk(kis[m], k) /\ EntryOk(kis[m], j)) => j = k
MNext == CASE Mode = "rec" -> RecNext
           [] Mode = "rep" -> IF Len(recs) < 2 THEN \E w \in {"alice", "eve"} : New(w) ELSE RepNext
           [] Mode = "ki" -> IF Len(recs) < 2 THEN New(IF recs = <<>> THEN "alice" ELSE "eve") ELSE KiNext
MSpec == MInit /\ [][MNext]_mvars
=============================================================================
