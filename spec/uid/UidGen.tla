------------------------------- MODULE UidGen -------------------------------
EXTENDS Uid, Json
CONSTANTS Depth, Part
VARIABLES hist
R(S) == RandomElement(S)
\* definitions without parameters are evaluated once, unless they depend on the state
Live == hist = hist
W(s) == s[RandomElement(1..Len(s))]   \* weighted by repetition
Rec1(op) == hist' = Append(hist, op)
H == DOMAIN recs
Own == {h \in H : recs[h].own}
SomeId == IF Live THEN W(<<"alice@mute.berlin", "alice@mute.berlin", "bob@mute.berlin", "alice@mute.one", "keyserver@mute.one", "Alice@mute.berlin", "jane@mute.berlin", "alice">>) ELSE CHOOSE x \in {} : FALSE
GoodId == IF Live THEN R({"alice@mute.berlin", "bob@mute.berlin", "alice@mute.one"}) ELSE CHOOSE x \in {} : FALSE
KeyNo == IF H = {} THEN 0 ELSE R({SigKeyOf(h) : h \in H} \cup {EncKeyOf(h) : h \in H})
PubNo == W(<<KeyNo, KeyNo, -1, -2>>)
AltMenu == {"ver", "count", "after", "before", "mix", "nym", "id", "skcs", "skfn", "skhash", "skpub", "sk", "pks", "pkcs", "pkfn", "pkhash",
            "pkpub", "escrow", "escfn", "eschash", "escpub", "linkx", "last", "repos", "fs", "suites", "link", "esc", "auth", "self", "user", "same"}
ValueOf(f) ==
  CASE f = "ver" -> R({"1.0", "1.1", "", "2.0"}) [] f = "count" -> R(0..3) [] f \in {"after", "before"} -> R(1..3)
    [] f \in {"mix", "nym"} -> R({"", "m"}) [] f = "id" -> R({SomeId, "bob@mute.berlin"})
    [] f \in {"skcs", "pkcs"} -> R({Suite, "other", "", "p"}) [] f \in {"skfn", "pkfn"} -> R({"ED25519", "ECDHE25519", "ED25510", ""})
    [] f \in {"skpub", "pkpub"} -> PubNo
    [] f \in {"skhash", "pkhash"} -> W(<<PubNo, PubNo, KeyNo + 500000>>) [] f = "sk" -> KeyNo   \* 500000: the hash with another last byte
    [] f = "pks" -> R(0..2) [] f = "escrow" -> R({"none", "zero", "other"}) [] f = "escfn" -> R({"ED25519"}) [] f \in {"eschash", "escpub"} -> R({KeyNo, -1} \ {0})
    [] f = "last" -> R({"good", "bad", "", "other"})
    [] f = "repos" -> R({<<>>, <<"mute.berlin">>, <<"mute.one">>, <<"mute.berlin", "mute.berlin">>, <<"mute.berlin", "x">>})
    [] f = "fs" -> R({"strict", "mandatory", "optional", "x"}) [] f = "suites" -> R({<<>>, <<"other">>})
    [] f = "link" -> <<"l">> [] f = "linkx" -> R({"LAST", "IDENTITY", "AUTHORITATIVE", "DOMAINS"}) [] f \in {"esc", "auth"} -> R({"", "x"}) [] f \in {"self", "user"} -> R({0, -1, -2})
    [] f = "same" -> 0
NeedsPk(f) == f \in {"pkcs", "pkfn", "pkhash", "pkpub", "pks"}
Menu == CASE Part = "rec" -> <<"New", "New", "Update", "Update", "Alter", "Alter", "Alter", "SignR", "SignU", "Splice", "Check", "Self", "Self",
                               "User", "User", "User", "SignN", "VerN",
                               "Confirm", "Confirm", "AltRep", "Resign", "VerSrv", "VerSrv", "VerSrv">>
          [] OTHER -> <<"New", "MakeKI", "MakeKI", "MakeKI", "AltKI", "AltKI", "Anchor", "SignK", "VerKI", "VerKI", "VerKI", "CheckKI", "EntryKI",
                        "EntryKI", "SrvKI">>
Can(n) == CASE n = "New" -> Len(recs) < 12
            [] n = "Update" -> Own # {} /\ Len(recs) < 40
            [] n \in {"Alter", "SignR", "SignU", "Splice"} -> H # {} /\ Own # {} /\ Len(recs) < 60
            [] n \in {"Check", "Self", "User", "SignN"} -> Own # {}
            [] n = "VerN" -> nonces # <<>>
            [] n = "Confirm" -> Own # {} /\ Len(reps) < 20
            [] n \in {"AltRep", "Resign"} -> reps # <<>> /\ Len(reps) < 30
            [] n = "VerSrv" -> reps # <<>>
            [] n = "MakeKI" -> Own # {} /\ Len(kis) < 30
            [] n \in {"AltKI", "Anchor", "SignK"} -> kis # <<>> /\ Len(kis) < 50
            [] n \in {"VerKI", "CheckKI", "EntryKI", "SrvKI"} -> kis # <<>>
(* look mostly at what was made last *)
Pick(n) == IF R(1..3) # 1 THEN n ELSE R(1..n)
Ask(op) == UNCHANGED vars /\ Rec1(op)
SaKeys == R({<<>>, <<Key("ECDHE25519", KeyNo)>>, <<Key("ECDHE25519", KeyNo)>>, <<[Key("ECDHE25519", KeyNo) EXCEPT !.hash = -1]>>,
             <<[Key("ECDHE25519", KeyNo) EXCEPT !.pub = R({-1, -2})]>>, <<[Key("ECDHE25519", KeyNo) EXCEPT !.cs = R({"other", "", "p"})]>>, <<[Key("ECDHE25519", KeyNo) EXCEPT !.hash = KeyNo + 500000]>>,
             <<Key("ED25519", KeyNo), Key("ECDHE25519", KeyNo)>>, <<Key("ED25519", KeyNo)>>, <<Key("ECDHE25519", KeyNo), Key("ECDHE25519", KeyNo)>>})
KiField == IF Live THEN W(<<"ver", "count", "after", "after", "before", "before", "fallback", "skh", "repo", "broken", "sig">>) ELSE CHOOSE x \in {} : FALSE
KiValue(f) == CASE f = "ver" -> R({"1.0", "1.1", ""}) [] f = "count" -> R(0..2) [] f = "after" -> R({-60, -1, 0, 1, 60, Day, 400 * Day, -400 * Day})
                [] f = "before" -> R({-100, 0, 100, 2 * Day, -500 * Day}) [] f = "fallback" -> R(BOOLEAN) [] f = "skh" -> W(<<KeyNo, KeyNo, -1>>)
                [] f = "repo" -> R({"mute.one", "mute.berlin", ""}) [] f = "broken" -> R(1..3) [] f = "sig" -> R({-1, -2, 0})
G(n) ==
  CASE n = "New" -> \E id \in {IF R(1..4) = 1 THEN SomeId ELSE GoodId}, fs \in {W(<<"strict", "strict", "strict", "optional", "mandatory">>)},
                       esc \in {R(1..5) = 1}, x \in {R({"", "m"})}, lst \in {W(<<"good", "good", "good", "other", "bad", "">>)} :
         LET ok == CreateOk(id, lst) IN
         /\ IF ok THEN AddRec(Created(NextRec, id, fs, esc, x, x, lst)) ELSE UNCHANGED vars
         /\ Rec1([op |-> n, id |-> id, fs |-> fs, esc |-> esc, mix |-> x, nym |-> x, last |-> lst])
    [] n = "Update" -> \E h \in {R(Own)} : AddRec(Updated(NextRec, recs[h])) /\ Rec1([op |-> n, h |-> h])
    [] n = "Alter" -> \E h \in {Pick(Len(recs))}, f \in {R(AltMenu)} :
         \E v \in {ValueOf(f)} :
         IF NeedsPk(f) /\ recs[h].c.pks = <<>> THEN Ask([op |-> "Check", h |-> h])
         ELSE AddRec(Alt(recs[h], f, v)) /\ Rec1([op |-> n, h |-> h, f |-> f, v |-> v])
    [] n = "SignR" -> \E h \in {Pick(Len(recs))}, k \in {R(Own)} : AddRec(Signed(recs[h], recs[k].c.sk.pub)) /\ Rec1([op |-> n, h |-> h, k |-> k])
    [] n = "SignU" -> \E h \in {Pick(Len(recs))}, k \in {R(Own)} : AddRec(SignedUser(recs[h], recs[k].c.sk.pub)) /\ Rec1([op |-> n, h |-> h, k |-> k])
    [] n = "Splice" -> \E h \in {Pick(Len(recs))}, o \in {R(H)}, x \in {R({"self", "user", "content"})} :
         AddRec(Spliced(recs[h], recs[o], x)) /\ Rec1([op |-> n, h |-> h, o |-> o, part |-> x])
    [] n \in {"Check", "Self"} -> \E h \in {Pick(Len(recs))} : Ask([op |-> n, h |-> h])
    [] n = "User" -> \E h \in {Pick(Len(recs))} :
         \E p \in {LET S == {q \in H : recs[q].c.count + 1 = recs[h].c.count} IN IF S # {} /\ R(1..5) # 1 THEN R(S) ELSE R(H)} :
           Ask([op |-> n, h |-> h, p |-> p])
    [] n = "SignN" -> \E h \in {R(Own)} : AddNonce(h) /\ Rec1([op |-> n, h |-> h])
    [] n = "VerN" -> \E x \in {R(DOMAIN nonces)}, d \in {W(<<0, 0, 0, 1, -1, 256, -65536>>)} : \E k \in {W(<<nonces[x], nonces[x], PubNo>>)} :
         Ask([op |-> n, x |-> x, k |-> k, d |-> d])
    [] n = "Confirm" -> \E a \in {R(Own)} : \E b \in {W(<<a, a, a, a, R(Own)>>)}, c \in {W(<<a, a, a, R(H)>>)}, k \in {R(1..2)} :
         AddRep(Reply(recs[a], recs[b], recs[c], "e", Len(reps), 2000000 + k))
         /\ Rec1([op |-> n, a |-> a, b |-> b, c |-> c, pos |-> Len(reps), k |-> 2000000 + k])
    [] n = "AltRep" -> \E p \in {Pick(Len(reps))}, f \in {R({"hc", "pos", "broken", "sig"})} :
         \E v \in {CASE f = "hc" -> R({"f", "e"}) [] f = "pos" -> R(0..5) [] f = "broken" -> R({1, 11, 32, 33, 48, 49}) [] f = "sig" -> R({0, -1, -2})} :
         AddRep(AltReply(reps[p], f, v)) /\ Rec1([op |-> n, p |-> p, f |-> f, v |-> v])
    [] n = "Resign" -> \E p \in {Pick(Len(reps))}, k \in {R(1..2)} : AddRep(Resigned(reps[p], 2000000 + k)) /\ Rec1([op |-> n, p |-> p, k |-> 2000000 + k])
    [] n = "VerSrv" -> \E p \in {Pick(Len(reps))} :
         \E h \in {LET S == {h \in H : Value(recs[h]) = reps[p].idx} IN IF S # {} /\ R(1..4) # 1 THEN R(S) ELSE R(H)},
            k \in {IF R(1..4) = 1 THEN R({2000001, 2000002, -1, -2}) ELSE reps[p].sig.by} :
         Ask([op |-> n, p |-> p, h |-> h, k |-> IF k = 0 THEN 2000001 ELSE k])
    [] n = "MakeKI" -> \E h \in {R(Own)}, ct \in {W(<<0, 0, 0, 1>>)}, a \in {W(<<Day, Day, 0, -1, 90 * Day, 90 * Day + 1, 120 * Day, -60>>)},
                          b0 \in {W(<<-100, -100, 0, 100, 2 * Day, -500 * Day, 9>>)}, fb \in {R(BOOLEAN)}, x \in {R({"", "n"})} :
         \E b \in {IF b0 = 9 THEN a ELSE b0}, repo \in {W(<<recs[h].c.repos[1], recs[h].c.repos[1], recs[h].c.repos[1], "mute.one">>)} :
         LET ok == InitOk(recs[h], a, b, repo) IN
         /\ IF ok THEN AddKI(MadeKI(NextKI, recs[h], ct, a, b, fb, repo, x, x)) ELSE UNCHANGED vars
         /\ Rec1([op |-> n, h |-> h, count |-> ct, after |-> a, before |-> b, fallback |-> fb, repo |-> repo, mix |-> x, nym |-> x])
    [] n = "AltKI" -> \E m \in {Pick(Len(kis))}, f \in {KiField} : \E v \in {IF f = "before" /\ R(1..3) = 1 THEN kis[m].b.after ELSE KiValue(f)} :
         AddKI(AltKI(kis[m], f, v)) /\ Rec1([op |-> n, m |-> m, f |-> f, v |-> v])
    [] n = "Anchor" -> \E m \in {Pick(Len(kis))}, h \in {R(H)}, ks \in {SaKeys}, fix \in {R(1..4) # 1} :
         \E k \in {R({SigKeyOf(h), kis[m].b.skh})} :
         IF k < 1 THEN Ask([op |-> "CheckKI", m |-> m])
         ELSE AddKI(Anchored(NextKI, kis[m], k, [mix |-> "", nym |-> "a", keys |-> ks], fix)) /\ Rec1([op |-> n, m |-> m, k |-> k, keys |-> ks, fix |-> fix])
    [] n = "SignK" -> \E m \in {Pick(Len(kis))} :
         \E k \in {LET S == {q \in Own : recs[q].c.sk.pub = kis[m].b.skh} IN IF S # {} /\ R(1..4) # 1 THEN R(S) ELSE R(Own)} :
         AddKI(SignedKI(kis[m], recs[k].c.sk.pub)) /\ Rec1([op |-> n, m |-> m, k |-> k])
    [] n = "CheckKI" -> \E m \in {Pick(Len(kis))} : Ask([op |-> n, m |-> m])
    [] n = "VerKI" -> \E m \in {Pick(Len(kis))}, u \in {W(<<<<"mute.berlin">>, <<"mute.berlin", "mute.one">>, <<"mute.berlin", "mute.one">>, <<"mute.berlin", "mute.one">>, <<>>, <<"mute.one">>>>)} :
         \E k \in {W(<<kis[m].b.skh, kis[m].b.skh, kis[m].b.skh, kis[m].b.skh, kis[m].b.akey, PubNo>>)} : Ask([op |-> n, m |-> m, uris |-> u, k |-> k])
    [] n = "EntryKI" -> \E m \in {Pick(Len(kis))} : \E k \in {W(<<kis[m].b.skh, kis[m].b.skh, kis[m].b.akey, PubNo>>)} : Ask([op |-> n, m |-> m, k |-> k])
    [] n = "SrvKI" -> \E m \in {Pick(Len(kis))}, o \in {R(DOMAIN kis)}, k \in {W(<<2000001, 2000001, 2000002, -1, -2>>)}, s \in {W(<<0, 0, -1, -2, 1, 2>>)} :
         Ask([op |-> n, m |-> m, o |-> W(<<m, m, o>>), k |-> k, s |-> s])
GInit == Init /\ hist = <<>>
GNext == Len(hist) < Depth /\ \E i \in {R({j \in DOMAIN Menu : Can(Menu[j])})} : G(Menu[i])
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
