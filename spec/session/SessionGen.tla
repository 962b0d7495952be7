----------------------------- MODULE SessionGen -----------------------------
(* Behaviours of Session as operation scripts for the driver. *)
EXTENDS Session, Json
CONSTANTS Depth, Menu
VARIABLE hist

GenRank == [p \in Party |-> IF p = "a" THEN 1 ELSE IF p = "b" THEN 2 ELSE 3]
R(S) == RandomElement(S)
Rec(op) == hist' = Append(hist, op)
Lens == {0, 1, 20, 300, 5000, 41615, 41690, 41691}
Kinds == {"head", "first", "last", "any", "type", "early", "cut", "cutpacket", "drop", "swap", "dup", "splice",
          "splice", "tail", "tail", "nomac", "body", "emptymac", "partmac", "extend", "shrink"}
Letters == << "fine", "fine", "fine", "next", "hdrname", "hdrname", "hdruid", "hdruid", "hdrkey", "hdrpub", "uidsig", "uidcount", "uidkeys", "badhash", "badlen",
              "uidnone", "idhash", "idlen", "sesshash", "sesslen", "sessfunc", "nexthash", "nextlen", "seenhash", "seenlen", "count",
              "countmax", "temphash", "hdrjson", "version", "suite", "prelen", "hdrlen", "ivlen", "padfirst", "sigfirst", "plen",
              "sigother", "sigzero", "siglen", "signone", "sigmore", "type2", "counts", "mactype" >>
Fresh == {m \in net : m.id \notin got}
Forged == \E i \in DOMAIN hist : hist[i].op = "Forge"

G(name) ==
  CASE name = "Encrypt" ->
       \E p \in {R(Party)} : \E q \in {R(Peers(p))}, renew \in {R({TRUE, TRUE, FALSE})},
          st \in {R({1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12})}, sign \in {R(BOOLEAN)}, len \in {R(Lens)}, nym \in {R({0, 1, 2, 3, 50})} :
         LET s == IF st = 1 THEN "reset" ELSE IF st = 2 THEN "error" ELSE "ok" IN
         /\ Encrypt(p, q, renew, s, nym, Cardinality(net) + 1)
         /\ Rec([op |-> "Encrypt", p |-> p, q |-> q, renew |-> renew, status |-> s, sign |-> sign, len |-> len, nymn |-> nym])
    [] name = "Mono" ->   \* a monologue
       /\ Encrypt("a", "b", FALSE, "ok", 0, Cardinality(net) + 1)
       /\ Rec([op |-> "Encrypt", p |-> "a", q |-> "b", renew |-> FALSE, status |-> "ok", sign |-> FALSE, len |-> 5, nymn |-> 0])
    [] name = "Decrypt" ->
       /\ Fresh # {}
       /\ \E m \in {R(Fresh)} : \E r \in {"ok", "err"} : Decrypt(m, r) /\ Rec([op |-> "Decrypt", id |-> m.id])
    [] name = "Newest" ->
       /\ Fresh # {}
       /\ \E m \in {CHOOSE m \in Fresh : \A x \in Fresh : x.id <= m.id} : \E r \in {"ok", "err"} :
            Decrypt(m, r) /\ Rec([op |-> "Decrypt", id |-> m.id])
    [] name = "Oldest" ->
       /\ Fresh # {}
       /\ \E m \in {CHOOSE m \in Fresh : \A x \in Fresh : x.id >= m.id} : \E r \in {"ok", "err"} :
            Decrypt(m, r) /\ Rec([op |-> "Decrypt", id |-> m.id])
    [] name = "Again" ->
       /\ got # {}
       /\ \E i \in {R(got)} : \E m \in {CHOOSE m \in net : m.id = i} : \E r \in {"ok", "err"} :
            Decrypt(m, r) /\ Rec([op |-> "Decrypt", id |-> m.id])
    [] name = "Tamper" ->
       /\ net # {}
       /\ \E m \in {R(net)}, o \in {R(net)}, k \in {R(Kinds)}, pos \in {R(0..5)} :
            BadBody(m) /\ Rec([op |-> "Tamper", id |-> m.id, other |-> o.id, kind |-> k, pos |-> pos])
    [] name = "Wrong" ->
       /\ net # {}
       /\ \E m \in {R(net)} : \E p \in {R(Party \ {m.to})} :
            UNCHANGED vars /\ Rec([op |-> "Wrong", id |-> m.id, p |-> p])
    [] name = "Refused" ->
       \E p \in {R(Party)} : \E q \in {R(Peers(p))}, renew \in {R(BOOLEAN)}, x \in {R({0, 1, 1000})} :
         Refused(p, q, renew) /\ Rec([op |-> "Refused", p |-> p, q |-> q, renew |-> renew, more |-> x])
    [] name = "Reopen" -> \E p \in {R(Party)} : UNCHANGED vars /\ Rec([op |-> "Reopen", p |-> p])
    [] name = "Forge" ->
       \E p \in {R(Party)} : \E q \in {R(Peers(p))}, k \in {R({"enckey", "sigkey", "name", "key", "both"})} :
         \E by \in {R(Party \ {p, q})} :
            UNCHANGED vars /\ Rec([op |-> "Forge", p |-> p, q |-> q, by |-> by, kind |-> k])
    [] name = "Stranger" ->
       \E p \in {R(Party)} : \E q \in {R(Peers(p))}, k \in {Letters[R(DOMAIN Letters)]}, idx \in {R({0, 0, 1, 2, 3, 49, 50, 120})},
          len \in {R({0, 1, 50, 5000})}, s \in {R(BOOLEAN)}, b \in {R(BOOLEAN)} :
          \E sign \in {CASE k \in {"sigother", "sigzero", "siglen", "signone"} -> TRUE [] k = "sigmore" -> FALSE [] OTHER -> s} :
            UNCHANGED vars /\ Rec([op |-> "Stranger", p |-> p, q |-> q, kind |-> k, idx |-> idx, len |-> len, sign |-> sign, before |-> b])
    [] name = "Last" ->
       \E p \in {R(Party)} : \E q \in {R(Peers(p))}, s \in {R(BOOLEAN)} :
            UNCHANGED vars /\ Rec([op |-> "Stranger", p |-> p, q |-> q, kind |-> "hdrall", idx |-> R({0, 1, 60}), len |-> 50, sign |-> s, before |-> s])

MenuAll == <<"Encrypt", "Encrypt", "Encrypt", "Encrypt", "Encrypt", "Decrypt", "Decrypt", "Newest", "Oldest", "Oldest", "Again",
             "Refused", "Reopen">>
MenuEager == <<"Encrypt", "Encrypt", "Oldest", "Oldest", "Oldest", "Newest", "Again">>
MenuMono == <<"Mono", "Mono", "Mono", "Oldest", "Oldest", "Newest">>
MenuMonoIn == <<"Mono", "Oldest">>
MenuTamper == <<"Encrypt", "Encrypt", "Encrypt", "Encrypt", "Decrypt", "Decrypt", "Oldest", "Tamper", "Tamper", "Tamper",
                "Tamper", "Tamper", "Tamper", "Wrong", "Stranger", "Stranger", "Stranger", "Stranger", "Stranger">>

GInit == Init /\ hist = <<>>
Can(name) == CASE name \in {"Decrypt", "Newest", "Oldest"} -> Fresh # {}
               [] name = "Again" -> got # {}
               [] name = "Tamper" -> net # {}
               [] name = "Wrong" -> net # {} /\ Cardinality(Party) > 2
               [] OTHER -> TRUE
Pick == \E i \in {RandomElement({j \in DOMAIN Menu : Can(Menu[j])})} : G(Menu[i])
GNext == Len(hist) < Depth /\ Pick
GSpec == GInit /\ [][GNext]_<<vars, hist>>
(* forged messages come last: they may leave the recipient's state behind in disorder *)
GSpecForge == GInit /\ [][/\ Len(hist) < Depth
                          /\ IF Len(hist) < Depth - 3 THEN Pick
                             ELSE \E i \in {R(1..2)} : G(IF i = 1 THEN "Forge" ELSE "Last")]_<<vars, hist>>
(* many messages in a row are late *)
GSpecLag == GInit /\ [][/\ Len(hist) < Depth
                        /\ G(IF Len(hist) < Depth \div 2 THEN "Mono" ELSE "Decrypt")]_<<vars, hist>>
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
