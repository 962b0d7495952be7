------------------------------ MODULE ChainGen ------------------------------
EXTENDS Chain, TLC, Json
CONSTANTS Depth, Part
VARIABLES hist
R(S) == RandomElement(S)
\* definitions without parameters are evaluated once, unless they depend on the state
Live == hist = hist
W(s) == s[RandomElement(1..Len(s))]
Rec(op) == hist' = Append(hist, op)
Rs == {"ok", "err"}
Menu == CASE Part = "ki" -> <<"Pub", "Pub", "Sync", "Sync", "Search", "Search", "FetchKI", "FetchKI", "FetchKI", "FetchKI", "Generate", "GenUpdate",
                              "Register", "Register", "AddKI", "AddKI", "Flush", "Flush", "DelUid">>
          [] OTHER -> <<"Pub", "Pub", "Pub", "Pub", "Sync", "Sync", "Sync", "Sync", "Sync", "Validate", "Validate", "Search", "Search", "Search",
                        "Lookup", "Lookup", "Lookup", "Generate", "GenUpdate", "Register", "Register", "Cut", "Delete", "Show", "FetchKI", "AddKI", "DelUid">>
Start == <<"Pub", "Pub", "Pub", "Pub", "Sync", "Search", "Search", "Generate">>
D == IF Live THEN W(<<"d1", "d1", "d1", "d2">>) ELSE CHOOSE x \in {} : FALSE
Who(d) == W(<<"keyserver", "alice", "alice", "bob", "carol">>)
Own == IF Live THEN W(<<"carol", "carol", "dave", "alice">>) ELSE CHOOSE x \in {} : FALSE
How == IF Live THEN W(<<"good", "good", "good", "good", "good", "good", "good", "good", R(Hows), R(Hows)>>) ELSE CHOOSE x \in {} : FALSE
Lie(S) == W(<<"", "", "", R(S)>>)
(* the honest answer to a synchronisation, or a wrong one *)
Serve(d, from) == SubSeq(srv[d], from + 1, Len(srv[d]))
Wrong(s) == IF s = <<>> THEN <<0>>
            ELSE LET i == R(1..Len(s)) IN
              W(<<[s EXCEPT ![i] = 0], SubSeq(s, 1, i - 1), SubSeq(s, i, Len(s)), s \o s, SubSeq(s, 1, i) \o SubSeq(s, i, Len(s)),
                  [s EXCEPT ![i] = R(DOMAIN ents)], Append(s, R(DOMAIN ents)), [j \in DOMAIN s |-> s[Len(s) + 1 - j]]>>)
GSync(d) ==
  LET have == Len(chain[d])
      last == Len(srv[d]) - 1
  IN \E kind \in {R(1..12)}, bad \in {R(LastBad \cup FetchBad)}, flt \in {IF R(1..6) = 1 THEN R(0..(have + 2)) ELSE -1} :
     \E b \in {IF kind = 1 THEN bad ELSE ""},
        p \in {IF kind = 2 THEN W(<<last + 1, last + 2, last - 1, 900000, 900001, -1, -2>>) ELSE last},
        f \in {IF kind = 3 THEN W(<<0, have + 1, have - 1, -1, -2, 900000, 900001, last>>) ELSE have},
        s \in {IF kind = 4 THEN Wrong(Serve(d, have)) ELSE IF kind = 5 THEN srv[d] ELSE Serve(d, have)} :
     \E f2 \in {IF kind = 5 THEN 0 ELSE f} :
     /\ \E r \in Rs : Sync(d, b, p, f2, s, flt, r)
     /\ Rec([op |-> "Sync", d |-> d, bad |-> b, p |-> p, f |-> f2, s |-> s, flt |-> flt])
Posns(d, who) == LET S == {i \in DOMAIN chain[d] : ents[chain[d][i]].d = d /\ ents[chain[d][i]].who = who} IN
                 SelectSeq([i \in DOMAIN chain[d] |-> i - 1], LAMBDA i : i + 1 \in S)
AnyTok == IF ents = <<>> THEN 0 ELSE R(DOMAIN ents)
AlterPos(ps, d) == IF ps = <<>> THEN <<R(-2..(Len(chain[d]) + 1))>>
                   ELSE LET i == R(1..Len(ps)) IN W(<<[ps EXCEPT ![i] = W(<<-1, -2, 900000, 900001, Len(chain[d]), R(0..Len(chain[d]))>>)],
                                                     [j \in DOMAIN ps |-> ps[Len(ps) + 1 - j]], ps \o ps, SubSeq(ps, 1, i - 1), SubSeq(ps, i, i)>>)
G(name) ==
  CASE name = "Pub" -> \E d \in {D}, how \in {How} : \E who \in {IF KSOf(d) = {} /\ R(1..4) # 1 THEN "keyserver" ELSE W(<<"keyserver", "alice", "alice", "bob">>)} :
         Pub(d, who, how) /\ Rec([op |-> name, d |-> d, who |-> who, how |-> how])
    [] name = "Cut" -> \E d \in {D} : \E n \in {R(0..Len(srv[d]))} : Cut(d, n) /\ Rec([op |-> name, d |-> d, n |-> n])
    [] name = "Sync" -> \E d \in {D} : GSync(d)
    [] name \in {"Validate", "Delete", "Show"} -> \E d \in {D} :
         /\ (IF name = "Delete" THEN Delete(d, "ok") ELSE Still)
         /\ Rec([op |-> name, d |-> d])
    [] name = "Search" -> \E d \in {D}, only \in {R(1..6) = 1}, lie \in {W(<<"", "", R(RecLies)>>)} :
         \E who \in {Who(d)}, lt \in {IF chain[d] = <<>> THEN 0 ELSE R({chain[d][i] : i \in DOMAIN chain[d]})} :
         \E r \in Rs : Search(d, who, only, lie, lt, r) /\ Rec([op |-> name, d |-> d, who |-> who, only |-> only, lie |-> lie, lt |-> lt])
    [] name = "Lookup" -> \E d \in {D}, lie \in {W(<<"", "", R(RecLies)>>)}, bad \in {W(<<"", "", "", "", "", "", R({"err", "nil", "null", "type", "elt"})>>)} :
         \E who \in {Who(d)}, lt \in {IF chain[d] = <<>> THEN 0 ELSE R({chain[d][i] : i \in DOMAIN chain[d]})} :
         \E ps \in {IF R(1..4) = 1 THEN AlterPos(Posns(d, who), d) ELSE Posns(d, who)} :
         \E r \in Rs : Lookup(d, who, bad, ps, lie, lt, r) /\ Rec([op |-> name, d |-> d, who |-> who, bad |-> bad, ps |-> ps, lie |-> lie, lt |-> lt])
    [] name = "Generate" -> \E d \in {D} : \E who \in {Own} :
         IF <<d, who>> \in DOMAIN priv THEN Still /\ Rec([op |-> "Validate", d |-> d])
         ELSE \E r \in Rs : Generate(d, who, r) /\ Rec([op |-> name, d |-> d, who |-> who])
    [] name \in {"GenUpdate", "DelUid", "Register", "AddKI", "Flush"} ->
         \E k \in {IF DOMAIN priv = {} \/ R(1..12) = 1 THEN <<D, Own>> ELSE R(DOMAIN priv)}, u \in {R(BOOLEAN)},
            lie \in {Lie(CASE name = "Register" -> RegLies [] name = "AddKI" -> AddLies [] OTHER -> {"err"})} :
         \E r \in Rs :
         CASE name = "GenUpdate" -> GenUpdate(k[1], k[2], r) /\ Rec([op |-> name, d |-> k[1], who |-> k[2]])
           [] name = "DelUid" -> DelUid(k[1], k[2], r) /\ Rec([op |-> name, d |-> k[1], who |-> k[2]])
           [] name = "Register" -> Register(k[1], k[2], lie, r) /\ Rec([op |-> name, d |-> k[1], who |-> k[2], lie |-> lie, update |-> u])
           [] name = "AddKI" -> AddKI(k[1], k[2], lie, r) /\ Rec([op |-> name, d |-> k[1], who |-> k[2], lie |-> lie])
           [] OTHER -> Flush(k[1], k[2], lie, r, TRUE) /\ Rec([op |-> name, d |-> k[1], who |-> k[2], lie |-> lie])
    [] name = "FetchKI" -> \E x \in {IF pub = {} \/ R(1..8) = 1 THEN [d |-> D, who |-> Who("d1")] ELSE R(pub)}, lie \in {W(<<"", "", R(FetchLies)>>)} :
         \E r \in Rs : FetchKI(x.d, x.who, lie, r) /\ Rec([op |-> name, d |-> x.d, who |-> x.who, lie |-> lie])
\* a confirmation is most often followed by the entry it confirms, and by a look at it
LastOp == IF hist = <<>> THEN "" ELSE hist[Len(hist)].op
After == IF Part = "ki" \/ R(1..4) = 1 THEN W(Menu)
         ELSE IF LastOp = "Register" THEN "Sync"
         ELSE IF LastOp = "Sync" /\ Len(hist) > 1 /\ hist[Len(hist) - 1].op = "Register" THEN "Validate" ELSE W(Menu)
GNext == Len(hist) < Depth /\ \E name \in {IF Len(hist) < Len(Start) THEN Start[Len(hist) + 1] ELSE After} : G(name)
GSpec == (Init /\ hist = <<>>) /\ [][GNext]_<<vars, hist>>
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
