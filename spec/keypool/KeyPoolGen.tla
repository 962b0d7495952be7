----------------------------- MODULE KeyPoolGen -----------------------------
(* Random histories.  Keys are referred to by a number that the driver      *)
(* reduces to one of those that exist.                                      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLE hist
R(S) == RandomElement(S)
W(s) == s[RandomElement(1..Len(s))]
Names == <<"a", "b", "c", "d">>
Alts == <<"none", "none", "none", "none", "none", "none", "none", "none", "none", "none", "none", "none", "none", "none", "none", "none", "none", "none", "x", "y", "expire", "usage", "signer", "sig", "resign", "shift",
          "expire2", "usage2", "signer2", "x2", "zero">>
P(z) == W(Names)
Pool(i) == [op |-> "Pool", p |-> Names[i], usage |-> IF i <= 2 THEN "u" ELSE W(<<"u", "v", "">>), t |-> R({25, 45, 105}),
            gen |-> IF i = 1 THEN 1 ELSE W(<<0, 0, 1, 2>>), dir |-> R(BOOLEAN), db |-> R(BOOLEAN), db2 |-> R(1..3) = 1]
K(z) == R(0..999)
Trust(z) == [op |-> "Trust", p |-> P(z), s |-> W(<<1, 1, 2, 3>>)]
Make(z) == [op |-> "Make", signer |-> W(<<1, 1, 1, 2, 3>>), usage |-> W(<<"u", "u", "u", "u", "u", "v", "">>), life |-> W(<<5, 15, 35, 105, 105, 105, 205, 205, 1005, -15>>), alt |-> W(Alts),
            of |-> W(<<0, 0, K(z)>>)]
Load(z) == [op |-> "LoadKey", p |-> P(z), k |-> K(z)]
Last == hist[Len(hist)]
(* something with the key that was just loaded *)
Again(z) == [op |-> W(<<"Lookup", "Save", "Save">>), p |-> IF R(1..3) = 1 THEN P(z) ELSE Last.p, k |-> Last.k]
Look(z) == [op |-> "Lookup", p |-> P(z), k |-> K(z)]
Cur(z) == [op |-> "Current", p |-> W(<<"a", "a", P(z)>>), par |-> W(<<1, 1, 4>>)]
Save(z) == [op |-> "Save", p |-> P(z), k |-> K(z)]
LoadAll(z) == [op |-> "LoadAll", p |-> P(z), bad |-> W(<<FALSE, FALSE, TRUE>>), how |-> K(z)]
Plant(z) == [op |-> "Plant", store |-> W(<<"dir", "db", "db", "db2", "db2">>), k |-> K(z), i |-> W(<<K(z), -1, -1>>)]
Break(z) == [op |-> "Break", store |-> W(<<"dir", "db", "db", "db2", "db2">>), on |-> R(BOOLEAN)]
Adv(z) == [op |-> "Advance", d |-> W(<<1, 1, 2, 3, 5, 10>>)]
Par(z) == [op |-> "Par", p |-> P(z), ks |-> [i \in 1..R(1..4) |-> K(i)], ls |-> [i \in 1..R(0..3) |-> K(i)]]
Fuzz(z) == [op |-> "Fuzz", k |-> K(z), n |-> 60]
GInit == hist = <<>>
GNext == Len(hist) < Depth /\
  \E n \in {Len(hist)}, k \in {R(1..40)} :
    \E c \in {IF n < 4 THEN Pool(n + 1) ELSE IF n < 7 THEN [Trust(k) EXCEPT !.p = Names[n - 3], !.s = 1] ELSE
              CASE n < 12 -> Make(k) [] n % 2 = 1 /\ Last.op \in {"LoadKey", "Save"} -> Again(k) []  k <= 7 -> Make(k) [] k <= 9 -> Trust(k) [] k <= 16 -> Load(k) [] k <= 23 -> Look(k) [] k <= 27 -> Cur(k) [] k <= 30 -> Save(k)
                [] k <= 32 -> LoadAll(k) [] k <= 34 -> Plant(k) [] k = 35 -> Break(k) [] k = 36 -> [Break(k) EXCEPT !.on = FALSE]
                [] k = 40 /\ n % 3 = 0 -> Load(k) [] k = 37 -> Adv(k) [] k = 38 -> Fuzz(k) [] k = 39 -> [op |-> "Verifiers", p |-> P(k)] [] OTHER -> Par(k)} :
      hist' = Append(hist, c)
GSpec == GInit /\ [][GNext]_hist
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
