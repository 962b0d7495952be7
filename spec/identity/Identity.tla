------------------------------ MODULE Identity ------------------------------
(* The canonical form of an identity localpart@domain. Texts are sequences   *)
(* of code points; a negative number stands for a byte that is not UTF-8.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

At2 == 64
Dash == 45
Dot == 46
MaxBytes == 254
MaxLocal == 64

(* white space that is trimmed from the ends of a localpart *)
Space == {9, 10, 11, 12, 13, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup 8192..8202

(* upper case letters outside ASCII that the models and runs use *)
LowTable == (304 :> 105) @@ (8490 :> 107) @@ (220 :> 252) @@ (570 :> 11365) @@ (937 :> 969) @@ (1046 :> 1078)
Low(c) == IF c \in 65..90 THEN c + 32 ELSE IF c \in DOMAIN LowTable THEN LowTable[c] ELSE c

(* letters and digits that look alike have one form *)
Alike(c) == CASE c = 48 -> 111 [] c = 49 -> 108 [] c = 106 -> 105 [] OTHER -> c
Legal(c) == c \in 97..122 \cup 48..57 \cup {Dash, Dot}

Width(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
RECURSIVE Bytes(_)
Bytes(s) == IF s = <<>> THEN 0 ELSE Width(Head(s)) + Bytes(Tail(s))

RECURSIVE TrimL(_)
TrimL(s) == IF s # <<>> /\ Head(s) \in Space THEN TrimL(Tail(s)) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF s # <<>> /\ s[Len(s)] \in Space THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimR(TrimL(s))

Lower(s) == [i \in 1..Len(s) |-> Low(s[i])]

(* a well-formed localpart: legal characters, no separator at the ends or next to another *)
Sep(c) == c \in {Dash, Dot}
WellFormed(s) == /\ \A i \in 1..Len(s) : Legal(s[i])
                 /\ Len(s) \in 3..MaxLocal
                 /\ ~Sep(s[1]) /\ ~Sep(s[Len(s)])
                 /\ \A i \in 1..Len(s)-1 : ~(Sep(s[i]) /\ Sep(s[i + 1]))
Bad == [res |-> "err", out |-> <<>>]
MapLocal(s) == LET x == Lower(Trim(s)) IN
               IF WellFormed(x) THEN [res |-> "ok", out |-> [i \in 1..Len(x) |-> Alike(x[i])]] ELSE Bad
Ats(s) == {i \in 1..Len(s) : s[i] = At2}
MapId(s) ==
  IF Bytes(s) > MaxBytes \/ Cardinality(Ats(s)) # 1 THEN Bad
  ELSE LET p == CHOOSE i \in 1..Len(s) : s[i] = At2
           m == MapLocal(SubSeq(s, 1, p - 1))
           d == Lower(SubSeq(s, p + 1, Len(s)))
           o == m.out \o <<At2>> \o d
       IN IF m.res = "err" \/ Bytes(o) > MaxBytes THEN Bad ELSE [res |-> "ok", out |-> o]
Domain(s) == LET p == CHOOSE i \in 1..Len(s) : s[i] = At2 IN SubSeq(s, p + 1, Len(s))
Canonical(s) == LET m == MapId(s) IN m.res = "ok" /\ m.out = s
=============================================================================
