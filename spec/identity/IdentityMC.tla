----------------------------- MODULE IdentityMC -----------------------------
(* All texts over an alphabet of one representative per class of characters. *)
EXTENDS Identity
CONSTANTS N, ND
VARIABLES lp, dom
Chars == {97, 65, 48, 111, 79, 49, 108, 106, 73, 105, 50, Dash, Dot, 32, 64, 95, 304}
DomChars == {97, 65, 46, 64, 48, 32}
Init == lp = <<>> /\ dom = <<>>
Next == \/ Len(lp) < N /\ dom = <<>> /\ \E c \in Chars : lp' = Append(lp, c) /\ UNCHANGED dom
        \/ Len(dom) < ND /\ \E c \in DomChars : dom' = Append(dom, c) /\ UNCHANGED lp
Spec == Init /\ [][Next]_<<lp, dom>>
Id == lp \o <<At2>> \o dom
M == MapId(Id)
(* mapping again changes nothing *)
Idempotent == M.res = "ok" => MapId(M.out) = M
(* spellings that look alike or differ in case have the same form *)
Upper(c) == IF c \in 97..122 THEN c - 32 ELSE c
Other(c) == CASE c = 48 -> 111 [] c = 111 -> 48 [] c = 49 -> 108 [] c = 108 -> 49 [] c = 105 -> 106 [] c = 106 -> 105 [] OTHER -> c
Spellings == LET s == lp IN \A i \in 1..Len(s) : \A x \in {Other(Low(s[i])), Upper(Low(s[i])), Low(s[i])} :
              LET t == [s EXCEPT ![i] = x] IN MapId(t \o <<At2>> \o dom) = M
CaseOfDomain == \A i \in 1..Len(dom) : MapId(lp \o <<At2>> \o [dom EXCEPT ![i] = Upper(@)]) = M
(* the canonical form is well-formed and keeps the domain *)
Form == M.res = "ok" => /\ Cardinality(Ats(M.out)) = 1
                        /\ Domain(M.out) = Lower(dom)
                        /\ \A c \in {48, 49, 106} : \A i \in 1..(CHOOSE p \in Ats(M.out) : TRUE) : M.out[i] # c
(* different texts without look-alikes stay different *)
Faithful == (M.res = "ok" /\ \A i \in 1..Len(lp) : lp[i] \in {97, 50, Dash, Dot, 105, 111, 108}) => M.out = lp \o <<At2>> \o Lower(dom)
=============================================================================
