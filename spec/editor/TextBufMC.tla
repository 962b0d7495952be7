----------------------------- MODULE TextBufMC -----------------------------
(* All short sequences of bytes over representatives: letters, newline, the *)
(* bytes of a combining, a wide and an accented character, and an invalid   *)
(* one.                                                                     *)
EXTENDS TextBuf
CONSTANTS N, Alphabet
VARIABLE s
Init == s = <<>>
Next == Len(s) < N /\ \E c \in Alphabet : s' = Append(s, c)
Spec == Init /\ [][Next]_s
T == Text(s)
(* reading what was written gives the same text *)
Stable == Text(Written(T)) = T /\ Written(Text(Written(T))) = Written(T)
(* nothing is lost: unchanged if it was UTF-8 and no line starts with a     *)
(* combining character                                                      *)
Clean == /\ \A i \in 1..Len(Rows(s)) : LET d == Decode(Rows(s)[i]) IN
              /\ Bytes(d) = Rows(s)[i]
              /\ (d = <<>> \/ Width(d[1]) > 0)
Faithful == Clean => Written(T) = s
(* the coordinate systems agree *)
Coordinates == \A i \in 1..Len(T) :
  LET rs == T[i] IN
  /\ Concat(Chars(rs)) = rs
  /\ \A n \in 1..NumChars(rs) : Width(Char(rs, n)[1]) > 0 /\ \A k \in 2..Len(Char(rs, n)) : Width(Char(rs, n)[k]) = 0
  /\ LET cs == Cells(rs) IN
       /\ Len(cs) = Cardinality({k \in 1..Len(rs) : Width(rs[k]) = 1}) + 2 * Cardinality({k \in 1..Len(rs) : Width(rs[k]) = 2})
       /\ \A k \in 1..Len(cs) : cs[k][2] = 0 => k > 1 /\ cs[k - 1] = <<cs[k][1], 2>>
=============================================================================
