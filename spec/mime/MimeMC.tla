------------------------------- MODULE MimeMC -------------------------------
(* All short texts and names: splitting and cutting into pieces lose        *)
(* nothing.                                                                 *)
EXTENDS Mime
CONSTANT N
VARIABLE t
Chars == {97, Nl, Cr, Slash, Dot, 80}
Init == t = <<>>
Next == Len(t) < N /\ \E c \in Chars : t' = Append(t, c)
Spec == Init /\ [][Next]_t
HasNl == Nl \in {t[i] : i \in 1..Len(t)}
Split == LET s == Subject(t)  r == Rest(t) IN
  /\ Nl \notin {s[i] : i \in 1..Len(s)}
  /\ (s = <<>> \/ s[Len(s)] # Cr)
  /\ \E k \in 0..Len(t) : LET crs == [i \in 1..k |-> Cr] IN
       t = s \o crs \o (IF HasNl THEN <<Nl>> \o r ELSE <<>>)
Chunked == \A n \in 1..(N + 1) :
  /\ Join([i \in 1..Pieces(t, n) |-> Piece(t, n, i)]) = t
  /\ \A i \in 1..Pieces(t, n) : Len(Piece(t, n, i)) \in 1..n
  /\ \A i \in 1..(Pieces(t, n) - 1) : Len(Piece(t, n, i)) = n
Name == LET b == Base(t) IN
  /\ b # <<>> /\ Base(b) = b
  /\ (b = <<Slash>> \/ Slash \notin {b[i] : i \in 1..Len(b)})
=============================================================================
