------------------------------ MODULE TextBuf ------------------------------
(* The text buffer: a sequence of bytes read as UTF-8, kept as lines.  A    *)
(* line is a sequence of code points (runes); a rune of width 0 combines    *)
(* with the ones before it to a character; a character takes up one or two  *)
(* cells on the screen.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Newline == 10
Unknown == 65533          \* what a byte that is not UTF-8 is read as

(* widths of the code points used here *)
Width(r) ==
  CASE r \in 0..31 \/ r \in 127..159 \/ r \in 768..879 \/ r \in 8203..8207 -> 0
    [] r \in 32..126 \/ r \in 192..255 \/ r = Unknown -> 1
    [] r \in 13312..19893 \/ r \in 19968..40869 \/ r \in 44032..55203 \/ r \in 128512..128591 -> 2

Cont(s, i) == i <= Len(s) /\ s[i] \in 128..191
(* the code point at position i and the number of bytes it takes *)
DecodeAt(s, i) ==
  LET b == s[i]  c == IF Cont(s, i + 1) THEN s[i + 1] ELSE 0 IN
  CASE b < 128 -> <<b, 1>>
    [] b \in 194..223 /\ c # 0 -> <<(b - 192) * 64 + (c - 128), 2>>
    [] b \in 224..239 /\ c # 0 /\ Cont(s, i + 2) /\ (b = 224 => c >= 160) /\ (b = 237 => c <= 159)
         -> <<(b - 224) * 4096 + (c - 128) * 64 + (s[i + 2] - 128), 3>>
    [] b \in 240..244 /\ c # 0 /\ Cont(s, i + 2) /\ Cont(s, i + 3) /\ (b = 240 => c >= 144) /\ (b = 244 => c <= 143)
         -> <<(b - 240) * 262144 + (c - 128) * 4096 + (s[i + 2] - 128) * 64 + (s[i + 3] - 128), 4>>
    [] OTHER -> <<Unknown, 1>>
RECURSIVE DecodeFrom(_, _)
DecodeFrom(s, i) ==
  IF i > Len(s) THEN <<>> ELSE LET d == DecodeAt(s, i) IN <<d[1]>> \o DecodeFrom(s, i + d[2])
Decode(s) == DecodeFrom(s, 1)

Encode(r) ==
  IF r < 128 THEN <<r>>
  ELSE IF r < 2048 THEN <<192 + (r \div 64), 128 + (r % 64)>>
  ELSE IF r < 65536 THEN <<224 + (r \div 4096), 128 + ((r \div 64) % 64), 128 + (r % 64)>>
  ELSE <<240 + (r \div 262144), 128 + ((r \div 4096) % 64), 128 + ((r \div 64) % 64), 128 + (r % 64)>>

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Concat(Tail(ss))
Bytes(rs) == Concat([i \in 1..Len(rs) |-> Encode(rs[i])])

(* the rows of a text *)
RECURSIVE Rows(_)
Rows(s) ==
  LET p == {i \in 1..Len(s) : s[i] = Newline} IN
  IF p = {} THEN <<s>>
  ELSE LET m == CHOOSE i \in p : \A j \in p : i <= j IN
       <<SubSeq(s, 1, m - 1)>> \o Rows(SubSeq(s, m + 1, Len(s)))

(* the runes of a row; a combining rune at the start gets a space to combine with *)
Runes(row) == LET rs == Decode(row) IN
  IF rs # <<>> /\ Width(rs[1]) = 0 THEN <<32>> \o rs ELSE rs
Text(s) == LET rows == Rows(s) IN [i \in 1..Len(rows) |-> Runes(rows[i])]

(* characters of a line: maximal stretches of a rune with width and the     *)
(* combining ones that follow                                               *)
Starts(rs) == {i \in 1..Len(rs) : Width(rs[i]) > 0}
NumChars(rs) == Cardinality(Starts(rs))
RECURSIVE Nth(_, _)
Nth(S, n) == LET m == CHOOSE x \in S : \A y \in S : x <= y IN IF n = 1 THEN m ELSE Nth(S \ {m}, n - 1)
Char(rs, n) ==
  LET a == Nth(Starts(rs), n)
      b == IF n = NumChars(rs) THEN Len(rs) + 1 ELSE Nth(Starts(rs), n + 1)
  IN SubSeq(rs, a, b - 1)
Chars(rs) == [n \in 1..NumChars(rs) |-> Char(rs, n)]

(* cells of a line: the character and 1 (narrow), 2 (first half of a wide   *)
(* one) or 0 (second half)                                                  *)
RECURSIVE CellsOf(_)
CellsOf(cs) ==
  IF cs = <<>> THEN <<>>
  ELSE (IF Width(cs[1][1]) = 1 THEN << <<cs[1], 1>> >> ELSE << <<cs[1], 2>>, <<cs[1], 0>> >>) \o CellsOf(Tail(cs))
Cells(rs) == CellsOf(Chars(rs))

RECURSIVE Written(_)
Written(t) == IF Len(t) = 1 THEN Bytes(t[1]) ELSE Bytes(t[1]) \o <<Newline>> \o Written(Tail(t))

MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
MaxCells(t) == MaxOf({Len(Cells(t[i])) : i \in 1..Len(t)})
=============================================================================
