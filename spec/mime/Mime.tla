-------------------------------- MODULE Mime --------------------------------
(* Messages and their attachments on the way through the MIME encoding.     *)
(* A message text, a file name and a file's contents are sequences of       *)
(* bytes.  The first line of the text is its subject.  What was encoded is  *)
(* read back as it was; a file keeps its name without the directories, and  *)
(* the content type it was given or the one its extension implies.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Nl == 10
Cr == 13
Slash == 47
Dot == 46

Firsts(t, c) == {i \in 1..Len(t) : t[i] = c}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y

RECURSIVE TrimCr(_)
TrimCr(t) == IF t # <<>> /\ t[Len(t)] = Cr THEN TrimCr(SubSeq(t, 1, Len(t) - 1)) ELSE t

Subject(t) == LET p == Firsts(t, Nl) IN TrimCr(IF p = {} THEN t ELSE SubSeq(t, 1, Min(p) - 1))
Rest(t) == LET p == Firsts(t, Nl) IN IF p = {} THEN <<>> ELSE SubSeq(t, Min(p) + 1, Len(t))

RECURSIVE TrimSlash(_)
TrimSlash(t) == IF t # <<>> /\ t[Len(t)] = Slash THEN TrimSlash(SubSeq(t, 1, Len(t) - 1)) ELSE t
Base(n) ==
  IF n = <<>> THEN <<Dot>> ELSE
  LET m == TrimSlash(n)  p == Firsts(m, Slash) IN
  IF m = <<>> THEN <<Slash>> ELSE IF p = {} THEN m ELSE SubSeq(m, Max(p) + 1, Len(m))

LowC(c) == IF c \in 65..90 THEN c + 32 ELSE c
Ext(n) == LET p == Firsts(n, Dot) IN IF p = {} THEN <<>> ELSE [i \in 1..(Len(n) - Max(p)) |-> LowC(n[Max(p) + i])]
Types == << <<<<112, 110, 103>>, "image/png">>, <<<<112, 100, 102>>, "application/pdf">>,
            <<<<103, 105, 102>>, "image/gif">>, <<<<106, 112, 103>>, "image/jpeg">> >>
(* sys: what the machine's table says about the extension, "" if nothing *)
ContentType(a, sys) ==
  IF a.ct # "" THEN a.ct ELSE
  LET e == Ext(Base(a.name))  S == {i \in 1..Len(Types) : Types[i][1] = e} IN
  IF S = {} THEN (IF sys = "" THEN "application/octet-stream" ELSE sys) ELSE Types[Min(S)][2]

(* what is read back from message text t with attachments as *)
Read(a, sys) == [name |-> Base(a.name), data |-> a.data, more |-> a.more, ct |-> ContentType(a, sys), inline |-> a.inline]
ReadAll(as, sys) == [i \in 1..Len(as) |-> Read(as[i], sys[i])]

(* pieces of at most n bytes *)
Pieces(t, n) == (Len(t) + n - 1) \div n
Piece(t, n, i) == SubSeq(t, (i - 1) * n + 1, IF i * n > Len(t) THEN Len(t) ELSE i * n)
RECURSIVE Join(_)
Join(ps) == IF ps = <<>> THEN <<>> ELSE ps[1] \o Join(Tail(ps))

(* the encoded message of total bytes was cut to its first n bytes: all of  *)
(* it is there when only the line end after the last boundary is missing    *)
CutRes(total, n) == IF n = total THEN {"same"} ELSE IF n >= total - 2 THEN {"same", "err"} ELSE {"err"}
(* one piece of a message: its content has been read completely at byte     *)
(* end, what follows is the closing boundary                                *)
CutPiece(end, n) == IF n < end THEN {"err"} ELSE {"err", "same"}

Mandatory == {"From", "To", "Message-ID", "MIME-Version", "Content-Type"}
=============================================================================
