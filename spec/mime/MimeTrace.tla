----------------------------- MODULE MimeTrace -----------------------------
EXTENDS Mime, TraceLib
VARIABLE x
TInit == l = 1 /\ x = 0
SameHdr(h) == h = E.hdr
Got(e) == /\ SameHdr(e.ghdr) /\ e.subject = Subject(E.text) /\ e.body = E.text
          /\ e.gatts = ReadAll(E.atts, E.sys)
TNext ==
  \/ AtReset /\ UNCHANGED x
  \/ /\ At("Msg") /\ UNCHANGED x
     /\ E.res = "ok" /\ Got(E)
  (* cut off at every position: runs of positions with the same outcome *)
  \/ /\ At("Cut") /\ UNCHANGED x
     /\ E.res = "ok"
     /\ \A i \in 1..Len(E.cuts) : LET c == E.cuts[i] IN
          /\ c.r \in CutRes(E.total, c.a)
          /\ c.r \in CutRes(E.total, c.b)
  (* altered at random: never a crash (the driver gets through) *)
  \/ At("Alter") /\ UNCHANGED x /\ E.res = "ok"
  (* a part that breaks the format, or a file that cannot be read or written completely *)
  \/ At("Spoil") /\ UNCHANGED x /\ E.res = "err"
  \/ At("Nop") /\ UNCHANGED x
  (* without one of the header fields *)
  \/ /\ At("Drop") /\ UNCHANGED x
     /\ IF E.field \in Mandatory THEN E.res = "err"
        ELSE /\ E.res = "ok" /\ E.body = E.text /\ E.gatts = ReadAll(E.atts, E.sys)
             /\ E.ghdr = [E.hdr EXCEPT !.cc = IF E.field = "Cc" THEN <<>> ELSE @, !.irt = IF E.field = "In-Reply-To" THEN "" ELSE @]
             /\ E.subject = (IF E.field = "Subject" THEN <<>> ELSE Subject(E.text))
  \/ /\ At("Chunk") /\ UNCHANGED x
     /\ E.res = "ok"
     /\ Len(E.parts) = Pieces(E.text, E.size)
     /\ \A i \in 1..Len(E.parts) : LET p == E.parts[i] IN
          /\ p.res = "ok" /\ SameHdr(p.hdr)
          /\ p.piece = i /\ p.count = Len(E.parts)
          /\ p.part = Piece(E.text, E.size, i)
     /\ \A i \in 1..Len(E.cuts) : LET c == E.cuts[i] IN c.r \in CutPiece(E.end, c.a)
     /\ E.wrongid \in {"none", "err"}
  \/ /\ At("Split") /\ UNCHANGED x
     /\ E.subject = Subject(E.text) /\ E.message = Rest(E.text)
TSpec == TInit /\ [][TNext]_<<x, l>>
=============================================================================
