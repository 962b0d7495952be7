------------------------------ MODULE MimeGen ------------------------------
(* Random messages with attachments, pieces of messages, and damaged ones. *)
EXTENDS Mime, Json
CONSTANTS Depth
VARIABLE hist
R(S) == RandomElement(S)
W(s) == s[RandomElement(1..Len(s))]
Run(c, n) == [i \in 1..n |-> c]
(* bytes of "=?utf-8?q?a?=" and friends *)
Word == <<61, 63, 117, 116, 102, 45, 56, 63, 113, 63, 97, 63, 61>>
Word2 == <<61, 63, 120, 63, 81, 63, 97, 63, 61>>
Bits == << <<97>>, <<98>>, <<32>>, <<Nl>>, <<Cr>>, <<Cr, Nl>>, <<195, 169>>, <<228, 184, 150>>, Word, Word2, <<61, 63>>, <<63, 61>>,
           <<45, 45>>, <<95>>, <<61>>, <<0>>, <<255>>, <<9>>, <<Dot>>, Run(97, 90), Run(32, 3),
           Join([i \in 1..40 |-> <<195, 169>>]), <<58, 32>>, <<34>>, <<240, 159, 152, 128>>, <<27>>, <<127>> >>
Text(n) == Join([i \in 1..R({n, 1, 2} \cup {R(0..n)}) |-> W(Bits)])
Opening(n) == Join([i \in 1..R(0..n) |-> W(<<<<97>>, <<98>>, <<32>>, <<122>>>>)])
NameBits == << <<97>>, <<98>>, <<32>>, <<Dot>>, <<Slash>>, <<112, 110, 103>>, <<Dot, 112, 110, 103>>, <<Dot, 112, 100, 102>>, <<Dot, 80, 78, 71>>,
               <<Dot, 106, 112, 103>>, <<59>>, <<34>>, <<92>>, <<195, 169>>, <<37>>, <<39>>, <<61>>, <<9>>, <<44>>, <<40>>, <<Nl>>, <<Cr, Nl>>,
               <<228, 184, 150>>, Run(97, 70), <<Slash, 97>>, <<46, 46, 47>>, <<42>>, <<58>>, <<0>> >>
FileName(z) == Join([i \in 1..R({1, 2, 3} \cup {R(0..5)}) |-> W(NameBits)])
Ids == << "alice@mute.one", "b.o-b@mute.berlin", "carol@x.org", "a@b", "frank33@mute.one", "verylongname-verylongname-verylongname@mute.one" >>
MsgIds == << "<1234.abcd@mute.one>", "tLx-9Zz_01@mute.berlin", "x", "<a b@mute.one>" >>
Attachment(z) == [name |-> FileName(z), data |-> Text(6), more |-> W(<<0, 0, 0, 1, 57, 3000, 9001>>),
               ct |-> W(<<"", "", "", "text/plain", "application/pdf", "text/html; charset=utf-8", "image/png", "Application/PDF",
                                   "image/png; name=\"a.png\"", "text/plain; charset=UTF-8; name=x", "text/plain;charset=utf-8">>), inline |-> R(BOOLEAN)]
Header(cc) == [from |-> W(Ids), to |-> W(Ids), cc |-> [i \in 1..cc |-> W(Ids)], mid |-> W(MsgIds), irt |-> W(<<"", "">> \o MsgIds)]
Common(o, n) == [op |-> o, hdr |-> Header(W(<<0, 0, 1, 2, 3>>)), text |-> W(<<Text(8), Text(8), Opening(12) \o <<Nl>> \o Text(5), Text(20)>>),
                 atts |-> [i \in 1..n |-> Attachment(i)]]
Msg(z) == Common("Msg", W(<<0, 1, 1, 2, 3>>))
Cut(z) == [Common("Cut", W(<<0, 1, 2>>)) EXCEPT !.atts = [i \in 1..Len(@) |-> [@[i] EXCEPT !.more = R({0, 1, 57})]]]
Alter(z) == Common("Alter", W(<<0, 1, 2>>)) @@ [n |-> 300]
Spoil(z) == Common("Spoil", W(<<0, 1, 2, 3>>)) @@ [form |-> W(<<"reader", "writer", "type", "disposition", "line", "content">>), v |-> R(0..99999)]
Drop(z) == Common("Drop", W(<<0, 1>>)) @@ [field |-> W(<<"From", "To", "Message-ID", "MIME-Version", "Content-Type", "Subject", "Cc", "In-Reply-To">>)]
Chunk(z) == [op |-> "Chunk", hdr |-> Header(W(<<0, 1, 2>>)), text |-> Text(30), size |-> R({1, 2, 3, 10, 57, 76, 1000} \cup {R(1..300)})]
Split2(z) == [op |-> "Split", text |-> Text(12)]
GInit == hist = <<>>
GNext == Len(hist) < Depth /\
  \E k \in {R(1..16)} :
    \E c \in {CASE k <= 4 -> Msg(k) [] k = 5 -> Cut(k) [] k = 6 -> Alter(k) [] k \in {7, 8} -> Drop(k) [] k \in {9, 10} -> Chunk(k) [] k \in 11..14 -> Spoil(k) [] OTHER -> Split2(k)} :
      hist' = Append(hist, c)
GSpec == GInit /\ [][GNext]_hist
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
