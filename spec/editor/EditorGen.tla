----------------------------- MODULE EditorGen -----------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLE hist
R(S) == RandomElement(S)
W(s) == s[RandomElement(1..Len(s))]
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Concat(Tail(ss))
(* letters, newlines, accented, combining, wide, control, cut off and       *)
(* invalid characters                                                       *)
Bits == << <<97>>, <<98>>, <<32>>, <<97, 98, 99>>, <<10>>, <<10>>, <<10, 10>>, <<195, 169>>, <<204, 129>>, <<204, 150>>, <<228, 184, 150>>,
           <<234, 176, 128>>, <<240, 159, 152, 128>>, <<226, 128, 139>>, <<9>>, <<13>>, <<0>>, <<27>>, <<239, 191, 189>>,
           <<255>>, <<128>>, <<228>>, <<228, 184>>, <<240, 159, 152>>, <<204>>, <<237, 160, 128>>, <<192, 128>>, <<224, 128, 128>>, <<150>>, <<245>>, <<244, 144, 128, 128>> >>
Text(n) == Concat([i \in 1..R({0, 1, 2, n} \cup {R(0..n), R(0..n)}) |-> W(Bits)])
Plain(n) == Concat([i \in 1..R(0..n) |-> W(<< <<97>>, <<98, 99>>, <<10>>, <<228, 184, 150>>, <<101, 204, 129>> >>)])
Buf(z) == [op |-> "Text", in |-> Text(14)]
Content(z) == [op |-> "Content", in |-> W(<<Text(20), Plain(40), Plain(25)>>)]
View(z) == [op |-> "View", w |-> R({1, 2, 3, 5, 8, 12}), h |-> R({1, 2, 3, 6}), new |-> R(BOOLEAN)]
KeyNames == <<"up", "down", "left", "right", "pgup", "pgdn", "home", "end", "up", "down", "left", "right", "right", "down",
              "ctrl-p", "ctrl-n", "ctrl-f", "ctrl-b", "rune-g", "rune-k", "rune-j", "rune-l", "rune-h", "rune- ", "rune-x", "enter", "esc", "mouse">>
Key(z) == [op |-> "Key", key |-> W(KeyNames)]
Place(z) == [op |-> W(<<"Place", "PlaceX", "PlaceY">>), x |-> R(-2..12), y |-> R(-2..8)]
Flag(z) == [op |-> W(<<"Enable", "Enable", "Hide">>), on |-> R({TRUE, TRUE, FALSE})]
GInit == hist = <<>>
GNext == Len(hist) < Depth /\
  \E k \in {R(1..20)} :
    \E c \in {CASE k = 1 -> Buf(k) [] k = 2 -> Content(k) [] k = 3 -> View(k) [] k = 4 -> Flag(k) [] k = 5 -> Place(k)
                [] k = 6 -> [op |-> "Visible"] [] OTHER -> Key(k)} :
      hist' = Append(hist, IF Len(hist) = 2 THEN View(k) ELSE IF Len(hist) = 1 THEN Content(k) ELSE c)
GSpec == GInit /\ [][GNext]_hist
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
