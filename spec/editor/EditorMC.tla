------------------------------ MODULE EditorMC ------------------------------
EXTENDS Editor
CONSTANTS Widths, Heights
VARIABLE last
A == <<97>>
Nc == <<A, 1>>
Texts == { <<<<>>>>, << <<Nc>> >>, << <<Nc, Nc, Nc, Nc>> >>, << <<Nc>>, <<>>, <<Nc, Nc, Nc>> >>,
           << <<Nc, <<<<19990>>, 2>>, <<<<19990>>, 0>>, Nc, Nc>>, <<Nc>>, <<>>, <<>> >> }
Keys == {"up", "down", "left", "right", "pgup", "pgdn", "home", "end", "other"}
MInit == Init /\ last = "init"
MNext ==
  \/ \E x \in Texts : SetContent(x) /\ last' = "content"
  \/ \E on \in BOOLEAN : Enable(on) /\ last' = "enable"
  \/ \E on \in BOOLEAN : Hide(on) /\ last' = "hide"
  \/ \E a \in Widths, b \in Heights : View(a, b) /\ last' = "view"
  \/ \E x \in -1..5, y \in -1..4 : Place(x, y) /\ last' = "place"
  \/ MakeVisible /\ last' = "visible"
  \/ \E k \in Keys : Key(k) /\ last' = IF k = "other" THEN last ELSE "key"
MSpec == MInit /\ [][MNext]_<<vars, last>>
(* wherever the cursor goes it can be seen *)
Follows == (en /\ last \in {"key", "view", "visible"} /\ W > 0 /\ H > 0) => OnScreen
(* moving around does not change the text *)
KeepsText == [][last' # "content" => t' = t]_<<vars, last>>
(* a new text does not hide the cursor that was on the screen *)
KeepsCursor == [][(last' = "content" /\ OnScreen /\ en) => OnScreen']_<<vars, last>>
=============================================================================
