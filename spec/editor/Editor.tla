------------------------------- MODULE Editor -------------------------------
(* The editor widget used as a pager: shows a text in a view that may be    *)
(* smaller, with an optional cursor.  t: the text as lines of cells (none   *)
(* before there is a text); the                                             *)
(* cursor (cx, cy), enabled or not, hidden or not; the size of the view (w, *)
(* h), -1 before there is one; the cell shown at the top left is (px, py).  *)
EXTENDS TextBuf
VARIABLES t, cx, cy, en, hid, w, h, px, py
vars == <<t, cx, cy, en, hid, w, h, px, py>>

Limit(x, n) == LET a == IF x > n - 1 THEN n - 1 ELSE x IN IF a < 0 THEN 0 ELSE a
TextW(tt) == IF tt = <<>> THEN 0 ELSE MaxOf({Len(tt[i]) : i \in 1..Len(tt)})
TextH(tt) == Len(tt)
CellText(s) == LET x == Text(s) IN [i \in 1..Len(x) |-> Cells(x[i])]

(* the view never scrolls away from the text *)
Valid(p, lim, size) == LET a == IF p >= lim - size THEN lim - size ELSE p IN IF a < 0 THEN 0 ELSE a
(* the least movement that shows position x *)
Show(p, x, lim, size) ==
  LET a == IF x < lim /\ x >= p + size THEN x - (size - 1) ELSE p
      b == IF x >= 0 /\ x < a THEN x ELSE a
  IN Valid(b, lim, size)

Init == t = <<>> /\ cx = 0 /\ cy = 0 /\ en = FALSE /\ hid = FALSE /\ w = -1 /\ h = -1 /\ px = 0 /\ py = 0
W == IF w < 0 THEN 0 ELSE w
H == IF h < 0 THEN 0 ELSE h

PortTo(tt, x, y, p, q, ww, hh) ==
  /\ px' = IF en THEN Show(p, x, TextW(tt), ww) ELSE p
  /\ py' = IF en THEN Show(q, y, TextH(tt), hh) ELSE q

SetContent(tt) ==
  /\ t' = tt
  /\ cx' = Limit(cx, TextW(tt)) /\ cy' = Limit(cy, TextH(tt))
  /\ PortTo(tt, cx', cy', Valid(px, TextW(tt), W), Valid(py, TextH(tt), H), W, H)
  /\ UNCHANGED <<en, hid, w, h>>
Enable(on) == en' = on /\ UNCHANGED <<t, cx, cy, hid, w, h, px, py>>
Hide(on) == hid' = on /\ UNCHANGED <<t, cx, cy, en, w, h, px, py>>
(* a new view or a new size of it *)
View(ww, hh) ==
  /\ w' = ww /\ h' = hh
  /\ PortTo(t, cx, cy, Valid(px, TextW(t), ww), Valid(py, TextH(t), hh), ww, hh)
  /\ UNCHANGED <<t, cx, cy, en, hid>>
(* the cursor is placed *)
Place(x, y) ==
  /\ cx' = Limit(x, TextW(t)) /\ cy' = Limit(y, TextH(t))
  /\ UNCHANGED <<t, en, hid, w, h, px, py>>
MakeVisible == PortTo(t, cx, cy, px, py, W, H) /\ UNCHANGED <<t, cx, cy, en, hid, w, h>>

(* keys move the cursor if it is enabled, and the view otherwise *)
Moves == [up |-> <<0, -1>>, down |-> <<0, 1>>, left |-> <<-1, 0>>, right |-> <<1, 0>>]
Key(k) ==
  LET c == CASE k \in DOMAIN Moves -> <<cx + Moves[k][1], cy + Moves[k][2]>>
             [] k = "pgup" -> <<cx, cy - H>> [] k = "pgdn" -> <<cx, cy + H>>
             [] k = "home" -> <<0, 0>> [] k = "end" -> <<TextW(t), TextH(t)>>
             [] OTHER -> <<cx, cy>>
      v == CASE k \in DOMAIN Moves -> <<px + Moves[k][1], py + Moves[k][2]>>
             [] k = "pgup" -> <<px, py - H>> [] k = "pgdn" -> <<px, py + H>>
             [] k = "home" -> <<px - TextW(t), py - TextH(t)>> [] k = "end" -> <<px + TextW(t), py + TextH(t)>>
             [] OTHER -> <<px, py>>
  IN IF k = "other" THEN UNCHANGED vars
     ELSE IF en
     THEN /\ cx' = Limit(c[1], TextW(t)) /\ cy' = Limit(c[2], TextH(t))
          /\ PortTo(t, cx', cy', px, py, W, H)
          /\ UNCHANGED <<t, en, hid, w, h>>
     ELSE /\ px' = IF v[1] # px \/ k \in {"left", "right", "home", "end"} THEN Valid(v[1], TextW(t), W) ELSE px
          /\ py' = IF v[2] # py \/ k \in {"up", "down", "pgup", "pgdn", "home", "end"} THEN Valid(v[2], TextH(t), H) ELSE py
          /\ UNCHANGED <<t, cx, cy, en, hid, w, h>>

(* what is on the screen at column x and row y of the view: the character,  *)
(* and whether it is marked as the cursor                                   *)
Shown(x, y) ==
  LET ax == x + px  ay == y + py
      in == ay < Len(t) /\ ax < Len(t[ay + 1])
      cell == t[ay + 1][ax + 1]
      second == in /\ cell[2] = 0
  IN <<IF in /\ ~second THEN cell[1] ELSE <<32>>,
       en /\ ~hid /\ ax = cx /\ ay = cy /\ ~second>>

(* ------------------------------------------------------------ properties *)
CursorInText == cx \in 0..(IF TextW(t) = 0 THEN 0 ELSE TextW(t) - 1) /\ cy \in 0..(IF TextH(t) = 0 THEN 0 ELSE TextH(t) - 1)
OnScreen == cx >= px /\ cx < px + W /\ cy >= py /\ cy < py + H
WithinText == px \in 0..TextW(t) /\ py \in 0..TextH(t) /\ (w > 0 => (px = 0 \/ px + w <= TextW(t))) /\ (h > 0 => (py = 0 \/ py + h <= TextH(t)))
=============================================================================
