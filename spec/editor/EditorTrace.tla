---------------------------- MODULE EditorTrace ----------------------------
EXTENDS Editor, TraceLib

(* after every step: cursor and screen as specified; whoever watches the    *)
(* cursor is told when it moved                                             *)
Screen(e) ==
  /\ e.x = cx' /\ e.y = cy'
  /\ (cx' # cx \/ cy' # cy) => e.moved > 0
  /\ e.shownat \* position in the event is the one of the editor
  /\ Len(e.grid) = (IF w' < 0 THEN 0 ELSE h')
  /\ \A r \in 1..Len(e.grid) : /\ Len(e.grid[r]) = w'
                               /\ \A c \in 1..w' : LET s == Shown(c - 1, r - 1)' IN
                                    e.grid[r][c][1] = s[1] /\ (e.grid[r][c][2] = 1) = s[2]
Canon == [u \in {"up", "ctrl-p", "rune-k"} |-> "up"] @@ [u \in {"down", "ctrl-n", "rune-j"} |-> "down"]
         @@ [u \in {"left", "ctrl-b", "rune-h"} |-> "left"] @@ [u \in {"right", "ctrl-f", "rune-l"} |-> "right"]
         @@ [u \in {"pgup"} |-> "pgup"] @@ [u \in {"pgdn", "rune- "} |-> "pgdn"] @@ [u \in {"home", "rune-g"} |-> "home"]
         @@ [u \in {"end"} |-> "end"] @@ [u \in {"rune-x", "enter", "esc", "mouse"} |-> "other"]

(* the buffer by itself: all of it, and positions outside *)
Right(e) ==
  LET tt == Text(e.in) IN
  /\ e.written = Written(tt)
  /\ Len(e.lines) = Len(tt)
  /\ e.max = MaxCells(tt)
  /\ \A i \in 1..Len(tt) : LET ln == e.lines[i]  cs == Cells(tt[i]) IN
       /\ ln.runes = tt[i] /\ ln.nr = Len(tt[i])
       /\ ln.chars = Chars(tt[i]) /\ ln.nch = NumChars(tt[i])
       /\ ln.nc = Len(cs) /\ Len(ln.cells) = Len(cs)
       /\ \A k \in 1..Len(cs) : ln.cells[k] = cs[k][1] /\ ln.widths[k] = cs[k][2]
  /\ e.outside      \* nothing, no length, no crash

TInit == Init /\ l = 1
TNext ==
  \/ /\ AtReset
     /\ t' = <<>> /\ cx' = 0 /\ cy' = 0 /\ en' = FALSE /\ hid' = FALSE /\ w' = -1 /\ h' = -1 /\ px' = 0 /\ py' = 0
  \/ At("Text") /\ UNCHANGED vars /\ Right(E)
  \/ l <= Len(Trace) /\ \E e \in {E} :
       \/ At("Content") /\ \E tt \in {CellText(e.in)} : SetContent(tt) /\ Screen(e)
       \/ At("View") /\ View(e.w, e.h) /\ Screen(e)
       \/ At("Enable") /\ Enable(e.on) /\ Screen(e)
       \/ At("Hide") /\ Hide(e.on) /\ Screen(e)
       \/ At("Place") /\ Place(e.x0, e.y0) /\ Screen(e)
       \/ At("PlaceX") /\ Place(e.x0, cy) /\ Screen(e)
       \/ At("PlaceY") /\ Place(cx, e.y0) /\ Screen(e)
       \/ At("Visible") /\ MakeVisible /\ Screen(e)
       \/ At("Key") /\ Key(Canon[e.key]) /\ Screen(e) /\ e.handled = (Canon[e.key] # "other")
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
