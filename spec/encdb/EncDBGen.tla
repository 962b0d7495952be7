------------------------------ MODULE EncDBGen ------------------------------
EXTENDS EncDB, TLC, Json
CONSTANTS Depth
VARIABLES hist, n
R(S) == RandomElement(S)
Live == hist = hist
W(s) == s[RandomElement(1..Len(s))]
Rs == {"ok", "err"}
Rec(op) == hist' = Append(hist, op) /\ n' = n + 1
P == IF Live THEN IF cur # 0 /\ R(1..8) # 1 THEN cur ELSE R(1..8) ELSE CHOOSE x \in {} : FALSE
Iter == IF Live THEN W(<<2, 10, 64, 1000, 10, 10, -1, -2>>) ELSE CHOOSE x \in {} : FALSE
AnyMode == IF Live THEN W(<<"", "NONE", "FULL", "INCREMENTAL", "INCREMENTAL", "full", "3">>) ELSE CHOOSE x \in {} : FALSE
ABatch == IF Live THEN IF rows = {} THEN 1 ELSE R(rows) ELSE CHOOSE x \in {} : FALSE
Menu == <<"Rekey", "Rekey", "Put", "Put", "Put", "Purge", "Crash", "Crash", "Crash", "Crash", "Crash", "Vacuum", "Vacuum", "Incremental", "Status",
          "Hold", "HPut", "Drop", "Lose", "Harm", "Restore", "Restore", "Create">>
Modes3 == <<"kill", "kill", "kill", "kill", "ENOSPC", "EIO", "EACCES">>
G(name) ==
  CASE name = "Create" -> \E p \in {P}, i \in {Iter} : \E r \in Rs : Create(p, i, r) /\ Rec([op |-> name, p |-> p, iter |-> i])
    [] name = "Rekey" -> \E p \in {P}, q \in {R(1..8)}, i \in {Iter} : \E r \in Rs : Rekey(p, q, i, r) /\ Rec([op |-> name, p |-> p, q |-> q, iter |-> i])
    [] name = "Put" -> \E p \in {P} : \E r \in Rs : Put(p, n, r) /\ Rec([op |-> name, p |-> p, b |-> n])
    [] name = "Purge" -> \E p \in {P}, b \in {ABatch} : \E r \in Rs : Purge(p, b, r) /\ Rec([op |-> name, p |-> p, b |-> b])
    [] name = "Vacuum" -> \E p \in {P}, m \in {AnyMode} : \E r \in Rs : Vacuum(p, m, r) /\ Rec([op |-> name, p |-> p, av |-> m])
    [] name = "Incremental" -> \E p \in {P}, k \in {W(<<0, 0, 1, 5>>)} : \E r \in Rs : Incremental(p, k, r, 0) /\ Rec([op |-> name, p |-> p, pages |-> k])
    [] name = "Status" -> \E p \in {P} : Still /\ Rec([op |-> name, p |-> p])
    [] name = "Hold" /\ ~held -> \E p \in {P} : \E r \in Rs : Hold(p, r) /\ Rec([op |-> name, p |-> p])
    [] name = "HPut" /\ held /\ has = {"db", "key"} /\ ~harmed -> HPut(n, "ok") /\ Rec([op |-> name, b |-> n])
    [] name = "Drop" /\ held -> Drop("ok") /\ Rec([op |-> name])
    \* the outcome of a crash is not known in advance: the generator continues
    \* with one of the possible ones, the passphrase used next may be wrong
    [] name = "Crash" -> \E what \in {W(<<"Rekey", "Rekey", "Rekey", "Put", "Put", "Purge", "Vacuum">>)}, p \in {P}, q \in {R(1..8)}, m \in {AnyMode},
                            b0 \in {ABatch}, at \in {R(1..1000)}, mode \in {W(Modes3)} :
         \E b \in {IF what = "Put" THEN n ELSE b0} : \E r \in {R({"killed", "ok"})} :
           /\ (IF Opens(p) THEN Crash(what, p, q, 10, b, IF m \in Modes THEN m ELSE "", r) ELSE Still)
           /\ Rec([op |-> name, what |-> what, p |-> p, q |-> q, iter |-> 10, b |-> b, av |-> IF m \in Modes THEN m ELSE "", at |-> at, mode |-> mode])
    [] name = "Lose" /\ ~held /\ ~harmed /\ has # {} -> \E f \in {R(has)} : Lose(f) /\ Rec([op |-> name, what |-> f])
    [] name = "Harm" /\ ~held /\ ~harmed /\ has = {"db", "key"} /\ away = {} ->
         \E how \in {W(<<"cut", "flip">>)}, at \in {R(0..87)}, bit \in {R(0..7)} : Harm /\ Rec([op |-> name, how |-> how, at |-> at, bit |-> bit])
    [] OTHER -> \* Restore does nothing if nothing is away and no file was made meanwhile
         IF \A f \in away : f \notin has \/ harmed THEN Restore /\ Rec([op |-> "Restore"]) ELSE Still /\ Rec([op |-> "Status", p |-> 1])
GNext == Len(hist) < Depth /\ \E name \in {IF Len(hist) = 0 THEN "Create" ELSE W(Menu)} : G(name)
GSpec == (Init /\ hist = <<>> /\ n = 1) /\ [][GNext]_<<vars, hist, n>>
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
