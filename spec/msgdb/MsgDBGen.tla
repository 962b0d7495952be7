------------------------------ MODULE MsgDBGen ------------------------------
EXTENDS MsgDB, Json
CONSTANTS Depth, Part
VARIABLES hist, n
R(S) == RandomElement(S)
\* definitions without parameters are evaluated once, unless they depend on the state
Live == hist = hist
W(s) == s[RandomElement(1..Len(s))]
Rec(op) == hist' = Append(hist, op) /\ n' = n + 1
Ask(op) == UNCHANGED vars /\ Rec(op)
Rs == {"ok", "err"}
Common == <<"AddNym", "AddContact", "Reopen", "Rekey", "Vacuum">>
OutMenu == <<"AddMsg", "AddMsg", "AddMsg", "AddMsg", "Enqueue", "Enqueue", "Enqueue", "Enqueue", "SetOut", "SetOut", "RemOut", "RemOut", "RemOut",
             "Retract", "Retract", "Resend", "Resend", "ClearResend", "DelMsg", "GetMsg">>
InMenu == <<"AddIn", "AddIn", "AddIn", "AddIn", "SetIn", "SetIn", "RemIn", "RemIn", "RemIn", "RemIn", "DelIn", "GetMsg", "GetMsg", "ReadMsg", "ReadMsg",
            "DelMsg", "AddMsg", "CacheAdd", "CacheAdd", "CacheAdd", "CacheGet", "CacheGet", "CacheRem">>
BookMenu == <<"AddContact", "AddContact", "AddContact", "AddContact", "RemContact", "RemContact", "GetContact", "GetContact", "AddNym", "AddNym", "DelNym",
              "Upkeep", "AddAccount", "AddAccount", "AddAccount", "SetAccount", "SetAccount", "GetAccount", "GetAccount", "SetVal", "GetVal", "AddMsg",
              "GetMsg">>
Menu == CASE Part = "out" -> Common \o OutMenu \o OutMenu \o <<"DelNym">>
          [] Part = "in" -> Common \o InMenu \o InMenu \o <<"DelNym">>
          [] OTHER -> Common \o BookMenu \o BookMenu \o <<"AddIn", "RemIn", "Enqueue", "RemOut", "CacheAdd", "CacheGet">>
Fresh == IF msgs = <<>> THEN 1 ELSE Max(DOMAIN msgs) + 1
Setup == Len(hist) < 7
Fault(tables) == IF R(1..14) = 1 THEN R(tables) ELSE ""
OutT == {"Messages/UPDATE", "OutQueue/INSERT", "OutQueue/DELETE", "OutQueue/UPDATE", "Messages/INSERT", "Messages/DELETE"}
InT == {"Messages/INSERT", "InQueue/DELETE", "InQueue/INSERT", "InQueue/UPDATE", "MessageIDCache/DELETE", "MessageIDCache/INSERT"}
BookT == {"Contacts/UPDATE", "Contacts/INSERT", "Nyms/DELETE", "Nyms/UPDATE", "Nyms/INSERT", "Accounts/INSERT", "Accounts/UPDATE", "Contacts/DELETE",
          "Messages/DELETE", "KeyValueStore/INSERT"}
AnyId == IF Live THEN IF R(1..25) = 1 THEN R({"Alice@mute.one", "nobody@mute.one", ""}) ELSE R(Ids) ELSE CHOOSE x \in {} : FALSE
MyOr == IF DOMAIN nyms # {} /\ R(1..8) # 1 THEN R(DOMAIN nyms) ELSE AnyId
ConOf(my) == {x[2] : x \in {y \in DOMAIN con : y[1] = my}}
PeerOf(my) == IF ConOf(my) # {} /\ R(1..10) # 1 THEN R(ConOf(my)) ELSE AnyId
OptPeer(my) == IF R(1..3) = 1 THEN "" ELSE PeerOf(my)
Txt == IF Live THEN W(<<n, n, n, n, n, 0, 1>>) ELSE 0
(* times do not only grow *)
Time == IF Live THEN R({n, n, 1000 - n, 500}) ELSE 0
Delay == IF Live THEN R(0..3) ELSE CHOOSE x \in {} : FALSE
(* do A, as the specification says, or fail because of the fault *)
Do(f, A(_), op) == /\ IF f # "" THEN UNCHANGED vars ELSE \E r \in Rs : A(r)
                   /\ Rec(op)
G(name) ==
  CASE name = "AddNym" -> \E s \in {R(Spellings)}, nm \in {R({"", "N1", "N2"})}, f \in {Fault(BookT)} :
         \E id \in {W(<<s[1], s[1], s[1], s[1], s[1], R(Ids), s[2]>>)} :
         Do(f, LAMBDA r : AddNym(id, s[2], nm, r), [op |-> name, id |-> id, un |-> s[2], name |-> nm, fault |-> f])
    [] name = "DelNym" -> \E id \in {AnyId}, f \in {Fault(BookT)} : Do(f, LAMBDA r : DelNym(id, r), [op |-> name, id |-> id, fault |-> f])
    [] name = "Upkeep" -> \E id \in {MyOr}, w \in {R({"all", "accounts"})}, f \in {Fault(BookT)}, t \in {Time} :
         Do(f, LAMBDA r : Upkeep(id, w, t, r), [op |-> name, id |-> id, what |-> w, t |-> t, fault |-> f])
    [] name = "AddContact" -> \E my \in {MyOr}, s \in {R(Spellings)}, nm \in {R({"", "C1", "C2"})}, t \in {W(<<0, 0, 1, 2>>)}, f \in {Fault(BookT)} :
         \E id \in {W(<<s[1], s[1], s[1], s[1], s[1], s[1], R(Ids), s[2]>>)} :
         Do(f, LAMBDA r : AddContact(my, id, s[2], nm, t, r), [op |-> name, my |-> my, id |-> id, un |-> s[2], name |-> nm, typ |-> t, fault |-> f])
    [] name = "RemContact" -> \E my \in {MyOr}, f \in {Fault(BookT)} : \E c \in {PeerOf(my)} :
         Do(f, LAMBDA r : RemContact(my, c, r), [op |-> name, my |-> my, id |-> c, fault |-> f])
    [] name = "GetContact" -> \E my \in {MyOr} : \E c \in {PeerOf(my)} : Ask([op |-> name, my |-> my, id |-> c])
    [] name = "AddAccount" -> \E my \in {MyOr}, a \in {Delay}, b \in {Delay}, f \in {Fault(BookT)} : \E c \in {OptPeer(my)} :
         Do(f, LAMBDA r : AddAccount(my, c, n, "s", n, a, b, r),
            [op |-> name, my |-> my, c |-> c, key |-> n, server |-> "s", secret |-> n, min |-> a, max |-> b, fault |-> f])
    [] name = "SetAccount" -> \E my \in {MyOr}, w \in {R({"load", "last"})}, f \in {Fault(BookT)}, t \in {Time} : \E c \in {OptPeer(my)} :
         Do(f, LAMBDA r : SetAccount(my, c, w, t, r), [op |-> name, my |-> my, c |-> c, what |-> w, t |-> t, fault |-> f])
    [] name = "GetAccount" -> \E my \in {MyOr} : \E c \in {OptPeer(my)} : Ask([op |-> name, my |-> my, c |-> c])
    [] name = "AddMsg" -> \E my \in {MyOr}, out \in {Part = "out" \/ R(1..2) = 1}, s \in {R(BOOLEAN)}, a \in {Delay}, b \in {Delay}, f \in {Fault(OutT)}, t \in {Time}, k \in {Txt} :
         \E c \in {PeerOf(my)} :
         Do(f, LAMBDA r : AddMsg(Fresh, my, c, t, out, k, s, a, b, r),
            [op |-> name, my |-> my, c |-> c, date |-> t, out |-> out, k |-> k, sign |-> s, min |-> a, max |-> b, fault |-> f])
    [] name = "GetMsg" -> \E of \in {MyOr}, i \in {R(0..5)} : \E my \in {W(<<of, of, of, AnyId>>)} : Ask([op |-> name, my |-> my, of |-> of, i |-> i])
    [] name = "ReadMsg" -> \E of \in {MyOr}, i \in {R(0..5)}, f \in {Fault(OutT)} :
         \E m \in {IF msgs = <<>> THEN 99 ELSE R(DOMAIN msgs)} :
         (IF f # "" THEN UNCHANGED vars ELSE ReadMsg(m)) /\ Rec([op |-> name, of |-> of, i |-> i, fault |-> f])
    [] name = "DelMsg" -> \E of \in {MyOr}, i \in {R(0..5)}, f \in {Fault(OutT)} : \E my \in {W(<<of, of, of, AnyId>>)} :
         LET S == {m \in DOMAIN msgs : msgs[m].self = of}
         IN Do(f, LAMBDA r : DelMsg(my, IF S = {} THEN 0 ELSE Max(S), r), [op |-> name, my |-> my, of |-> of, i |-> i, fault |-> f])
    [] name = "Enqueue" -> \E my \in {MyOr}, a \in {Delay}, b \in {Delay}, f \in {Fault(OutT)} :
         Do(f, LAMBDA r : Enqueue(my, Oldest(my), n, n, a, b, r), [op |-> name, my |-> my, k |-> n, nym |-> n, min |-> a, max |-> b, fault |-> f])
    [] name = "SetOut" -> \E my \in {MyOr}, f \in {Fault(OutT)} : (IF f # "" THEN UNCHANGED vars ELSE SetOut(my, n)) /\ Rec([op |-> name, my |-> my, k |-> n, fault |-> f])
    [] name = "RemOut" -> \E my \in {MyOr}, f \in {Fault(OutT)}, t \in {Time} : Do(f, LAMBDA r : RemOut(my, t, r), [op |-> name, my |-> my, date |-> t, fault |-> f])
    [] name = "Retract" -> \E my \in {MyOr}, f \in {Fault(OutT)} : Do(f, LAMBDA r : Retract(my, r), [op |-> name, my |-> my, fault |-> f])
    [] name = "Resend" -> \E my \in {MyOr}, f \in {Fault(OutT)} : (IF f # "" THEN UNCHANGED vars ELSE Resend(my)) /\ Rec([op |-> name, my |-> my, fault |-> f])
    [] name = "ClearResend" -> \E my \in {MyOr}, f \in {Fault(OutT)} : Do(f, LAMBDA r : ClearResend(my, r), [op |-> name, my |-> my, fault |-> f])
    [] name = "AddIn" -> \E my \in {MyOr}, f \in {Fault(InT)}, t \in {Time} : \E c \in {OptPeer(my)} :
         Do(f, LAMBDA r : AddIn(my, c, t, n, r), [op |-> name, my |-> my, c |-> c, date |-> t, k |-> n, fault |-> f])
    [] name = "SetIn" -> \E f \in {Fault(InT)} : (IF f # "" THEN UNCHANGED vars ELSE SetIn(n)) /\ Rec([op |-> name, k |-> n, fault |-> f])
    [] name = "RemIn" -> \E d \in {R(1..4) = 1}, f \in {Fault(InT)}, my \in {IF inq = <<>> THEN AnyId ELSE inq[1].my}, k \in {Txt} : \E from \in {PeerOf(my)} :
         Do(f, LAMBDA r : RemIn(Fresh, k, from, d, r), [op |-> name, k |-> k, from |-> from, drop |-> d, fault |-> f])
    [] name = "DelIn" -> \E f \in {Fault(InT)} : (IF f # "" THEN UNCHANGED vars ELSE DelIn) /\ Rec([op |-> name, fault |-> f])
    [] name = "CacheAdd" -> \E my \in {MyOr}, f \in {Fault(InT)} : \E c \in {OptPeer(my)}, x \in {W(<<ToString(n), ToString(n), ToString(n), ToString(n), "">>)} :
         Do(f, LAMBDA r : CacheAdd(my, c, x, r), [op |-> name, my |-> my, c |-> c, x |-> x, fault |-> f])
    [] name = "CacheGet" -> \E my \in {MyOr} : \E c \in {OptPeer(my)} : Ask([op |-> name, my |-> my, c |-> c])
    [] name = "CacheRem" -> \E f \in {Fault(InT)} :
         \E e \in {IF cache # <<>> /\ R(1..5) # 1 THEN cache[R(DOMAIN cache)] ELSE <<MyOr, "", "9">>} :
         Do(f, LAMBDA r : CacheRem(e[1], e[2], e[3], r), [op |-> name, my |-> e[1], c |-> e[2], x |-> e[3], fault |-> f])
    [] name = "SetVal" -> \E k \in {R({"a", "b", ""})}, v \in {W(<<ToString(n), ToString(n), "">>)}, f \in {Fault(BookT)} :
         Do(f, LAMBDA r : SetVal(k, v, r), [op |-> name, k |-> k, v |-> v, fault |-> f])
    [] name = "GetVal" -> \E k \in {R({"a", "b", "c", ""})} : Ask([op |-> name, k |-> k])
    [] name = "Rekey" -> \E b \in {R(BOOLEAN)} : Ask([op |-> name, right |-> b])
    [] name \in {"Reopen", "Vacuum"} -> Ask([op |-> name])
Start == <<"AddNym", "AddNym", "AddNym", "AddContact", "AddContact", "AddContact", "AddContact">>
GInit == Init /\ hist = <<>> /\ n = 1
GNext == Len(hist) < Depth /\ \E i \in {R(DOMAIN Menu)} : G(IF Setup THEN Start[Len(hist) + 1] ELSE Menu[i])
GSpec == GInit /\ [][GNext]_<<vars, hist, n>>
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
