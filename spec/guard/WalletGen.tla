----------------------------- MODULE WalletGen -----------------------------
(* Random histories of the wallet client; modes tell how the servers answer *)
(* the requests of an operation, one after the other.                       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLE hist
W(s) == s[RandomElement(1..Len(s))]
R(S) == RandomElement(S)
Modes(x) == <<"ok", "ok", "ok", "ok", "ok", "ok", "ok", "okp", "okp", "okr", "okr", "down", "down", "lost", "lost", "lost", "json", "null", "types", "retry", "retry", "unk", "fin",
              "wusage", "wkey", "wbad", "wtok", "wpk", "wpar", "wsig", "wsigner", "garbage", "curve">>
M(x) == W(Modes(x))
Fine(x) == <<"ok", "ok", "ok">>
Some(x) == W(<<1, 1, 2>>)
Answers(x) == CASE R(1..4) = 1 -> Fine(x)
                [] R(1..3) = 1 -> <<"lost", M(x), M(x), M(x)>>
                [] R(1..3) = 1 -> <<W(<<"ok", "okp", "okr">>), M(x), M(x)>>
                [] R(1..3) = 1 -> <<W(<<"ok", "okp", "okr">>), W(<<"lost", "down", "json", "retry">>), M(x)>>
                [] OTHER -> <<M(x), M(x), M(x), M(x)>>
Usage(x) == W(<<"Message", "Message", "Message", "UID">>)
Owner(x) == W(<<"a", "a", "a", "b", "none", "me">>)
(* the write or request before which the wallet dies *)
C(x) == IF R(1..4) = 1 THEN R(1..12) ELSE 0
Op(x) ==
  LET k == R(1..26) IN
  CASE k <= 10 -> [op |-> "Get", u |-> Usage(x), o |-> Owner(x), modes |-> Answers(x), cut |-> C(x)]
    [] k <= 13 -> [op |-> "Wallet", u |-> Usage(x), o |-> Owner(x), modes |-> Answers(x), cut |-> C(x)]
    [] k <= 17 -> [op |-> "Reissue", i |-> R(0..9), o |-> Owner(x), modes |-> Answers(x), cut |-> C(x)]
    [] k <= 20 -> [op |-> "Resume", modes |-> Answers(x), cut |-> C(x)]
    [] k = 21 -> [op |-> "Lock", i |-> R(0..9)]
    [] k = 22 -> [op |-> "Unlock", i |-> R(0..9)]
    [] k = 23 -> [op |-> "Done", i |-> R(0..9)]
    [] k = 24 -> [op |-> "Restart"]
    [] OTHER -> [op |-> "Online", on |-> R(1..5) > 1]
Init == hist = <<[op |-> "Online", on |-> TRUE], [op |-> "List", list |-> <<>>, modes |-> <<>>]>>
GNext == Len(hist) < Depth /\ hist' = (IF hist[Len(hist)].op = "Restart" THEN Append(hist, [op |-> "Online", on |-> TRUE]) ELSE Append(hist, Op(Len(hist))))
GSpec == Init /\ [][GNext]_hist
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
