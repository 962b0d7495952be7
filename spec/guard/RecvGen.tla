------------------------------ MODULE RecvGen ------------------------------
(* Random issuing keys, tokens, alterations of them and attempts to use     *)
(* them.  gen: the tokens that were not altered.                            *)
EXTENDS Recv, Json
CONSTANT Depth
VARIABLES hist, orig
R(S) == RandomElement(S)
W(s) == s[RandomElement(1..Len(s))]
H(x) == hist' = Append(hist, x)
K(x) == R(1..Len(keys))
T(x) == R(1..Len(toks))
Own(x) == W(<<"me", "me", "me", "a", "b", "none">>)
Use(x) == W(<<"Message", "Message", "UID">>)
LookMode(x) == W(<<"ok", "ok", "ok", "ok", "ok", "ok", "ok", "ok", "down", "lost", "json", "null", "types", "retry", "unk", "fin", "other", "altexp", "altuse", "altsig", "altkey", "altsigner", "garbage">>)
ListMode(x) == W(<<"ok", "ok", "ok", "ok", "down", "json", "null", "types", "retry", "fin", "wroot", "claim", "altlist", "short", "hex">>)
Lists(x) == W(<<<<>>, <<"s1", "s2">>, <<"s1", "s2">>, <<"s1">>, <<"s2">>, <<"s1", "s2", "x">>>>)
Alts == <<"same", "same", "key", "unkkey", "owner", "owner", "flag", "nonce", "bitowner", "shift", "shiftkey", "r", "s", "mod", "rx", "ry", "zero", "zeror", "zeropt", "neg", "sigof", "sigof", "forge", "trail", "cut", "byte", "byte", "byte", "empty">>
Val(f) == CASE f \in {"key", "forge"} -> K(f)
            [] f = "sigof" -> orig[R(1..Len(orig))]
            [] f \in {"shift", "shiftkey"} -> R(1..15)
            [] f = "cut" -> R(1..100)
            [] f = "byte" -> R(0..999)
            [] OTHER -> R(0..31)
AlterOp(t, f, v, o) == Tok(Altered(t, f, v, o)) /\ H([op |-> "Alter", t |-> t, f |-> f, v |-> v, o |-> o, b |-> R(0..7)]) /\ UNCHANGED orig
Keep == UNCHANGED orig
KeyOp(x) == \E s \in {W(<<"s1", "s1", "s1", "s2", "s2", "x">>)}, life \in {W(<<5, 20, 1000, 1000, 1000>>)} :
  \E u \in {W(<<"Message", "UID">>)} : Key(s, u, life) /\ H([op |-> "Key", signer |-> s, u |-> u, life |-> life]) /\ Keep
TokOp(x) == \E k \in {K(x)}, o \in {Own(x)} : Token(k, o) /\ H([op |-> "Token", k |-> k, o |-> o]) /\ orig' = Append(orig, Len(toks) + 1)
Step(k) ==
  CASE Len(keys) = 0 \/ (k = 1 /\ Len(keys) < 6) -> KeyOp(k)
    [] Len(orig) = 0 \/ (k <= 4 /\ Len(toks) < 20) -> TokOp(k)
    [] k <= 7 -> \E t \in {orig[R(1..Len(orig))]}, f \in {W(Alts)} : \E v \in {Val(f)}, o \in {W(<<"me", "a", "b">>)} : AlterOp(t, f, v, o)
    [] k <= 11 -> \E t \in {T(k)}, mode \in {LookMode(k)} : Verify(t, mode) /\ H([op |-> "Verify", t |-> t, modes |-> <<mode>>]) /\ Keep
    [] k <= 16 -> \E t \in {T(k)}, mode \in {LookMode(k)}, u \in {Use(k)} :
                    Receive(t, u, mode, Acceptable(t, u, mode) \/ (toks[t].kf /\ FALSE)) /\ H([op |-> "Receive", t |-> t, u |-> u, modes |-> <<mode>>]) /\ Keep
    [] k = 17 -> \E d \in {W(<<1, 3, 6, 15>>)} : Advance(d) /\ H([op |-> "Advance", d |-> d]) /\ Keep
    [] k = 18 -> IF R(1..3) = 1 THEN Restart /\ H([op |-> "Restart"]) /\ Keep ELSE \E b \in {R(1..4) > 1} : Online(b) /\ H([op |-> "Online", on |-> b]) /\ Keep
    [] OTHER -> \E ls \in {Lists(k)}, mode \in {ListMode(k)} :
                  List(IF Len(ls) = 0 THEN list ELSE {ls[i] : i \in 1..Len(ls)}, mode) /\ H([op |-> "List", list |-> ls, modes |-> <<mode>>]) /\ Keep
GInit == /\ now = 0 /\ keys = <<>> /\ toks = <<>> /\ trusted = {"s1", "s2"} /\ stored = {"s1", "s2"} /\ list = {"s1", "s2"} /\ pool = {} /\ on = TRUE /\ has = {} /\ orig = <<>>
         /\ hist = <<[op |-> "Online", on |-> TRUE], [op |-> "List", list |-> <<>>, modes |-> <<"ok">>]>>
GNext == Len(hist) < Depth /\ \E k \in {R(1..20)} : Step(k)
GSpec == GInit /\ [][GNext]_<<vars, hist, orig>>
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
