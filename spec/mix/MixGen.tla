------------------------------- MODULE MixGen -------------------------------
(* Histories of addresses, messages, mixes, and what is done to them.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Depth
VARIABLES hist, t
gvars == <<hist, t>>
R(S) == RandomElement(S)
W(s) == s[RandomElement(1..Len(s))]
(* the newest, or any *)
P(n) == IF R(1..3) < 3 THEN 0 ELSE R(0..19)

Sizes(x) == W(<<4096, 4096, 4096, 4096, 4096, 4096, 4096, 4096, 5000, 5000, 5000, 5000, 5000, 5000, 6000, 4097, 4097, 4097, 65536, 65535, 20000, 65537, 4095, 1023, 1024, 1025, 300, 0, 1, 255, 70000>>)
Ints(x) == W(<<0, 10, 30, 300, -1, 2147483647, -2147483647>>)
Toks(x) == W(<<0, 1, 2, 3, 3, 3, 3, 3, 3, 3, 3, 4, 4, 5, 5, 5, 5, 6>>)
Emit1(o) == hist' = Append(hist, o)

Fwd(x) == \E m \in {R(1..3)} : \E b \in {R(1..5)} : \E s \in {Sizes(x)} : \E k \in {Toks(x)} : \E mi \in {Ints(x)} : \E ma \in {Ints(x)} :
          \E n \in {W(<<0, 1, 2, 3, 3, 4, 5, 6, 7, R(8..60), R(8..60)>>)} :
  Emit1([op |-> "Forward", m |-> m, b |-> b, size |-> s, tok |-> k, min |-> mi, max |-> ma, next |-> n, again |-> R(1..3) = 1]) /\ UNCHANGED t
NewN(x) == \E sec \in {R(1..3)} : \E box \in {R(0..5)} : \E nym \in {R(0..5)} : \E sys \in {W(<<0, 0, 0, 0, 0, 0, 1, -1>>)} : \E sg \in {R(BOOLEAN)} :
           \E mi \in {Ints(x)} : \E ma \in {Ints(x)} : \E ex \in {t + W(<<1000, 1000, 1000, 1000, 1000, 1000, 1000, 200000, 100, 1, 0, -1>>)} :
           \E k \in {R(0..3)} : \E cands \in {[i \in 1..(IF k = 0 THEN W(<<0, 1, 1, 1>>) ELSE k) |-> [m |-> R(1..3), exp |-> t + W(<<2000, 2000, 2000, 2000, 2000, 300000, 1000, 1001, 999, 50, 0>>)]]} :
  Emit1([op |-> "NewNym", sec |-> sec, box |-> box, nym |-> nym, sys |-> sys, single |-> sg, min |-> mi, max |-> ma, exp |-> ex, cands |-> cands]) /\ UNCHANGED t
AltN(x) == \E n \in {P(0)} : \E v \in {R(0..999)} : \E o \in {P(0)} :
           \E f \in {W(<<"cut", "trail", "mixaddr", "expire", "expire", "single", "token", "mixpub", "mixpub", "mixbit", "mixcut", "addrkey",
                         "spare", "keycut", "keyzero", "priv", "priv", "privcut", "privext", "splice">>)} :
  Emit1([op |-> "AlterNym", n |-> n, f |-> f, v |-> v, o |-> o]) /\ UNCHANGED t
OpenN(x) == \E n \in {P(0)} : \E m \in {R(1..3)} : \E f \in {R(BOOLEAN)} :
  Emit1([op |-> "Open", n |-> n, m |-> m, force |-> f]) /\ UNCHANGED t
RelN(x) == \E n \in {P(0)} : \E b \in {R(1..5)} : \E s \in {Sizes(x)} : \E k \in {Toks(x)} : \E mi \in {Ints(x)} : \E ma \in {Ints(x)} :
  Emit1([op |-> "Relay", n |-> n, b |-> b, size |-> s, tok |-> k, min |-> mi, max |-> ma, again |-> R(1..3) = 1]) /\ UNCHANGED t
AltE(x) == \E e \in {P(0)} : \E v \in {R(0..9999)} : \E o \in {P(0)} :
           \E f \in {W(<<"to", "tobit", "sender", "spare", "senderzero", "nonce", "body", "body", "tag", "cut", "cut1", "head", "ext", "splice">>)} :
  Emit1([op |-> "AlterEnv", e |-> e, f |-> f, v |-> v, o |-> o]) /\ UNCHANGED t
Rcv(x) == \E e \in {P(0)} : \E m \in {R(1..3)} : \E f \in {R(BOOLEAN)} :
  Emit1([op |-> "Receive", e |-> e, m |-> m, force |-> f]) /\ UNCHANGED t
(* an answer to a fresh address, all the way *)
Way(x) == \E L \in {W(<<1000, 1000, 200000>>)} : \E sec \in {R(1..3)} : \E box \in {R(0..5)} : \E nym \in {R(0..5)} : \E sg \in {R(BOOLEAN)} : \E m \in {R(1..3)} : \E b \in {R(1..5)} :
  hist' = hist \o <<[op |-> "NewNym", sec |-> sec, box |-> box, nym |-> nym, sys |-> 0, single |-> sg, min |-> Ints(x), max |-> Ints(x), exp |-> t + L,
                     cands |-> <<[m |-> m, exp |-> t + 2 * L]>>],
                    [op |-> "Relay", n |-> 0, b |-> b, size |-> W(<<4096, 5000, 6000>>), tok |-> R(0..5), min |-> Ints(x), max |-> Ints(x), again |-> R(1..3) = 1],
                    [op |-> "Receive", e |-> 0, m |-> m, force |-> R(BOOLEAN)],
                    [op |-> "SendOn", r |-> 0],
                    [op |-> "Final", x |-> 0, sec |-> sec, box |-> box]>> /\ UNCHANGED t
(* at the mix it was made for, whichever that is *)
RcvAll(x) == \E e \in {P(0)} : hist' = hist \o [i \in 1..3 |-> [op |-> "Receive", e |-> e, m |-> i, force |-> FALSE]] /\ UNCHANGED t
Snd(x) == \E r \in {P(0)} : Emit1([op |-> "SendOn", r |-> r]) /\ UNCHANGED t
AltM(x) == \E y \in {P(0)} : \E v \in {R(0..9999)} : \E o \in {P(0)} :
           \E f \in {W(<<"bit", "cut", "cut1", "head", "ext", "hlen", "sender", "nonce", "recpub", "encnym", "encnymlen", "nymcut", "nymext", "hmac",
                         "hmaccut", "shift1", "shift2", "shift3", "splice", "nymsplice", "sendersplice">>)} :
  Emit1([op |-> "AlterMsg", x |-> y, f |-> f, v |-> v, o |-> o]) /\ UNCHANGED t
Fin(x) == \E y \in {P(0)} : \E s \in {R(1..3)} : \E b \in {R(0..5)} :
  Emit1([op |-> "Final", x |-> y, sec |-> s, box |-> b]) /\ UNCHANGED t
(* every owner tries *)
FinAll(x) == \E y \in {P(0)} : hist' = hist \o [i \in 1..18 |-> [op |-> "Final", x |-> y, sec |-> ((i - 1) \div 6) + 1, box |-> (i - 1) % 6]]
  /\ UNCHANGED t
Crf(x) == \E m \in {R(1..3)} : \E v \in {R(0..999)} : \E s \in {W(<<0, 1, 255, 256, 1024, 4096, 5000, 65536>>)} :
          \E f \in {W(<<"type", "type", "len", "len", "len", "tok", "revoke", "addr", "nym", "nym", "garbage", "short", "dercut", "derflip">>)} :
  Emit1([op |-> "Craft", m |-> m, f |-> f, v |-> v, size |-> s]) /\ UNCHANGED t
Fuz(x) == \E f \in {W(<<"nym", "env", "msg">>)} : \E v \in {R(0..99999)} : \E m \in {R(1..3)} : \E b \in {R(0..5)} :
          \E i \in {P(0)} :
  Emit1([op |-> "Fuzz", f |-> f, i |-> i, v |-> v, m |-> m, box |-> b]) /\ UNCHANGED t
Box(x) == \E m \in {R(1..3)} : \E v \in {R(0..2)} : Emit1([op |-> "Box", m |-> m, v |-> v]) /\ UNCHANGED t
Adv(x) == \E d \in {W(<<1, 100, 500, 1000, 1001>>)} : Emit1([op |-> "Advance", d |-> d]) /\ t' = t + d

GInit == hist = <<>> /\ t = 0
GNext == Len(hist) < Depth /\ \E z \in {IF Len(hist) < 2 THEN R(1..4) ELSE R(1..63)} :
  \/ z <= 4 /\ NewN(z)
  \/ z \in 5..8 /\ Fwd(z)
  \/ z \in 9..12 /\ AltN(z)
  \/ z \in 13..16 /\ OpenN(z)
  \/ z \in 17..25 /\ RelN(z)
  \/ z \in 26..29 /\ AltE(z)
  \/ z \in 30..33 /\ Rcv(z)
  \/ z \in 34..41 /\ RcvAll(z)
  \/ z \in 42..46 /\ Snd(z)
  \/ z \in 47..49 /\ AltM(z)
  \/ (z = 50 \/ z \in 52..53) /\ Fin(z)
  \/ z = 51 /\ FinAll(z)
  \/ z \in 54..57 /\ Crf(z)
  \/ z \in 58..59 /\ Fuz(z)
  \/ z = 60 /\ Adv(z)
  \/ z \in 61..62 /\ Way(z)
  \/ z = 63 /\ Box(z)
GSpec == GInit /\ [][GNext]_gvars
Emit == Len(hist) >= Depth => PrintT(ToJson(hist))
=============================================================================
