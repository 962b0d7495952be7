------------------------------ MODULE MsgSize ------------------------------
(* The wire format of encrypted messages: what every part of a message      *)
(* takes up, and how much padding makes all messages the same size.         *)
(*                                                                          *)
(* A case c: the sender's identity (idl bytes, domain doml bytes), how      *)
(* often its UID message was updated (upd), the length of the nym address   *)
(* (nym), the session state (next, seen: announcements present), the number *)
(* of digits of the two counters (d1, d2), the content length (len), signed *)
(* or not, and the status.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

EncodedSize == 65536
RawSize == (EncodedSize \div 4) * 3
MaxIdentity == 254
MaxNym == 1568
MaxUID == 2004
Entry == 247          \* a key entry in JSON
Null == 4             \* null in JSON
Wiggle == 1316

Outer == 7            \* frame of a packet
Inner == 5            \* frame of an inner packet
Sig == 64
Mac == 64
IV == 16
PreHeader == 66
Header == 24 + 2 + 7168

(* longest content: what is left with everything else in place, signed *)
Fixed == (Outer + PreHeader) + (Outer + Header) + (Outer + IV) + (Outer + Inner)
         + (Outer + Inner + Sig) + Inner + (Outer + Mac)
MaxContent == RawSize - Fixed

(* the sender's UID message in JSON: all fields but identity, domain and    *)
(* the number of the update have fixed lengths; an updated one carries the  *)
(* signature of its predecessor                                             *)
Digits(n) == IF n < 10 THEN 1 ELSE IF n < 100 THEN 2 ELSE IF n < 1000 THEN 3 ELSE 4
UIDLen(c, base) == base + c.idl + c.doml + Digits(c.upd) + (IF c.upd = 0 THEN 0 ELSE 88)

(* lengths in the header that may differ, and the padding that hides them *)
Variable(c, uid) ==
  c.idl + (IF c.next THEN Entry ELSE Null) + (IF c.seen THEN Entry ELSE Null)
  + c.nym + 1 + c.d1 + c.d2 + uid
HeaderPad(c, uid) ==
  Wiggle + (MaxIdentity - c.idl) + (IF c.next THEN 0 ELSE Entry - Null) + (IF c.seen THEN 0 ELSE Entry - Null)
  + (MaxNym - c.nym) + (20 - 1) + (20 - c.d1) + (20 - c.d2) + (MaxUID - uid)

Fits(c, uid) == c.len <= MaxContent /\ c.nym <= MaxNym /\ uid <= MaxUID /\ c.idl <= MaxIdentity

(* content is only carried by ordinary messages *)
CLen(c) == IF c.status = "ok" THEN c.len ELSE 0
BodyPad(c) == IF c.sign THEN MaxContent - CLen(c) ELSE MaxContent - CLen(c) + Sig + Inner

(* the packets: types and lengths *)
Packets(c) ==
  << <<1, PreHeader>>, <<2, Header>>, <<4, IV>>, <<16, Inner + CLen(c)>>,
     <<16, (IF c.sign THEN Inner + Sig ELSE 0) + Inner + BodyPad(c)>>, <<8, Mac>> >>

RECURSIVE Sum(_)
Sum(ps) == IF ps = <<>> THEN 0 ELSE Outer + ps[1][2] + Sum(Tail(ps))

Total(c) == Sum(Packets(c))
=============================================================================
