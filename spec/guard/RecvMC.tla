------------------------------- MODULE RecvMC -------------------------------
EXTENDS Recv
CONSTANTS MaxKeys, MaxToks, MaxNow
Signers == {"s1", "x"}
Uses == {"Message", "UID"}
Next ==
  \/ Len(keys) < MaxKeys /\ \E s \in Signers, u \in Uses, n \in {1, 3} : Key(s, u, n)
  \/ now < MaxNow /\ Advance(2)
  \/ Len(toks) < MaxToks /\ \E k \in 1..Len(keys), o \in {"me", "a"} : Token(k, o)
  \/ Len(toks) < MaxToks /\ \E t \in 1..Len(toks), f \in {"same", "key", "flag", "s", "cut"}, v \in 1..Len(keys) : Tok(Altered(t, f, v, "me"))
  \/ Restart \/ \E b \in BOOLEAN : Online(b)
  \/ \E l \in {{"s1"}, {}}, mode \in {"ok", "wroot"} : List(l, mode)
  \/ \E t \in 1..Len(toks), mode \in {"ok", "down"} : Verify(t, mode) \/ \E u \in Uses : Receive(t, u, mode, Acceptable(t, u, mode))
Spec == Init /\ [][Next]_vars
(* the wallet holds only genuine tokens of its owner, once *)
Genuine == \A i \in has : toks[i].ok /\ toks[i].o = "me" /\ keys[toks[i].k].signer \in {"s1", "s2"}
PoolTrusted == \A k \in pool : keys[k].signer \in trusted
OnlyListed == trusted \subseteq {"s1", "s2"}
(* nothing is taken in after its key expired *)
InTime == [][\A i \in has' \ has : keys[toks[i].k].exp >= now]_vars
=============================================================================
