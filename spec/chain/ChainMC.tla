------------------------------ MODULE ChainMC ------------------------------
EXTENDS Chain
CONSTANTS MaxEnts, MaxUid, MDoms, MHows, MWhos, Slice
Rs == {"ok", "err"}
Toks == DOMAIN ents
Missing(d) == SubSeq(srv[d], Len(chain[d]) + 1, Len(srv[d]))
Replies(d) == {<<>>, srv[d], Missing(d)} \cup {SubSeq(Missing(d), 1, i) : i \in 1..Len(Missing(d))}
              \cup {[Missing(d) EXCEPT ![i] = t] : i \in DOMAIN Missing(d), t \in Toks \cup {0}}
Last(d) == Len(srv[d]) - 1
MNext ==
  \E d \in MDoms :
    \/ \E w \in MWhos, h \in MHows : Len(ents) < MaxEnts /\ Pub(d, w, h)
    \/ Slice # "own" /\ \E n \in {0, Len(srv[d]) - 1} : n >= 0 /\ Cut(d, n)
    \/ Delete(d, "ok")
    \/ Slice = "sync" /\ \E b \in {"", "last", "fetch"}, p \in {-1, Last(d), Last(d) + 1}, f \in {-1, 0, Len(chain[d])}, s \in Replies(d), flt \in {-1, 1}, r \in Rs :
         p < MaxEnts /\ Sync(d, b, p, f, s, flt, r)
    \/ Slice # "sync" /\ \E r \in Rs : srv[d] # <<>> /\ Sync(d, "", Last(d), Len(chain[d]), Missing(d), -1, r)
    \/ Slice # "sync" /\ \E w \in MWhos, l \in {"", "badsig", "err"}, t \in Toks, r \in Rs : Search(d, w, FALSE, l, t, r)
    \/ Slice = "scan" /\ \E w \in MWhos, i \in -1..MaxEnts, j \in 0..MaxEnts, r \in Rs : Lookup(d, w, "", <<i, j>>, "", 0, r)
    \/ /\ Slice = "own"
       /\ \/ \E r \in Rs : uidno < MaxUid /\ <<d, "carol">> \notin DOMAIN priv /\ Generate(d, "carol", r)
          \/ \E r \in Rs : uidno < MaxUid /\ GenUpdate(d, "carol", r)
          \/ \E r \in Rs : DelUid(d, "carol", r)
          \/ \E r \in Rs, l \in RegLies : Len(ents) < MaxEnts /\ Register(d, "carol", l, r)
          \/ \E r \in Rs, l \in {"", "err", "badsig"} : mine < 1 /\ AddKI(d, "carol", l, r)
          \/ \E r \in Rs, w \in MWhos \cup {"carol"}, l \in {"", "forged"} : FetchKI(d, w, l, r)
MSpec == Init /\ [][MNext]_vars
(* a chain that validates is one the server could have built: no entry can be left out or exchanged *)
Ancestor(s) == \A i \in DOMAIN s : i > 1 => ents[s[i]].prev = s[i - 1]
Validated == \A d \in MDoms : (chain[d] # <<>> /\ Linked(chain[d])) => Ancestor(chain[d]) /\ \A i, j \in DOMAIN chain[d] : i # j => chain[d][i] # chain[d][j]
=============================================================================
