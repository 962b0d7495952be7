------------------------------ MODULE MixAddrMC ------------------------------
EXTENDS MixAddr
CONSTANTS MaxKeys, MaxBlobs, MaxStmts, MaxNow
DoAdd == Len(keys) < MaxKeys /\ \E m \in Mixes : NewKeys(m, <<Len(keys) + 1>>) /\ UNCHANGED <<now, blobs, stmts, lists>>
DoExpire == \E m \in Mixes : Expire(m) /\ UNCHANGED <<now, keys, pub, file, blobs, stmts, lists>>
DoSave == Len(blobs) < MaxBlobs /\ \E m \in Mixes : Save(m) /\ UNCHANGED <<now, keys, held, pub, file, stmts, lists>>
DoLoad == \E b \in 1..Len(blobs) : Replace(blobs[b].m, blobs[b].keys) /\ UNCHANGED <<now, keys, file, blobs, stmts, lists>>
DoCrash == \E m \in Mixes : Restart(m) /\ UNCHANGED <<now, keys, file, blobs, stmts, lists>>
Take(m) == {[id |-> k, exp |-> keys[k].exp] : k \in pub[m].may}
DoTake == Len(stmts) < MaxStmts /\ \E m \in Mixes : pub[m].some
  /\ stmts' = Append(stmts, [good |-> TRUE, addrs |-> Take(m)]) /\ UNCHANGED <<now, keys, held, pub, file, blobs, lists>>
DoAlter == Len(stmts) < MaxStmts /\ \E s \in 1..Len(stmts) :
  stmts' = Append(stmts, [good |-> FALSE, addrs |-> {[id |-> 0, exp |-> MaxNow + Dur]}]) /\ UNCHANGED <<now, keys, held, pub, file, blobs, lists>>
DoAddTo == \E s \in 1..Len(stmts) : \E l \in Lists : lists' = [lists EXCEPT ![l] = Added(l, s)]
  /\ UNCHANGED <<now, keys, held, pub, file, blobs, stmts>>
DoDrop == \E l \in Lists : lists' = [lists EXCEPT ![l] = Fresh(lists[l], now)] /\ UNCHANGED <<now, keys, held, pub, file, blobs, stmts>>
Tick == now < MaxNow /\ now' = now + 1 /\ UNCHANGED <<keys, held, pub, file, blobs, stmts, lists>>
Spec == Init /\ [][DoAdd \/ DoExpire \/ DoSave \/ DoLoad \/ DoCrash \/ DoTake \/ DoAlter \/ DoAddTo \/ DoDrop \/ Tick]_vars

(* what is published and unexpired is served, and only by the mix that published it *)
Served == \A m \in Mixes : \A k \in pub[m].may : keys[k].m = m /\ (keys[k].exp > now => k \in held[m])
(* everything usable is published *)
Advertised == \A m \in Mixes : \A k \in held[m] : keys[k].exp > now => k \in pub[m].may
Own == \A m \in Mixes : \A k \in held[m] : keys[k].m = m
(* lists contain nothing but what a mix has signed *)
Signed == \A l \in Lists : \A a \in lists[l] : a.id # 0 /\ a.exp = keys[a.id].exp
(* a crash loses nothing that was made since the last load *)
CrashSafe == (blobs = <<>>) => \A m \in Mixes : Live(held[m]) \subseteq file[m].keys
=============================================================================
