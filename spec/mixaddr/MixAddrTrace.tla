----------------------------- MODULE MixAddrTrace -----------------------------
EXTENDS MixAddr, TraceLib
tvars == <<vars, l>>
Set(ids, exps) == {[id |-> ids[i], exp |-> exps[i]] : i \in 1..Len(ids)}

TAddKey == At("AddKey") /\ \E e \in {E} : e.res = "ok" /\ Len(e.new) = 1 /\ NewKeys(e.m, e.new)
  /\ UNCHANGED <<now, blobs, stmts, lists>>
TWaitKey == At("WaitKey") /\ \E e \in {E} : e.res = "ok" /\ Len(e.new) = 1 /\ NewKeys(e.m, e.new)
  /\ UNCHANGED <<now, blobs, stmts, lists>>
(* many at a time: every statement seen was right and could be served *)
TConc == At("Conc") /\ \E e \in {E} :
  /\ e.res = "ok" /\ e.bad = 0 /\ Len(e.new) = 8
  /\ \A i \in 1..8 : e.new[i] = Len(keys) + i
  /\ LET ks == keys \o [i \in 1..8 |-> [m |-> e.m, exp |-> now + Dur]]
         h == Live(held[e.m]) \cup SeqSet(e.new) IN
     /\ keys' = ks /\ held' = [held EXCEPT ![e.m] = h]
     /\ pub' = [pub EXCEPT ![e.m] = [some |-> TRUE, need |-> Sure(h, ks), may |-> held[e.m] \cup h]]
     /\ file' = [file EXCEPT ![e.m] = [some |-> TRUE, keys |-> h]]
  /\ UNCHANGED <<now, blobs, stmts, lists>>
TExpire == At("Expire") /\ \E e \in {E} : e.res = "ok" /\ Expire(e.m) /\ UNCHANGED <<now, keys, pub, file, blobs, stmts, lists>>
TLookup == At("Lookup") /\ \E e \in {E} : \E f \in Found(e.m, IF e.flip THEN 0 ELSE e.k) :
  /\ e.res = "ok"
  /\ IF f THEN e.priv = "right" /\ e.entry = "right" /\ e.exp = keys[e.k].exp ELSE e.priv = "none" /\ e.entry = "none"
  /\ UNCHANGED vars
TStatement == At("Statement") /\ \E e \in {E} : \E p \in {pub[e.m]} :
  /\ e.res = "ok" /\ e.some = p.some
  /\ IF ~p.some THEN UNCHANGED vars
     ELSE /\ e.verify /\ e.right /\ e.id = Len(stmts) + 1
          /\ p.need \subseteq SeqSet(e.ids) /\ SeqSet(e.ids) \subseteq p.may
          /\ Cardinality(SeqSet(e.ids)) = Len(e.ids)
          /\ \A i \in 1..Len(e.ids) : e.exps[i] = keys[e.ids[i]].exp
          /\ stmts' = Append(stmts, [good |-> TRUE, addrs |-> Set(e.aids, e.exps)])
          /\ UNCHANGED <<now, keys, held, pub, file, blobs, lists>>
TBoundary == At("Boundary") /\ \E e \in {E} : [first |-> e.first, last |-> e.last] \in Boundaries(e.m) /\ UNCHANGED vars
TSave == At("Save") /\ \E e \in {E} : e.res = "ok" /\ e.id = Len(blobs) + 1 /\ Save(e.m) /\ UNCHANGED <<now, keys, held, pub, file, stmts, lists>>
TLoad == At("Load") /\ \E e \in {E} : e.res = "ok" /\ e.m = blobs[e.b].m /\ Replace(e.m, blobs[e.b].keys)
  /\ UNCHANGED <<now, keys, file, blobs, stmts, lists>>
TLoadBad == At("LoadBad") /\ E.res = "err" /\ UNCHANGED vars
TCrash == At("Crash") /\ \E e \in {E} : e.res = "ok" /\ e.file = file[e.m].some /\ Restart(e.m)
  /\ UNCHANGED <<now, keys, file, blobs, stmts, lists>>
TMake == At("Make") /\ \E e \in {E} : e.res = "ok" /\ e.id = Len(stmts) + 1
  /\ stmts' = Append(stmts, [good |-> TRUE, addrs |-> Set(e.ids, e.exps)])
  /\ UNCHANGED <<now, keys, held, pub, file, blobs, lists>>
TAlter == At("AlterStmt") /\ \E e \in {E} : e.id = Len(stmts) + 1
  /\ stmts' = Append(stmts, [good |-> FALSE, addrs |-> {}])
  /\ UNCHANGED <<now, keys, held, pub, file, blobs, lists>>
TVerify == At("Verify") /\ \E e \in {E} : e.ok = stmts[e.s].good /\ UNCHANGED vars
TAddStatement == At("AddStatement") /\ \E e \in {E} : \E n \in {Set(e.ids, e.exps)} :
  /\ e.res = "ok" /\ Added(e.l, e.s) \subseteq n
  /\ n \subseteq Added(e.l, e.s) \cup (IF stmts[e.s].good THEN Edge(stmts[e.s].addrs, now) ELSE {})
  /\ lists' = [lists EXCEPT ![e.l] = n]
  /\ UNCHANGED <<now, keys, held, pub, file, blobs, stmts>>
NewList(e, t) == \E n \in {Set(e.ids, e.exps)} : Dropped(lists[e.l], t, n) /\ lists' = [lists EXCEPT ![e.l] = n]
  /\ UNCHANGED <<now, keys, held, pub, file, blobs, stmts>>
TListExpire == At("ListExpire") /\ \E e \in {E} : e.res = "ok" /\ e.kept /\ NewList(e, IF e.t = 0 THEN now ELSE e.t)
TListSave == At("ListSave") /\ \E e \in {E} : e.res = "ok" /\ NewList(e, now)
TRand == At("Rand") /\ \E e \in {E} : e.res = "ok"
  /\ SeqSet(e.ids) = {a.id : a \in lists[e.l]} /\ UNCHANGED vars
TMaintain == At("Maintain") /\ E.res = "ok" /\ UNCHANGED vars
TAdvance == At("Advance") /\ \E e \in {E} : now' = now + e.d /\ UNCHANGED <<keys, held, pub, file, blobs, stmts, lists>>
TNop == At("Nop") /\ UNCHANGED vars
TReset == AtReset /\ now' = 0 /\ keys' = <<>> /\ held' = [m \in Mixes |-> {}]
  /\ pub' = [m \in Mixes |-> [some |-> FALSE, need |-> {}, may |-> {}]]
  /\ file' = [m \in Mixes |-> [some |-> FALSE, keys |-> {}]]
  /\ blobs' = <<>> /\ stmts' = <<>> /\ lists' = [x \in Lists |-> {}]
TInit == Init /\ l = 1
TNext == TAddKey \/ TWaitKey \/ TConc \/ TExpire \/ TLookup \/ TStatement \/ TBoundary \/ TSave \/ TLoad \/ TLoadBad \/ TCrash
  \/ TMake \/ TAlter \/ TVerify \/ TAddStatement \/ TListExpire \/ TListSave \/ TRand \/ TMaintain \/ TAdvance \/ TNop \/ TReset
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
