---------------------------- MODULE WalletTrace ----------------------------
(* Checks recorded operations of the wallet client, with everything they    *)
(* read and wrote in the wallet's store and asked the servers, against      *)
(* Wallet.                                                                  *)
EXTENDS Wallet, TraceLib
VARIABLE m
tvars == <<m, l>>

RECURSIVE Run(_, _, _)
Run(x, steps, i) == IF i > Len(steps) THEN x ELSE Run(Do(x, steps[i]), steps, i + 1)

StoreEq(x, d) ==
  /\ Len(d) = Cardinality(DOMAIN x.store)
  /\ \A i \in 1..Len(d) :
       /\ In(x, d[i].tok)
       /\ LET e == x.store[d[i].tok] IN
          /\ e.stage = d[i].stage /\ e.locked = d[i].locked /\ Same(e, d[i])
          /\ e.stage = "packet" => e.req = d[i].req /\ e.nid = d[i].nid /\ e.nown = d[i].nown /\ e.nself = d[i].nself
Tok(x) ==
  CASE x.op = "Get" -> x.got
    [] x.op = "Wallet" -> IF x.res = {"ok"} THEN x.new ELSE x.got
    [] OTHER -> IF x.res = {"ok"} THEN x.new ELSE 0
Out(e) == IF Has(e, "new") THEN e.new ELSE e.tok
Ends(x, e) ==
  /\ x.pc = "end" /\ e.res \in x.res
  /\ Out(e) = Tok(x)
  /\ StoreEq(x, e.store)
  /\ NothingLost(x) /\ HandedOut(x) /\ Replaced(x)
  /\ m' = x

U(e) == IF Has(e, "u") THEN e.u ELSE ""
O(e) == IF Has(e, "o") THEN e.o ELSE "none"
Call(k) == At(k) /\ \E e \in {E} : \E x \in {Run(Begin(m, k, U(e), O(e), IF Has(e, "tok") THEN e.tok ELSE 0), e.steps, 1)} : Ends(x, e)

(* it died: whether a token it was at is reserved depends on when exactly *)
At4(x) == {x.tok, x.new, x.got, x.ans.tok}
Locks(x, d) == [x EXCEPT !.store = [t \in DOMAIN @ |-> IF t \in At4(x) /\ \E i \in 1..Len(d) : d[i].tok = t
                                                        THEN [@[t] EXCEPT !.locked = (CHOOSE i \in 1..Len(d) : d[i].tok = t) \in {i \in 1..Len(d) : d[i].locked}]
                                                        ELSE @[t]]]
TCut == At("Cut") /\ \E e \in {E} : \E x \in {Run(Begin(m, e.call, U(e), O(e), IF Has(e, "tok") THEN e.tok ELSE 0), e.steps, 1)} :
          /\ x.pc # "bad"
          /\ \E y \in {Locks(Crash(x), e.store)} : StoreEq(y, e.store) /\ NothingLost(y) /\ Replaced(y) /\ m' = y

(* what callers do: nothing else happens *)
Quiet(e, x) == StoreEq(x, e.store) /\ m' = x
TLock == At("Lock") /\ E.steps = <<>> /\ \E e \in {E} : e.got = (In(m, e.tok) /\ ~m.store[e.tok].locked) /\ Quiet(e, Lock(m, e.tok))
TUnlock == At("Unlock") /\ E.steps = <<>> /\ \E e \in {E} : Quiet(e, Unlock(m, e.tok))
TDone == At("Done") /\ \E e \in {E} : (\A i \in 1..Len(e.steps) : e.steps[i].s = "del" /\ e.steps[i].tok = e.tok) /\ Quiet(e, Done(m, e.tok))
TOnline == At("Online") /\ \E e \in {E} : m' = GoOnline(m, e.on)
TList == At("List") /\ m' = m /\ E.res = "ok"
TRestart == At("Restart") /\ m' = GoOnline(m, FALSE)
TNop == At("Nop") /\ m' = m

TInit == m = Fresh0 /\ l = 1
TReset == AtReset /\ m' = Fresh0
TNext == TReset \/ TNop \/ TCut \/ Call("Get") \/ Call("Wallet") \/ Call("Reissue") \/ Call("Resume") \/ TLock \/ TUnlock \/ TDone \/ TOnline \/ TList \/ TRestart
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
