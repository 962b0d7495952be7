-------------------------- MODULE WalletStoreTrace --------------------------
(* Validation of recorded runs of the real token store. Each event carries   *)
(* the result and, in st, what the store then answers about every token.     *)
EXTENDS WalletStore, TraceLib

(* what the store answers about token h when asked by its public interface *)
Obs(h) == IF tok'[h] = None THEN None
          ELSE [u |-> tok'[h].u, o |-> tok'[h].o, self |-> tok'[h].self, exp |-> tok'[h].exp,
                ren |-> tok'[h].ren, kind |-> tok'[h].kind, par |-> tok'[h].par, v |-> tok'[h].v,
                locked |-> lock'[h] # "no"]
StateSeen == \A h \in Hash : E.st[h] = Obs(h)

TReset == /\ AtReset
          /\ tok' = [h \in Hash |-> None]
          /\ lock' = [h \in Hash |-> "no"]
          /\ cred' = NoCred /\ disk' = NoCred
          /\ handed' = "none"

(* a write that is made to fail may fail, and then does nothing *)
Fault == "fault" \in DOMAIN E /\ E.fault # ""
Injected(res) == /\ Fault /\ E.res = res
                 /\ handed' = "none" /\ UNCHANGED <<tok, lock, cred, disk>>

Step ==
  \/ At("SetToken") /\ ((E.res = "ok" /\ SetToken(E.h, E.t)) \/ Injected("err"))
  \/ At("GetToken") /\ GetToken(E.h, E.who, E.res)
  \/ At("Lock") /\ (Lock(E.h, E.res) \/ Injected("fail"))
  \/ At("Unlock") /\ (Unlock(E.h) \/ Injected("ok"))
  \/ At("Del") /\ (Del(E.h) \/ Injected("ok"))
  \/ At("GetAndLock") /\ (GetAndLock(E.u, E.o, E.res) \/ Injected("none"))
  \/ At("GetAndLockMany") /\ GetAndLockMany(E.u, E.o, E.n, E.gots)
  \/ At("Find") /\ Find(E.u, E.res)
  \/ At("GetExpire") /\ GetExpire(E.res)
  \/ At("GetInReissue") /\ GetInReissue(E.res)
  \/ At("BalanceOwn") /\ BalanceOwn(E.u, E.count)
  \/ At("Balance") /\ Balance(E.u, E.o, E.count)
  \/ At("ExpireUnusable") /\ ExpireUnusable({h \in Stored : E.st[h] = None}, E.more)
  \/ At("CleanLocks") /\ CleanLocks(E.force, E.aged)
  \/ At("Reopen") /\ E.res = "ok" /\ Reopen(E.aged)
  \/ At("SetAuth") /\ ((E.res = "ok" /\ SetAuth(E.a, E.n)) \/ (Fault /\ E.res = "err" /\ SetAuthFails(E.a, E.n)))
  \/ At("GetAuth") /\ GetAuth(E.ga, E.gn)
  \/ At("SetKeys") /\ (SetKeys(SeqSet(E.ks)) \/ (Fault /\ SetKeysFails(SeqSet(E.ks))))
  \/ At("GetKeys") /\ GetKeys(SeqSet(E.gks))

TInit == Init /\ l = 1
TNext == TReset \/ (Step /\ StateSeen)
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
