--------------------------- MODULE WalletStoreGen ---------------------------
(* Behaviours of WalletStore as operation scripts for the driver. *)
EXTENDS WalletStore, TLC, Json
CONSTANT Depth, Exps
VARIABLE hist

ExpsSpread == <<1, 2, 3, 4, 5>>
ExpsOld == <<1, 1, 1, 1, 1, 4>>

R(S) == RandomElement(S)

Rec(op) == hist' = Append(hist, op)

(* writes that are made to fail (table/statement); nothing happens then *)
Fails == IF hist = hist THEN R(1..8) = 1 ELSE FALSE
Fail(op, fs) == \E f \in {R(fs)} : UNCHANGED vars /\ Rec([fault |-> f] @@ op)
SetFaults(h) == {"walletTokens/INSERT", "walletState/INSERT", "walletState/UPDATE"}
                \cup IF tok[h] = None THEN {} ELSE {"walletTokens/UPDATE"}

G(name) ==
  CASE name = "SetToken" ->
       \E h \in {R(Hash)}, t \in {Token(R(Usage), R(Owner), R({TRUE, FALSE, FALSE}), Exps[R(1..Len(Exps))],
                                       R(BOOLEAN), R({"no", "no", "no", "packet", "blind", "newpriv"}),
                                       R({FALSE, FALSE, TRUE}), R(Ver))} :
         IF Fails THEN Fail([op |-> "SetToken", h |-> h, t |-> t], SetFaults(h))
         ELSE SetToken(h, t) /\ Rec([op |-> "SetToken", h |-> h, t |-> t])
    [] name = "GetToken" ->
       \E h \in {R(Hash)}, w \in {R({"noid", "mine", "wrong"})} :
         \E r \in {"ok", "none", "locked"} : GetToken(h, w, r) /\ Rec([op |-> "GetToken", h |-> h, who |-> w])
    [] name = "Lock" ->
       \E h \in {R(Hash)} : IF Fails THEN Fail([op |-> "Lock", h |-> h], {"walletTokens/UPDATE"})
                            ELSE \E r \in {"ok", "fail"} : Lock(h, r) /\ Rec([op |-> "Lock", h |-> h])
    [] name = "Unlock" -> \E h \in {R(Hash)} :
         IF Fails THEN Fail([op |-> "Unlock", h |-> h], {"walletTokens/UPDATE"})
         ELSE Unlock(h) /\ Rec([op |-> "Unlock", h |-> h])
    [] name = "Del" -> \E h \in {R(Hash)} :
         IF Fails THEN Fail([op |-> "Del", h |-> h], {"walletTokens/DELETE", "walletState/DELETE"})
         ELSE Del(h) /\ Rec([op |-> "Del", h |-> h])
    [] name = "GetAndLock" ->
       \E u \in {R(Usage)}, o \in {R(Owner \cup {"any"})} :
         IF Fails THEN Fail([op |-> "GetAndLock", u |-> u, o |-> o], {"walletTokens/UPDATE"})
         ELSE \E g \in Hash \cup {"none"} : GetAndLock(u, o, g) /\ Rec([op |-> "GetAndLock", u |-> u, o |-> o])
    [] name = "GetAndLockMany" ->
       \E u \in {R(Usage)} :
         GetAndLockMany(u, "any", 4, <<>>) /\ Rec([op |-> "GetAndLockMany", u |-> u, o |-> "any", n |-> 4])
    [] name = "Find" -> \E u \in {R(Usage)} : \E g \in Hash \cup {"none"} : Find(u, g) /\ Rec([op |-> "Find", u |-> u])
    [] name = "GetExpire" -> \E g \in Hash \cup {"none"} : GetExpire(g) /\ Rec([op |-> "GetExpire"])
    [] name = "GetInReissue" -> \E g \in Hash \cup {"none"} : GetInReissue(g) /\ Rec([op |-> "GetInReissue"])
    [] name = "BalanceOwn" ->
       \E u \in {R(Usage)} : \E n \in 0..Cardinality(Hash) : BalanceOwn(u, n) /\ Rec([op |-> "BalanceOwn", u |-> u])
    [] name = "Balance" ->
       \E u \in {R(Usage)}, o \in {R(Owner \cup {"any"})} : \E n \in 0..Cardinality(Hash) :
         Balance(u, o, n) /\ Rec([op |-> "Balance", u |-> u, o |-> o])
    [] name = "ExpireUnusable" ->
       LET C == {h \in Stored : tok[h].exp \in Unusable} IN
       \E m \in BOOLEAN : ExpireUnusable(IF Cardinality(C) > 10 THEN CHOOSE S \in SUBSET C : Cardinality(S) = 10 ELSE C, m)
                          /\ Rec([op |-> "ExpireUnusable"])
    [] name = "CleanLocks" ->
       \E f \in {R({TRUE, FALSE, FALSE})}, a \in {R({TRUE, FALSE, FALSE})} : CleanLocks(f, a) /\ Rec([op |-> "CleanLocks", force |-> f, aged |-> a])
    [] name = "Reopen" -> \E a \in {R({TRUE, FALSE, FALSE})} : Reopen(a) /\ Rec([op |-> "Reopen", aged |-> a])
    [] name = "SetAuth" -> \E a \in {R(Cred)}, n \in {R(0..3)} :
         IF Fails THEN Fail([op |-> "SetAuth", a |-> a, n |-> n], {"walletState/INSERT", "walletState/UPDATE"})
         ELSE SetAuth(a, n) /\ Rec([op |-> "SetAuth", a |-> a, n |-> n])
    [] name = "GetAuth" -> GetAuth(cred.auth, cred.tries) /\ Rec([op |-> "GetAuth"])
    [] name = "SetKeys" -> \E ks \in {R(SUBSET Cred)} : IF Fails THEN Fail([op |-> "SetKeys", ks |-> ks], {"walletState/INSERT", "walletState/UPDATE"})
                                                  ELSE SetKeys(ks) /\ Rec([op |-> "SetKeys", ks |-> ks])
    [] name = "GetKeys" -> GetKeys(cred.keys) /\ Rec([op |-> "GetKeys"])

(* weights by repetition *)
Menu == <<"SetToken", "SetToken", "SetToken", "SetToken", "SetToken", "SetToken",
          "GetToken", "GetToken", "Lock", "Lock", "Unlock", "Del", "GetAndLock", "GetAndLock", "GetAndLock",
          "GetAndLockMany", "Find", "GetExpire", "GetInReissue", "BalanceOwn", "Balance", "Balance",
          "ExpireUnusable", "CleanLocks", "Reopen", "SetAuth", "GetAuth", "SetKeys", "GetKeys">>

GInit == Init /\ hist = <<>>
GNext == /\ Len(hist) < Depth
         /\ \E i \in {RandomElement(1..Len(Menu))} : G(Menu[i])
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
