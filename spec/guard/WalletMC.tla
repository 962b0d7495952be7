------------------------------ MODULE WalletMC ------------------------------
(* The wallet with servers that may fail in every way, a bounded number of  *)
(* times.  The issuer replaces a token once and answers a repeated request  *)
(* as before.                                                               *)
EXTENDS Wallet
CONSTANTS MaxOps, MaxFaults, MaxTok
VARIABLES m, ops, faults, nid, iss
vars == <<m, ops, faults, nid, iss>>

Owners == {"a", "none"}
Init == m = Fresh0 /\ ops = 0 /\ faults = 0 /\ nid = 1 /\ iss = Map0
Idle == m.pc = "end"
Op(x) == Idle /\ ops < MaxOps /\ x.pc # "bad" /\ m' = x /\ ops' = ops + 1 /\ UNCHANGED <<faults, nid, iss>>
Call ==
  \/ Op(GoOnline(m, ~m.on))
  \/ \E o \in Owners, k \in {"Get", "Wallet"} : Op(Begin(m, k, "Message", o, 0))
  \/ \E o \in Owners, t \in DOMAIN m.store : Op(Begin(m, "Reissue", "", o, t))
  \/ \E t \in DOMAIN m.store \cup {0} : Op(Begin(m, "Resume", "", "none", t))
  \/ \E t \in DOMAIN m.store : Op(Done(m, t)) \/ Op(Unlock(m, t)) \/ Op(Lock(m, t))
Take(s) == ~Idle /\ LET x == Do(m, s) IN x.pc # "bad" /\ m' = x /\ ops' = ops

Flag == {TRUE, FALSE}
NoFault == UNCHANGED faults
Fault == faults < MaxFaults /\ faults' = faults + 1
Reads == \E t \in DOMAIN m.store \cup {0}, k \in {"take", "find"} : Take([s |-> k, tok |-> t]) /\ UNCHANGED <<faults, nid, iss>>

(* the wallet server: charges for a request once *)
WalStep(a, out, t, par, ren) == Take([s |-> "wal", auth |-> a, out |-> out, u |-> m.u, valid |-> TRUE, tok |-> t, tu |-> m.u, par |-> par, ren |-> ren])
Wal ==
  /\ m.pc = "wal"
  /\ \E a \in (IF Repeat(m) THEN {m.auth} ELSE {100 + Cardinality(m.used)}) :
       \/ \E out \in {"down", "retry", "fin", "replay"} : WalStep(a, out, 0, FALSE, FALSE) /\ Fault /\ UNCHANGED <<nid, iss>>
       \/ \E out \in {"ok", "lost", "wtok"}, par \in Flag, ren \in Flag :
            /\ (~par => ren) /\ (IF out = "ok" THEN NoFault ELSE Fault)
            /\ UNCHANGED iss
            /\ IF a \in DOMAIN m.sold THEN WalStep(a, out, m.sold[a], par, ren) /\ UNCHANGED nid
               ELSE nid <= MaxTok /\ nid' = nid + 1 /\ WalStep(a, out, nid, par, ren)
Auth == \E a \in {0, m.cur}, n \in 0..AuthRetry + 1 : Take([s |-> "auth", auth |-> a, tries |-> n]) /\ UNCHANGED <<faults, nid, iss>>
(* the wallet may die at any point *)
Die == ~Idle /\ Fault /\ UNCHANGED <<ops, nid, iss>> /\ \E lk \in BOOLEAN :
         \E x \in {Crash(m)} : m' = IF In(x, x.tok) /\ m.hold THEN [x EXCEPT !.store[x.tok].locked = lk] ELSE x
SetStep(t, st, req, n, nown, nself, e) ==
  Take([s |-> "set", tok |-> t, stage |-> st, req |-> req, nid |-> n, nown |-> nown, nself |-> nself, own |-> e.own, self |-> e.self, ren |-> e.ren, u |-> e.u, good |-> TRUE, hash |-> TRUE])
Stages == {"plain", "params", "packet"}
Set ==
  \/ m.pc = "walok" /\ \E st \in Stages : SetStep(m.ans.tok, st, 0, 0, "", FALSE, Entry(m, m.ans.tok, "me", TRUE, m.ans.ren, m.ans.tu)) /\ UNCHANGED <<faults, nid, iss>>
  \/ m.pc \in {"gotpar", "badpar"} /\ \E st \in Stages, req \in {0, nid}, o \in Owners \cup {"new"} :
       /\ nid <= MaxTok /\ SetStep(m.tok, st, req, nid, o, o = "new", m.store[m.tok])
       /\ nid' = (IF st = "packet" THEN nid + 1 ELSE nid) /\ UNCHANGED <<faults, iss>>
  \/ m.pc = "newset" /\ SetStep(m.store[m.tok].nid, "plain", 0, 0, "", FALSE, Entry(m, m.store[m.tok].nid, m.store[m.tok].nown, m.store[m.tok].nself, m.store[m.tok].ren, m.store[m.tok].u))
       /\ UNCHANGED <<faults, nid, iss>>
Par == m.pc = "par" /\ \E out \in {"ok", "down", "fin", "garbage"} :
  Take([s |-> "par", out |-> out, srv |-> SignerOf(m.store[m.tok].u)]) /\ (IF out = "ok" THEN NoFault ELSE Fault) /\ UNCHANGED <<nid, iss>>
Rei == m.pc = "send" /\ LET e == m.store[m.tok] IN
  \E out \in {"ok", "down", "lost", "wsig", "fin"} :
    /\ Take([s |-> "rei", out |-> out, tok |-> m.tok, req |-> e.req, srv |-> SignerOf(e.u), valid |-> TRUE])
    /\ (IF out = "ok" THEN NoFault ELSE Fault)
    /\ iss' = IF out \in {"ok", "lost", "wsig"} /\ m.tok \notin DOMAIN iss THEN Put(iss, m.tok, e.req) ELSE iss
    /\ UNCHANGED nid
Remove == m.pc = "del" /\ Take([s |-> "del", tok |-> m.tok]) /\ UNCHANGED <<faults, nid, iss>>

Next == Call \/ Reads \/ Wal \/ Auth \/ Set \/ Par \/ Rei \/ Remove \/ Die
Spec == Init /\ [][Next]_vars

Lossless == NothingLost(m)
Right == HandedOut(m)
Gone == Replaced(m)
(* the issuer is never asked for two replacements of a token; what it has   *)
(* replaced is replaced in the wallet, or can be by the same request        *)
OneRequest == \A t \in DOMAIN iss : \/ t \in DOMAIN m.repl \/ t \in m.done
                                    \/ (In(m, t) /\ m.store[t].stage = "packet" /\ m.store[t].req = iss[t])
(* operations can always go on to their end *)
NoStop == Idle \/ nid > MaxTok \/ ENABLED Next
=============================================================================
