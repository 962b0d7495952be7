------------------------------- MODULE Wallet -------------------------------
(* Obtaining tokens from the wallet server and exchanging them at their     *)
(* issuer.  A machine that is driven by single steps: a read or a write of  *)
(* the wallet's store, or a request to a server together with its outcome.  *)
(* An operation of the client is started by Begin, every step is a Do, and  *)
(* the operation is over when pc is "end"; res is then the set of results   *)
(* it may return.  A step that must not be taken makes the machine bad.     *)
(*                                                                          *)
(* store:  token -> entry (stage plain: nothing under way; params: has      *)
(*         parameters of the issuer, maybe unfit ones; packet: request req  *)
(*         for its replacement nid, owned by nown, was or is to be sent)    *)
(* auth:   the authentication token of an unanswered request to the wallet  *)
(*         server, 0 if none, and how often it was tried                    *)
(* used:   all authentication tokens; ids: all tokens and replacements;     *)
(* reqs:   all requests for replacements                                    *)
(* sold:   authentication token -> token the wallet server took money for   *)
(* repl:   token -> token that replaced it; done: tokens the caller removed *)
EXTENDS Integers, Sequences, FiniteSets, TLC

AuthRetry == 3   \* retries of an unanswered request to the wallet server
Replays == 3     \* retries when the counter of a request was too low

Map0 == [x \in {} |-> 0]
Fresh0 == [on |-> FALSE, store |-> Map0, auth |-> 0, tries |-> 0, used |-> {}, ids |-> {}, reqs |-> {}, sold |-> Map0, repl |-> Map0, done |-> {}, lost |-> {},
           pc |-> "end", res |-> {"ok"}, op |-> "", u |-> "", o |-> "", tok |-> 0, new |-> 0, got |-> 0, calls |-> 0, cur |-> 0,
           ans |-> [tok |-> 0, tu |-> "", par |-> FALSE, ren |-> FALSE, good |-> TRUE], authset |-> FALSE, kept |-> FALSE, hold |-> FALSE, why |-> ""]

Put(f, k, x) == (k :> x) @@ f
Del(f, k) == [j \in DOMAIN f \ {k} |-> f[j]]
SignerOf(u) == IF u = "Message" THEN "s1" ELSE "s2"
Bad(m, why) == [m EXCEPT !.pc = "bad", !.why = why]
In(m, t) == t \in DOMAIN m.store

(* the operation ends: a token under exchange is free again, a token for    *)
(* the caller is reserved for it                                            *)
Release(m) == IF m.hold /\ In(m, m.tok) THEN [m EXCEPT !.store[m.tok].locked = FALSE, !.hold = FALSE] ELSE [m EXCEPT !.hold = FALSE]
End(m, res) == [Release(m) EXCEPT !.pc = "end", !.res = res]
Refused == {"retry", "final", "fatal"}

(* a token can be handed out for usage u and owner o *)
Takeable(m, u, o) == {t \in DOMAIN m.store : ~m.store[t].locked /\ m.store[t].stage # "packet" /\ ~m.store[t].self /\ m.store[t].u = u /\ (o = "none" \/ m.store[t].own = o)}
Findable(m, u) == {t \in DOMAIN m.store : ~m.store[t].locked /\ m.store[t].stage # "packet" /\ m.store[t].self /\ m.store[t].u = u}
Resumable(m) == {t \in DOMAIN m.store : ~m.store[t].locked /\ m.store[t].stage = "packet"}

StartReissue(m, t) ==
  IF ~m.on THEN End(m, {"offline"})
  ELSE IF ~In(m, t) \/ m.store[t].locked THEN End(m, {"retry"})
  ELSE LET h == [m EXCEPT !.tok = t, !.store[t].locked = TRUE, !.hold = TRUE] IN
       IF ~m.store[t].self THEN End(h, {"fatal"})
       ELSE [h EXCEPT !.pc = CASE m.store[t].stage = "plain" -> "par"
                               [] m.store[t].stage = "params" -> IF m.store[t].unfit THEN "badpar" ELSE "gotpar"
                               [] OTHER -> "send"]
StartWallet(m) == IF m.on THEN [m EXCEPT !.pc = "wal"] ELSE End(m, {"offline"})

Begin(m, op, u, o, t) ==
  LET b == [m EXCEPT !.op = op, !.u = u, !.o = o, !.tok = 0, !.new = 0, !.got = 0, !.calls = 0, !.cur = 0, !.authset = FALSE, !.kept = FALSE, !.hold = FALSE, !.res = {}] IN
  CASE op = "Get" -> [b EXCEPT !.pc = "take"]
    [] op = "Wallet" -> StartWallet(b)
    [] op = "Reissue" -> StartReissue(b, t)
    [] op = "Resume" -> IF t = 0 THEN (IF Resumable(b) = {} THEN End(b, {"none"}) ELSE Bad(b, "resume"))
                        ELSE IF t \in Resumable(b) THEN StartReissue(b, t) ELSE Bad(b, "resume")

(* the new token is there *)
Finish(m) ==
  LET f == [Release(m) EXCEPT !.pc = "end", !.res = {"ok"}] IN
  IF m.op = "Get" THEN [f EXCEPT !.got = m.new, !.store[m.new].locked = TRUE] ELSE f

DoTake(m, s) ==
  LET T == Takeable(m, m.u, m.o) IN
  IF m.pc # "take" THEN Bad(m, "take")
  ELSE IF s.tok = 0 THEN (IF T # {} THEN Bad(m, "take") ELSE IF m.o = "none" THEN End(m, {"need"}) ELSE [m EXCEPT !.pc = "find"])
  ELSE IF s.tok \notin T THEN Bad(m, "take")
  ELSE [End(m, {"ok"}) EXCEPT !.got = s.tok, !.store[s.tok].locked = TRUE]

DoFind(m, s) ==
  LET F == Findable(m, m.u) IN
  IF m.pc # "find" THEN Bad(m, "find")
  ELSE IF s.tok = 0 THEN (IF F # {} THEN Bad(m, "find") ELSE StartWallet(m))
  ELSE IF s.tok \in F THEN StartReissue(m, s.tok) ELSE Bad(m, "find")

(* a request to the wallet server: it repeats the unanswered one, a limited *)
(* number of times, or else is a new one                                    *)
Repeat(m) == m.auth # 0 /\ m.tries <= AuthRetry
NoAnswer == {"down", "lost", "json", "null", "types", "retry", "unk"}
DoWal(m, s) ==
  IF m.pc # "wal" \/ s.u # m.u \/ ~s.valid THEN Bad(m, "wal")
  ELSE IF (IF Repeat(m) THEN s.auth # m.auth ELSE s.auth \in m.used) THEN Bad(m, "wal auth")
  ELSE
  LET sold == IF s.tok = 0 THEN m.sold ELSE Put(m.sold, s.auth, s.tok)
      n == [m EXCEPT !.used = @ \cup {s.auth}, !.cur = s.auth, !.sold = sold, !.ids = IF s.tok = 0 THEN @ ELSE @ \cup {s.tok},
                     !.lost = IF ~Repeat(m) /\ m.auth # 0 THEN @ \cup {m.auth} ELSE @]
  IN CASE s.out = "replay" -> IF m.calls < Replays THEN [n EXCEPT !.calls = @ + 1] ELSE [n EXCEPT !.pc = "walerr"]
       [] s.out \in NoAnswer -> [n EXCEPT !.pc = "walerr"]
       [] s.out = "fin" -> End(n, {"final"})
       [] s.out \in {"wtok", "wpk", "wpar", "wkey", "wbad"} -> [n EXCEPT !.pc = "walbad"]
       [] s.out \in {"ok", "wsig"} -> [n EXCEPT !.pc = "walok", !.ans = [tok |-> s.tok, tu |-> s.tu, par |-> s.par, ren |-> s.ren, good |-> s.out = "ok"]]

(* remembering or forgetting the unanswered request *)
DoAuth(m, s) ==
  IF m.pc = "walerr" /\ s.auth = m.cur /\ s.tries = (IF Repeat(m) THEN m.tries ELSE 0) + 1
  THEN End([m EXCEPT !.auth = s.auth, !.tries = s.tries], {"retry"})
  ELSE IF m.pc = "walbad" /\ s.auth = 0 THEN End([m EXCEPT !.auth = 0, !.tries = s.tries, !.lost = @ \cup {m.cur}], Refused)
  ELSE IF m.pc = "walok" /\ s.auth = 0 THEN [m EXCEPT !.auth = 0, !.tries = s.tries, !.authset = TRUE]
  ELSE Bad(m, "auth")

Bought(m) ==
  IF m.ans.tu # m.u THEN End(m, {"retry"})
  ELSE IF m.o = "none" /\ ~m.ans.ren THEN [End(m, {"need"}) EXCEPT !.got = m.ans.tok]
  ELSE StartReissue(m, m.ans.tok)
(* the answer was stored and the request forgotten *)
Settle(m) == IF m.pc = "walok" /\ m.kept /\ m.authset THEN Bought([m EXCEPT !.kept = FALSE, !.authset = FALSE]) ELSE m

Entry(m, t, own, self, ren, u) ==
  [stage |-> "plain", unfit |-> FALSE, req |-> 0, nid |-> 0, nown |-> "", nself |-> FALSE, own |-> own, self |-> self, ren |-> ren, u |-> u, locked |-> IF In(m, t) THEN m.store[t].locked ELSE FALSE]
Same(e, s) == e.own = s.own /\ e.self = s.self /\ e.ren = s.ren /\ e.u = s.u /\ s.hash
DoSet(m, s) ==
  IF m.pc = "walok" THEN
    IF m.kept \/ s.tok # m.ans.tok \/ In(m, s.tok) \/ s.stage # (IF m.ans.par THEN "params" ELSE "plain") \/ (m.ans.good /\ ~s.good)
       \/ ~Same(Entry(m, s.tok, "me", TRUE, m.ans.ren, m.ans.tu), s)
    THEN Bad(m, "set wallet")
    ELSE [m EXCEPT !.kept = TRUE, !.store = Put(@, s.tok, [Entry(m, s.tok, "me", TRUE, m.ans.ren, m.ans.tu) EXCEPT !.stage = s.stage])]
  ELSE IF m.pc \in {"gotpar", "badpar"} /\ s.tok = m.tok /\ Same(m.store[m.tok], s) THEN
    CASE s.stage = "params" -> [m EXCEPT !.store[m.tok].stage = "params", !.store[m.tok].unfit = (m.pc = "badpar")]
      [] s.stage = "plain" /\ m.pc = "badpar" -> End([m EXCEPT !.store[m.tok].stage = "plain"], Refused)
      [] s.stage = "packet" /\ m.pc = "gotpar" ->
           IF s.req \in m.reqs \cup {0} \/ s.nid \in m.ids \cup {0} \/ s.nown # (IF m.o = "none" THEN "new" ELSE m.o) \/ s.nself # (m.o = "none")
           THEN Bad(m, "set packet")
           ELSE [m EXCEPT !.pc = "send", !.reqs = @ \cup {s.req}, !.ids = @ \cup {s.nid},
                          !.store[m.tok] = [@ EXCEPT !.stage = "packet", !.req = s.req, !.nid = s.nid, !.nown = s.nown, !.nself = s.nself]]
      [] OTHER -> Bad(m, "set")
  ELSE IF m.pc = "newset" THEN
    LET e == m.store[m.tok]
        n == Entry(m, s.tok, e.nown, e.nself, e.ren, e.u)
    IN IF s.tok # e.nid \/ s.stage # "plain" \/ ~s.good \/ ~Same(n, s) THEN Bad(m, "set new")
       ELSE [m EXCEPT !.pc = "del", !.new = s.tok, !.store = Put(@, s.tok, n)]
  ELSE Bad(m, "set")

DoPar(m, s) ==
  IF m.pc # "par" \/ s.srv # SignerOf(m.store[m.tok].u) THEN Bad(m, "par")
  ELSE CASE s.out = "ok" -> [m EXCEPT !.pc = "gotpar"]
         [] s.out \in NoAnswer -> End(m, {"retry"})
         [] s.out = "fin" -> End(m, {"final"})
         [] s.out \in {"wusage", "wsigner", "wkey", "garbage", "curve"} -> [m EXCEPT !.pc = "badpar"]

DoRei(m, s) ==
  IF m.pc # "send" \/ s.tok # m.tok \/ s.req # m.store[m.tok].req \/ s.srv # SignerOf(m.store[m.tok].u) \/ ~s.valid THEN Bad(m, "rei")
  ELSE CASE s.out \in {"ok", "wkey"} -> [m EXCEPT !.pc = "newset"]
         [] s.out \in NoAnswer -> End(m, {"retry"})
         [] s.out = "fin" -> End(m, {"final"})
         [] s.out \in {"garbage", "wsig", "wpk", "wbad"} -> End(m, Refused)

DoDel(m, s) ==
  IF m.pc # "del" \/ s.tok # m.tok THEN Bad(m, "del")
  ELSE Finish([m EXCEPT !.store = Del(@, m.tok), !.repl = Put(@, m.tok, m.new)])

Do(m0, s) ==
  LET m == m0 IN
  IF m.pc = "bad" THEN m
  ELSE Settle(CASE s.s = "take" -> DoTake(m, s)
         [] s.s = "find" -> DoFind(m, s)
         [] s.s = "wal" -> DoWal(m, s)
         [] s.s = "auth" -> DoAuth(m, s)
         [] s.s = "set" -> DoSet(m, s)
         [] s.s = "par" -> DoPar(m, s)
         [] s.s = "rei" -> DoRei(m, s)
         [] s.s = "del" -> DoDel(m, s)
         [] OTHER -> Bad(m, "step"))

(* what callers do *)
Other(m) == [m EXCEPT !.op = "", !.res = {"ok"}]
Lock(m, t) == IF In(m, t) /\ ~m.store[t].locked THEN [Other(m) EXCEPT !.store[t].locked = TRUE] ELSE Other(m)
Unlock(m, t) == IF In(m, t) THEN [Other(m) EXCEPT !.store[t].locked = FALSE] ELSE Other(m)
Done(m, t) == [Other(m) EXCEPT !.store = Del(@, t), !.done = IF In(m, t) THEN @ \cup {t} ELSE @]
(* The wallet dies in the middle of an operation.  An answer of the wallet  *)
(* server that was not stored yet is lost.                                  *)
Crash(m) == [Other(m) EXCEPT !.pc = "end", !.on = FALSE, !.hold = FALSE, !.kept = FALSE, !.authset = FALSE, !.got = 0,
                             !.lost = IF m.pc \in {"walok", "walerr", "walbad"} /\ ~m.kept THEN @ \cup {m.cur} ELSE @]
GoOnline(m, b) == [Other(m) EXCEPT !.on = b]

-----------------------------------------------------------------------------
(* Nothing is lost: what was sold is in the wallet, was removed by the      *)
(* caller, was replaced by a token of which that is true, or can still be   *)
(* fetched by repeating the request; unless the request was given up.       *)
RECURSIVE Accounted(_, _)
Accounted(m, t) == In(m, t) \/ t \in m.done \/ (t \in DOMAIN m.repl /\ Accounted(m, m.repl[t]))
NothingLost(m) ==
  \A a \in DOMAIN m.sold : \/ Accounted(m, m.sold[a]) \/ a = m.auth \/ a \in m.lost
                           \/ (m.pc \in {"walok", "walerr", "walbad"} /\ a = m.cur)
(* A token that is handed out fits the request and is reserved.             *)
HandedOut(m) ==
  m.pc = "end" /\ m.op = "Get" /\ m.res = {"ok"} =>
    /\ In(m, m.got) /\ m.store[m.got].locked /\ m.store[m.got].u = m.u /\ m.store[m.got].stage # "packet"
    /\ ~m.store[m.got].self /\ (m.o = "none" \/ m.store[m.got].own = m.o)
(* A replaced token is gone, and is not sold twice.                         *)
Replaced(m) == DOMAIN m.repl \cap DOMAIN m.store = {}
=============================================================================
