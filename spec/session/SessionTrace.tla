---------------------------- MODULE SessionTrace ----------------------------
(* Recorded conversations as behaviours of Session: the session states the  *)
(* stores report are those of the specification, message keys are used once *)
(* and destroyed, private session keys are destroyed when they have to be.  *)
EXTENDS Session, TraceLib
VARIABLE used    \* message keys seen so far, by message

tvars == <<vars, used, l>>

TraceRank == [p \in Party |-> IF p = "a" THEN 1 ELSE IF p = "b" THEN 2 ELSE 3]

TInit == Init /\ used = <<>> /\ l = 1

K(x) == <<x[1], x[2]>>
(* the state p reports about its session with q *)
StOK(p, q) ==
  LET s == ss'[p][q]
      pr == {Key(p, i) : i \in SeqSet(E.st.priv)}
  IN /\ K(E.st.own) = s.own
     /\ s # NoState => /\ K(E.st.peer) = s.peer
                       /\ K(E.st.next) = s.next
                       /\ K(E.st.seen) = s.seen
                       /\ E.st.n = s.n
                       /\ E.st.cnt = s.cnt
                       /\ E.st.ki = s.ki
                       /\ E.st.nym = s.nym
                       /\ (s.next # NoKey => s.next \in pr)
     /\ E.st.keys = nk'[p]
     /\ pr \subseteq priv'[p]
     /\ E.st.back = 0     \* no message key that was gone is back

TEncrypt ==
  /\ At("Encrypt")
  /\ E.res = "ok"
  /\ \E renew \in BOOLEAN : Encrypt(E.p, E.q, renew, E.status, E.nymn, E.id) /\ StOK(E.p, E.q)
                             /\ E.to = Address(E.p, E.q, renew, E.status)
  /\ E.gone
  /\ E.mk \notin {used[i] : i \in DOMAIN used}
  /\ used' = Append(used, E.mk)

TRefused ==
  /\ At("Refused")
  /\ E.res = "err"
  /\ \E renew \in BOOLEAN : Refused(E.p, E.q, renew) /\ StOK(E.p, E.q)
  /\ UNCHANGED used

TDecrypt ==
  /\ At("Decrypt")
  /\ \E m \in {m \in net : m.id = E.id} : Decrypt(m, E.res) /\ StOK(m.to, m.from)
  /\ E.res = "ok" => E.gone /\ E.mk = used[E.id]
  /\ UNCHANGED used

TNext ==
  \/ /\ AtReset /\ used' = <<>>
     /\ ss' = [p \in Party |-> [q \in Party |-> NoState]]
     /\ sess' = [p \in Party |-> <<>>]
     /\ nk' = [p \in Party |-> 0]
     /\ priv' = [p \in Party |-> {}]
     /\ net' = {} /\ got' = {}
  \/ TEncrypt
  \/ TRefused
  \/ TDecrypt
  \/ At("Reopen") /\ UNCHANGED <<vars, used>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
