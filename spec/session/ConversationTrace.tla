------------------------- MODULE ConversationTrace -------------------------
EXTENDS Conversation, TraceLib

TInit == Init /\ l = 1
D(f, def) == IF f \in DOMAIN E THEN E[f] ELSE def
TNext ==
  \/ AtReset /\ sent' = <<>> /\ got' = {}
  \/ /\ At("Encrypt")
     /\ Send(E.p, E.q, E.sign, IF E.status = "ok" THEN E.len ELSE 0, D("size", 0), E.res)
     /\ (E.res = "ok" => E.id = Len(sent) + 1 /\ E.nym)
  \/ At("Refused") /\ Send(E.p, E.q, FALSE, MaxLen + 1 + E.more, E.size, E.res)
  \/ At("Decrypt") /\ Deliver(sent[E.id].to, E.id, E.res, D("sender", "-"), D("same", FALSE), D("sig", "-"))
  \* interrupted: nothing was sent, or what arrived will arrive again
  \/ At("CutEncrypt") /\ E.res \in {"cut", "ok"} /\ UNCHANGED vars
  \/ At("CutDecrypt") /\ E.res = "cut" /\ UNCHANGED vars
  \/ /\ At("CutDecrypt") /\ E.res # "cut"
     /\ Deliver(sent[E.id].to, E.id, E.res, D("sender", "-"), D("same", FALSE), D("sig", "-"))
  \/ At("Wrong") /\ Deliver(E.p, E.id, E.res, D("sender", "-"), D("same", FALSE), D("sig", "-"))
  \/ At("Tamper") /\ E.res # "skip" /\ Bad(E.res)
  \/ /\ At("Stranger")
     /\ IF E.kind \in {"fine", "next"}
        THEN E.res = "ok" /\ E.mine /\ E.same /\ E.sig = (IF E.sign THEN "ok" ELSE "none") /\ E.again = "err"
        ELSE E.res = "err"
     /\ UNCHANGED vars
  \/ At("Forge") /\ E.res # "skip" /\ Bad(E.res)
  \/ l <= Len(Trace) /\ E.op \in {"Tamper", "Forge"} /\ E.res = "skip" /\ l' = l + 1 /\ UNCHANGED vars
  \/ At("Reopen") /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
