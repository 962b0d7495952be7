--------------------------- MODULE MsgSizeTrace ---------------------------
(* Recorded encryptions have exactly the sizes of MsgSize. *)
EXTENDS MsgSize, TraceLib
VARIABLE x
Same(ps) == Len(ps) = 6 /\ \A i \in 1..6 : ps[i][1] = Packets(E)[i][1] /\ ps[i][2] = Packets(E)[i][2]
TInit == l = 1 /\ x = 0
TNext ==
  \/ AtReset /\ UNCHANGED x
  \/ /\ At("Enc") /\ UNCHANGED x
     /\ IF Fits(E, E.uid) \/ (E.status # "ok" /\ Fits([E EXCEPT !.len = 0], E.uid))
        THEN /\ E.res = "ok"
             /\ E.size = EncodedSize
             /\ Same(E.packets)
             /\ E.pad = HeaderPad(E, E.uid)
             /\ E.dec = "ok" /\ E.same /\ E.signed = E.sign
        ELSE E.res = "err" /\ E.size = 0
TSpec == TInit /\ [][TNext]_<<x, l>>
=============================================================================
