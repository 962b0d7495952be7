----------------------------- MODULE EncDBTrace -----------------------------
EXTENDS EncDB, TraceLib
Now == \E v \in {E.view} : View(v)'
TReset == AtReset /\ has' = {} /\ away' = {} /\ harmed' = FALSE /\ cur' = 0 /\ rows' = {} /\ gen' = 0 /\ av' = "FULL" /\ held' = FALSE
TInit == Init /\ l = 1
TNext ==
  \/ TReset
  \/ At("Nop") /\ Still
  \/ At("Create") /\ Create(E.p, E.iter, E.res) /\ Now
  \/ At("Rekey") /\ Rekey(E.p, E.q, E.iter, E.res) /\ Now
  \/ At("Put") /\ Put(E.p, E.b, E.res) /\ Now
  \/ At("Purge") /\ Purge(E.p, E.b, E.res) /\ Now
  \/ At("Vacuum") /\ Vacuum(E.p, E.av, E.res) /\ Now
  \/ At("Incremental") /\ Incremental(E.p, E.pages, E.res, E.free) /\ Now
  \/ At("Status") /\ Status(E.p, E.res, E.mode, E.free) /\ Now
  \/ At("Hold") /\ Hold(E.p, E.res) /\ Now
  \/ At("HPut") /\ HPut(E.b, E.res) /\ Now
  \/ At("Drop") /\ Drop(E.res) /\ Now
  \/ At("Crash") /\ Crash(E.what, E.p, E.q, E.iter, E.b, E.av, E.res) /\ Now
  \/ At("Lose") /\ Lose(E.what) /\ Now
  \/ At("Harm") /\ Harm /\ Now
  \/ At("Restore") /\ Restore /\ Now
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
