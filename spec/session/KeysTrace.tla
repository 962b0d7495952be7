----------------------------- MODULE KeysTrace -----------------------------
(* Message keys in recorded conversations with crashes: no two messages are *)
(* protected by the same key, and a key that was used is gone for good.     *)
EXTENDS TraceLib
VARIABLE used      \* message keys seen so far, by message
TInit == used = <<>> /\ l = 1
TNext ==
  \/ AtReset /\ used' = <<>>
  \/ /\ At("Encrypt") /\ E.res = "ok" /\ E.gone /\ E.mk \notin {used[i] : i \in DOMAIN used} /\ E.st.back = 0
     /\ used' = Append(used, E.mk)
  \/ /\ At("Decrypt") /\ (E.res = "ok" => E.gone /\ E.mk = used[E.id]) /\ E.st.back = 0 /\ UNCHANGED used
  \/ /\ l <= Len(Trace) /\ E.op \in {"CutEncrypt", "CutDecrypt"} /\ E.st.back = 0 /\ l' = l + 1 /\ UNCHANGED used
TSpec == TInit /\ [][TNext]_<<used, l>>
=============================================================================
