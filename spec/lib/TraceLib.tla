---------------------------- MODULE TraceLib ----------------------------
(* Shared by all trace specifications: the recorded trace of the real     *)
(* code, the position in it, and the acceptance condition.  The file      *)
(* holds many runs, each started by an event "reset".                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLE l

Trace == ndJsonDeserialize(IOEnv.TRACE)

E == Trace[l]

Failed == {"panic", "hang", "crash"}

(* The current line is an ordinary event of the given kind. *)
At(name) == /\ l <= Len(Trace)
            /\ E.op = name
            /\ E.res \notin Failed
            /\ l' = l + 1

AtReset == /\ l <= Len(Trace)
           /\ E.op = "reset"
           /\ l' = l + 1

Has(r, f) == f \in DOMAIN r

(* JSON arrays arrive as sequences. *)
SeqSet(s) == {s[i] : i \in 1..Len(s)}

TraceAccepted ==
  LET d == TLCGet("stats").diameter
  IN  IF d - 1 = Len(Trace) THEN TRUE
      ELSE Print(<<"REJECTED-AT", d>>, FALSE)
==========================================================================
