-------------------------------- MODULE AppMC --------------------------------
(* A user who knows the passphrases, and a stranger who does not, and who   *)
(* tries every cookie but those of the user.                                *)
EXTENDS App
CONSTANTS MaxIssued, Pass
VARIABLES knows, has, seen   \* cookies of the stranger, of the user; who was shown pages with what
mcvars == <<vars, knows, has, seen>>
MInit == Init /\ knows = {} /\ has = {} /\ seen = {}
DoStart == Start /\ UNCHANGED <<right, config, issued, knows, has, seen>>
DoRekey == \E p \in Pass : right' = p /\ UNCHANGED <<up, config, cur, issued, knows, has, seen>>
DoConfig == \E c \in BOOLEAN : config' = c /\ UNCHANGED <<up, right, cur, issued, knows, has, seen>>
UserLogin == up /\ issued < MaxIssued /\ Admits(right) /\ NewSession(issued + 1) /\ has' = has \cup {issued + 1}
  /\ UNCHANGED <<up, right, config, knows, seen>>
StrangerLogin == up /\ issued < MaxIssued /\ \E p \in Pass \ {right} : Admits(p) /\ NewSession(issued + 1)
  /\ knows' = knows \cup {issued + 1} /\ UNCHANGED <<up, right, config, has, seen>>
UserGet == up /\ \E c \in has : Shown(c) /\ seen' = seen \cup {[who |-> "user", c |-> c]} /\ UNCHANGED <<vars, knows, has>>
StrangerGet == up /\ \E c \in (0..(MaxIssued + 1)) \ (has \ knows) : Shown(c) /\ seen' = seen \cup {[who |-> "stranger", c |-> c]}
  /\ UNCHANGED <<vars, knows, has>>
Spec == MInit /\ [][DoStart \/ DoRekey \/ DoConfig \/ UserLogin \/ StrangerLogin \/ UserGet \/ StrangerGet]_mcvars
Closed == \A s \in seen : s.who = "user" /\ s.c \in has
Session == cur # 0 => cur \in has
=============================================================================
