--------------------------------- MODULE App ---------------------------------
(* The local web interface: a login page, a session, and pages.             *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES
  up,      \* the interface runs
  right,   \* the passphrase of the database
  config,  \* a usable configuration is there
  cur,     \* the cookie of the session, 0: none
  issued   \* number of cookies ever issued
vars == <<up, right, config, cur, issued>>

Init == up = FALSE /\ right = 1 /\ config = FALSE /\ cur = 0 /\ issued = 0

(* a login is one with the right passphrase and a working configuration *)
Admits(p) == p = right /\ config
NewSession(c) == cur' = c /\ issued' = issued + 1
(* pages are shown to who brings the cookie of the session *)
Shown(c) == c # 0 /\ c = cur
Start == up' = TRUE /\ cur' = 0
=============================================================================
