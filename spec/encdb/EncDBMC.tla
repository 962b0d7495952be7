------------------------------ MODULE EncDBMC ------------------------------
(* The steps by which a passphrase is changed and data is committed, with  *)
(* crashes and failures between any two of them, and the claim that they   *)
(* implement the atomic commands of EncDB.                                 *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS P, MaxGen
VARIABLES pc, q,     \* the running command: what it does next, its new passphrase
          kf, tmp,   \* key file and temporary key file: <<>> or <<passphrase, parts written>>
          pages,     \* number in each of the two pages of the data file
          jnl,       \* rollback journal: <<>> or <<old number>>
          dirty      \* pages written by the running transaction
mvars == <<pc, q, kf, tmp, pages, jnl, dirty>>
Parts == 3
MInit == pc = "idle" /\ q = 0 /\ kf = <<1, Parts>> /\ tmp = <<>> /\ pages = <<0, 0>> /\ jnl = <<>> /\ dirty = {}
Idle == pc' = "idle" /\ q' = 0 /\ dirty' = {}
(* opening the database rolls an unfinished transaction back *)
Roll == IF jnl = <<>> THEN pages ELSE <<jnl[1], jnl[1]>>
Can(p) == kf = <<p, Parts>>
Start(p, new) == pc = "idle" /\ Can(p) /\ pc' = "clean" /\ q' = new /\ pages' = Roll /\ jnl' = <<>> /\ UNCHANGED <<kf, tmp, dirty>>
Clean == pc = "clean" /\ tmp' = <<>> /\ pc' = "write" /\ UNCHANGED <<q, kf, pages, jnl, dirty>>
Write == pc = "write" /\ tmp' = (IF tmp = <<>> THEN <<q, 0>> ELSE <<q, tmp[2] + 1>>)
         /\ pc' = (IF tmp # <<>> /\ tmp[2] + 1 = Parts THEN "rename" ELSE "write") /\ UNCHANGED <<q, kf, pages, jnl, dirty>>
Rename == pc = "rename" /\ kf' = tmp /\ tmp' = <<>> /\ Idle /\ UNCHANGED <<pages, jnl>>
Begin(p) == pc = "idle" /\ Can(p) /\ Roll[1] < MaxGen /\ pc' = "journal" /\ pages' = Roll /\ jnl' = <<>> /\ UNCHANGED <<q, kf, tmp, dirty>>
Journal == pc = "journal" /\ jnl' = <<pages[1]>> /\ pc' = "page" /\ UNCHANGED <<q, kf, tmp, pages, dirty>>
Page(i) == pc = "page" /\ i \notin dirty /\ pages' = [pages EXCEPT ![i] = jnl[1] + 1] /\ dirty' = dirty \cup {i}
           /\ pc' = (IF Cardinality(dirty) = 1 THEN "commit" ELSE "page") /\ UNCHANGED <<q, kf, tmp, jnl>>
Commit == pc = "commit" /\ jnl' = <<>> /\ Idle /\ UNCHANGED <<kf, tmp, pages>>
Crash == pc # "idle" /\ Idle /\ UNCHANGED <<kf, tmp, pages, jnl>>
MNext == \/ \E p, new \in P : Start(p, new)
         \/ \E p \in P : Begin(p)
         \/ Clean \/ Write \/ Rename \/ Journal \/ Commit \/ Crash
         \/ \E i \in {1, 2} : Page(i)
MSpec == MInit /\ [][MNext]_mvars
(* the same as a step of the specification *)
A == INSTANCE EncDB WITH has <- {"db", "key"}, away <- {}, harmed <- FALSE, cur <- kf[1],
                         rows <- 1..Roll[1], gen <- Roll[1], av <- "FULL", held <- FALSE
Atomic == [][\/ \E p, new \in P : A!Crash("Rekey", p, new, 10, 0, "", "killed")
             \/ \E p \in P, r \in {"ok", "killed"} : A!Crash("Put", p, 0, 10, Roll[1] + 1, "", r)
             \/ UNCHANGED <<kf[1], Roll>>]_<<kf, tmp, pages, jnl>>
AlwaysOpens == \E p \in P : Can(p)
Whole == Roll[1] = Roll[2]
=============================================================================
