------------------------------- MODULE EncDB -------------------------------
(* An encrypted database: a data file and a key file, opened with a        *)
(* passphrase (a number).  Commands of the user, with the result r.        *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES has,    \* which of the files "db", "key" are there
          away,   \* files taken away (or, for a damaged key file, its copy)
          harmed, \* the key file is damaged
          cur,    \* the passphrase
          rows,   \* batches of rows stored
          gen,    \* number written to all rows with every batch
          av,     \* auto vacuum mode
          held    \* an open handle exists
vars == <<has, away, harmed, cur, rows, gen, av, held>>
Modes == {"NONE", "FULL", "INCREMENTAL"}
Init == has = {} /\ away = {} /\ harmed = FALSE /\ cur = 0 /\ rows = {} /\ gen = 0 /\ av = "FULL" /\ held = FALSE
Still == UNCHANGED vars
Opens(p) == has = {"db", "key"} /\ ~harmed /\ p = cur
GoodIter(i) == i >= 0   \* -2 stands for a number that is too large
(* the database is never created over an existing file *)
Create(p, iter, r) ==
  IF has = {} /\ GoodIter(iter)
  THEN r = "ok" /\ has' = {"db", "key"} /\ cur' = p /\ rows' = {} /\ gen' = 0 /\ av' = "FULL" /\ UNCHANGED <<away, harmed, held>>
  ELSE r = "err" /\ Still
Rekeyed(q) == cur' = q /\ UNCHANGED <<has, away, harmed, rows, gen, av, held>>
Rekey(p, q, iter, r) == IF Opens(p) /\ GoodIter(iter) THEN r = "ok" /\ Rekeyed(q) ELSE r = "err" /\ Still
Store(b) == rows' = rows \cup {b} /\ gen' = gen + 1 /\ UNCHANGED <<has, away, harmed, cur, av, held>>
Put(p, b, r) == IF Opens(p) THEN r = "ok" /\ Store(b) ELSE r = "err" /\ Still
Remove(b) == rows' = rows \ {b} /\ gen' = (IF rows \subseteq {b} THEN 0 ELSE gen) /\ UNCHANGED <<has, away, harmed, cur, av, held>>
Purge(p, b, r) == IF Opens(p) THEN r = "ok" /\ Remove(b) ELSE r = "err" /\ Still
Mode(m) == av' = (IF m = "" THEN av ELSE m) /\ UNCHANGED <<has, away, harmed, cur, rows, gen, held>>
Vacuum(p, m, r) == IF Opens(p) /\ m \in Modes \cup {""} THEN r = "ok" /\ Mode(m) ELSE r = "err" /\ Still
(* free: pages in the free list afterwards *)
Incremental(p, pages, r, free) ==
  /\ Still
  /\ r = (IF Opens(p) /\ av = "INCREMENTAL" THEN "ok" ELSE "err")
Status(p, r, mode, free) ==
  /\ Still
  /\ r = (IF Opens(p) THEN "ok" ELSE "err")
  /\ r = "ok" => mode = av /\ (av = "FULL" => free = 0)
Hold(p, r) == IF Opens(p) THEN r = "ok" /\ held' = TRUE /\ UNCHANGED <<has, away, harmed, cur, rows, gen, av>>
              ELSE r = "err" /\ Still
HPut(b, r) == held /\ r = "ok" /\ Store(b)
Drop(r) == held /\ r = "ok" /\ held' = FALSE /\ UNCHANGED <<has, away, harmed, cur, rows, gen, av>>
(* A command in a process that dies, or has a system call fail, at some    *)
(* point.  It has had its whole effect or none; if it said it succeeded,   *)
(* its effect.  A failing call need not make the command fail.             *)
Crash(what, p, q, iter, b, m, r) ==
  /\ r \in {"killed", "err", "ok"}
  /\ (CASE what = "Rekey" -> (Rekey(p, q, iter, "ok") \/ (r # "ok" /\ Still))
       [] what = "Put" -> (Put(p, b, "ok") \/ (r # "ok" /\ Still))
       [] what = "Purge" -> (Purge(p, b, "ok") \/ (r # "ok" /\ Still))
       \* the mode of a database is a detail; a vacuum that failed may have changed it or not
       [] what = "Vacuum" -> (Vacuum(p, m, "ok") \/ (r # "ok" /\ Still)))
(* the environment *)
Lose(f) == ~harmed /\ f \in has /\ has' = has \ {f} /\ away' = away \cup {f} /\ UNCHANGED <<harmed, cur, rows, gen, av, held>>
Harm == ~harmed /\ has = {"db", "key"} /\ away = {} /\ harmed' = TRUE /\ away' = {"key"} /\ UNCHANGED <<has, cur, rows, gen, av, held>>
Restore == has' = has \cup away /\ away' = {} /\ harmed' = FALSE /\ UNCHANGED <<cur, rows, gen, av, held>>
(* what the user sees *)
View(v) ==
  LET o == has = {"db", "key"} /\ ~harmed
  IN /\ v.opens = IF o THEN <<cur>> ELSE <<>>
     /\ o => {v.batches[i] : i \in DOMAIN v.batches} = rows /\ v.gen = gen
     /\ v.whole /\ ~v.leak
     /\ v.db = ("db" \in has) /\ v.key = ("key" \in has)
=============================================================================
