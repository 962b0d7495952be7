------------------------------- MODULE Config -------------------------------
(* The configuration a client has in effect, and how it is replaced.        *)
(*                                                                          *)
(* Servers hold signed configurations and certificates; both can be altered *)
(* by whoever runs a server or the line to it (they are fetched without     *)
(* TLS).  An update takes the first acceptable configuration in the order   *)
(* of the servers' priorities.  Acceptable: signed, as it is and with its   *)
(* date, by the trusted key; dated within MaxAge of the clock; not older    *)
(* than the one in effect.  If it pins another certificate than the one in  *)
(* effect, exactly that certificate must come from some server.  Otherwise  *)
(* nothing changes at all, and later updates go on as if it had never been  *)
(* tried.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Servers, MaxAge
VARIABLES now,     \* the clock
          offers,  \* all configurations that were put on servers
          at,      \* what each server gives: number of an offer, or 0
          certs,   \* the certificate each server gives: [c, alt]
          prio,    \* priority of each server, < 0 if it isn't configured
          keyok,   \* there is a trusted key
          conf     \* in effect: [map, ca, date]
vars == <<now, offers, at, certs, prio, keyok, conf>>

None == [map |-> 0, ca |-> 0, date |-> 0]

Init ==
  /\ now = 0
  /\ offers = <<>>
  /\ at = [s \in Servers |-> 0]
  /\ certs = [s \in Servers |-> [c |-> 0, alt |-> "silent"]]
  /\ prio = [s \in Servers |-> IF s = 3 THEN 20 ELSE 10]
  /\ keyok = TRUE
  /\ conf = None

Authentic(o) == o.key = "trusted" /\ o.alt \in {"none", "same"}
InTime(o, t) == now - o.date <= MaxAge /\ o.date - now <= MaxAge
NotOlder(o) == conf.map = 0 \/ o.date >= conf.date
Acceptable(o) == keyok /\ Authentic(o) /\ InTime(o, now) /\ NotOlder(o)

Configured == {s \in Servers : prio[s] >= 0}
Cands == {s \in Configured : at[s] # 0 /\ Acceptable(offers[at[s]])}
Before(s) == {t \in Cands : prio[t] < prio[s]}
First == {s \in Cands : Before(s) = {}}

(* the certificate in effect with configuration o; -1: not to be had *)
CAFor(o) ==
  IF o.hash = 0 \/ o.hash = conf.ca THEN conf.ca
  ELSE IF \E s \in Configured : certs[s].alt = "none" /\ certs[s].c = o.hash THEN o.hash
  ELSE -1

Taken(s) == [map |-> at[s], ca |-> CAFor(offers[at[s]]), date |-> offers[at[s]].date]
Fails(s) == CAFor(offers[at[s]]) = -1

Outcomes ==
  {[res |-> "ok", conf |-> Taken(s)] : s \in {x \in Cands : ~Fails(x) /\ \A t \in Before(x) : Fails(t)}}
  \cup IF Cands = {} \/ \E s \in First : Fails(s) THEN {[res |-> "err", conf |-> conf]} ELSE {}

Update(o) ==
  /\ o \in Outcomes
  /\ conf' = o.conf
  /\ UNCHANGED <<now, offers, at, certs, prio, keyok>>

Publish(s, o) ==
  /\ offers' = Append(offers, o)
  /\ at' = [at EXCEPT ![s] = Len(offers) + 1]
  /\ UNCHANGED <<now, certs, prio, keyok, conf>>

Cert(s, c, alt) ==
  /\ certs' = [certs EXCEPT ![s] = [c |-> c, alt |-> alt]]
  /\ UNCHANGED <<now, offers, at, prio, keyok, conf>>

Advance(d) == now' = now + d /\ UNCHANGED <<offers, at, certs, prio, keyok, conf>>

(* saving and loading what is in effect *)
Restart == UNCHANGED vars

(* starting without anything in effect *)
New(p, k) ==
  /\ prio' = p /\ keyok' = k /\ conf' = None
  /\ UNCHANGED <<now, offers, at, certs>>
=============================================================================
