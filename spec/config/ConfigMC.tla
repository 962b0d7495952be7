------------------------------ MODULE ConfigMC ------------------------------
(* Everything that can happen with a few offers, certificates and servers.  *)
EXTENDS Config
CONSTANTS MaxOffers, MaxNow, Hashes
VARIABLE last   \* what the last step was
mcvars == <<vars, last>>

Offers == {[key |-> k, alt |-> a, date |-> now + d, hash |-> h] :
             k \in {"trusted"}, a \in {"none", "value"}, d \in {-MaxAge - 1, -1, 0, MaxAge}, h \in Hashes}
          \cup {[key |-> "other", alt |-> "none", date |-> now, hash |-> 0]}

MInit == Init /\ last = "init"
MNext ==
  \/ Len(offers) < MaxOffers /\ \E s \in Servers : \E o \in Offers : Publish(s, o) /\ last' = "publish"
  \/ \E s \in Servers : \E c \in Hashes \ {0} : \E a \in {"none", "append"} :
       [c |-> c, alt |-> a] # certs[s] /\ Cert(s, c, a) /\ last' = "cert"
  \/ \E o \in Outcomes : Update(o) /\ last' = o.res
  \/ now < MaxNow /\ Advance(1) /\ last' = "advance"
Spec == MInit /\ [][MNext]_mcvars

(* only what the trusted key signed is in effect *)
Trusted == conf.map # 0 => Authentic(offers[conf.map]) /\ conf.date = offers[conf.map].date
(* with the certificate it pins *)
Pinned == conf.map # 0 /\ offers[conf.map].hash # 0 => conf.ca = offers[conf.map].hash
(* a certificate comes only from a configuration the trusted key signed *)
Known == conf.ca # 0 => \E i \in 1..Len(offers) : Authentic(offers[i]) /\ offers[i].hash = conf.ca
(* time never goes back, and what fails changes nothing *)
Monotone == [][/\ conf'.date >= conf.date \/ conf.map = 0
               /\ last' # "ok" => conf' = conf]_mcvars
(* every update ends, and if all servers give the same acceptable configuration with its certificate, well *)
Live == /\ Outcomes # {}
        /\ (Cands # {} /\ \A s \in Cands : ~Fails(s)) => \A o \in Outcomes : o.res = "ok"
=============================================================================
