----------------------------- MODULE KeyPoolMC -----------------------------
EXTENDS KeyPool
CONSTANTS MaxKeys, MaxNow, Alts, Stores
VARIABLE out
(* a generating pool and one that only verifies *)
MInit == /\ now = 5 /\ made = <<>> /\ sdir = <<>> /\ sdb = <<>> /\ sdb2 = <<>> /\ broken = {}
         /\ \E t2 \in {{}} :
            pools = [g |-> [usage |-> "u", t |-> 45, gen |-> 1, dir |-> TRUE, db |-> TRUE, db2 |-> FALSE, trust |-> {1}, known |-> {}, cur |-> 0, prev |-> 0],
                     c |-> [usage |-> "u", t |-> 45, gen |-> 0, dir |-> FALSE, db |-> TRUE, db2 |-> "db2" \in Stores, trust |-> t2, known |-> {}, cur |-> 0, prev |-> 0]]
         /\ out = <<"init", 0>>
AllIds == 1..Len(made)
MNext ==
  \/ now < MaxNow /\ Advance(3) /\ out' = <<"none", 0>>
  \/ \E p \in DOMAIN pools : Trust(p, 1) /\ out' = <<"none", 0>>
  \/ /\ Len(made) < MaxKeys
     /\ \E s \in {1, 2}, u \in {"u", "v"}, e \in {15, 35}, a \in Alts :
          Make([signer |-> s, usage |-> u, exp |-> now + e, alt |-> a, id |-> Len(made) + 1])
     /\ out' = <<"none", 0>>
  \/ /\ Len(made) < MaxKeys
     /\ \E k \in 1..Len(made), a \in Alts \cap SameId : Genuine(k) /\ Make([made[k] EXCEPT !.alt = a, !.exp = @ + 50])
     /\ out' = <<"none", 0>>
  \/ \E p \in DOMAIN pools, k \in 1..Len(made) : LoadKey(p, k) /\ out' = <<"none", 0>>
  \/ \E p \in DOMAIN pools, i \in AllIds : \E o \in LookupOut(p, i) : Lookup(p, i) /\ out' = o
  \/ \E p \in DOMAIN pools : Len(made) < MaxKeys /\ Current(p) /\ out' = IF CurrentRes(p) = "ok" THEN <<"cur", pools'[p].cur>> ELSE <<"none", 0>>
  \/ \E p \in DOMAIN pools, i \in AllIds : Save(p, i) /\ out' = <<"none", 0>>
  \/ \E p \in DOMAIN pools : LoadAll(p) /\ out' = <<"none", 0>>
  \/ \E k \in 1..Len(made), i \in AllIds : (\E st \in Stores : Plant(st, k, i)) /\ out' = <<"none", 0>>
  \/ \E on \in BOOLEAN : Break("db", on) /\ out' = <<"none", 0>>
MSpec == MInit /\ [][MNext]_<<vars, out>>
(* what is handed out is genuine and current, and a signing key is good for *)
(* half a lifetime and has been stored                                      *)
HandedOut == /\ out[1] = "ok" => Genuine(out[2]) /\ made[out[2]].exp > now
             /\ out[1] = "cur" => made[out[2]].exp >= now + 22 /\ (\E i \in DOMAIN sdir : sdir[i] = out[2])
(* known keys stay known *)
Keeps == [][\A p \in DOMAIN pools : Known(p) \subseteq pools'[p].known]_<<vars, out>>
=============================================================================
