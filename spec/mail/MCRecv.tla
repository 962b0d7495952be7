-------------------------------- MODULE MCRecv --------------------------------
EXTENDS MailMC
S0 == [Empty EXCEPT !.con = [n \in Nyms |-> [p \in People |-> IF n = 1 /\ p = 2 THEN Entry("white", 0) ELSE None]]]
=============================================================================
