-------------------------------- MODULE MCSend --------------------------------
EXTENDS MailMC
S0 == [Empty EXCEPT !.con = [n \in Nyms |-> [p \in People |-> IF n # p THEN Entry("white", 0) ELSE None]]]
=============================================================================
