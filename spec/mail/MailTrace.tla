------------------------------ MODULE MailTrace ------------------------------
EXTENDS Mail, TraceLib

VARIABLE x

\* what the database holds, as observed
Matches(y, e) ==
  /\ \A n \in Nyms :
       /\ e.todo[n] = y.todo[n]
       /\ e.queue[n] = [i \in 1..Len(SelectSeq(y.queue[n], LAMBDA q : ~q.again)) |->
            LET q == SelectSeq(y.queue[n], LAMBDA v : ~v.again)[i] IN [b |-> q.b, e |-> q.e]]
       /\ e.again[n] = [i \in 1..Len(SelectSeq(y.queue[n], LAMBDA q : q.again)) |->
            LET q == SelectSeq(y.queue[n], LAMBDA v : v.again)[i] IN [b |-> q.b, e |-> q.e]]
       /\ Len(e.sent[n]) = Cardinality(y.sent[n]) /\ SeqSet(e.sent[n]) = y.sent[n]
       /\ \A p \in People : e.con[n][p] = y.con[n][p]
       /\ e.last[n] = y.last[n]
  /\ Len(e.filed) = Cardinality(y.filed) /\ SeqSet(e.filed) = y.filed
  /\ e.inq = y.inq
  /\ e.free = Cardinality(y.free) /\ e.locked = Cardinality(y.locked) /\ e.other = y.other
  /\ e.odd = 0

\* after a run has ended
Rest(y) == [y EXCEPT !.r = Idle]

Began(y) == x' = y

TInit == x = First /\ l = 1

TReset == AtReset /\ x' = First

TCall == /\ l <= Len(Trace)
         /\ \E e \in {E} :
              /\ e.op \in {"Keys", "Enc", "Create", "Deliver", "Dec", "Learn", "List", "Get"}
              /\ At(e.op)
              /\ \E y \in Closure(x) : \E z \in Ext(y, e) : x' = z

TEnd == /\ At("End")
        /\ \E e \in {E} :
             \E y \in (IF x.r.pc = "dead" THEN {x} ELSE Closure(x)) :
               /\ IF e.res = "died" THEN TRUE ELSE y.r.pc = "end" /\ y.r.res = e.res
               /\ e.res \in {"ok", "err", "died"}
               /\ Matches(y, e)
               /\ (Has(e, "shown") => (e.res = "ok") = e.shown /\ (e.res = "ok") = ~e.none)
               /\ x' = Rest(y)

Quiet == x.r.pc = "idle"

TAdd == /\ At("Add") /\ Quiet
        /\ \E e \in {E} : e.res = "ok" /\ \E y \in {Added(x, e.nym, e.peer)} :
             \* the run may be killed before the message is stored
             \/ x' = y
             \/ e.crash # 0 /\ x' = Dead([y EXCEPT !.todo = x.todo, !.msgs[Len(y.msgs)].ok = FALSE])

TSend == At("Send") /\ Quiet /\ \E e \in {E} : e.res = "ok" /\ x' = BeginSend(x, e.nym, e.faildel)
TFetch == At("Fetch") /\ Quiet /\ \E e \in {E} : e.res = "ok" /\ x' = BeginFetch(x, e.nym)

TIncoming == /\ At("Incoming") /\ Quiet
             /\ \E e \in {E} : e.res = "ok" /\ e.c = Len(x.inc) + 1 /\ x' = Arrive(x, e.nym, e.peer, e.kind, e.t)

TToken == At("Token") /\ Quiet /\ \E e \in {E} : e.res = "ok" /\ x' = Tokens(x, e.n, e.kind)

TContact == /\ At("Contact") /\ Quiet
            /\ \E e \in {E} : e.res = "ok" /\
                 \/ x' = BeginContact(x, e.cmd, e.nym, e.peer, e.sp, e.name)
                 \/ e.crash # 0 /\ x' = Dead(x)

TContacts == /\ At("Contacts") /\ Quiet
             /\ \E e \in {E} :
                  LET want == {[p |-> p, n |-> x.con[e.nym][p].n, sp |-> x.con[e.nym][p].sp] :
                                 p \in {q \in People : x.con[e.nym][q].t = IF e.black THEN "black" ELSE "white"}}
                  IN e.res = "ok" /\ SeqSet(e.list) = want /\ Len(e.list) = Cardinality(want)
             /\ UNCHANGED x

TShow == /\ At("Show") /\ Quiet
         /\ \E e \in {E} :
              LET out == {[dir |-> "<", st |-> IF m \in x.sent[e.nym] THEN "S" ELSE "P", k |-> m] : m \in Own(x, e.nym)}
                  in  == {[dir |-> ">", st |-> IF f.read THEN "R" ELSE "N", k |-> f.c] : f \in Mails(x, e.nym)}
              IN e.res = "ok" /\ e.ok /\ SeqSet(e.lines) = out \cup in /\ Len(e.lines) = Cardinality(out) + Cardinality(in)
         /\ UNCHANGED x

\* reading and deleting work on one's own messages only
TRead == /\ l <= Len(Trace) /\ Quiet
         /\ \E e \in {E} :
              /\ e.op \in {"Read", "Delete"} /\ At(e.op) /\ e.res = "ok"
              /\ LET mine == e.of # "other" /\ e.dir # "none"
                     y == IF ~mine THEN x ELSE IF e.op = "Read" THEN DoRead(x, e.nym, e.dir, e.k) ELSE DoDelete(x, e.nym, e.dir, e.k)
                 IN /\ mine => (e.dir = "out" /\ e.k \in Own(x, e.nym)) \/ (e.dir = "in" /\ \E f \in Mails(x, e.nym) : f.c = e.k)
                    /\ x' = End(Start(y, "end"), IF mine THEN "ok" ELSE "err")

TNext == TReset \/ TCall \/ TEnd \/ TAdd \/ TSend \/ TFetch \/ TIncoming \/ TToken \/ TContact \/ TContacts \/ TShow \/ TRead

TSpec == TInit /\ [][TNext]_<<x, l>>
=============================================================================
