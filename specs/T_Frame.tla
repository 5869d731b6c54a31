------------------------------ MODULE T_Frame ------------------------------
EXTENDS Frame, Trace
VARIABLE l
(* e.c: the contents of all objects after the call *)
Step(e) ==
  LET o == e.o  a == e.a IN
  CASE e.op = "New"  -> New(o, e.c[o])
    [] e.op = "Mut"  -> Mut(o, e.c[o])
    [] e.op = "Copy" -> Copy(o, a[1])
    [] e.op = "Nest" -> Mut(a[1], e.c[a[1]])     \* a call on a[1] from within one on o
    [] e.op \in {"Read", "Bad", "PanicVisit"} -> Keep
Post(e) == /\ e.r = OK /\ r' = e.r
           /\ DOMAIN st' = 1..Len(e.c) /\ \A o \in DOMAIN st' : e.c[o] = st'[o]
           /\ \A o \in DOMAIN st' : Len(e.c[o]) > 0 => e.c[o][1] # -12345
TInit == Init /\ l = 1
TNext == \E i \in DOMAIN Nodes[l].k :
           /\ l' = Nodes[l].k[i]
           /\ Step(Nodes[Nodes[l].k[i]]) /\ Post(Nodes[Nodes[l].k[i]])
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
