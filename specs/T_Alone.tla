------------------------------ MODULE T_Alone ------------------------------
EXTENDS Alone, Trace
VARIABLE l
Step(e) ==
  CASE e.op = "Start"  -> ABegin(e.c)
    [] e.op = "Call"   -> ACall(e.o)
    [] e.op = "Ret"    -> AReturn(e.o, e.r)
    [] OTHER           -> FALSE \* a data race, deadlock, no progress
TInit == AInit /\ l = 1
TNext == \E i \in DOMAIN Nodes[l].k :
           /\ l' = Nodes[l].k[i]
           /\ Step(Nodes[Nodes[l].k[i]])
TSpec == TInit /\ [][TNext]_<<avars, l>>
=============================================================================
