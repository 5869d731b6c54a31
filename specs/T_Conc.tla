------------------------------- MODULE T_Conc -------------------------------
EXTENDS Conc, Trace
VARIABLE l
Step(e) ==
  CASE e.op = "Start"  -> Begin(e.s, IF Has(e, "c") THEN e.c ELSE <<>>)
    [] e.op = "Call"   -> Call(e.o, e.s, e.a)
    [] e.op = "Ret"    -> Return(e.o, e.r)
    [] e.op = "Pair"   -> NoRace(e.r)
    [] OTHER           -> FALSE \* deadlock, a lock left held, no progress
TInit == Init /\ l = 1
TNext == \E i \in DOMAIN Nodes[l].k :
           /\ l' = Nodes[l].k[i]
           /\ Step(Nodes[Nodes[l].k[i]])
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
