---------------------------- MODULE T_HashInts -----------------------------
EXTENDS HashInts, Trace
VARIABLE l
Known == "KNOWN" \in DOMAIN IOEnv /\ IOEnv.KNOWN = "period8"
Step(e) == e.op = "Gen" /\ Gen(e.a[1], e.a[2], e.f, e.b)
Post(e) == r' = e.r /\ e.d = 1      \* e.d: the seed was left alone
TInit == Init /\ l = 1
TNext == \E i \in DOMAIN Nodes[l].k :
           /\ l' = Nodes[l].k[i]
           /\ Step(Nodes[Nodes[l].k[i]]) /\ Post(Nodes[Nodes[l].k[i]])
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
