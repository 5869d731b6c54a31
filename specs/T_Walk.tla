------------------------------- MODULE T_Walk ------------------------------
EXTENDS Walk, Trace
VARIABLE l
Ok(e) == LET v == Tail(e.a) IN
         /\ e.r = OK /\ WalkRel(e.c, v, e.a[1], e.f)
         /\ WalkRel(e.c, v, 0, e.b) /\ e.d = Held(e.c, v) + 1
TInit == l = 1
TNext == \E i \in DOMAIN Nodes[l].k : l' = Nodes[l].k[i] /\ Ok(Nodes[Nodes[l].k[i]]) = TRUE
TSpec == TInit /\ [][TNext]_l
=============================================================================
