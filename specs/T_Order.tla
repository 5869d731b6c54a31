------------------------------ MODULE T_Order ------------------------------
EXTENDS Order, Trace
VARIABLE l
Ok(e) == CASE e.op = "Cmp"  -> e.r = Val(RevCmp(e.a[1], e.f[1], e.f[2]))
           [] e.op = "Rand" -> e.r = Val(Cmp(e.f[1], e.f[2]))
           [] e.op = "Pair" -> e.r = <<B2I(<<e.a[1], e.a[2]>> = <<e.a[3], e.a[4]>>), e.a[1], e.a[2], e.a[3], e.a[4]>>
TInit == l = 1
TNext == \E i \in DOMAIN Nodes[l].k : l' = Nodes[l].k[i] /\ Ok(Nodes[Nodes[l].k[i]]) = TRUE
TSpec == TInit /\ [][TNext]_l
=============================================================================
