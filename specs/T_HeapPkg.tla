----------------------------- MODULE T_HeapPkg -----------------------------
EXTENDS HeapPkg, Trace
VARIABLE l
Step(e) ==
  LET o == e.o  a == e.a  c == e.c IN
  CASE e.op = "New"    -> New(o, c)
    [] e.op = "HInit"  -> HInit(o, c)
    [] e.op = "Push"   -> Push(o, a[1], c)
    [] e.op = "PushL"  -> PushL(o, a, c)
    [] e.op = "PopN"   -> PopN(o, a[1], Tail(e.r), c)
    [] e.op = "Pop"    -> Pop(o, c)
    [] e.op = "Remove" -> Remove(o, a[1], c)
    [] e.op = "Fix"    -> Fix(o, a[1], a[2], c)
Post(e) == r' = e.r /\ st'[e.o] = e.c /\ Cheap(e.op, Len(e.c) + 1, e.d)
TInit == Init /\ l = 1
TNext == \E i \in DOMAIN Nodes[l].k :
           /\ l' = Nodes[l].k[i]
           /\ Step(Nodes[Nodes[l].k[i]]) /\ Post(Nodes[Nodes[l].k[i]])
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
