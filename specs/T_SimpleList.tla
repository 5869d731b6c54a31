--------------------------- MODULE T_SimpleList ----------------------------
EXTENDS SimpleList, Trace
VARIABLE l
Step(e) ==
  LET o == e.o  a == e.a IN
  CASE e.op = "New"          -> New(o)
    [] e.op = "PushBack"     -> PushBack(o, a[1])
    [] e.op = "PushBackN"    -> PushBackN(o, a[1], a[2])
    [] e.op = "PushFrontN"   -> PushFrontN(o, a[1], a[2])
    [] e.op = "PushFront"    -> PushFront(o, a[1])
    [] e.op = "FrontNode"    -> FrontNode(o)
    [] e.op = "BackNode"     -> BackNode(o)
    [] e.op = "InsertAfter"  -> InsertAfter(o, a[1], a[2])
    [] e.op = "Remove"       -> SRemove(o, a[1], a[2])
    [] e.op = "MoveToFront"  -> SMoveToFront(o, a[1], a[2])
    [] e.op = "MoveToBack"   -> SMoveToBack(o, a[1], a[2])
    [] e.op = "GetVal"       -> GetVal(a[1])
    [] e.op = "SetVal"       -> SetVal(a[1], a[2])
    [] e.op = "NodeNext"     -> NodeNext(a[1])
    [] e.op = "Walk"         -> Walk(o, a[1])
    [] e.op = "Obs"          -> SObs(o)
Post(e) == /\ r' = e.r
           /\ \A i \in 1..Len(e.c) :
                LET o == e.c[i][1] IN
                /\ e.c[i][2] = st'[o]
                /\ e.d[i][2] = [j \in 1..Len(st'[o]) |-> val'[st'[o][j]]]
           /\ Len(e.c) = Cardinality(DOMAIN st')
           /\ Has(e, "s") => e.s = Render([j \in 1..Len(st'[e.o]) |-> val'[st'[e.o][j]]])
           /\ OwnerInv'
TInit == Init /\ l = 1
TNext == \E i \in DOMAIN Nodes[l].k :
           /\ l' = Nodes[l].k[i]
           /\ Step(Nodes[Nodes[l].k[i]]) /\ Post(Nodes[Nodes[l].k[i]])
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
