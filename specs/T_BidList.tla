----------------------------- MODULE T_BidList -----------------------------
EXTENDS BidList, Trace
VARIABLE l
Step(e) ==
  LET o == e.o  a == e.a IN
  CASE e.op = "New"          -> New(o)
    [] e.op = "PushBack"     -> PushBack(o, a[1])
    [] e.op = "PushBackN"    -> PushBackN(o, a[1], a[2])
    [] e.op = "PushFrontN"   -> PushFrontN(o, a[1], a[2])
    [] e.op = "PushFront"    -> PushFront(o, a[1])
    [] e.op = "PopBack"      -> PopBack(o)
    [] e.op = "PopFront"     -> PopFront(o)
    [] e.op = "Front"        -> Front(o)
    [] e.op = "Back"         -> Back(o)
    [] e.op = "FrontNode"    -> FrontNode(o)
    [] e.op = "BackNode"     -> BackNode(o)
    [] e.op = "InsertAfter"  -> InsertAfter(o, a[1], a[2])
    [] e.op = "InsertBefore" -> InsertBefore(o, a[1], a[2])
    [] e.op = "Remove"       -> Remove(o, a[1])
    [] e.op = "MoveToFront"  -> MoveToFront(o, a[1])
    [] e.op = "MoveToBack"   -> MoveToBack(o, a[1])
    [] e.op = "MoveAfter"    -> MoveAfter(o, a[1], a[2])
    [] e.op = "PushBackList"  -> PushBackList(o, a[1])
    [] e.op = "PushFrontList" -> PushFrontList(o, a[1])
    [] e.op = "Clear"        -> Clear(o)
    [] e.op = "GetVal"       -> GetVal(a[1])
    [] e.op = "SetVal"       -> SetVal(a[1], a[2])
    [] e.op = "NodeNext"     -> NodeNext(a[1])
    [] e.op = "NodePrev"     -> NodePrev(a[1])
    [] e.op = "Walk"         -> Walk(o, a[1])
    [] e.op = "Obs"          -> Obs(o)
(* e.c: every list as its sequence of nodes, walked forward; e.b: backward;
   e.d: every list as its sequence of values *)
Post(e) == /\ r' = e.r
           /\ \A i \in 1..Len(e.c) :
                LET o == e.c[i][1] IN
                /\ e.c[i][2] = st'[o]
                /\ Has(e, "b") => e.b[i][2] = Rev(st'[o])
                /\ e.d[i][2] = [j \in 1..Len(st'[o]) |-> val'[st'[o][j]]]
           /\ Len(e.c) = Cardinality(DOMAIN st')
           /\ Has(e, "s") => e.s = Render([j \in 1..Len(st'[e.o]) |-> val'[st'[e.o][j]]])
           /\ OwnerInv'
TInit == Init /\ l = 1
TNext == \E i \in DOMAIN Nodes[l].k :
           /\ l' = Nodes[l].k[i]
           /\ Step(Nodes[Nodes[l].k[i]]) /\ Post(Nodes[Nodes[l].k[i]])
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
