----------------------------- MODULE T_Vector ------------------------------
EXTENDS Vector, Trace
VARIABLE l
Step(e) ==
  LET o == e.o  a == e.a  c == e.d IN
  CASE e.op = "New"         -> New(o, a[1], c)
    [] e.op = "NewFrom"     -> NewFrom(o, a[1], c)
    [] e.op = "PushBack"    -> PushBack(o, a[1], c)
    [] e.op = "PushMany"    -> PushMany(o, a[1], a[2], c)
    [] e.op = "PopBack"     -> PopBack(o, c)
    [] e.op = "InsertAt"    -> InsertAt(o, a[1], a[2], c)
    [] e.op = "Insert"      -> Insert(o, a[1], a[2], c)
    [] e.op = "EraseAt"     -> EraseAt(o, a[1], c)
    [] e.op = "Erase"       -> Erase(o, a[1], c)
    [] e.op = "EraseIndexRange" -> EraseIndexRange(o, a[1], a[2], c)
    [] e.op = "EraseRange"  -> EraseRange(o, a[1], a[2], c)
    [] e.op = "SetAt"       -> SetAt(o, a[1], a[2], c)
    [] e.op = "At"          -> At(o, a[1], c)
    [] e.op = "Front"       -> Front(o, c)
    [] e.op = "Back"        -> Back(o, c)
    [] e.op = "Reserve"     -> Reserve(o, a[1], c)
    [] e.op = "ShrinkToFit" -> ShrinkToFit(o, c)
    [] e.op = "Resize"      -> Resize(o, a[1], c)
    [] e.op = "Clear"       -> Clear(o, c)
    [] e.op = "Obs"         -> Obs(o, c)
Post(e) == /\ r' = e.r
           /\ e.c = st'[e.o]
           /\ Has(e, "f") => e.f = st'[e.o]
           /\ Has(e, "b") => e.b = Rev(st'[e.o])
           /\ Has(e, "s") => e.s = Render(st'[e.o])
TInit == Init /\ l = 1
TNext == \E i \in DOMAIN Nodes[l].k :
           /\ l' = Nodes[l].k[i]
           /\ Step(Nodes[Nodes[l].k[i]]) /\ Post(Nodes[Nodes[l].k[i]])
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
