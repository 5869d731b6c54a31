------------------------------ MODULE T_Deque ------------------------------
EXTENDS Deque, Trace
VARIABLE l
Step(e) ==
  LET o == e.o  a == e.a IN
  CASE e.op = "New"        -> New(o)
    [] e.op = "PushBack"   -> PushBack(o, a[1])
    [] e.op = "PushFront"  -> PushFront(o, a[1])
    [] e.op = "PushBackN"  -> PushBackN(o, a[1], a[2])
    [] e.op = "PushFrontN" -> PushFrontN(o, a[1], a[2])
    [] e.op = "InsertN"    -> InsertN(o, a[1], a[2], a[3])
    [] e.op = "EraseAtN"   -> EraseAtN(o, a[1], a[2])
    [] e.op = "PopBack"    -> PopBack(o)
    [] e.op = "PopFront"   -> PopFront(o)
    [] e.op = "PopBackN"   -> PopBackN(o, a[1])
    [] e.op = "PopFrontN"  -> PopFrontN(o, a[1])
    [] e.op = "Insert"     -> Insert(o, a[1], a[2])
    [] e.op = "EraseAt"    -> EraseAt(o, a[1])
    [] e.op = "EraseRange" -> EraseRange(o, a[1], a[2])
    [] e.op = "Clear"      -> Clear(o)
    [] e.op = "Set"        -> Set(o, a[1], a[2])
    [] e.op = "At"         -> At(o, a[1])
    [] e.op = "Front"      -> Front(o)
    [] e.op = "Back"       -> Back(o)
    [] e.op = "Obs"        -> Obs(o)
(* a long content is recorded as stretches: first value, length, step *)
RECURSIVE Flat(_, _)
Flat(d, i) == IF i > Len(d) THEN <<>>
              ELSE (IF d[i + 2] = 1 THEN Upto(d[i], d[i + 1]) ELSE Downto(d[i], d[i + 1])) \o Flat(d, i + 3)
Post(e) == /\ r' = e.r
           /\ Has(e, "c") => st'[e.o] = e.c
           /\ Has(e, "d") => Flat(e.d, 1) = st'[e.o]
           /\ Has(e, "f") => (IF Has(e, "d") THEN Flat(e.f, 1) ELSE e.f) = st'[e.o]
           /\ Has(e, "b") => (IF Has(e, "d") THEN Flat(e.b, 1) ELSE e.b) = Rev(st'[e.o])
           /\ Has(e, "t") => Flat(e.t, 1) = st'[e.o]     \* the string, parsed
           /\ Has(e, "s") => e.s = Render(st'[e.o])
TInit == Init /\ l = 1
TNext == \E i \in DOMAIN Nodes[l].k :
           /\ l' = Nodes[l].k[i]
           /\ Step(Nodes[Nodes[l].k[i]]) /\ Post(Nodes[Nodes[l].k[i]])
TSpec == TInit /\ [][TNext]_<<st, r, l>>
=============================================================================
