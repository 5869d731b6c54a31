------------------------------ MODULE T_Array ------------------------------
EXTENDS Array, Trace
VARIABLE l
Step(e) ==
  LET o == e.o  a == e.a IN
  CASE e.op = "New"       -> New(o, a[1])
    [] e.op = "NewFrom"   -> NewFrom(o, a[1])
    [] e.op = "Fill"      -> Fill(o, a[1])
    [] e.op = "SwapArray" -> SwapArray(o, a[1])
    [] e.op = "NewSlice"  -> NewSlice(o, a)
    [] e.op = "Wrap"      -> Wrap(o, a[1])
    [] e.op = "Attach"    -> Attach(o, a)
    [] e.op = "AttachOf"  -> AttachOf(o, a[1])
    [] e.op = "SetRaw"    -> SetRaw(o, a[1], a[2])
    [] e.op = "Set"       -> Set(o, a[1], a[2])
    [] e.op = "At"        -> At(o, a[1])
    [] e.op = "Front"     -> Front(o)
    [] e.op = "Back"      -> Back(o)
    [] e.op = "Obs"       -> Obs(o)
(* e.c: the contents of every object after the call *)
Post(e) == /\ r' = e.r
           /\ DOMAIN own' = {p[1] : p \in Range(e.c)}
           /\ \A i \in 1..Len(e.c) : e.c[i][2] = buf'[own'[e.c[i][1]]]
           /\ Has(e, "f") => e.f = buf'[own'[e.o]]
           /\ Has(e, "b") => e.b = Rev(buf'[own'[e.o]])
           /\ Has(e, "s") => e.s = Render(buf'[own'[e.o]])
TInit == Init /\ l = 1
TNext == \E i \in DOMAIN Nodes[l].k :
           /\ l' = Nodes[l].k[i]
           /\ Step(Nodes[Nodes[l].k[i]]) /\ Post(Nodes[Nodes[l].k[i]])
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
