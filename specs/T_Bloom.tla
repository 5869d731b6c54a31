------------------------------ MODULE T_Bloom ------------------------------
EXTENDS Bloom, Trace
VARIABLE l
Step(e) ==
  LET o == e.o  a == e.a IN
  CASE e.op = "Learn"    -> Learn(a[1], a[2], a[3], Range(e.f))
    [] e.op = "Golden"   -> Golden(a[1], a[2], a[3], Range(e.f))
    [] e.op = "Rate"     -> Rate(a[1], a[2], a[3], a[4], e.f)
    [] e.op = "Estimate" -> Estimate(e.f)
    [] e.op = "New"      -> New(o, a[1], a[2])
    [] e.op = "FromData" -> FromData(o, a[1])
    [] e.op = "Add"      -> Add(o, a[1])
    [] e.op = "Contains" -> Contains(o, a[1])
(* e.c: the parameters stored with the filter, e.b: its bits, e.d: bytes stored *)
Post(e) == /\ r' = e.r
           /\ Has(e, "c") => /\ e.c = fm'[e.o] /\ Range(e.b) = fb'[e.o]
                             /\ e.d = 16 + RoundUp8(fm'[e.o][1])
TInit == Init /\ l = 1
TNext == \E i \in DOMAIN Nodes[l].k :
           /\ l' = Nodes[l].k[i]
           /\ Step(Nodes[Nodes[l].k[i]]) /\ Post(Nodes[Nodes[l].k[i]])
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
