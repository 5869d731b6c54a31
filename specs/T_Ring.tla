------------------------------- MODULE T_Ring ------------------------------
EXTENDS Ring, Trace
VARIABLE l
Step(e) ==
  LET o == e.o  a == e.a IN
  CASE e.op = "Univ"   -> IF Has(e, "s") THEN UnivPref(e.s, a[2]) ELSE Univ(e.f, e.b)
    [] e.op = "New"    -> New(o)
    [] e.op = "Add"    -> Add(o, a)
    [] e.op = "Remove" -> Remove(o, a)
    [] e.op = "Empty"  -> Empty(o)
(* e.c: where every key of the universe is sent; e.d: whether the ring says it is empty *)
Post(e) == /\ r' = e.r
           /\ Has(e, "c") => /\ e.c = [k \in DOMAIN pref |-> Get(nodes'[e.o], k)]
                             /\ e.d = B2I(nodes'[e.o] = {})
TInit == Init /\ l = 1
TNext == \E i \in DOMAIN Nodes[l].k :
           /\ l' = Nodes[l].k[i]
           /\ Step(Nodes[Nodes[l].k[i]]) /\ Post(Nodes[Nodes[l].k[i]])
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
