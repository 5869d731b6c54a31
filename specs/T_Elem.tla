------------------------------- MODULE T_Elem ------------------------------
EXTENDS Elem, Trace
VARIABLE l
(* c, f: content, further reads of the container of integers; d, b: those of
   the other, read back; s: its string form is that of its elements *)
Step(e) ==
  CASE e.op \in {"New", "Mut"}  -> Mut(e.c)
    [] e.op \in {"Read", "Bad"} -> Keep
Post(e) == /\ e.r = OK /\ r' = e.r
           /\ e.c = st' /\ e.d = im'
           /\ e.f = e.b /\ e.s = 1
TInit == Init /\ l = 1
TNext == \E i \in DOMAIN Nodes[l].k :
           /\ l' = Nodes[l].k[i]
           /\ Step(Nodes[Nodes[l].k[i]]) /\ Post(Nodes[Nodes[l].k[i]])
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
