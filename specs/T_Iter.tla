------------------------------- MODULE T_Iter ------------------------------
EXTENDS Iter, Trace
VARIABLE l
Step(e) ==
  LET o == e.o  a == e.a IN
  CASE e.op = "Cont"       -> Cont(o, a[1], Tail(a))
    [] e.op \in {"Begin", "First"} -> Begin(o, a[1])
    [] e.op = "End"        -> End(o, a[1])
    [] e.op = "Last"       -> Last(o, a[1])
    [] e.op = "Seek"       -> Seek(o, a[1], a[2])
    [] e.op = "IteratorAt" -> IteratorAt(o, a[1], a[2])
    [] e.op = "Clone"      -> Clone(o, a[1])
    [] e.op = "Next"       -> Next(o)
    [] e.op = "Prev"       -> Prev(o)
    [] e.op = "Equal"      -> Equal(o, a[1])
    [] e.op = "EqualOther" -> EqualOther(o)
    [] e.op = "Value"      -> Value(o)
    [] e.op = "SetValue"   -> SetValue(o, a[1])
    [] e.op = "Insert"     -> Insert(a[1], a[2], a[3])
    [] e.op = "Erase"      -> Erase(a[1], a[2])
(* e.c: every iterator: <<number, container, valid, value, position>>; e.f: the contents *)
OkIt(x) == LET p == it'[x[1]] v == InSeq(cont'[p[1]], p[2]) IN
           /\ p[1] = x[2] /\ x[3] = B2I(v)
           /\ v => x[4] = At0(cont'[p[1]], p[2])
           /\ Len(x) > 4 => x[5] = p[2]
Post(e) == /\ r' = e.r
           /\ \A i \in 1..Len(e.f) : e.f[i] = cont'[i - 1]
           /\ Len(e.c) = Cardinality(DOMAIN it')
           /\ (\A i \in 1..Len(e.c) : OkIt(e.c[i])) = TRUE
TInit == Init /\ l = 1
TNext == \E i \in DOMAIN Nodes[l].k :
           /\ l' = Nodes[l].k[i]
           /\ Step(Nodes[Nodes[l].k[i]]) /\ Post(Nodes[Nodes[l].k[i]])
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
