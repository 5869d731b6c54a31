------------------------------- MODULE T_Hamt ------------------------------
EXTENDS Hamt, Trace
VARIABLE l
Step(e) ==
  LET o == e.o  a == e.a IN
  CASE e.op = "New"        -> New(o)
    [] e.op = "Insert"     -> Insert(o, a[1], a[2])
    [] e.op = "InsertRun"  -> InsertRun(o, a[1], a[2], a[3])
    [] e.op = "EraseRun"   -> EraseRun(o, a[1], a[2])
    [] e.op = "Get"        -> Get(o, a[1])
    [] e.op = "Erase"      -> Erase(o, a[1])
    [] e.op = "Keys"       -> Keys(o, e.f)
    [] e.op = "StringKeys" -> Keys(o, e.f)
    [] e.op = "Walk"       -> Walk(o, a[1], e.f)
(* e.c: all entries, as visited; e.d: the value of every key of the universe *)
Post(e) == LET m == st'[e.o] IN
  /\ r' = e.r
  /\ Has(e, "c") => /\ Len(e.c) = Cardinality(DOMAIN m)
                    /\ {e.c[i][1] : i \in 1..Len(e.c)} = DOMAIN m
                    /\ \A i \in 1..Len(e.c) : m[e.c[i][1]] = e.c[i][2]
  /\ Has(e, "d") => \A i \in 1..Len(e.d) :
       e.d[i][2] = IF e.d[i][1] \in DOMAIN m THEN m[e.d[i][1]] ELSE -2
TInit == Init /\ l = 1
TNext == \E i \in DOMAIN Nodes[l].k :
           /\ l' = Nodes[l].k[i]
           /\ Step(Nodes[Nodes[l].k[i]]) /\ Post(Nodes[Nodes[l].k[i]])
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
