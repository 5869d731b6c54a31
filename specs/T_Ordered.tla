----------------------------- MODULE T_Ordered -----------------------------
EXTENDS Ordered, Trace
VARIABLE l
Step(e) ==
  LET o == e.o  a == e.a IN
  CASE e.op = "New"          -> New(o, a[1])
    [] e.op = "Clear"        -> Clear(o)
    [] e.op = "InsertMulti"  -> InsertMulti(o, a[1], a[2])
    [] e.op = "InsertMultiN" -> InsertMultiN(o, a[1], a[2], a[3])
    [] e.op = "InsertRun"    -> InsertRun(o, a[1], a[2], a[3], a[4])
    [] e.op = "EraseSpan"    -> EraseSpan(o, a[1], a[2])
    [] e.op = "EraseEven"    -> EraseEven(o)
    [] e.op = "InsertUnique" -> InsertUnique(o, a[1], a[2])
    [] e.op = "EraseFirst"   -> EraseFirst(o, a[1])
    [] e.op = "EraseAll"     -> EraseAll(o, a[1])
    [] e.op = "EraseAt"      -> EraseAt(o, a[1])
    [] e.op = "RemoveKey"    -> RemoveKey(o, a[1])
    [] e.op = "Get"          -> Get(o, a[1])
    [] e.op = "Contains"     -> Contains(o, a[1])
    [] e.op = "Count"        -> Count(o, a[1])
    [] e.op = "Find"         -> Find(o, a[1])
    [] e.op = "LowerBound"   -> LowerBound(o, a[1])
    [] e.op = "UpperBound"   -> UpperBound(o, a[1])
    [] e.op = "First"        -> First(o)
    [] e.op = "Last"         -> Last(o)
    [] e.op = "SetAt"        -> SetAt(o, a[1], a[2])
    [] e.op = "StepFrom"     -> StepFrom(o, a[1], a[2])
    [] e.op = "Compare"      -> Compare(o, a[1], a[2])
    [] e.op = "Walk"         -> Walk(o, a[1])
    [] e.op = "Keys"         -> Keys(o)
    [] e.op = "Obs"          -> Obs(o)
    [] e.op = "Shape"        -> Shape(o, e.d)
    [] e.op = "Intersect"    -> Intersect(o, a[1], a[2])
    [] e.op = "Union"        -> Union(o, a[1], a[2])
    [] e.op = "Diff"         -> Diff(o, a[1], a[2])
RECURSIVE Pow2(_)
Pow2(n) == IF n <= 0 THEN 1 ELSE 2 * Pow2(n - 1)
(* d <= 2*log2(m); 32-bit arithmetic makes the odd case of many nodes a little weaker *)
AtMost(d, m) == CASE d < 0 \/ d > 60 -> d < 0
                  [] m < 40000 -> (d <= 30) /\ Pow2(d) <= m * m
                  [] d % 2 = 0 -> Pow2(d \div 2) <= m
                  [] OTHER     -> d < 35 /\ Pow2(d \div 2) * 10000 <= m * 7072
ASSUME AtMost(4, 4) /\ ~AtMost(5, 4) /\ AtMost(5, 6) /\ ~AtMost(31, 39999) /\ AtMost(32, 65536) /\ ~AtMost(32, 65535) /\ AtMost(31, 50000) /\ ~AtMost(31, 46000)
(* e.c: the content of o (of the result, for set algebra) walked forward, e.b
   backward, e.c2: the content of a second operand; e.f: the size; e.t: the
   tree's own opinion of its balance; e.d: distinct stored keys that were
   compared while looking one up -- the height of a red-black tree with n
   nodes is at most 2*log2(n+1) *)
Who(e) == IF e.op \in {"Intersect", "Union", "Diff"} THEN e.a[2] ELSE e.o
Post(e) == LET s == st'[Who(e)] IN
           /\ r' = e.r
           /\ Has(e, "c") => e.c = s
           /\ Has(e, "b") => e.b = Rev(s)
           /\ Has(e, "f") => e.f = Len(s)
           /\ Has(e, "c2") => e.c2[1] = st'[e.o] /\ e.c2[2] = st'[e.a[1]]
           /\ Has(e, "s") => e.s = Render(KeysOf(s))
           /\ Has(e, "t") => e.t = 1
           /\ (Has(e, "d") /\ e.op # "Shape") => AtMost(e.d, Len(s) + 1)
TInit == Init /\ l = 1
TNext == \E i \in DOMAIN Nodes[l].k :
           /\ l' = Nodes[l].k[i]
           /\ Step(Nodes[Nodes[l].k[i]]) /\ Post(Nodes[Nodes[l].k[i]])
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
