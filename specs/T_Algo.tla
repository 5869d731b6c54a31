------------------------------- MODULE T_Algo ------------------------------
(* Every event is one call: e.a = <<first, last, comparator, n>>, e.b the
   content before, e.f the content after, e.d how often the comparator was
   called. *)
EXTENDS Algo, Trace
VARIABLE l
Ok(e) ==
  LET f == e.a[1]  m == e.a[2]  c == e.a[3]  n == e.a[4]  v == e.b  w == e.f
      k == n - 1 IN
  CASE e.op = "Sort"            -> e.r = OK /\ SortRel(v, w, f, m, c)
    [] e.op = "Stable"          -> e.r = OK /\ StableRel(v, w, f, m, c)
    [] e.op = "NthElement"      -> e.r = OK /\ NthRel(v, w, f, m, c, n)
    [] e.op = "NextPermutation" -> e.r \in {Bool(TRUE), Bool(FALSE)} /\ PermRel(v, w, f, m, c, e.r = Bool(TRUE))
    [] e.op = "BinarySearch"    -> /\ w = v /\ Logarithmic(e.d, m - f)
                                   /\ e.r = Bool(LowerPos(v, f, m, c, k) < UpperPos(v, f, m, c, k))
    [] e.op = "LowerBound"      -> /\ w = v /\ Logarithmic(e.d, m - f)
                                   /\ e.r = Val(LowerPos(v, f, m, c, k))
    [] e.op = "UpperBound"      -> /\ w = v /\ Logarithmic(e.d, m - f)
                                   /\ e.r = Val(UpperPos(v, f, m, c, k))
    [] e.op = "Count"           -> w = v /\ e.r = Val(Cardinality(EqIdx(v, f, m, n)))
    [] e.op = "CountIf"         -> w = v /\ e.r = Val(Cardinality(Sat(v, f, m, c, n)))
    [] e.op = "Find"            -> w = v /\ e.r = Val(FirstAt(EqIdx(v, f, m, n), f, m))
    [] e.op = "FindIf"          -> w = v /\ e.r = Val(FirstAt(Sat(v, f, m, c, n), f, m))
    [] e.op = "MaxElement"      -> w = v /\ e.r = Val(MaxPos(v, f, m, c))
    [] e.op = "MinElement"      -> w = v /\ e.r = Val(MinPos(v, f, m, c))
    [] e.op = "AnyOf"           -> w = v /\ e.r = Bool(Sat(v, f, m, c, n) # {})
    [] e.op = "AllOf"           -> w = v /\ e.r = Bool(Sat(v, f, m, c, n) = RangeIdx(f, m))
    [] e.op = "NoneOf"          -> w = v /\ e.r = Bool(Sat(v, f, m, c, n) = {})
    [] e.op = "Swap"            -> e.r = OK /\ w = Swap0(v, f, m)
    [] e.op = "Reverse"         -> e.r = OK /\ w = RevRange(v, f, m)
TInit == l = 1
TNext == \E i \in DOMAIN Nodes[l].k :
           /\ l' = Nodes[l].k[i]
           /\ Ok(Nodes[Nodes[l].k[i]]) = TRUE
TSpec == TInit /\ [][TNext]_l
=============================================================================
