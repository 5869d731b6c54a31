-------------------------------- MODULE Walk --------------------------------
(* Traversal with a visitor: elements are visited once each in the order of the
   container until the visitor returns false; the container is none the worse. *)
EXTENDS SeqOps, Results, TLC
LOCAL X == INSTANCE SequencesExt
(* ord 0: as inserted, 1: ascending, equal ones once, 3: ascending, 2: any order, equal
   ones once; stop: the visit that returns false *)
SortSeq1(S) == SortSeq(X!SetToSeq(S), LAMBDA x, y : x < y)
SortSeq2(s) == LET q == SortSeq(X!SetToSeq({<<s[i], i>> : i \in 1..Len(s)}), LAMBDA x, y : x[1] < y[1])
               IN [i \in 1..Len(s) |-> q[i][1]]
Held(ord, vals) == IF ord \in {1, 2} THEN Cardinality(Range(vals)) ELSE Len(vals)
WalkRel(ord, vals, stop, seen) ==
  LET n == IF stop = 0 THEN Held(ord, vals) ELSE Min2(stop, Held(ord, vals)) IN
  CASE ord = 0 -> seen = Prefix(vals, n)
    [] ord = 1 -> seen = Prefix(SortSeq1(Range(vals)), n)
    [] ord = 3 -> seen = Prefix(SortSeq2(vals), n)
    [] ord = 2 -> Len(seen) = n /\ Distinct(seen) /\ Range(seen) \subseteq Range(vals)
=============================================================================
