------------------------------ MODULE SetMerge ------------------------------
(* The set operations as they are built: two walks over sorted sequences, one
   comparison a step; what is taken goes to the result.  w is a walk under way:
   [op, a, b (the operands), i, j (the next elements), out]. *)
EXTENDS Integers, Sequences
CONSTANT Ord(_)     \* elements with equal values of it are the same element
Start(op, a, b) == [op |-> op, a |-> a, b |-> b, i |-> 1, j |-> 1, out |-> <<>>]
L(w) == w.i <= Len(w.a)
R(w) == w.j <= Len(w.b)
TakeA(w) == [w EXCEPT !.out = Append(@, w.a[w.i]), !.i = @ + 1]
TakeB(w) == [w EXCEPT !.out = Append(@, w.b[w.j]), !.j = @ + 1]
SkipA(w) == [w EXCEPT !.i = @ + 1]
SkipB(w) == [w EXCEPT !.j = @ + 1]
Both(w) == L(w) /\ R(w)
Cmp(w) == LET x == Ord(w.a[w.i]) y == Ord(w.b[w.j]) IN IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0
Step(w) ==
  IF Both(w) THEN
    CASE Cmp(w) = 0 -> IF w.op = "Diff" THEN SkipB(SkipA(w)) ELSE SkipB(TakeA(w))
      [] Cmp(w) < 0 -> IF w.op = "Intersect" THEN SkipA(w) ELSE TakeA(w)
      [] Cmp(w) > 0 -> IF w.op = "Union" THEN TakeB(w) ELSE SkipB(w)
  ELSE IF L(w) /\ w.op # "Intersect" THEN TakeA(w) ELSE IF R(w) /\ w.op = "Union" THEN TakeB(w) ELSE w
Done(w) == ~Both(w) /\ (w.op = "Intersect" \/ (~L(w) /\ (w.op = "Diff" \/ ~R(w))))
Left(w) == (Len(w.a) - w.i + 1) + (Len(w.b) - w.j + 1)
=============================================================================
