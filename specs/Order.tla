-------------------------------- MODULE Order -------------------------------
(* Comparators: values have ranks in a total order (NaN lowest; both zeros
   equal; complex numbers by real, then imaginary part; false before true), and
   a comparator returns the sign of the difference. *)
EXTENDS Integers, Sequences, Results
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Cmp(x, y) == Sign(x - y)
RevCmp(n, x, y) == IF n % 2 = 1 THEN Cmp(y, x) ELSE Cmp(x, y)     \* reversed n times
PairEq(p, q) == p = q
(* a comparator is a total order *)
Laws(S) == /\ \A x, y \in S : Cmp(x, y) = -Cmp(y, x) /\ Cmp(x, y) \in {-1, 0, 1}
           /\ \A x, y, z \in S : Cmp(x, y) <= 0 /\ Cmp(y, z) <= 0 => Cmp(x, z) <= 0
ASSUME Laws(-3..3)
=============================================================================
