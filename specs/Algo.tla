-------------------------------- MODULE Algo --------------------------------
(* What the algorithms compute, as relations between the content v of a
   container before and w after the call, for the range [f, l) of 0-based
   positions.  An element is key * Unit + id: the comparator looks at the key
   only, the id tells elements apart. *)
EXTENDS SeqOps, SequencesExt, Results
Unit == 100000
K(x) == x \div Unit
OrdC(c, k) == IF c = 1 THEN -k ELSE k              \* comparator 0: ascending, 1: descending
O(c, x) == OrdC(c, K(x))
Sub(v, f, l) == SubSeq(v, f + 1, l)
KeysC(c, s)  == [i \in 1..Len(s) |-> O(c, s[i])]
(* only the range may change, and only in the order of its elements *)
Frame(v, w, f, l) == /\ Len(w) = Len(v)
                     /\ \A i \in 1..f : w[i] = v[i]
                     /\ \A i \in (l + 1)..Len(v) : w[i] = v[i]
                     /\ Range(Sub(w, f, l)) = Range(Sub(v, f, l))
Ascends(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]

SortRel(v, w, f, l, c)   == Frame(v, w, f, l) /\ Ascends(KeysC(c, Sub(w, f, l)))
(* equal keys keep their order: the ids are positions in v *)
StableRel(v, w, f, l, c) == /\ SortRel(v, w, f, l, c)
                            /\ \A i \in (f + 1)..(l - 1) : K(w[i]) = K(w[i + 1]) => w[i] < w[i + 1]
(* the element at f+n is the one sorting would put there, with none greater
   before it and none smaller after it *)
NthRel(v, w, f, l, c, n) ==
  /\ Frame(v, w, f, l)
  /\ n < l - f => LET x == O(c, w[f + n + 1]) IN
                  /\ \A i \in (f + 1)..(f + n) : O(c, w[i]) <= x
                  /\ \A i \in (f + n + 2)..l : O(c, w[i]) >= x
(* the next arrangement in lexicographic order of the keys *)
LexLess(s, t) == \E i \in 1..Len(s) : s[i] < t[i] /\ \A j \in 1..(i - 1) : s[j] = t[j]
LastWith(n, P(_)) == FoldLeft(LAMBDA a, i : IF P(i) THEN i ELSE a, 0, Upto(1, n))   \* the last i with P, 0: none
LastPerm(s)   == \A i \in 1..(Len(s) - 1) : s[i] >= s[i + 1]
Succ(s) == LET p == LastWith(Len(s) - 1, LAMBDA i : s[i] < s[i + 1])
               q == LastWith(Len(s), LAMBDA i : i > p /\ s[i] > s[p])
               t == [s EXCEPT ![p] = s[q], ![q] = s[p]]
           IN Prefix(t, p) \o Rev(SubSeq(t, p + 1, Len(t)))
PermRel(v, w, f, l, c, ok) ==
  LET s == KeysC(c, Sub(v, f, l)) IN
  IF LastPerm(s) THEN ~ok /\ w = v
  ELSE ok /\ Frame(v, w, f, l) /\ KeysC(c, Sub(w, f, l)) = Succ(s)

(* on a sorted range *)
LowerPos(v, f, l, c, k) == f + Cardinality({i \in (f + 1)..l : O(c, v[i]) < OrdC(c, k)})
UpperPos(v, f, l, c, k) == f + Cardinality({i \in (f + 1)..l : O(c, v[i]) <= OrdC(c, k)})
RECURSIVE Pow2(_)
Pow2(n) == IF n <= 0 THEN 1 ELSE 2 * Pow2(n - 1)
Logarithmic(d, n) == Pow2(Min2(d, 28)) <= 16 * (n + 1) * (n + 1)

FirstAt(S, f, l) == IF S = {} THEN l ELSE SeqMin(S) - 1   \* 0-based
RangeIdx(f, l) == (f + 1)..l
Sat(v, f, l, c, k) == {i \in RangeIdx(f, l) : IF c = 1 THEN K(v[i]) >= k ELSE K(v[i]) = k}
EqIdx(v, f, l, k)  == {i \in RangeIdx(f, l) : K(v[i]) = k}
(* the first of the greatest, the first of the smallest *)
Greatest(s) == FoldLeft(LAMBDA a, x : IF x > a THEN x ELSE a, s[1], s)
MaxPos(v, f, l, c) == IF f >= l THEN l
                      ELSE LET s == KeysC(c, Sub(v, f, l))
                               g == Greatest(s)
                           IN f + SeqMin({i \in 1..Len(s) : s[i] = g}) - 1
MinPos(v, f, l, c) == MaxPos(v, f, l, 1 - c)
RevRange(v, f, l)  == Sub(v, 0, f) \o Rev(Sub(v, f, l)) \o Sub(v, l, Len(v))
=============================================================================
