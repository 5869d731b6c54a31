------------------------------ MODULE SortSteps ------------------------------
(* The algorithms as they run, step by step, over an array a (0-based positions;
   elements are key * Unit + id, compared by key).  The work left to do is a
   sequence of tasks, the first next; p is what the task under way remembers.
   Alg: "sort", "stable", "nth", "perm", "bsearch", "lower", "upper".  Variant:
   a mistake to be refuted, or "none". *)
EXTENDS Algo
CONSTANTS Alg, Variant
VARIABLES a, todo, p, r
C(c, x, y) == LET u == O(c, x) v == O(c, y) IN IF u < v THEN -1 ELSE IF u > v THEN 1 ELSE 0
At(i) == a[i + 1]
Idle == [task |-> "idle"]
Pop(more) == todo' = more \o Tail(todo)

(* -- quick sort and quick select; a task <<f, l>> is the positions f..l -- *)
OrderTwo(s, c, i, j) == IF C(c, s[i + 1], s[j + 1]) > 0 THEN Swap0(s, i, j) ELSE s
Median(s, c, f, m, l) ==
  LET s1 == OrderTwo(s, c, f, m)
      s2 == IF Variant = "median" THEN s1 ELSE OrderTwo(s1, c, f, l)
      s3 == OrderTwo(s2, c, m, l)
  IN s3
QStart(c) ==
  /\ p = Idle /\ todo # <<>> /\ UNCHANGED r
  /\ LET f == todo[1][1]  l == todo[1][2] IN
     IF f >= l THEN Pop(<<>>) /\ UNCHANGED <<a, p>>
     ELSE IF l = f + 1 THEN Pop(<<>>) /\ a' = OrderTwo(a, c, f, l) /\ UNCHANGED p
     ELSE LET m == f + (l - f + 1) \div 2 IN
          /\ a' = Swap0(Median(a, c, f, m, l), m, l - 1)
          /\ IF l = f + 2 THEN Pop(<<>>) /\ UNCHANGED p
             ELSE todo' = todo /\ p' = [task |-> "part", i |-> f + 1, j |-> l - 2]
QMove(c) ==
  /\ p.task = "part" /\ UNCHANGED <<todo, r>>
  /\ p.i <= p.j
  /\ LET base == At(todo[1][2] - 1) IN
     IF C(c, At(p.i), base) <= 0 THEN a' = a /\ p' = [p EXCEPT !.i = @ + 1]
     ELSE IF C(c, At(p.j), base) > 0 THEN a' = a /\ p' = [p EXCEPT !.j = @ - 1]
     ELSE /\ a' = Swap0(a, p.i, p.j)
          /\ p' = [p EXCEPT !.i = IF Variant = "overstep" THEN @ + 2 ELSE @ + 1, !.j = @ - 1]
(* n: the position selected for, or -1 when sorting *)
QDivide(n) ==
  /\ p.task = "part" /\ UNCHANGED r
  /\ p.i > p.j
  /\ LET f == todo[1][1]  l == todo[1][2]  m == p.j + 1 IN
     /\ a' = Swap0(a, l - 1, m)
     /\ p' = Idle
     /\ IF n < 0 THEN Pop(<<<<f, m - 1>>, <<m + 1, l>>>>)
        ELSE IF n <= (IF Variant = "left" THEN m + 1 ELSE m) THEN Pop(<<<<f, m>>>>)
        ELSE Pop(<<<<m + 1, l>>>>)

(* -- merge sort; tasks <<f, l>> (positions f..l-1) and <<f, m, l>> -- *)
MStart ==
  /\ p = Idle /\ todo # <<>> /\ UNCHANGED <<a, r>>
  /\ LET t == todo[1] IN
     IF Len(t) = 3 THEN UNCHANGED todo /\ p' = [task |-> "merge", i |-> t[1], j |-> t[2], tmp |-> <<>>]
     ELSE /\ UNCHANGED p
          /\ IF t[1] + 1 >= t[2] THEN Pop(<<>>)
             ELSE LET m == (t[1] + t[2]) \div 2 IN Pop(<<<<t[1], m>>, <<m, t[2]>>, <<t[1], m, t[2]>>>>)
MTake(c) ==
  /\ p.task = "merge" /\ UNCHANGED <<a, todo, r>>
  /\ LET m == todo[1][2]  l == todo[1][3] IN
     /\ p.i < m \/ p.j < l
     /\ LET left == /\ p.i < m
                    /\ (p.j >= l \/ IF Variant = "strict" THEN C(c, At(p.i), At(p.j)) < 0
                                    ELSE C(c, At(p.i), At(p.j)) <= 0) IN
        p' = IF left THEN [p EXCEPT !.i = @ + 1, !.tmp = Append(@, At(p.i))]
             ELSE [p EXCEPT !.j = @ + 1, !.tmp = Append(@, At(p.j))]
MWrite ==
  /\ p.task = "merge" /\ p.i >= todo[1][2] /\ p.j >= todo[1][3]
  /\ p' = Idle /\ Pop(<<>>) /\ UNCHANGED r
  /\ LET t == todo[1] n == IF Variant = "short" THEN Len(p.tmp) - 1 ELSE Len(p.tmp) IN
     a' = [i \in 1..Len(a) |-> IF i > t[1] /\ i <= t[1] + n THEN p.tmp[i - t[1]] ELSE a[i]]

(* -- bisection for a key; a task <<left, right>> is the positions still open,
      r the best answer so far -- *)
BStep(c, k, l) ==
  /\ todo # <<>> /\ UNCHANGED <<a, p>>
  /\ LET lo == todo[1][1]  hi == todo[1][2]  mid == (lo + hi) \div 2
         d == IF OrdC(c, k) < O(c, At(mid)) THEN -1 ELSE IF OrdC(c, k) > O(c, At(mid)) THEN 1 ELSE 0
     IN IF lo > hi THEN Pop(<<>>) /\ UNCHANGED r
        ELSE CASE Alg = "bsearch" -> IF d = 0 THEN todo' = <<>> /\ r' = Bool(TRUE)
                                     ELSE UNCHANGED r /\ Pop(<<IF d < 0 THEN <<lo, mid - 1>> ELSE <<mid + 1, hi>>>>)
               [] Alg = "lower" -> IF d <= 0 THEN r' = Val(mid) /\ Pop(<<<<lo, mid - 1>>>>)
                                   ELSE UNCHANGED r /\ Pop(<<<<mid + 1, hi>>>>)
               [] Alg = "upper" -> IF d < 0 \/ (d = 0 /\ Variant = "equal") THEN r' = Val(mid) /\ Pop(<<<<lo, mid - 1>>>>)
                                   ELSE UNCHANGED r /\ Pop(<<<<IF Variant = "mid" THEN mid ELSE mid + 1, hi>>>>)

(* -- the next permutation: find the last ascent, the last element above its
      lower end, swap them, reverse what follows -- *)
PScan(c, f, l) ==
  /\ todo # <<>> /\ todo[1][1] = "scan" /\ UNCHANGED <<a, p>>
  /\ LET cur == todo[1][2] IN
     IF cur > f /\ C(c, At(cur - 1), At(cur)) >= 0 THEN UNCHANGED r /\ Pop(<<<<"scan", cur - 1>>>>)
     ELSE IF cur <= f THEN r' = Bool(FALSE) /\ Pop(<<>>)
     ELSE UNCHANGED r /\ Pop(<<<<"find", l - 1, cur - 1>>>>)
PFind(c, l) ==
  /\ todo # <<>> /\ todo[1][1] = "find" /\ UNCHANGED p
  /\ LET cur == todo[1][2]  pre == todo[1][3]  d == C(c, At(cur), At(pre)) IN
     IF d < 0 \/ (d = 0 /\ Variant # "ties") THEN UNCHANGED <<a, r>> /\ Pop(<<<<"find", cur - 1, pre>>>>)
     ELSE a' = Swap0(a, cur, pre) /\ r' = Bool(TRUE) /\ Pop(<<<<"rev", pre + 1, l - 1>>>>)
PRev ==
  /\ todo # <<>> /\ todo[1][1] = "rev" /\ UNCHANGED <<p, r>>
  /\ LET i == todo[1][2]  j == todo[1][3] IN
     IF i >= j THEN UNCHANGED a /\ Pop(<<>>)
     ELSE a' = Swap0(a, i, j) /\ Pop(<<<<"rev", i + 1, j - 1>>>>)
=============================================================================
