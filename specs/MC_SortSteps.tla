---------------------------- MODULE MC_SortSteps ----------------------------
(* The algorithms of SortSteps on every array of up to MaxN elements with keys
   0..Keys-1 (whole range) and of up to MaxSub elements (every range), with both
   comparators and every further argument.  They end, their intermediate states
   keep what makes them right, and what they compute is what Algo says. *)
EXTENDS SortSteps, TLCExt
CONSTANTS MaxN, MaxSub, Keys, Emits
VARIABLES v, f, l, c, n
vars == <<a, todo, p, r, v, f, l, c, n>>
Key == 0..(Keys - 1)
RECURSIVE Words(_)
Words(m) == IF m = 0 THEN {<<>>} ELSE {Append(w, k) : w \in Words(m - 1), k \in Key}
Elements(w) == [i \in 1..Len(w) |-> w[i] * Unit + i - 1]
Loaded == f >= 0
MInit == a = <<>> /\ v = <<>> /\ todo = <<>> /\ p = Idle /\ r = <<9>> /\ f = -1 /\ l = -1 /\ c = 0 /\ n = 0
Args(lo, hi) == CASE Alg = "nth" -> 0..(hi - lo + 1)
                  [] Alg \in {"bsearch", "lower", "upper"} -> 0..(Keys + 1)
                  [] OTHER -> {0}
Searches == Alg \in {"bsearch", "lower", "upper"}
(* what the algorithm is called with, and the result it has from the start *)
Start(lo, hi, m) ==
  CASE Alg = "sort" -> todo' = <<<<lo, hi - 1>>>> /\ r' = OK
    [] Alg = "nth"  -> todo' = (IF hi - lo < m THEN <<>> ELSE <<<<lo, hi - 1>>>>) /\ r' = OK
    [] Alg = "stable" -> todo' = <<<<lo, hi>>>> /\ r' = OK
    [] Alg = "perm" -> todo' = <<<<"scan", hi - 1>>>> /\ r' = OK
    [] Alg = "bsearch" -> todo' = <<<<lo, hi - 1>>>> /\ r' = Bool(FALSE)
    [] Alg \in {"lower", "upper"} -> todo' = <<<<lo, hi - 1>>>> /\ r' = Val(hi)
Load == /\ ~Loaded /\ UNCHANGED p
        /\ \E m \in 0..MaxN : \E w \in Words(m), lo \in 0..m, hi \in 0..m, d \in {0, 1} :
             /\ lo <= hi /\ (m <= MaxSub \/ (lo = 0 /\ hi = m))
             /\ a' = Elements(w) /\ v' = a' /\ f' = lo /\ l' = hi /\ c' = d
             /\ (Searches => Ascends(KeysC(d, Sub(a', lo, hi))))
             /\ \E x \in Args(lo, hi) : n' = x /\ Start(lo, hi, x)
Step == CASE Alg \in {"sort", "nth"} -> QStart(c) \/ QMove(c) \/ QDivide(IF Alg = "nth" THEN f + n ELSE -1)
          [] Alg = "stable" -> MStart \/ MTake(c) \/ MWrite
          [] Alg = "perm" -> PScan(c, f, l) \/ PFind(c, l) \/ PRev
          [] OTHER -> BStep(c, n - 1, l)
MNext == Load \/ (Loaded /\ Step /\ UNCHANGED <<v, f, l, c, n>>)
MSpec == MInit /\ [][MNext]_vars
Done == Loaded /\ todo = <<>>
(* they end: a step is always possible before, and every step brings the end nearer *)
Size(t) == IF t[2] < t[1] THEN 0 ELSE t[2] - t[1] + 1
Weight(t) == CASE Alg \in {"sort", "nth"} -> 3 * Size(t) + 1
               [] Alg = "stable" -> IF Len(t) = 3 \/ t[2] <= t[1] THEN 1 ELSE 3 * (t[2] - t[1]) - 2
               [] Alg = "perm" -> CASE t[1] = "scan" -> 200 + t[2] [] t[1] = "find" -> 100 + t[2] [] OTHER -> IF t[3] > t[2] THEN 2 + t[3] - t[2] ELSE 1
               [] OTHER -> 1 + Size(t)
RECURSIVE Weights(_)
Weights(s) == IF s = <<>> THEN 0 ELSE Weight(s[1]) + Weights(Tail(s))
Under == CASE p.task = "part" -> p.j - p.i + 1
           [] p.task = "merge" -> l - f - Len(p.tmp)
           [] OTHER -> 99
Left == 100 * Weights(todo) + Under
Ends == [][Loaded => Left' < Left]_vars
Goes == (Loaded /\ ~Done) => ENABLED (Step /\ <<a, todo, p, r>>' # <<a, todo, p, r>>)
(* from its first arrangement on, a word's successors are all its arrangements,
   each once, in order *)
RECURSIVE Chain(_)
Chain(s) == IF LastPerm(s) THEN <<s>> ELSE <<s>> \o Chain(Succ(s))
Arrangements(s) == {[i \in 1..Len(s) |-> s[q[i]]] : q \in Permutations(1..Len(s))}
ASSUME Alg = "perm" => \A m \in 0..Min2(MaxN, 5) : \A s \in Words(m) : Ascends(s) =>
         LET ch == Chain(s) IN Range(ch) = Arrangements(s) /\ Len(ch) = Cardinality(Arrangements(s))
                               /\ \A i \in 1..(Len(ch) - 1) : LexLess(ch[i], ch[i + 1])

(* what is computed *)
Right ==
  Done => CASE Alg = "sort" -> SortRel(v, a, f, l, c)
            [] Alg = "stable" -> StableRel(v, a, f, l, c)
            [] Alg = "nth" -> NthRel(v, a, f, l, c, n)
            [] Alg = "perm" -> PermRel(v, a, f, l, c, r = Bool(TRUE))
            [] Alg = "bsearch" -> a = v /\ r = Bool(LowerPos(v, f, l, c, n - 1) < UpperPos(v, f, l, c, n - 1))
            [] Alg = "lower" -> a = v /\ r = Val(LowerPos(v, f, l, c, n - 1))
            [] Alg = "upper" -> a = v /\ r = Val(UpperPos(v, f, l, c, n - 1))
(* nothing leaves the range, no element is lost *)
InRange == Loaded => Frame(v, a, f, l)
(* why: the ranges still to be sorted are apart, in order; while a range is
   divided, what has been passed is on the right side of the pivot; what has been
   merged is in order; the answer of a bisection is between the ends *)
Ord(i) == O(c, At(i))
Why ==
  CASE Alg \in {"sort", "nth"} ->
         /\ \A t \in DOMAIN todo : LET x == todo[t][1] y == todo[t][2] IN
              \A i \in f..(x - 1), j \in x..y : Ord(i) <= Ord(j)
         /\ \A t \in DOMAIN todo : LET x == todo[t][1] y == todo[t][2] IN
              \A i \in x..y, j \in (y + 1)..(l - 1) : Ord(i) <= Ord(j)
         /\ (p.task = "part" =>
               LET x == todo[1][1] y == todo[1][2] IN
               /\ \A i \in x..(p.i - 1) : Ord(i) <= Ord(y - 1)
               /\ \A j \in (p.j + 1)..(y - 2) : Ord(j) >= Ord(y - 1)
               /\ Ord(y) >= Ord(y - 1) /\ p.j >= x)
    [] Alg = "stable" -> p.task = "merge" => Ascends(KeysC(c, p.tmp))
    [] Alg \in {"lower", "upper"} ->
         todo # <<>> => LET x == todo[1][1] y == todo[1][2] q == IF Alg = "lower" THEN LowerPos(v, f, l, c, n - 1)
                                                                 ELSE UpperPos(v, f, l, c, n - 1) IN
                        q >= x /\ (q <= y \/ r = Val(q))
    [] OTHER -> TRUE
Name == CASE Alg = "sort" -> "Sort" [] Alg = "stable" -> "Stable" [] Alg = "nth" -> "NthElement" [] Alg = "perm" -> "NextPermutation"
          [] Alg = "bsearch" -> "BinarySearch" [] Alg = "lower" -> "LowerBound" [] Alg = "upper" -> "UpperBound"
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE K(s[1]) + Sum(Tail(s))
(* the container is chosen by the content *)
Emit == (Emits /\ ~Loaded => PrintT(<<"E", 0, Name, (Sum(v') + Len(v') + c' + n') % 4, <<f', l', c', n'>> \o v', TLCFP(<<v', f', l', c', n'>>)>>)) = TRUE
=============================================================================
