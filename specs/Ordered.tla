------------------------------ MODULE Ordered ------------------------------
(* The ordered containers: red-black tree, Map, MultiMap, Set, MultiSet and
   Skiplist.  An object is a sequence of <<key, value>> pairs in the order of
   its comparator; entries whose keys compare equal stand in the order they
   were inserted.  Values of set elements are 0. *)
EXTENDS SeqOps, Results
LOCAL X == INSTANCE SequencesExt
VARIABLES st,    \* object -> sequence of <<key, value>>
          kind,  \* object -> comparator
          r
vars == <<st, kind, r>>
Init == st = <<>> /\ kind = <<>> /\ r = OK
Upd(o, s) == st' = [st EXCEPT ![o] = s] /\ UNCHANGED kind
Same == UNCHANGED <<st, kind>>

(* comparators: 0 ascending, 1 descending, 2 by tens, 3 descending by tens *)
OrdK(c, k) == CASE c % 10 = 0 -> k [] c % 10 = 1 -> -k
                [] c % 10 = 2 -> k \div 10 [] c % 10 = 3 -> -(k \div 10)
(* number of entries before the first one not less than / greater than key k *)
LB(o, k) == Cardinality({i \in 1..Len(st[o]) : OrdK(kind[o], st[o][i][1]) < OrdK(kind[o], k)})
UB(o, k) == Cardinality({i \in 1..Len(st[o]) : OrdK(kind[o], st[o][i][1]) <= OrdK(kind[o], k)})
Has1(o, k) == LB(o, k) < UB(o, k)
Entry(e) == <<4, e[1], e[2]>>                 \* a valid position: its key and value
AtPos(o, i) == IF i >= 1 /\ i <= Len(st[o]) THEN Entry(st[o][i]) ELSE NOTFOUND

New(o, c) == st' = (o :> <<>>) @@ st /\ kind' = (o :> c) @@ kind /\ r' = OK
Clear(o)  == Upd(o, <<>>) /\ r' = OK
(* always a new entry, after those with an equal key *)
InsertMulti(o, k, v) == Upd(o, InsertAt0(st[o], UB(o, k), <<k, v>>)) /\ r' = OK
(* n calls in a row, with the values v, v+1, ... (0 if v is 0: a set has none) *)
InsertMultiN(o, k, v, n) ==
  LET i == UB(o, k) IN
  Upd(o, SubSeq(st[o], 1, i) \o [j \in 1..n |-> <<k, IF v = 0 THEN 0 ELSE v + j - 1>>]
         \o SubSeq(st[o], i + 1, Len(st[o]))) /\ r' = OK
(* n calls in a row with the keys k, k+d, k+2d, ..., none of which (and nothing
   between which) is there *)
InsertRun(o, k, d, v, n) ==
  LET up == OrdK(kind[o], k + d) > OrdK(kind[o], k)
      e(j) == <<k + (j - 1) * d, IF v = 0 THEN 0 ELSE v + j - 1>>
      i == UB(o, k) IN
  /\ Upd(o, SubSeq(st[o], 1, i) \o [j \in 1..n |-> IF up THEN e(j) ELSE e(n + 1 - j)]
            \o SubSeq(st[o], i + 1, Len(st[o])))
  /\ r' = OK
(* a new entry, or a new value for the existing one (which keeps its key) *)
InsertUnique(o, k, v) ==
  /\ r' = OK
  /\ IF Has1(o, k) THEN Upd(o, [st[o] EXCEPT ![UB(o, k)] = <<@[1], v>>])
     ELSE Upd(o, InsertAt0(st[o], LB(o, k), <<k, v>>))
Cut(o, i, j) == Upd(o, CutOut(st[o], i, j))
EraseFirst(o, k) == r' = OK /\ IF Has1(o, k) THEN Cut(o, LB(o, k), LB(o, k) + 1) ELSE Same
EraseAll(o, k)   == r' = OK /\ Cut(o, LB(o, k), UB(o, k))
EraseAt(o, i)    == r' = OK /\ IF i < Len(st[o]) THEN Cut(o, i, i + 1) ELSE Same  \* the end: nothing
EraseSpan(o, i, n) == r' = OK /\ Cut(o, i, i + n)          \* n calls, one for each of these
EraseEven(o)     == r' = OK /\ Upd(o, [i \in 1..((Len(st[o]) + 1) \div 2) |-> st[o][2 * i - 1]])
RemoveKey(o, k)  == r' = Bool(Has1(o, k)) /\ Cut(o, LB(o, k), UB(o, k))
Get(o, k)        == Same /\ r' = IF Has1(o, k) THEN Val(st[o][LB(o, k) + 1][2]) ELSE NOTFOUND
Contains(o, k)   == Same /\ r' = Bool(Has1(o, k))
Count(o, k)      == Same /\ r' = Val(UB(o, k) - LB(o, k))
Find(o, k)       == Same /\ r' = IF Has1(o, k) THEN AtPos(o, LB(o, k) + 1) ELSE NOTFOUND
LowerBound(o, k) == Same /\ r' = AtPos(o, LB(o, k) + 1)
UpperBound(o, k) == Same /\ r' = AtPos(o, UB(o, k) + 1)
First(o)         == Same /\ r' = AtPos(o, 1)
Last(o)          == Same /\ r' = AtPos(o, Len(st[o]))
SetAt(o, i, v)   == r' = OK /\ Upd(o, [st[o] EXCEPT ![i + 1] = <<@[1], v>>])
(* move n steps from the entry found by key k (n < 0: backwards) *)
StepFrom(o, k, n) == Same /\ r' = IF Has1(o, k) THEN AtPos(o, LB(o, k) + 1 + n) ELSE NOTFOUND
Compare(o, a, b) == Same /\ r' = Val(LET x == OrdK(kind[o], a) y == OrdK(kind[o], b) IN
                                     IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0)
KeysOf(s) == [i \in 1..Len(s) |-> s[i][1]]
Walk(o, n) == Same /\ r' = Seq3(LET s == KeysOf(st[o]) IN
                                IF n < 1 THEN s ELSE Prefix(s, Min2(n, Len(s))))
Keys(o)    == Same /\ r' = Seq3(KeysOf(st[o]))
Obs(o)     == Same /\ r' = <<Len(st[o]), B2I(st[o] = <<>>)>>

(* d: the depths of the gaps between keys, which determine the shape of a search
   tree.  Join puts subtrees together; of each it keeps the depth of its root
   and the black heights it can have with a black (red) root. *)
RECURSIVE Join(_, _)
Join(stack, x) ==
  IF stack # <<>> /\ stack[Len(stack)][1] = x[1]
  THEN LET y == stack[Len(stack)] IN
       Join(SubSeq(stack, 1, Len(stack) - 1),
            <<x[1] - 1, {b + 1 : b \in (y[2] \cup y[3]) \cap (x[2] \cup x[3])}, y[2] \cap x[2]>>)
  ELSE Append(stack, x)
RECURSIVE JoinAll(_, _, _)
JoinAll(d, i, stack) == IF i > Len(d) THEN stack ELSE JoinAll(d, i + 1, Join(stack, <<d[i], {0}, {}>>))
RedBlackShape(d) == LET t == JoinAll(d, 1, <<>>) IN (Len(t) = 1 /\ t[1][1] = 0) => t[1][2] # {}
ASSUME RedBlackShape(<<1, 2, 2>>) /\ RedBlackShape(<<1, 3, 3, 2>>) = FALSE /\ RedBlackShape(<<1, 1>>)
Shape(o, d) == Same /\ r' = OK /\ RedBlackShape(d)

(* set algebra of two sets with the same comparator; the result is object p *)
Sel(s, P(_)) == SelectSeq(s, P)
Member(s, c, k) == \E i \in 1..Len(s) : OrdK(c, s[i][1]) = OrdK(c, k)
Make(p, c, s) == st' = (p :> s) @@ st /\ kind' = (p :> c) @@ kind /\ r' = OK
OrdsOf(s, c) == {OrdK(c, s[i][1]) : i \in 1..Len(s)}
Intersect(o, q, p) == Make(p, kind[o], LET qs == OrdsOf(st[q], kind[o]) IN Sel(st[o], LAMBDA e : OrdK(kind[o], e[1]) \in qs))
Diff(o, q, p)      == Make(p, kind[o], LET qs == OrdsOf(st[q], kind[o]) IN Sel(st[o], LAMBDA e : OrdK(kind[o], e[1]) \notin qs))
RECURSIVE MergeK(_, _, _)
MergeK(c, s, t) == IF s = <<>> THEN t ELSE IF t = <<>> THEN s
                   ELSE IF OrdK(c, s[1][1]) < OrdK(c, t[1][1]) THEN <<s[1]>> \o MergeK(c, Tail(s), t)
                   ELSE <<t[1]>> \o MergeK(c, s, Tail(t))
(* the same for many: all that are there, put in order *)
Ordered2(c, s, t) == LET all == {<<OrdK(c, s[i][1]), s[i]>> : i \in 1..Len(s)} \cup {<<OrdK(c, t[i][1]), t[i]>> : i \in 1..Len(t)}
                         q == SortSeq(X!SetToSeq(all), LAMBDA x, y : x[1] < y[1]) IN
                     [i \in 1..Len(q) |-> q[i][2]]
Union(o, q, p) == Make(p, kind[o],
                       LET os == OrdsOf(st[o], kind[o])
                           new == Sel(st[q], LAMBDA e : OrdK(kind[o], e[1]) \notin os)
                       IN IF Len(new) + Len(st[o]) < 40 THEN MergeK(kind[o], st[o], new) ELSE Ordered2(kind[o], st[o], new))

(* always true of the model, checked on it in MC_Ordered *)
SortedInv == \A o \in DOMAIN st : \A i \in 1..(Len(st[o]) - 1) :
               OrdK(kind[o], st[o][i][1]) <= OrdK(kind[o], st[o][i + 1][1])
=============================================================================
