------------------------------ MODULE ConcObj ------------------------------
(* What one call does to a goroutine-safe container when nothing else runs:
   Apply(kind, u, s, op, a) is <<state after, result>>.  u is what the kind
   needs to know about the universe (ketama: every key's order of preference
   over the nodes; bloom: every word's bits). *)
EXTENDS SeqOps, Results

CStart(kind) ==
  CASE kind \in {"map", "multimap", "set", "multiset", "skiplist", "hamt", "pq", "queue", "stack"} -> <<>>
    [] kind = "setalg" -> <<<<>>, <<>>>>
    [] kind \in {"bloom", "ketama"} -> {}

(* ordered maps and sets: sequences of <<key, value>> *)
LoB(s, k) == Cardinality({i \in 1..Len(s) : s[i][1] < k})
UpB(s, k) == Cardinality({i \in 1..Len(s) : s[i][1] <= k})
In(s, k)  == LoB(s, k) < UpB(s, k)
InsM(s, k, v) == InsertAt0(s, UpB(s, k), <<k, v>>)
InsU(s, k, v) == IF In(s, k) THEN [s EXCEPT ![UpB(s, k)] = <<@[1], v>>] ELSE InsM(s, k, v)
Del1(s, k) == IF In(s, k) THEN CutOut(s, LoB(s, k), LoB(s, k) + 1) ELSE s
DelA(s, k) == CutOut(s, LoB(s, k), UpB(s, k))
Ks(s) == [i \in 1..Len(s) |-> s[i][1]]
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Cap(s, n) == IF n < 1 THEN s ELSE Prefix(s, Min2(n, Len(s)))

Ordered(kind, s, op, a) ==
  LET multi == kind \in {"multimap", "multiset"}
      isSet == kind \in {"set", "multiset"} IN
  CASE op = "Insert" -> LET v == IF isSet THEN 0 ELSE a[2] IN
                        <<IF multi THEN InsM(s, a[1], v) ELSE InsU(s, a[1], v), OK>>
    [] op = "Get"        -> <<s, IF In(s, a[1]) THEN Val(s[LoB(s, a[1]) + 1][2]) ELSE NOTFOUND>>
    [] op \in {"Erase", "EraseIter"} -> <<IF kind = "multimap" THEN DelA(s, a[1]) ELSE Del1(s, a[1]), OK>>
    [] op = "EraseAll"   -> <<DelA(s, a[1]), OK>>
    [] op = "Remove"     -> <<Del1(s, a[1]), Bool(In(s, a[1]))>>
    [] op \in {"Find", "Contains"} -> <<s, Bool(In(s, a[1]))>>
    [] op = "LowerBound" -> <<s, Bool(LoB(s, a[1]) < Len(s))>>
    [] op = "UpperBound" -> <<s, Bool(UpB(s, a[1]) < Len(s))>>
    [] op \in {"First", "Last", "Begin"} -> <<s, Bool(s # <<>>)>>
    [] op = "Count"      -> <<s, Val(UpB(s, a[1]) - LoB(s, a[1]))>>
    [] op = "Size"       -> <<s, Val(Len(s))>>
    [] op = "Clear"      -> <<<<>>, OK>>
    [] op \in {"Keys", "StringKeys", "String"} -> <<s, Seq3(Ks(s))>>
    [] op = "Traversal"  -> <<s, Seq3(IF isSet THEN Ks(Cap(s, a[1])) ELSE Flat(Cap(s, a[1])))>>

(* priority queue: values in order of arrival, priority = value \div 1000 *)
Best(s) == LET m == SeqMin({s[i] \div 1000 : i \in 1..Len(s)})
           IN  SeqMin({i \in 1..Len(s) : s[i] \div 1000 = m})
Line(kind, s, op, a) ==
  LET i == IF s = <<>> THEN 0 ELSE CASE kind = "pq" -> Best(s) [] kind = "queue" -> 1 [] kind = "stack" -> Len(s) IN
  CASE op = "Push"   -> <<Append(s, a[1]), OK>>
    [] op = "Pop"    -> IF s = <<>> THEN <<s, PANIC>> ELSE <<RemoveAt0(s, i - 1), Val(s[i])>>
    [] op \in {"Top", "Front"} -> <<s, IF s = <<>> THEN PANIC ELSE Val(s[i])>>
    [] op = "Back"   -> <<s, IF s = <<>> THEN PANIC ELSE Val(s[Len(s)])>>
    [] op = "Size"   -> <<s, Val(Len(s))>>
    [] op = "Empty"  -> <<s, Bool(s = <<>>)>>
    [] op = "Clear"  -> <<<<>>, OK>>
    [] op = "String" -> <<s, Seq3(s)>>

RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE <<SeqMin(S)>> \o Ascending(S \ {SeqMin(S)})
Bloom(u, s, op, a) ==
  CASE op = "Add"      -> <<s \cup {a[1]}, OK>>
    [] op = "Contains" -> <<s, Bool(a[1] \in s)>>
    [] op = "Data"     -> <<s, Seq3(Ascending(UNION {Range(u[x]) : x \in s}))>>

Ring(u, s, op, a) ==
  CASE op = "Add"    -> <<s \cup Range(a), OK>>
    [] op = "Remove" -> <<s \ Range(a), OK>>
    [] op = "Get"    -> <<s, IF s = {} THEN NOTFOUND
                             ELSE LET p == u[a[1]] IN Val(p[SeqMin({i \in 1..Len(p) : p[i] \in s})])>>
    [] op = "Empty"  -> <<s, Bool(s = {})>>

Algebra == {"Intersect", "Union", "Diff"}
RECURSIVE Merge2(_, _)
Merge2(s, t) == IF s = <<>> THEN t ELSE IF t = <<>> THEN s
                ELSE IF s[1] < t[1] THEN <<s[1]>> \o Merge2(Tail(s), t) ELSE <<t[1]>> \o Merge2(s, Tail(t))
Combine(op, x, y) ==
  LET s == Ks(x) t == Ks(y) IN
  CASE op = "Intersect" -> SelectSeq(s, LAMBDA e : e \in Range(t))
    [] op = "Diff"      -> SelectSeq(s, LAMBDA e : e \notin Range(t))
    [] op = "Union"     -> Merge2(s, SelectSeq(t, LAMBDA e : e \notin Range(s)))

Apply(kind, u, s, op, a) ==
  CASE kind \in {"map", "multimap", "set", "multiset", "skiplist", "hamt"} -> Ordered(kind, s, op, a)
    [] kind \in {"pq", "queue", "stack"} -> Line(kind, s, op, a)
    [] kind = "bloom"  -> Bloom(u, s, op, a)
    [] kind = "ketama" -> Ring(u, s, op, a)
    [] kind = "setalg" -> LET x == Ordered("set", s[a[1]], op, Tail(a)) IN <<[s EXCEPT ![a[1]] = x[1]], x[2]>>
=============================================================================
