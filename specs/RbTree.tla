------------------------------- MODULE RbTree -------------------------------
(* The red-black tree as it is built: nodes with parent and child pointers and
   a colour, insertion and deletion with recolouring and rotations.  A heap h
   is a record of functions from node to parent, left, right, red, key, value;
   0 is nil.  Every operator maps a heap to the heap after a step. *)
EXTENDS SeqOps
Nil == 0
Empty == [root |-> Nil, p |-> <<>>, l |-> <<>>, r |-> <<>>, red |-> <<>>, key |-> <<>>, val |-> <<>>]
Black(h, n) == n = Nil \/ ~h.red[n]
Red(h, n) == ~Black(h, n)
Paint(h, n, isRed) == [h EXCEPT !.red[n] = isRed]
Dark(h, n) == IF n = Nil THEN h ELSE Paint(h, n, FALSE)

(* y, a child of x, takes x's place *)
Replace(h, x, y) ==
  IF h.p[x] = Nil THEN [h EXCEPT !.root = y]
  ELSE IF x = h.l[h.p[x]] THEN [h EXCEPT !.l[h.p[x]] = y] ELSE [h EXCEPT !.r[h.p[x]] = y]
SetP(h, n, q) == IF n = Nil THEN h ELSE [h EXCEPT !.p[n] = q]
LeftRotate(h, x) ==
  LET y == h.r[x]
      h1 == SetP([h EXCEPT !.r[x] = h.l[y]], h.l[y], x)
      h2 == Replace([h1 EXCEPT !.p[y] = h.p[x]], x, y)
  IN [h2 EXCEPT !.l[y] = x, !.p[x] = y]
RightRotate(h, x) ==
  LET y == h.l[x]
      h1 == SetP([h EXCEPT !.l[x] = h.r[y]], h.r[y], x)
      h2 == Replace([h1 EXCEPT !.p[y] = h.p[x]], x, y)
  IN [h2 EXCEPT !.r[y] = x, !.p[x] = y]
Rotate(h, x, toLeft) == IF toLeft THEN LeftRotate(h, x) ELSE RightRotate(h, x)
Child(h, n, isLeft) == IF isLeft THEN h.l[n] ELSE h.r[n]

RECURSIVE InsertFixup(_, _)
InsertFixup(h, z) ==
  IF h.p[z] = Nil \/ Black(h, h.p[z]) THEN [h EXCEPT !.red[h.root] = FALSE]
  ELSE LET p == h.p[z]
           g == h.p[p]
           side == p = h.l[g]            \* the parent is a left child
           u == Child(h, g, ~side)
       IN IF Red(h, u)
          THEN InsertFixup(Paint(Paint(Paint(h, p, FALSE), u, FALSE), g, TRUE), g)
          ELSE LET inner == z = Child(h, p, ~side)
                   h1 == IF inner THEN Rotate(h, p, side) ELSE h
                   z1 == IF inner THEN p ELSE z
                   p1 == h1.p[z1]
               IN InsertFixup(Rotate(Paint(Paint(h1, p1, FALSE), g, TRUE), g, ~side), z1)

RECURSIVE Descend(_, _, _, _)
Descend(h, k, x, y) == IF x = Nil THEN y
                       ELSE Descend(h, k, IF k < h.key[x] THEN h.l[x] ELSE h.r[x], x)
(* z, a new node, holds key k *)
Insert(h, z, k, v) ==
  LET y == Descend(h, k, h.root, Nil)
      h1 == [root |-> IF y = Nil THEN z ELSE h.root, p |-> (z :> y) @@ h.p, l |-> (z :> Nil) @@ h.l,
             r |-> (z :> Nil) @@ h.r, red |-> (z :> (y # Nil)) @@ h.red, key |-> (z :> k) @@ h.key, val |-> (z :> v) @@ h.val]
  IN IF y = Nil THEN h1
     ELSE InsertFixup(IF k < h.key[y] THEN [h1 EXCEPT !.l[y] = z] ELSE [h1 EXCEPT !.r[y] = z], z)

RECURSIVE Minimum(_, _)
Minimum(h, n) == IF h.l[n] = Nil THEN n ELSE Minimum(h, h.l[n])
(* x, child of parent q, is one black short; x may be nil *)
RECURSIVE DeleteFixup(_, _, _)
DeleteFixup(h, x, q) ==
  IF x = h.root \/ Red(h, x) THEN Dark(h, x)
  ELSE
  LET parent == IF x # Nil THEN h.p[x] ELSE q
      side == x = h.l[parent]
      w0 == Child(h, parent, ~side)
      h1 == IF Red(h, w0) THEN Rotate(Paint(Paint(h, w0, FALSE), parent, TRUE), parent, side) ELSE h
      w1 == Child(h1, parent, ~side)
  IN IF Black(h1, h1.l[w1]) /\ Black(h1, h1.r[w1])
     THEN DeleteFixup(Paint(h1, w1, TRUE), parent, h1.p[parent])
     ELSE LET far == Child(h1, w1, ~side)
              near == Child(h1, w1, side)
              h2 == IF Black(h1, far) THEN Rotate(Paint(Dark(h1, near), w1, TRUE), w1, ~side) ELSE h1
              w2 == Child(h2, parent, ~side)
              h3 == Dark(Paint(Paint(h2, w2, h2.red[parent]), parent, FALSE), Child(h2, w2, ~side))
              h4 == Rotate(h3, parent, side)
          IN Dark(h4, h4.root)
Drop(f, n) == [x \in DOMAIN f \ {n} |-> f[x]]
(* a node with two children keeps its place and takes over its successor's entry *)
Delete(h, z) ==
  LET y == IF h.l[z] # Nil /\ h.r[z] # Nil THEN Minimum(h, h.r[z]) ELSE z
      x == IF h.l[y] # Nil THEN h.l[y] ELSE h.r[y]
      q == h.p[y]
      h1 == Replace(SetP(h, x, q), y, x)
      h2 == IF y = z THEN h1 ELSE [h1 EXCEPT !.key[z] = h.key[y], !.val[z] = h.val[y]]
      h3 == IF Red(h, y) THEN h2 ELSE DeleteFixup(h2, x, q)
  IN [root |-> h3.root, p |-> Drop(h3.p, y), l |-> Drop(h3.l, y), r |-> Drop(h3.r, y),
      red |-> Drop(h3.red, y), key |-> Drop(h3.key, y), val |-> Drop(h3.val, y)]

(* ---- what the tree is worth ---- *)
RECURSIVE InOrder(_, _)
InOrder(h, n) == IF n = Nil THEN <<>> ELSE InOrder(h, h.l[n]) \o <<n>> \o InOrder(h, h.r[n])
Content(h) == LET s == InOrder(h, h.root) IN [i \in 1..Len(s) |-> <<h.key[s[i]], h.val[s[i]]>>]
RECURSIVE Height(_, _), BlackHeight(_, _), Shape(_, _)
Height(h, n) == IF n = Nil THEN 0 ELSE 1 + Max2(Height(h, h.l[n]), Height(h, h.r[n]))
(* -1 when two paths differ *)
BlackHeight(h, n) == IF n = Nil THEN 1
                     ELSE LET a == BlackHeight(h, h.l[n]) b == BlackHeight(h, h.r[n])
                          IN IF a # b \/ a < 0 THEN -1 ELSE a + (IF h.red[n] THEN 0 ELSE 1)
Shape(h, n) == IF n = Nil THEN <<>> ELSE <<h.red[n], Shape(h, h.l[n]), Shape(h, h.r[n])>>
NoRedRed(h) == \A n \in DOMAIN h.p : h.red[n] => Black(h, h.l[n]) /\ Black(h, h.r[n])
ParentsOK(h) == /\ h.root # Nil => h.p[h.root] = Nil
                /\ \A n \in DOMAIN h.p : \A c \in {h.l[n], h.r[n]} : c # Nil => h.p[c] = n
RECURSIVE P2(_)
P2(n) == IF n <= 0 THEN 1 ELSE 2 * P2(n - 1)
Sorted(h) == LET s == Content(h) IN \A i \in 1..(Len(s) - 1) : s[i][1] <= s[i + 1][1]
IsRedBlack(h) == /\ Black(h, h.root) /\ NoRedRed(h) /\ BlackHeight(h, h.root) > 0
HeightBound(h) == LET n == Cardinality(DOMAIN h.p) IN P2(Height(h, h.root)) <= (n + 1) * (n + 1)

(* ---- lookups, by descending the tree ---- *)
RECURSIVE LowerNode(_, _, _), UpperNode(_, _, _)
LowerNode(h, n, k) == IF n = Nil THEN Nil
                      ELSE IF k <= h.key[n] THEN LET m == LowerNode(h, h.l[n], k) IN IF m = Nil THEN n ELSE m
                      ELSE LowerNode(h, h.r[n], k)
UpperNode(h, n, k) == IF n = Nil THEN Nil
                      ELSE IF k >= h.key[n] THEN UpperNode(h, h.r[n], k)
                      ELSE LET m == UpperNode(h, h.l[n], k) IN IF m = Nil THEN n ELSE m
RECURSIVE UpFrom(_, _, _)
(* the first ancestor reached from a child on the given side *)
UpFrom(h, n, fromLeft) == IF h.p[n] = Nil THEN Nil
                          ELSE IF Child(h, h.p[n], fromLeft) = n THEN h.p[n] ELSE UpFrom(h, h.p[n], fromLeft)
RECURSIVE Maximum(_, _)
Maximum(h, n) == IF h.r[n] = Nil THEN n ELSE Maximum(h, h.r[n])
Successor(h, n) == IF h.r[n] # Nil THEN Minimum(h, h.r[n]) ELSE UpFrom(h, n, TRUE)
Predecessor(h, n) == IF h.l[n] # Nil THEN Maximum(h, h.l[n]) ELSE UpFrom(h, n, FALSE)
=============================================================================
