------------------------------- MODULE BidPtr -------------------------------
(* The doubly linked list as it is built: circular chains of nodes with next and
   prev pointers, each list holding its head (0: empty) and a length, each node
   the list it is on (0: none).  g is the whole memory: head and len by list;
   next, prev, own and val by node.  Every operator maps a memory to the memory
   after a step. *)
EXTENDS SeqOps
Nil == 0
Memory(lists) == [head |-> [o \in lists |-> Nil], len |-> [o \in lists |-> 0],
                  next |-> <<>>, prev |-> <<>>, own |-> <<>>, val |-> <<>>]
New(g) == Len(g.val) + 1                       \* the next node created
Create(g, o, x) == [g EXCEPT !.next = Append(@, Nil), !.prev = Append(@, Nil), !.own = Append(@, o), !.val = Append(@, x)]
(* n, just created, goes after at; n may be its own neighbour *)
LinkNew(g, o, n, at) == LET a == g.next[at] IN
  [[[g EXCEPT !.next[n] = a, !.prev[n] = at] EXCEPT !.prev[a] = n] EXCEPT !.next[at] = n, !.len[o] = @ + 1]
Back(g, o) == g.prev[g.head[o]]
PushBack(g, o, x) == LET n == New(g) h == Create(g, o, x) IN
  IF g.len[o] = 0 THEN [h EXCEPT !.next[n] = n, !.prev[n] = n, !.head[o] = n, !.len[o] = 1]
  ELSE LinkNew(h, o, n, Back(g, o))
PushFront(g, o, x) == [PushBack(g, o, x) EXCEPT !.head[o] = New(g)]
InsertAfter(g, o, x, m) == IF g.own[m] # o THEN g ELSE LinkNew(Create(g, o, x), o, New(g), m)
InsertBefore(g, o, x, m) == IF g.own[m] # o THEN g
  ELSE LET h == LinkNew(Create(g, o, x), o, New(g), g.prev[m]) IN
       IF g.head[o] = m THEN [h EXCEPT !.head[o] = New(g)] ELSE h
Unlink(g, n) == LET h == [g EXCEPT !.next[g.prev[n]] = g.next[n]] IN [h EXCEPT !.prev[g.next[n]] = g.prev[n]]
Take(g, o, n) ==
  LET h == IF g.head[o] = n THEN [g EXCEPT !.head[o] = g.next[n]] ELSE g
      u == [Unlink(h, n) EXCEPT !.next[n] = Nil, !.prev[n] = Nil, !.own[n] = 0, !.len[o] = @ - 1]
  IN IF u.len[o] = 0 THEN [u EXCEPT !.head[o] = Nil] ELSE u
Remove(g, o, n) == IF g.own[n] = o THEN Take(g, o, n) ELSE g
RECURSIVE Clear(_, _)
Clear(g, o) == IF g.len[o] = 0 THEN g ELSE Clear(Take(g, o, g.head[o]), o)
MoveTo(g, o, n, at) ==
  IF n = g.next[at] \/ n = at THEN g
  ELSE LET h == IF n = g.head[o] THEN [g EXCEPT !.head[o] = g.next[n]] ELSE g
           u == Unlink(h, n)
           a == u.next[at]
       IN [[u EXCEPT !.next[n] = a, !.prev[n] = at] EXCEPT !.prev[a] = n, !.next[at] = n]
MoveToFront(g, o, n) == IF g.own[n] # o \/ g.head[o] = n THEN g
                        ELSE [MoveTo(g, o, n, Back(g, o)) EXCEPT !.head[o] = n]
MoveToBack(g, o, n) == IF g.own[n] # o \/ Back(g, o) = n THEN g
                       ELSE LET h == IF g.head[o] = n THEN [g EXCEPT !.head[o] = g.next[n]] ELSE g
                            IN MoveTo(h, o, n, Back(h, o))
MoveAfter(g, o, n, m) ==
  IF g.own[n] # o \/ n = m \/ g.own[m] # o THEN g
  ELSE IF n = g.head[o] /\ m = g.prev[n] THEN [g EXCEPT !.head[o] = g.next[n]]   \* round the corner
  ELSE MoveTo(g, o, n, m)
NextOf(g, n) == IF g.own[n] = 0 \/ g.next[n] = g.head[g.own[n]] THEN Nil ELSE g.next[n]
PrevOf(g, n) == IF g.own[n] = 0 \/ n = g.head[g.own[n]] THEN Nil ELSE g.prev[n]
RECURSIVE PushAll(_, _, _, _, _)
(* copies of k nodes of a list from node n on, in the direction of the walk *)
PushAll(g, o, n, k, front) ==
  IF k = 0 THEN g
  ELSE LET h == IF front THEN PushFront(g, o, g.val[n]) ELSE PushBack(g, o, g.val[n])
       IN PushAll(h, o, IF front THEN PrevOf(h, n) ELSE NextOf(h, n), k - 1, front)
PushBackList(g, o, q) == PushAll(g, o, g.head[q], g.len[q], FALSE)
PushFrontList(g, o, q) == IF g.len[q] = 0 THEN g ELSE PushAll(g, o, Back(g, q), g.len[q], TRUE)

RECURSIVE WalkFrom(_, _, _)
WalkFrom(g, n, k) == IF n = Nil \/ k = 0 THEN <<>> ELSE <<n>> \o WalkFrom(g, NextOf(g, n), k - 1)
NodesOf(g, o) == WalkFrom(g, g.head[o], Len(g.val) + 1)

(* ---- what holds of every memory ---- *)
Circular(g) == \A n \in 1..Len(g.val) : g.own[n] # 0 =>
                 /\ g.next[n] # Nil /\ g.prev[n] # Nil
                 /\ g.prev[g.next[n]] = n /\ g.next[g.prev[n]] = n
                 /\ g.own[g.next[n]] = g.own[n]
Alone(g) == \A n \in 1..Len(g.val) : g.own[n] = 0 => g.next[n] = Nil /\ g.prev[n] = Nil
HeadsOK(g) == \A o \in DOMAIN g.head : IF g.len[o] = 0 THEN g.head[o] = Nil ELSE g.own[g.head[o]] = o
LensOK(g) == \A o \in DOMAIN g.len : /\ Len(NodesOf(g, o)) = g.len[o]
                                     /\ Cardinality({n \in 1..Len(g.val) : g.own[n] = o}) = g.len[o]
=============================================================================
