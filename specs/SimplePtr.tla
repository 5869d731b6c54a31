----------------------------- MODULE SimplePtr ------------------------------
(* The singly linked list as it is built: each list holds its first and last node
   (0: empty) and a length, each node the next one and the list it is on (0:
   none; it keeps its next when it is taken off).  g is the whole memory; every
   operator maps a memory to the memory after a step. *)
EXTENDS SeqOps
Nil == 0
Memory(lists) == [head |-> [o \in lists |-> Nil], tail |-> [o \in lists |-> Nil], len |-> [o \in lists |-> 0],
                  next |-> <<>>, own |-> <<>>, val |-> <<>>]
New(g) == Len(g.val) + 1
Create(g, o, x, nx) == [g EXCEPT !.next = Append(@, nx), !.own = Append(@, o), !.val = Append(@, x), !.len[o] = @ + 1]
PushFront(g, o, x) ==
  LET n == New(g) h == Create(g, o, x, IF g.len[o] = 0 THEN Nil ELSE g.head[o]) IN
  IF g.len[o] = 0 THEN [h EXCEPT !.head[o] = n, !.tail[o] = n] ELSE [h EXCEPT !.head[o] = n]
PushBack(g, o, x) ==
  LET n == New(g) h == Create(g, o, x, Nil) IN
  IF g.len[o] = 0 THEN [h EXCEPT !.head[o] = n, !.tail[o] = n] ELSE [h EXCEPT !.next[g.tail[o]] = n, !.tail[o] = n]
(* a node of another list, or of none, is not touched *)
InsertAfter(g, o, x, m) ==
  LET n == New(g) h == Create(g, o, x, g.next[m]) IN
  IF g.own[m] # o THEN [g EXCEPT !.next = Append(@, Nil), !.own = Append(@, Nil), !.val = Append(@, x)]
  ELSE [h EXCEPT !.next[m] = n, !.tail[o] = IF g.next[m] = Nil THEN n ELSE @]
Unlink(g, o, p, n) ==
  IF p = Nil THEN [g EXCEPT !.head[o] = g.next[n], !.tail[o] = IF g.next[n] = Nil THEN Nil ELSE @]
  ELSE [g EXCEPT !.next[p] = g.next[n], !.tail[o] = IF g.next[n] = Nil THEN p ELSE @]
Remove(g, o, p, n) == [Unlink(g, o, p, n) EXCEPT !.own[n] = Nil, !.len[o] = @ - 1]
MoveToFront(g, o, p, n) ==
  IF p = Nil THEN g ELSE IF g.next[p] # n \/ g.len[o] <= 1 THEN g
  ELSE LET h == Unlink(g, o, p, n) IN [h EXCEPT !.next[n] = h.head[o], !.head[o] = n]
MoveToBack(g, o, p, n) ==
  IF g.next[n] = Nil \/ g.len[o] <= 1 THEN g
  ELSE LET h == IF p = Nil THEN [g EXCEPT !.head[o] = g.next[n]] ELSE [g EXCEPT !.next[p] = g.next[n]]
       IN [h EXCEPT !.next[h.tail[o]] = n, !.tail[o] = n, !.next[n] = Nil]
(* the chain from a node on; at most as many steps as there are nodes *)
RECURSIVE Chain(_, _, _)
Chain(g, n, k) == IF n = Nil \/ k = 0 THEN <<>> ELSE <<n>> \o Chain(g, g.next[n], k - 1)
NodesOf(g, o) == Chain(g, g.head[o], Len(g.val) + 1)
WellFormed(g) ==
  \A o \in DOMAIN g.head :
    LET s == NodesOf(g, o) IN
    /\ Len(s) = g.len[o] /\ Distinct(s)
    /\ g.tail[o] = (IF s = <<>> THEN Nil ELSE s[Len(s)])
    /\ Range(s) = {n \in DOMAIN g.own : g.own[n] = o}
=============================================================================
