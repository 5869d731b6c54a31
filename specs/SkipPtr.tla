------------------------------ MODULE SkipPtr -------------------------------
(* The skip list as it is built: a chain of nodes for each level, from the head's
   one for that level; a node is on the chains 1..(its height), which is drawn at
   random.  Nodes are known by their keys, 0 is none; g.next[0] are the head's
   chains. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Levels
Nil == 0
Empty == [next |-> (0 :> [i \in 1..Levels |-> Nil]), val |-> <<>>]
At(g, n, i) == g.next[n][i]
(* on level i, from node n: the last node with a key below k *)
RECURSIVE Along(_, _, _, _)
Along(g, n, i, k) == LET x == At(g, n, i) IN IF x = Nil \/ x >= k THEN n ELSE Along(g, x, i, k)
(* the nodes to change on each level, from level i down; levels without any node are
   passed over *)
RECURSIVE Prevs(_, _, _, _)
Prevs(g, n, i, k) ==
  IF i = 0 THEN <<>>
  ELSE LET m == IF At(g, 0, i) # Nil THEN Along(g, n, i, k) ELSE n IN Append(Prevs(g, m, i - 1, k), m)
Find(g, k) == Prevs(g, 0, Levels, k)
(* p: the nodes found for k; h: the height drawn *)
RECURSIVE LinkIn(_, _, _, _)
LinkIn(g, p, k, i) ==
  IF i = 0 THEN g
  ELSE LET f == LinkIn(g, p, k, i - 1) IN [f EXCEPT !.next[k][i] = f.next[p[i]][i], !.next[p[i]][i] = k]
Insert(g, p, k, v, h) ==
  IF At(g, p[1], 1) = k THEN [g EXCEPT !.val[k] = v]
  ELSE LinkIn([g EXCEPT !.next = (k :> [i \in 1..h |-> Nil]) @@ @, !.val = (k :> v) @@ @], p, k, h)
RECURSIVE LinkOut(_, _, _, _)
LinkOut(g, p, k, i) ==
  IF i = 0 THEN g ELSE LET f == LinkOut(g, p, k, i - 1) IN [f EXCEPT !.next[p[i]][i] = f.next[k][i]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Remove(g, p, k) ==
  IF At(g, p[1], 1) # k THEN g
  ELSE LET f == LinkOut(g, p, k, Len(g.next[k])) IN [f EXCEPT !.next = Drop(@, k), !.val = Drop(@, k)]
(* reading goes down by itself and stops at the first level where it meets the key *)
RECURSIVE Look(_, _, _, _)
Look(g, n, i, k) ==
  IF i = 0 THEN Nil ELSE LET x == At(g, n, i) IN
  IF x = k THEN k ELSE IF x = Nil \/ x > k THEN Look(g, n, i - 1, k) ELSE Look(g, x, i, k)
RECURSIVE Chain(_, _, _, _)
Chain(g, n, i, lim) == IF n = Nil \/ lim = 0 THEN <<>> ELSE <<n>> \o Chain(g, At(g, n, i), i, lim - 1)
Level(g, i) == Chain(g, At(g, 0, i), i, 100)
(* each level is exactly the nodes high enough, in order *)
WellFormed(g) ==
  /\ DOMAIN g.next = DOMAIN g.val \cup {0}
  /\ \A n \in DOMAIN g.next : \A i \in DOMAIN g.next[n] : At(g, n, i) = Nil \/ (At(g, n, i) \in DOMAIN g.val
                                                            /\ i \in DOMAIN g.next[At(g, n, i)])
  /\ \A i \in 1..Levels :
       LET s == Level(g, i) IN
       /\ \A j \in 1..(Len(s) - 1) : s[j] < s[j + 1]
       /\ {s[j] : j \in 1..Len(s)} = {n \in DOMAIN g.val : Len(g.next[n]) >= i}
=============================================================================
