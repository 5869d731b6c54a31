------------------------------ MODULE HeapArr ------------------------------
(* The binary heap as it is built: an array in which element i (from 0) is not
   after its children 2i+1 and 2i+2; elements move up or down by swaps. *)
EXTENDS SeqOps
CONSTANT Lt(_, _)
Parent(j) == (j - 1) \div 2
Before(s, i, j) == Lt(s[i + 1], s[j + 1])
RECURSIVE Up(_, _), Down(_, _, _)
Up(s, j) == IF j = 0 \/ ~Before(s, j, Parent(j)) THEN s ELSE Up(Swap0(s, j, Parent(j)), Parent(j))
(* among the first n elements *)
Down(s, i, n) ==
  LET j1 == 2 * i + 1
      j == IF j1 + 1 < n /\ Before(s, j1 + 1, j1) THEN j1 + 1 ELSE j1
  IN IF j1 >= n \/ ~Before(s, j, i) THEN s ELSE Down(Swap0(s, i, j), j, n)
(* down, or up if that moved nothing *)
Settle(s, i, n) == LET d == Down(s, i, n) IN IF d # s THEN d ELSE Up(s, i)
Push(s, x) == Up(Append(s, x), Len(s))
Shorter(s) == SubSeq(s, 1, Len(s) - 1)
(* what is removed ends up last, then goes *)
PopMove(s) == LET n == Len(s) - 1 IN Down(Swap0(s, 0, n), 0, n)
RemoveMove(s, i) == LET n == Len(s) - 1 IN IF n = i THEN s ELSE Settle(Swap0(s, i, n), i, n)
Fix(s, i) == Settle(s, i, Len(s))
RECURSIVE Heapify(_, _)
Heapify(s, i) == IF i < 0 THEN s ELSE Heapify(Down(s, i, Len(s)), i - 1)
MakeHeap(s) == Heapify(s, Len(s) \div 2 - 1)
IsHeap(s) == \A i \in 1..(Len(s) - 1) : ~Before(s, i, Parent(i))
=============================================================================
