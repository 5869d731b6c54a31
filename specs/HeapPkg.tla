------------------------------ MODULE HeapPkg ------------------------------
(* The heap functions rearrange a caller-owned array.  How they arrange it is
   free (the new array c is a parameter) as long as the heap order and the
   elements are kept. Elements are 1000*key+tag, ordered by key. *)
EXTENDS SeqOps, Results
VARIABLES st, r
vars == <<st, r>>
Init == st = <<>> /\ r = OK
K(x) == x \div 1000
Heap(s) == \A i \in 2..Len(s) : K(s[i \div 2]) <= K(s[i])
Upd(o, c) == st' = [st EXCEPT ![o] = c]
New(o, s) == st' = (o :> s) @@ st /\ r' = OK            \* any array
HInit(o, c)    == SameBag(st[o], c) /\ Heap(c) /\ Upd(o, c) /\ r' = OK
Push(o, x, c)  == SameBag(Append(st[o], x), c) /\ (Heap(st[o]) => Heap(c)) /\ Upd(o, c) /\ r' = OK
(* where something that may be popped is *)
Least(s) == LET k == SeqMin({K(s[j]) : j \in 1..Len(s)}) IN
            IF Heap(s) THEN {i \in 1..Len(s) : K(s[i]) = k} ELSE 1..Len(s)
Pop(o, c) == LET s == st[o] IN
             /\ \E i \in Least(s) :
                  /\ r' = Val(s[i])
                  /\ SameBag(RemoveAt0(s, i - 1), c)
             /\ (Heap(s) => Heap(c)) /\ Upd(o, c)
(* many calls: a push for each of q; n pops, which gave q *)
PushL(o, q, c) == SameBag(st[o] \o q, c) /\ (Heap(st[o]) => Heap(c)) /\ Upd(o, c) /\ r' = OK
PopN(o, n, q, c) == /\ Len(q) = n /\ SameBag(st[o], q \o c)
                    /\ Heap(st[o]) => /\ \A i \in 1..(n - 1) : K(q[i]) <= K(q[i + 1])
                                      /\ \A i \in 1..Len(c) : K(q[n]) <= K(c[i])
                                      /\ Heap(c)
                    /\ Upd(o, c) /\ r' = Seq3(q)
Remove(o, p, c) == /\ r' = Val(At0(st[o], p)) /\ SameBag(RemoveAt0(st[o], p), c)
                   /\ (Heap(st[o]) => Heap(c)) /\ Upd(o, c)
(* the caller overwrote element p with x, then asked for the order to be fixed *)
Fix(o, p, x, c) == /\ SameBag(Put0(st[o], p, x), c) /\ (Heap(st[o]) => Heap(c))
                   /\ Upd(o, c) /\ r' = OK
RECURSIVE Lg(_)
Lg(n) == IF n <= 1 THEN 1 ELSE 1 + Lg(n \div 2)
(* comparisons made: logarithmic per call, linear for HInit *)
Cheap(op, n, d) == IF op = "HInit" THEN d <= 4 * n + 4
                   ELSE IF op \in {"Push", "Pop", "Remove", "Fix"} THEN d <= 4 * Lg(n) + 4 ELSE TRUE
=============================================================================
