-------------------------------- MODULE Iter --------------------------------
(* Iterators.  Containers 0 and 1 are sequences; an iterator is a container and
   a position.  Iterators of slices, vectors, deques and arrays (kinds 0..3)
   are indices: they move in -1..n, and stay where they are when elements are
   inserted or removed.  Iterators of lists and trees follow their element;
   once they leave the container (position Nil) they do not come back. *)
EXTENDS SeqOps, Results
VARIABLES kind, cont,  \* container -> sequence of values
          it,          \* iterator -> <<container, position>>
          r
vars == <<kind, cont, it, r>>
Nil == -5
Init == kind = 0 /\ cont = <<>> /\ it = <<>> /\ r = OK
Index == kind <= 3
N(c) == Len(cont[c])
EndPos(c) == IF Index THEN N(c) ELSE Nil
Place(j, c, p) == it' = (j :> <<c, p>>) @@ it /\ UNCHANGED <<kind, cont>>
Valid(x) == InSeq(cont[x[1]], x[2])

Cont(o, k, v)  == kind' = k /\ cont' = (o :> v) @@ cont /\ UNCHANGED it /\ r' = OK
Begin(j, c)    == Place(j, c, IF N(c) = 0 THEN EndPos(c) ELSE 0) /\ r' = OK
End(j, c)      == Place(j, c, EndPos(c)) /\ r' = OK
Last(j, c)     == Place(j, c, IF N(c) = 0 THEN (IF Index THEN -1 ELSE Nil) ELSE N(c) - 1) /\ r' = OK
Seek(j, c, p)  == Place(j, c, IF p < N(c) THEN p ELSE EndPos(c)) /\ r' = OK
IteratorAt(j, q, p) == Place(j, it[q][1], p) /\ r' = OK
Clone(j, q)    == Place(j, it[q][1], it[q][2]) /\ r' = OK
Next(j) == LET c == it[j][1] p == it[j][2] IN
           /\ r' = Bool(TRUE)                       \* returns itself
           /\ Place(j, c, IF Index THEN (IF p < N(c) THEN p + 1 ELSE p)
                          ELSE IF p # Nil /\ p + 1 < N(c) THEN p + 1 ELSE Nil)
Prev(j) == LET c == it[j][1] p == it[j][2] IN
           /\ r' = Bool(TRUE)
           /\ Place(j, c, IF Index THEN (IF p >= 0 THEN p - 1 ELSE p)
                          ELSE IF p # Nil /\ p > 0 THEN p - 1 ELSE Nil)
Same == UNCHANGED <<kind, cont, it>>
Equal(j, q)    == Same /\ r' = Bool(it[j] = it[q])
EqualOther(j)  == Same /\ r' = Bool(FALSE)
Value(j)       == Same /\ r' = IF Valid(it[j]) THEN Val(At0(cont[it[j][1]], it[j][2])) ELSE PANIC
(* on no element, writing changes nothing *)
SetValue(j, x) == IF Valid(it[j])
                  THEN r' = OK /\ UNCHANGED <<kind, it>> /\ cont' = [cont EXCEPT ![it[j][1]] = Put0(@, it[j][2], x)]
                  ELSE r' \in {OK, PANIC} /\ Same
Insert(c, p, x) == /\ r' = OK /\ UNCHANGED kind
                   /\ cont' = [cont EXCEPT ![c] = InsertAt0(@, p, x)]
                   /\ it' = IF Index THEN it ELSE
                            [j \in DOMAIN it |-> IF it[j][1] = c /\ it[j][2] >= p
                                                 THEN <<c, it[j][2] + 1>> ELSE it[j]]
Erase(c, p) == Index /\ r' = OK /\ UNCHANGED <<kind, it>> /\ cont' = [cont EXCEPT ![c] = RemoveAt0(@, p)]
=============================================================================
