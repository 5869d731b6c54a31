------------------------------ MODULE BitBytes ------------------------------
(* The bitmap as it is built: bytes, and masks of one bit in them.  Position p is
   bit p % 8 of byte p \div 8. *)
EXTENDS Integers, Sequences
Bytes(n) == (n + 7) \div 8
Make(n) == [i \in 1..Bytes(n) |-> 0]
Size(d) == 8 * Len(d)
Mask(p) == 2^(p % 8)
Byte(d, p) == d[p \div 8 + 1]
Has1(b, m) == (b \div m) % 2 = 1
Or(b, m) == IF Has1(b, m) THEN b ELSE b + m
AndNot(b, m) == IF Has1(b, m) THEN b - m ELSE b
In(d, p) == p >= 0 /\ p < Size(d)
Set(d, p) == IF In(d, p) THEN [d EXCEPT ![p \div 8 + 1] = Or(@, Mask(p))] ELSE d
Unset(d, p) == IF In(d, p) THEN [d EXCEPT ![p \div 8 + 1] = AndNot(@, Mask(p))] ELSE d
IsSet(d, p) == In(d, p) /\ Has1(Byte(d, p), Mask(p))
Resize(d, n) == IF Size(d) = 8 * Bytes(n) THEN d
                ELSE [i \in 1..Bytes(n) |-> IF i <= Len(d) THEN d[i] ELSE 0]
Clear(d) == [i \in 1..Len(d) |-> 0]
=============================================================================
