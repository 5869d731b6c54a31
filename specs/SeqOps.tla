------------------------------ MODULE SeqOps -------------------------------
(* Operators on finite sequences; positions of the API count from 0. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

SeqMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SeqMax(S) == CHOOSE x \in S : \A y \in S : x >= y
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

At0(s, p)          == s[p + 1]
InSeq(s, p)        == p >= 0 /\ p < Len(s)
InsertAt0(s, p, x) == SubSeq(s, 1, p) \o <<x>> \o SubSeq(s, p + 1, Len(s))
CutOut(s, p, q)    == SubSeq(s, 1, p) \o SubSeq(s, q + 1, Len(s))  \* drop [p,q)
RemoveAt0(s, p)    == CutOut(s, p, p + 1)
Put0(s, p, x)      == [s EXCEPT ![p + 1] = x]
Rev(s)             == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Swap0(s, p, q)     == [s EXCEPT ![p + 1] = s[q + 1], ![q + 1] = s[p + 1]]
Pos(s, x)          == SeqMin({i \in 1..Len(s) : s[i] = x})   \* x must occur
Occurs(s, x)       == \E i \in 1..Len(s) : s[i] = x
Without(s, x)      == LET i == Pos(s, x) IN RemoveAt0(s, i - 1)
Upto(a, n)         == [i \in 1..n |-> a + i - 1]
Downto(a, n)       == [i \in 1..n |-> a - i + 1]
Range(s)           == {s[i] : i \in 1..Len(s)}
CountIn(s, x)      == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t)      == /\ Len(s) = Len(t)
                      /\ IF Cardinality(Range(s)) = Len(s) THEN Range(s) = Range(t) ELSE \A x \in Range(s) \cup Range(t) : CountIn(s, x) = CountIn(t, x)
Distinct(s)        == Cardinality(Range(s)) = Len(s)
Prefix(s, n)       == SubSeq(s, 1, n)
LastN(s, n)        == SubSeq(s, Len(s) - n + 1, Len(s))

(* "[1 2 3]", the format of every String() method *)
RECURSIVE JoinInts(_, _, _)
JoinInts(s, i, j) == IF i > j THEN "" ELSE IF i = j THEN ToString(s[i])
                     ELSE LET m == (i + j) \div 2 IN JoinInts(s, i, m) \o " " \o JoinInts(s, m + 1, j)
Render(s) == "[" \o JoinInts(s, 1, Len(s)) \o "]"
=============================================================================
