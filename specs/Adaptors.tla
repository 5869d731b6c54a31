----------------------------- MODULE Adaptors ------------------------------
(* Queue, Stack and PriorityQueue. *)
EXTENDS SeqOps, SequencesExt, Results
VARIABLES st,    \* object -> values, oldest first
          kind,  \* object -> how it was made (container / comparator)
          r
vars == <<st, kind, r>>
Init == st = <<>> /\ kind = <<>> /\ r = OK
Upd(o, s) == st' = [st EXCEPT ![o] = s] /\ UNCHANGED kind
Same == UNCHANGED <<st, kind>>
New(o, k)  == st' = (o :> <<>>) @@ st /\ kind' = (o :> k) @@ kind /\ r' = OK
Push(o, x) == Upd(o, Append(st[o], x)) /\ r' = OK
(* n calls in a row, with the values x, x+1, ... *)
PushN(o, x, n) == Upd(o, st[o] \o Upto(x, n)) /\ r' = OK
PushL(o, s) == Upd(o, st[o] \o s) /\ r' = OK          \* a call for each of s
Clear(o)   == Upd(o, <<>>) /\ r' = OK
Obs(o)     == Same /\ r' = <<Len(st[o]), B2I(st[o] = <<>>)>>
(* queue: first in, first out *)
QPop(o)   == IF st[o] = <<>> THEN r' = PANIC /\ Same
             ELSE r' = Val(Head(st[o])) /\ Upd(o, Tail(st[o]))
QFront(o) == Same /\ r' = IF st[o] = <<>> THEN PANIC ELSE Val(Head(st[o]))
QBack(o)  == Same /\ r' = IF st[o] = <<>> THEN PANIC ELSE Val(st[o][Len(st[o])])
QPopN(o, n) == r' = Seq3(Prefix(st[o], n)) /\ Upd(o, SubSeq(st[o], n + 1, Len(st[o])))
(* n times: push the next of x, x+1, ..., pop *)
QTurn(o, x, n) == LET s == st[o] \o Upto(x, n) IN
                  r' = Seq3(Prefix(s, n)) /\ Upd(o, SubSeq(s, n + 1, Len(s)))
(* stack: last in, first out *)
SPopN(o, n) == r' = Seq3(Rev(LastN(st[o], n))) /\ Upd(o, SubSeq(st[o], 1, Len(st[o]) - n))
STurn(o, x, n) == r' = Seq3(Upto(x, n)) /\ Same
SPop(o)   == IF st[o] = <<>> THEN r' = PANIC /\ Same
             ELSE r' = Val(st[o][Len(st[o])]) /\ Upd(o, SubSeq(st[o], 1, Len(st[o]) - 1))
STop(o)   == QBack(o)
(* priority queue: values are 1000*priority+tag; the comparator sees only the
   priority: 0 ascending, 1 descending, 2 by priority modulo 3 *)
Key(k, x) == CASE k % 10 = 0 -> x \div 1000
               [] k % 10 = 1 -> -(x \div 1000)
               [] k % 10 = 2 -> (x \div 1000) % 3
(* the oldest among those with the least key *)
Best(o) == LET s == st[o]
               m == SeqMin({Key(kind[o], s[i]) : i \in 1..Len(s)})
           IN  SeqMin({i \in 1..Len(s) : Key(kind[o], s[i]) = m})
PTop(o) == Same /\ r' = IF st[o] = <<>> THEN PANIC ELSE Val(st[o][Best(o)])
PPop(o) == IF st[o] = <<>> THEN r' = PANIC /\ Same
           ELSE r' = Val(st[o][Best(o)]) /\ Upd(o, RemoveAt0(st[o], Best(o) - 1))
(* pop everything that is left, in one event *)
RECURSIVE DrainOf(_, _)
DrainOf(k, s) == IF s = <<>> THEN <<>>
                 ELSE LET m == SeqMin({Key(k, s[i]) : i \in 1..Len(s)})
                          i == SeqMin({j \in 1..Len(s) : Key(k, s[j]) = m})
                      IN  <<s[i]>> \o DrainOf(k, RemoveAt0(s, i - 1))
(* the same for very many: what is popped, and left, in the order of popping *)
InOrder(k, s) == LET U == 100000         \* more than there are
                     by == SortSeq(SetToSeq({Key(k, s[i]) * U + i : i \in 1..Len(s)}), LAMBDA x, y : x < y)
                 IN [i \in 1..Len(s) |-> s[by[i] % U]]
PPopN(o, n) == LET s == InOrder(kind[o], st[o]) IN
               r' = Seq3(Prefix(s, n)) /\ Upd(o, SubSeq(s, n + 1, Len(s)))
(* n times: push the next of x, x+1, ..., x+m-1, x, ... (which compare equal), pop:
   first what is before them, then these in turn *)
PTurn(o, x, m, n) ==
  LET k == Key(kind[o], x)
      new == [i \in 1..n |-> x + ((i - 1) % m)]
      s == DrainOf(kind[o], SelectSeq(st[o], LAMBDA y : Key(kind[o], y) <= k)) \o new
      late == SelectSeq(st[o], LAMBDA y : Key(kind[o], y) > k) IN
  /\ \A i \in 1..m : Key(kind[o], x + i - 1) = k
  /\ r' = Seq3(Prefix(s, n)) /\ Upd(o, SubSeq(s, n + 1, Len(s)) \o late)
PDrain(o) == r' = Seq3(DrainOf(kind[o], st[o])) /\ Upd(o, <<>>)
=============================================================================
