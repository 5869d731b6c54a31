------------------------------ MODULE BidList ------------------------------
(* Doubly linked lists and the handles (nodes) a caller keeps.  A node is on
   one list or on none; ids are given to nodes in the order of their position
   when they are created. *)
EXTENDS SeqOps, Results
VARIABLES st,    \* list -> sequence of nodes
          val,   \* node -> value           (every node ever created)
          own,   \* node -> list, 0 = none
          r
vars == <<st, val, own, r>>
Init == st = <<>> /\ val = <<>> /\ own = <<>> /\ r = OK
NoChange == UNCHANGED <<st, val, own>>
Fresh == Len(val) + 1
Nth(o, p) == st[o][p + 1]
ValsOf(s) == [i \in 1..Len(s) |-> val[s[i]]]

New(o) == st' = (o :> <<>>) @@ st /\ r' = OK /\ UNCHANGED <<val, own>>
(* insert k new nodes with values v at position p *)
Ins(o, p, v) ==
  /\ val' = val \o v
  /\ own' = own \o [i \in 1..Len(v) |-> o]
  /\ st' = [st EXCEPT ![o] = SubSeq(@, 1, p) \o Upto(Fresh, Len(v)) \o SubSeq(@, p + 1, Len(@))]
Take(o, n) == st' = [st EXCEPT ![o] = Without(@, n)] /\ own' = [own EXCEPT ![n] = 0] /\ UNCHANGED val
Order(o, s) == st' = [st EXCEPT ![o] = s] /\ UNCHANGED <<val, own>>

PushBack(o, x)  == Ins(o, Len(st[o]), <<x>>) /\ r' = OK
PushBackN(o, x, k)  == Ins(o, Len(st[o]), Upto(x, k)) /\ r' = OK     \* k calls in a row
PushFrontN(o, x, k) == r' = OK /\ val' = val \o Upto(x, k) /\ own' = own \o [i \in 1..k |-> o]
                       /\ st' = [st EXCEPT ![o] = Upto(Fresh, k) \o @]
PushFront(o, x) == Ins(o, 0, <<x>>) /\ r' = OK
PopBack(o)  == IF st[o] = <<>> THEN r' = PANIC /\ NoChange
               ELSE LET n == st[o][Len(st[o])] IN r' = Val(val[n]) /\ Take(o, n)
PopFront(o) == IF st[o] = <<>> THEN r' = PANIC /\ NoChange
               ELSE LET n == Head(st[o]) IN r' = Val(val[n]) /\ Take(o, n)
Front(o) == NoChange /\ r' = IF st[o] = <<>> THEN PANIC ELSE Val(val[Head(st[o])])
Back(o)  == NoChange /\ r' = IF st[o] = <<>> THEN PANIC ELSE Val(val[st[o][Len(st[o])]])
FrontNode(o) == NoChange /\ r' = IF st[o] = <<>> THEN NOTFOUND ELSE Val(Head(st[o]))
BackNode(o)  == NoChange /\ r' = IF st[o] = <<>> THEN NOTFOUND ELSE Val(st[o][Len(st[o])])
(* calls with a node: a node that is not on the list changes nothing *)
InsertAfter(o, x, n)  == IF own[n] # o THEN r' = NOTFOUND /\ NoChange
                         ELSE r' = Val(Fresh) /\ Ins(o, Pos(st[o], n), <<x>>)
InsertBefore(o, x, n) == IF own[n] # o THEN r' = NOTFOUND /\ NoChange
                         ELSE r' = Val(Fresh) /\ Ins(o, Pos(st[o], n) - 1, <<x>>)
Remove(o, n) == r' = Val(val[n]) /\ IF own[n] # o THEN NoChange ELSE Take(o, n)
Move(o, n, s) == r' = OK /\ IF own[n] # o THEN NoChange ELSE Order(o, s)
MoveToFront(o, n) == Move(o, n, <<n>> \o Without(st[o], n))
MoveToBack(o, n)  == Move(o, n, Without(st[o], n) \o <<n>>)
MoveAfter(o, n, m) ==
  /\ r' = OK
  /\ IF own[n] # o \/ own[m] # o \/ n = m THEN NoChange
     ELSE LET s == Without(st[o], n) IN Order(o, InsertAt0(s, Pos(s, m), n))
PushBackList(o, q)  == r' = OK /\ Ins(o, Len(st[o]), ValsOf(st[q]))
PushFrontList(o, q) == r' = OK /\ Ins(o, 0, ValsOf(st[q]))
Clear(o) == /\ r' = OK /\ st' = [st EXCEPT ![o] = <<>>] /\ UNCHANGED val
            /\ own' = [n \in DOMAIN own |-> IF own[n] = o THEN 0 ELSE own[n]]
(* the value a handle or an iterator on it shows, and changing it *)
GetVal(n)    == NoChange /\ r' = Val(val[n])
SetVal(n, x) == r' = OK /\ val' = [val EXCEPT ![n] = x] /\ UNCHANGED <<st, own>>
(* neighbours of a handle; a node that left its list has none *)
NodeNext(n) == /\ NoChange
               /\ r' = LET s == st[own[n]] IN
                       IF own[n] = 0 THEN NOTFOUND
                       ELSE IF Pos(s, n) = Len(s) THEN NOTFOUND ELSE Val(s[Pos(s, n) + 1])
NodePrev(n) == /\ NoChange
               /\ r' = LET s == st[own[n]] IN
                       IF own[n] = 0 THEN NOTFOUND
                       ELSE IF Pos(s, n) = 1 THEN NOTFOUND ELSE Val(s[Pos(s, n) - 1])
(* visit until the visitor has been called k times (k < 1: never stop) *)
Walk(o, k) == NoChange /\ r' = Seq3(LET v == ValsOf(st[o]) IN
                                    IF k < 1 THEN v ELSE Prefix(v, Min2(k, Len(v))))
Obs(o) == NoChange /\ r' = <<Len(st[o]), B2I(st[o] = <<>>)>>

(* a node is on a list exactly when that list holds it, once *)
OwnerInv == /\ \A o \in DOMAIN st : /\ Distinct(st[o])
                                     /\ Range(st[o]) = {n \in DOMAIN own : own[n] = o}
            /\ \A n \in DOMAIN own : own[n] = 0 \/ own[n] \in DOMAIN st
=============================================================================
