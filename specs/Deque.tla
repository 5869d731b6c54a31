------------------------------- MODULE Deque -------------------------------
(* Double-ended queue: a sequence. Also the meaning of every positional call. *)
EXTENDS SeqOps, Results
VARIABLES st,   \* object -> sequence of values
          r     \* result of the last call
vars == <<st, r>>

Init == st = <<>> /\ r = OK
Upd(o, s) == st' = [st EXCEPT ![o] = s]
Same == UNCHANGED st

New(o)         == st' = (o :> <<>>) @@ st /\ r' = OK
PushBack(o, x)  == Upd(o, Append(st[o], x)) /\ r' = OK
PushFront(o, x) == Upd(o, <<x>> \o st[o]) /\ r' = OK
(* n calls in a row, with the values x, x+1, ... *)
PushBackN(o, x, n)  == Upd(o, st[o] \o Upto(x, n)) /\ r' = OK
PushFrontN(o, x, n) == Upd(o, Downto(x + n - 1, n) \o st[o]) /\ r' = OK
InsertN(o, p, x, n) == Upd(o, SubSeq(st[o], 1, p) \o Downto(x + n - 1, n)
                              \o SubSeq(st[o], p + 1, Len(st[o]))) /\ r' = OK
PopBack(o) == IF st[o] = <<>> THEN r' = PANIC /\ Same
              ELSE r' = Val(st[o][Len(st[o])]) /\ Upd(o, SubSeq(st[o], 1, Len(st[o]) - 1))
PopFront(o) == IF st[o] = <<>> THEN r' = PANIC /\ Same
               ELSE r' = Val(Head(st[o])) /\ Upd(o, Tail(st[o]))
PopBackN(o, n) == /\ r' = Seq3(Rev(LastN(st[o], n)))
                  /\ Upd(o, SubSeq(st[o], 1, Len(st[o]) - n))
PopFrontN(o, n) == /\ r' = Seq3(Prefix(st[o], n))
                   /\ Upd(o, SubSeq(st[o], n + 1, Len(st[o])))
Insert(o, p, x) == /\ r' = OK
                   /\ IF p < 0 \/ p > Len(st[o]) THEN Same ELSE Upd(o, InsertAt0(st[o], p, x))
EraseAt(o, p) == /\ r' = OK
                 /\ IF InSeq(st[o], p) THEN Upd(o, RemoveAt0(st[o], p)) ELSE Same
EraseAtN(o, p, n) == r' = OK /\ Upd(o, CutOut(st[o], p, Min2(p + n, Len(st[o]))))
EraseRange(o, p, q) == /\ r' = OK
                       /\ IF p < 0 \/ p >= q \/ q > Len(st[o]) THEN Same
                          ELSE Upd(o, CutOut(st[o], p, q))
Clear(o) == Upd(o, <<>>) /\ r' = OK
Set(o, p, x) == IF InSeq(st[o], p) THEN Upd(o, Put0(st[o], p, x)) /\ r' = OK
                ELSE r' = ERR /\ Same
At(o, p) == r' = (IF InSeq(st[o], p) THEN Val(At0(st[o], p)) ELSE PANIC) /\ Same
Front(o) == At(o, 0)
Back(o)  == At(o, Len(st[o]) - 1)
Obs(o)   == r' = <<Len(st[o]), B2I(st[o] = <<>>)>> /\ Same
=============================================================================
