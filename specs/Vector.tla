------------------------------ MODULE Vector -------------------------------
(* Growable sequence. Capacity is hidden state the API reports; the model only
   fixes what a caller may rely on (room reserved, shrunk to fit). *)
EXTENDS SeqOps, Results
VARIABLES st, cap, r
vars == <<st, cap, r>>
Init == st = <<>> /\ cap = <<>> /\ r = OK

(* c is the capacity reported after the call: free, but never below the size *)
Upd(o, s, c) == /\ st' = (o :> s) @@ st /\ cap' = (o :> c) @@ cap
                /\ c >= Len(s)
Keep(o, c)   == st' = st /\ cap' = cap /\ c = cap[o]     \* nothing happened
Grow(o, s, c) == Upd(o, s, c) /\ c >= cap[o]             \* growing never gives room back

New(o, n, c)     == Upd(o, <<>>, c) /\ c >= n /\ r' = OK
NewFrom(o, q, c) == Upd(o, st[q], c) /\ r' = OK
PushBack(o, x, c) == Grow(o, Append(st[o], x), c) /\ r' = OK
PushMany(o, x, n, c) == Grow(o, st[o] \o Upto(x, n), c) /\ r' = OK      \* n calls
PopBack(o, c) == IF st[o] = <<>> THEN r' = PANIC /\ Keep(o, c)
                 ELSE r' = Val(st[o][Len(st[o])]) /\ Upd(o, SubSeq(st[o], 1, Len(st[o]) - 1), c)
InsertAt(o, p, x, c) == /\ r' = OK
                        /\ IF p < 0 \/ p > Len(st[o]) THEN Keep(o, c)
                           ELSE Grow(o, InsertAt0(st[o], p, x), c)
Cut(o, p, q, c) == IF p < 0 \/ p > q \/ q > Len(st[o]) THEN Keep(o, c)
                   ELSE Upd(o, CutOut(st[o], p, q), c)
EraseIndexRange(o, p, q, c) == r' = OK /\ Cut(o, p, q, c)
EraseAt(o, p, c)            == r' = OK /\ Cut(o, p, p + 1, c)
(* the iterator forms return an iterator at the given position *)
Insert(o, p, x, c) == /\ r' = Val(p)
                      /\ IF p < 0 \/ p > Len(st[o]) THEN Keep(o, c)
                         ELSE Grow(o, InsertAt0(st[o], p, x), c)
Erase(o, p, c)         == r' = Val(p) /\ Cut(o, p, p + 1, c)
EraseRange(o, p, q, c) == r' = Val(p) /\ Cut(o, p, q, c)
SetAt(o, p, x, c) == /\ r' = OK
                     /\ IF InSeq(st[o], p) THEN Upd(o, Put0(st[o], p, x), c) ELSE Keep(o, c)
At(o, p, c)    == r' = (IF InSeq(st[o], p) THEN Val(At0(st[o], p)) ELSE PANIC) /\ Keep(o, c)
Front(o, c)    == At(o, 0, c)
Back(o, c)     == At(o, Len(st[o]) - 1, c)
Reserve(o, n, c) == /\ r' = OK /\ c >= n
                    /\ IF n <= cap[o] THEN Keep(o, c) ELSE Grow(o, st[o], c)
ShrinkToFit(o, c) == r' = OK /\ Upd(o, st[o], c) /\ c = Len(st[o])
(* resizing only ever shortens; a negative size is out of range *)
Resize(o, n, c) == IF n < 0 THEN r' = PANIC /\ Keep(o, c)
                   ELSE IF n >= Len(st[o]) THEN r' = OK /\ Keep(o, c)
                   ELSE r' = OK /\ Upd(o, Prefix(st[o], n), c)
Clear(o, c) == r' = OK /\ Upd(o, <<>>, c)
Obs(o, c)   == r' = <<Len(st[o]), B2I(st[o] = <<>>)>> /\ Keep(o, c)
=============================================================================
