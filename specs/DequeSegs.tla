------------------------------ MODULE DequeSegs ------------------------------
(* The deque as it is built: a ring of slots, each nil or a segment of up to Cap
   values; the segments in use run from slot begin up to (not including) slot
   end.  A segment that empties leaves the ring, a full ring is doubled, a ring
   mostly unused is halved.  d is a record of slots (a sequence), begin, end and
   size; every operator maps a deque to the deque after a step. *)
EXTENDS SeqOps
CONSTANT Cap
Nil == <<-1>>      \* values are not negative
Fresh == [slots |-> <<>>, begin |-> 0, end |-> 0, size |-> 0]
Slots(d) == Len(d.slots)
Next(d, i) == (i + 1) % Slots(d)
Prev(d, i) == (i - 1 + Slots(d)) % Slots(d)
Used(d) == IF d.size = 0 THEN 0 ELSE IF d.end > d.begin THEN d.end - d.begin ELSE Slots(d) - d.begin + d.end
Slot(d, i) == d.slots[i + 1]
Put(d, i, s) == [d EXCEPT !.slots[i + 1] = s]
SegIdx(d, i) == (i + d.begin) % Slots(d)
Seg(d, i) == Slot(d, SegIdx(d, i))
PutSeg(d, i, s) == Put(d, SegIdx(d, i), s)
FirstSeg(d) == IF Slots(d) = 0 THEN Nil ELSE Slot(d, d.begin)
LastSeg(d) == IF Slots(d) = 0 THEN Nil ELSE Slot(d, Prev(d, d.end))
Full(s) == Len(s) = Cap

(* the ring moved to one of n slots, from slot 0 on *)
Resized(d, n) == LET u == Used(d) IN
  [d EXCEPT !.slots = [i \in 1..n |-> IF i <= u THEN Slot(d, (d.begin + i - 1) % Slots(d)) ELSE Nil],
            !.begin = 0, !.end = u]
Expand(d) == Resized(d, IF Used(d) = 0 THEN 1 ELSE Used(d) * 2)
ExpandIfFull(d) == IF Used(d) >= Slots(d) THEN Expand(d) ELSE d
Shrink(d) == IF (Used(d) * 24) \div 10 < Slots(d) THEN Resized(d, Slots(d) \div 2) ELSE d

(* a slot with room in front / at the back *)
RoomFront(d) ==
  IF FirstSeg(d) # Nil /\ ~Full(FirstSeg(d)) THEN d
  ELSE LET e == ExpandIfFull(d) IN
       IF FirstSeg(e) = Nil \/ Full(FirstSeg(e))
       THEN LET b == Prev(e, e.begin) IN Put([e EXCEPT !.begin = b], b, <<>>) ELSE e
RoomBack(d) ==
  IF LastSeg(d) # Nil /\ ~Full(LastSeg(d)) THEN d
  ELSE LET e == ExpandIfFull(d) IN
       IF LastSeg(e) = Nil \/ Full(LastSeg(e))
       THEN [Put(e, e.end, <<>>) EXCEPT !.end = Next(e, e.end)] ELSE e
Grow(d) == [d EXCEPT !.size = @ + 1]
PushFront(d, x) == LET e == RoomFront(d) IN
  ExpandIfFull(Grow(Put(e, e.begin, <<x>> \o Slot(e, e.begin))))
PushBack(d, x) == LET e == RoomBack(d) i == Prev(e, e.end) IN
  ExpandIfFull(Grow(Put(e, i, Append(Slot(e, i), x))))
PopFront(d) == LET s == Tail(Slot(d, d.begin)) IN
  Shrink([(IF s = <<>> THEN [Put(d, d.begin, Nil) EXCEPT !.begin = Next(d, d.begin)] ELSE Put(d, d.begin, s))
          EXCEPT !.size = @ - 1])
PopBack(d) == LET i == Prev(d, d.end) s == SubSeq(Slot(d, i), 1, Len(Slot(d, i)) - 1) IN
  Shrink([(IF s = <<>> THEN [Put(d, i, Nil) EXCEPT !.end = i] ELSE Put(d, i, s)) EXCEPT !.size = @ - 1])

(* which segment a position is in, and where *)
Find(d, p) == LET f == Len(FirstSeg(d)) IN
  IF p <= f - 1 THEN <<0, p>> ELSE <<(p - f) \div Cap + 1, (p - f) % Cap>>
At(d, p) == LET w == Find(d, p) IN Seg(d, w[1])[w[2] + 1]

(* the segments before number n each hand their first value to the one before *)
RECURSIVE PullBack(_, _, _), PullFront(_, _, _)
PullBack(d, i, n) == IF i >= n THEN d ELSE
  LET x == Head(Seg(d, i + 1)) IN
  PullBack(PutSeg(PutSeg(d, i, Append(Seg(d, i), x)), i + 1, Tail(Seg(d, i + 1))), i + 1, n)
(* from the last down to number n, each takes over the last value of the one before *)
PullFront(d, i, n) == IF i <= n THEN d ELSE
  LET s == Seg(d, i - 1) IN
  PullFront(PutSeg(PutSeg(d, i, <<s[Len(s)]>> \o Seg(d, i)), i - 1, SubSeq(s, 1, Len(s) - 1)), i - 1, n)
InsertIn(d, n, p, x) == PutSeg(d, n, InsertAt0(Seg(d, n), p, x))
InsertFrontSide(d, n, p, x) ==
  LET full == Full(FirstSeg(d))
      e0 == IF full THEN ExpandIfFull(d) ELSE d
      e == IF full THEN Put([e0 EXCEPT !.begin = Prev(e0, e0.begin)], Prev(e0, e0.begin), <<>>) ELSE e0
      n1 == IF full THEN (IF p = 0 THEN n ELSE n + 1) ELSE (IF p = 0 THEN n - 1 ELSE n)
      p1 == IF p = 0 THEN Cap - 1 ELSE IF full \/ n # 0 THEN p - 1 ELSE p
  IN InsertIn(PullBack(e, 0, n1), n1, p1, x)
InsertBackSide(d, n, p, x) ==
  LET full == Full(LastSeg(d))
      e0 == IF full THEN ExpandIfFull(d) ELSE d
      e == IF full THEN [Put(e0, e0.end, <<>>) EXCEPT !.end = Next(e0, e0.end)] ELSE e0
  IN InsertIn(PullFront(e, Used(e) - 1, n), n, p, x)
Insert(d, p, x) ==
  IF p = 0 THEN PushFront(d, x) ELSE IF p = d.size THEN PushBack(d, x)
  ELSE LET w == Find(d, p) IN
       ExpandIfFull(Grow(IF w[1] < Used(d) - w[1] THEN InsertFrontSide(d, w[1], w[2], x)
                         ELSE InsertBackSide(d, w[1], w[2], x)))
EraseAt(d, p) ==
  LET w == Find(d, p)
      n == w[1]
      e == PutSeg(d, n, RemoveAt0(Seg(d, n), w[2]))
      f == IF n < d.size - n - 1 THEN PullFront(e, n, 0) ELSE PullBack(e, n, Used(e) - 1)
      g == IF n < d.size - n - 1
           THEN IF FirstSeg(f) = <<>> THEN Shrink([Put(f, f.begin, Nil) EXCEPT !.begin = Next(f, f.begin)]) ELSE f
           ELSE IF LastSeg(f) = <<>> THEN Shrink([Put(f, Prev(f, f.end), Nil) EXCEPT !.end = Prev(f, f.end)]) ELSE f
  IN [g EXCEPT !.size = @ - 1]
SetAt(d, p, x) == LET w == Find(d, p) IN PutSeg(d, w[1], Put0(Seg(d, w[1]), w[2], x))
RECURSIVE Times(_, _, _), CopyDown(_, _, _), CopyUp(_, _, _)
Times(d, F(_), n) == IF n = 0 THEN d ELSE Times(F(d), F, n - 1)
CopyDown(d, p, n) == IF p + n >= d.size THEN d ELSE CopyDown(SetAt(d, p, At(d, p + n)), p + 1, n)
CopyUp(d, p, n) == IF p - n < 0 THEN d ELSE CopyUp(SetAt(d, p, At(d, p - n)), p - 1, n)
EraseRange(d, p, q) == LET n == q - p IN
  IF d.size - p < q THEN Times(CopyDown(d, p, n), PopBack, n) ELSE Times(CopyUp(d, q - 1, n), PopFront, n)

RECURSIVE Segs(_, _)
Segs(d, i) == IF i >= Used(d) THEN <<>> ELSE Seg(d, i) \o Segs(d, i + 1)
Content(d) == Segs(d, 0)

(* ---- what holds between calls ---- *)
InUse(d) == {SegIdx(d, i) : i \in 0..(Used(d) - 1)}
SlotsOK(d) == \A i \in 0..(Slots(d) - 1) : (Slot(d, i) # Nil) <=> (i \in InUse(d))
SegsOK(d) == \A i \in 0..(Used(d) - 1) :
               /\ Len(Seg(d, i)) \in 1..Cap
               /\ (i > 0 /\ i < Used(d) - 1) => Full(Seg(d, i))
SizeOK(d) == d.size = Len(Content(d))
RoomOK(d) == Used(d) < Slots(d) \/ d.size = 0 \/ Slots(d) = 1
=============================================================================
