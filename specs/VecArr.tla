------------------------------- MODULE VecArr -------------------------------
(* The vector as it is built: a length and an array of slots, as many as the
   capacity; slots beyond the length keep what was last in them (0: nothing
   yet).  Appending to a full array moves to one of twice the slots. *)
EXTENDS Integers, Sequences
Slots(n) == [i \in 1..n |-> 0]
Make(n) == [len |-> 0, buf |-> Slots(n)]
Cap(v) == Len(v.buf)
Content(v) == SubSeq(v.buf, 1, v.len)
Move(v, n) == [v EXCEPT !.buf = [i \in 1..n |-> IF i <= v.len THEN v.buf[i] ELSE 0]]
Append1(v, x) ==
  LET w == IF v.len < Cap(v) THEN v ELSE Move(v, IF v.len = 0 THEN 1 ELSE 2 * v.len) IN
  [w EXCEPT !.buf[v.len + 1] = x, !.len = @ + 1]
(* shift the elements from p on up by one, from the last one down *)
RECURSIVE ShiftUp(_, _, _)
ShiftUp(v, i, p) == IF i <= p THEN v ELSE ShiftUp([v EXCEPT !.buf[i + 1] = v.buf[i]], i - 1, p)
InsertAt(v, p, x) ==
  IF p < 0 \/ p > v.len THEN v
  ELSE LET w == Append1(v, x) IN [ShiftUp(w, w.len - 1, p) EXCEPT !.buf[p + 1] = x]
(* the elements from q on are appended to those before p, in the same array *)
RECURSIVE CopyDown(_, _, _)
CopyDown(v, p, q) == IF q >= v.len THEN v ELSE CopyDown([v EXCEPT !.buf[p + 1] = v.buf[q + 1]], p + 1, q + 1)
Erase(v, p, q) ==
  IF p < 0 \/ p > q \/ q > v.len THEN v
  ELSE [CopyDown(v, p, q) EXCEPT !.len = @ - (q - p)]
SetAt(v, p, x) == IF p < 0 \/ p >= v.len THEN v ELSE [v EXCEPT !.buf[p + 1] = x]
PopBack(v) == IF v.len = 0 THEN v ELSE [v EXCEPT !.len = @ - 1]
Reserve(v, n) == IF Cap(v) >= n THEN v ELSE Move(v, n)
ShrinkToFit(v) == IF v.len = Cap(v) THEN v ELSE Move(v, v.len)
Resize(v, n) == IF n < 0 \/ n >= v.len THEN v ELSE [v EXCEPT !.len = n]
Clear(v) == [v EXCEPT !.len = 0]
=============================================================================
