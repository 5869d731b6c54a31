---------------------------- MODULE MC_DequeSegs ----------------------------
(* Every layout of the deque's ring of segments with up to MaxN values, up to
   the values: the layout stays well formed and each call is the call of the
   abstract sequence.  One value of the model stands for Unit values of the real
   deque, Cap * Unit being its segment capacity.
   Variants the properties must refute: "nowrap" resizes the ring as if it never
   wrapped, "keepempty" leaves an emptied segment in the ring. *)
EXTENDS DequeSegs, TLCExt
CONSTANTS MaxN, MaxSlots, Unit, Variant, Emits
VARIABLES d, cnt, act
vars == <<d, cnt, act>>
view == [d EXCEPT !.slots = [i \in DOMAIN d.slots |-> IF d.slots[i] = Nil THEN -1 ELSE Len(d.slots[i])]]
Seq0 == Content(d)
A == INSTANCE Deque WITH st <- (1 :> Content(d)), r <- act.r

OKr == <<0>>
MInit == d = Fresh /\ cnt = 0 /\ act = [op |-> "New", a |-> <<>>, r |-> OKr]
Does(op, a, r0) == act' = [op |-> op, a |-> a, r |-> r0] /\ cnt' = cnt + 1
X == cnt + 1
Bug(e) == IF Variant = "nowrap" /\ Slots(e) # Slots(d) /\ d.end <= d.begin /\ d.size > 0
          THEN [e EXCEPT !.slots = [i \in DOMAIN e.slots |-> IF i <= Slots(d) THEN d.slots[i] ELSE Nil]]
          ELSE IF Variant = "keepempty" /\ Used(e) < Used(d) /\ e.begin = d.begin
          THEN Put([e EXCEPT !.end = Next(e, e.end)], e.end, <<>>) ELSE e
To(e) == d' = Bug(e) /\ Slots(e) <= MaxSlots
DoPush == d.size < MaxN /\ \/ To(PushFront(d, X)) /\ Does("PushFront", <<X>>, OKr)
                           \/ To(PushBack(d, X)) /\ Does("PushBack", <<X>>, OKr)
DoPop == d.size > 0 /\ \/ To(PopFront(d)) /\ Does("PopFront", <<>>, <<1, FirstSeg(d)[1]>>)
                       \/ To(PopBack(d)) /\ Does("PopBack", <<>>, <<1, LastSeg(d)[Len(LastSeg(d))]>>)
DoInsert == d.size < MaxN /\ \E p \in 0..d.size : To(Insert(d, p, X)) /\ Does("Insert", <<p, X>>, OKr)
DoErase == \E p \in 0..(d.size - 1) :
             \/ To(EraseAt(d, p)) /\ Does("EraseAt", <<p>>, OKr)
             \/ \E q \in ({p + 2, p + 3, p + Cap + 2, d.size} \cap (p + 2)..d.size) : To(EraseRange(d, p, q)) /\ Does("EraseRange", <<p, q>>, OKr)
MNext == DoPush \/ DoPop \/ DoInsert \/ DoErase
MSpec == MInit /\ [][MNext]_vars
(* the calls made on the real deque *)
Real(a) == LET x == a.a IN
  CASE a.op \in {"PushFront", "PushBack"} -> <<a.op \o "N", <<x[1] * Unit, Unit>>>>
    [] a.op \in {"PopFront", "PopBack"} -> <<a.op \o "N", <<Unit>>>>
    [] a.op = "Insert" -> <<"InsertN", <<x[1] * Unit, x[2] * Unit, Unit>>>>
    [] a.op = "EraseAt" -> <<"EraseAtN", <<x[1] * Unit, Unit>>>>
    [] a.op = "EraseRange" -> <<a.op, <<x[1] * Unit, x[2] * Unit>>>>
Emit == (Emits => PrintT(<<"E", TLCFP(view), Real(act')[1], 1, Real(act')[2], TLCFP(view')>>)) = TRUE

WellFormed == SlotsOK(d) /\ SegsOK(d) /\ SizeOK(d) /\ RoomOK(d)
Refines == [][LET a == act'.a IN
              CASE act'.op = "PushFront" -> A!PushFront(1, a[1])
                [] act'.op = "PushBack" -> A!PushBack(1, a[1])
                [] act'.op = "PopFront" -> A!PopFront(1)
                [] act'.op = "PopBack" -> A!PopBack(1)
                [] act'.op = "Insert" -> A!Insert(1, a[1], a[2])
                [] act'.op = "EraseAt" -> A!EraseAt(1, a[1])
                [] act'.op = "EraseRange" -> A!EraseRange(1, a[1], a[2])]_vars
=============================================================================
