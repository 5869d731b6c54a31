------------------------------ MODULE MC_VecArr ------------------------------
(* Every vector of up to MaxN elements out of 1..Vals that the calls lead to,
   with every argument from out of range below to out of range above, and its
   copy.  Variants to refute: "overwrite" copies the elements up from the first
   one on, "grow" lengthens the vector when resized within its capacity,
   "nomove" shrinks without the last element, "slack" erases one too few. *)
EXTENDS VecArr, TLC, TLCExt
CONSTANTS MaxN, Vals, MaxCap, Variant, Emits
VARIABLES g, act
vars == <<g, act>>
view == <<Cap(g[1]), Content(g[1])>>   \* nothing is done to the copy
Objs == {1, 3}
V == INSTANCE Vector WITH st <- [o \in Objs |-> Content(g[o])], cap <- [o \in Objs |-> Cap(g[o])], r <- act.r
MInit == g = [o \in Objs |-> Make(0)] /\ act = [op |-> "New", o |-> 1, a |-> <<0>>, r |-> <<0>>]
Does(op, o, a, r0) == act' = [op |-> op, o |-> o, a |-> a, r |-> r0]
To(v) == g' = [g EXCEPT ![1] = v] /\ Cap(v) <= MaxCap
v1 == g[1]
N == v1.len
X == 1..Vals
Pos == -1..(N + 1)
R0 == <<0>>
RECURSIVE ShiftLow(_, _)
ShiftLow(v, i) == IF i >= v.len THEN v ELSE ShiftLow([v EXCEPT !.buf[i + 1] = v.buf[i]], i + 1)
Ins(p, x) == IF Variant = "overwrite" /\ p >= 0 /\ p <= N
             THEN [ShiftLow(Append1(v1, x), p + 1) EXCEPT !.buf[p + 1] = x] ELSE InsertAt(v1, p, x)
Era(p, q) == IF Variant = "slack" /\ p >= 0 /\ p < q /\ q < N THEN Erase(v1, p, q - 1) ELSE Erase(v1, p, q)
DoPut == \E x \in X :
  \/ N < MaxN /\ To(Append1(v1, x)) /\ Does("PushBack", 1, <<x>>, R0)
  \/ \E p \in Pos : /\ N < MaxN \/ p < 0 \/ p > N
                    /\ To(Ins(p, x))
                    /\ (Does("InsertAt", 1, <<p, x>>, R0) \/ Does("Insert", 1, <<p, x>>, <<1, p>>))
  \/ \E p \in Pos : To(SetAt(v1, p, x)) /\ Does("SetAt", 1, <<p, x>>, R0)
DoCut == \/ \E p \in Pos : To(Era(p, p + 1)) /\ (Does("EraseAt", 1, <<p>>, R0) \/ Does("Erase", 1, <<p>>, <<1, p>>))
         \/ \E p \in Pos, q \in Pos : To(Era(p, q)) /\ (Does("EraseIndexRange", 1, <<p, q>>, R0)
                                                        \/ Does("EraseRange", 1, <<p, q>>, <<1, p>>))
         \/ To(PopBack(v1)) /\ Does("PopBack", 1, <<>>, IF N = 0 THEN <<-1>> ELSE <<1, v1.buf[N]>>)
         \/ To(Clear(v1)) /\ Does("Clear", 1, <<>>, R0)
Siz(n) == IF Variant = "grow" /\ n > N /\ n <= Cap(v1) THEN [v1 EXCEPT !.len = n] ELSE Resize(v1, n)
Shr == IF Variant = "nomove" /\ N > 0 /\ N < Cap(v1) THEN Move([v1 EXCEPT !.len = N - 1], N) ELSE ShrinkToFit(v1)
DoRoom == \/ \E n \in 0..MaxCap : To(Reserve(v1, n)) /\ Does("Reserve", 1, <<n>>, R0)
          \/ To(Shr) /\ Does("ShrinkToFit", 1, <<>>, R0)
          \/ \E n \in -1..(N + 1) : To(Siz(n)) /\ Does("Resize", 1, <<n>>, IF n < 0 THEN <<-1>> ELSE R0)
          \/ g' = [g EXCEPT ![3] = g[1]] /\ Does("NewFrom", 3, <<1>>, R0)
Read(p) == IF p >= 0 /\ p < N THEN <<1, v1.buf[p + 1]>> ELSE <<-1>>
DoRead == /\ UNCHANGED g
          /\ \/ \E p \in Pos : Does("At", 1, <<p>>, Read(p))
             \/ Does("Front", 1, <<>>, Read(0))
             \/ Does("Back", 1, <<>>, Read(N - 1))
MNext == DoPut \/ DoCut \/ DoRoom \/ DoRead
MSpec == MInit /\ [][MNext]_vars
Emit == (Emits => PrintT(<<"E", TLCFP(view), act'.op, act'.o, act'.a, TLCFP(view')>>)) = TRUE
Sound == \A o \in Objs : g[o].len <= Cap(g[o]) /\ \A i \in 1..g[o].len : g[o].buf[i] \in X
Refines == [][LET a == act'.a c == Cap(g'[act'.o]) IN
              CASE act'.op = "PushBack" -> V!PushBack(1, a[1], c)
                [] act'.op = "InsertAt" -> V!InsertAt(1, a[1], a[2], c)
                [] act'.op = "Insert" -> V!Insert(1, a[1], a[2], c)
                [] act'.op = "SetAt" -> V!SetAt(1, a[1], a[2], c)
                [] act'.op = "EraseAt" -> V!EraseAt(1, a[1], c)
                [] act'.op = "Erase" -> V!Erase(1, a[1], c)
                [] act'.op = "EraseIndexRange" -> V!EraseIndexRange(1, a[1], a[2], c)
                [] act'.op = "EraseRange" -> V!EraseRange(1, a[1], a[2], c)
                [] act'.op = "PopBack" -> V!PopBack(1, c)
                [] act'.op = "Clear" -> V!Clear(1, c)
                [] act'.op = "Reserve" -> V!Reserve(1, a[1], c)
                [] act'.op = "ShrinkToFit" -> V!ShrinkToFit(1, c)
                [] act'.op = "Resize" -> V!Resize(1, a[1], c)
                [] act'.op = "NewFrom" -> V!NewFrom(3, 1, c)
                [] act'.op = "At" -> V!At(1, a[1], c)
                [] act'.op = "Front" -> V!Front(1, c)
                [] act'.op = "Back" -> V!Back(1, c)]_vars
=============================================================================
