----------------------------- MODULE MC_HeapArr -----------------------------
(* Every heap of up to MaxN elements with keys 0..Keys-1 that the calls lead to,
   for the heap package (Kind "heap": elements are compared by key; arrays of up
   to MaxInit elements are made heaps) and for the priority queue (Kind "pq":
   by key, then by the order they were pushed in).  Elements are 1000*key+tag.
   Variants to refute: "noup" removes without moving up, "downall" lets the
   element just removed take part, "unstable" ignores the order of pushing. *)
EXTENDS Integers, Sequences, TLC, TLCExt
CONSTANTS MaxN, Keys, MaxInit, Kind, Variant, Emits
VARIABLES s, raw, cnt, act
vars == <<s, raw, cnt, act>>
K(x) == x \div 1000
Less(x, y) == IF Kind = "pq" /\ Variant # "unstable" THEN x < y ELSE K(x) < K(y)
H == INSTANCE HeapArr WITH Lt <- Less
P == INSTANCE HeapPkg WITH st <- (1 :> s), r <- act.r
(* the queue's contents in the order they were pushed *)
Oldest == LET tags == {x % 1000 : x \in {s[i] : i \in 1..Len(s)}} IN
          [i \in 1..Len(s) |-> CHOOSE x \in {s[j] : j \in 1..Len(s)} : Len(SelectSeq(s, LAMBDA y : y % 1000 < x % 1000)) = i - 1]
Q == INSTANCE Adaptors WITH st <- (1 :> Oldest), kind <- (1 :> 0), r <- act.r
Rank(x) == Len(SelectSeq(s, LAMBDA y : y % 1000 < x % 1000))
view == <<raw, [i \in 1..Len(s) |-> IF Kind = "pq" THEN <<K(s[i]), Rank(s[i])>> ELSE K(s[i])]>>
MInit == s = <<>> /\ raw = FALSE /\ cnt = 0 /\ act = [op |-> "New", a |-> <<0>>, r |-> <<0>>]
OKr == <<0>>
Does(op, a, r0) == act' = [op |-> op, a |-> a, r |-> r0] /\ cnt' = cnt + 1
Key == 0..(Keys - 1)
Last(t) == t[Len(t)]
DoPush == /\ ~raw /\ Len(s) < MaxN /\ UNCHANGED raw
          /\ \E k \in Key : LET x == 1000 * k + cnt + 1 IN s' = H!Push(s, x) /\ Does("Push", <<x>>, OKr)
DoPop == /\ ~raw /\ s # <<>> /\ UNCHANGED raw
         /\ LET t == IF Variant = "downall" THEN H!Down(H!Swap0(s, 0, Len(s) - 1), 0, Len(s)) ELSE H!PopMove(s) IN
            s' = H!Shorter(t) /\ Does(IF Kind = "pq" THEN "PPop" ELSE "Pop", <<>>, <<1, Last(t)>>)
DoRemove == /\ Kind = "heap" /\ ~raw /\ s # <<>> /\ UNCHANGED raw
            /\ \E i \in 0..(Len(s) - 1) :
                 LET n == Len(s) - 1
                     t == IF Variant = "noup" THEN H!Down(H!Swap0(s, i, n), i, n) ELSE H!RemoveMove(s, i) IN
                 s' = H!Shorter(t) /\ Does("Remove", <<i>>, <<1, Last(t)>>)
DoFix == /\ Kind = "heap" /\ ~raw /\ UNCHANGED raw
         /\ \E i \in 0..(Len(s) - 1), k \in Key :
              LET x == 1000 * k + cnt + 1 IN
              s' = H!Fix(H!Put0(s, i, x), i) /\ Does("Fix", <<i, x>>, OKr)
RECURSIVE Arrays(_)
Arrays(n) == IF n = 0 THEN {<<>>} ELSE {Append(a, k) : a \in Arrays(n - 1), k \in Key}
DoLoad == /\ Kind = "heap" /\ cnt = 0 /\ raw' = TRUE
          /\ \E n \in 2..MaxInit : \E a \in Arrays(n) :
               LET t == [i \in 1..n |-> 1000 * a[i] + i] IN s' = t /\ Does("New", t, OKr)
DoInit == raw /\ raw' = FALSE /\ s' = H!MakeHeap(s) /\ Does("HInit", <<>>, OKr)
DoTop == /\ Kind = "pq" /\ UNCHANGED <<s, raw>>
         /\ Does("PTop", <<>>, IF s = <<>> THEN <<-1>> ELSE <<1, s[1]>>)
RECURSIVE Order(_)
Order(t) == IF t = <<>> THEN <<>> ELSE LET u == H!PopMove(t) IN <<Last(u)>> \o Order(H!Shorter(u))
DoDrain == /\ Kind = "pq" /\ s # <<>> /\ UNCHANGED raw
           /\ s' = <<>> /\ Does("PDrain", <<>>, <<3>> \o Order(s))
MNext == DoPush \/ DoPop \/ DoRemove \/ DoFix \/ DoLoad \/ DoInit \/ DoTop \/ DoDrain
MSpec == MInit /\ [][MNext]_vars
Emit == (Emits => PrintT(<<"E", TLCFP(view), act'.op, 1, act'.a, TLCFP(view')>>)) = TRUE
HeapOrder == raw \/ H!IsHeap(s)
Refines == [][LET a == act'.a IN
              CASE act'.op = "New" -> TRUE
                [] act'.op = "HInit" -> P!HInit(1, s')
                [] act'.op = "Pop" -> P!Pop(1, s')
                [] act'.op = "Remove" -> P!Remove(1, a[1], s')
                [] act'.op = "Fix" -> P!Fix(1, a[1], a[2], s')
                [] act'.op = "PPop" -> Q!PPop(1)
                [] act'.op = "PTop" -> Q!PTop(1)
                [] act'.op = "PDrain" -> Q!PDrain(1)
                [] act'.op = "Push" -> IF Kind = "pq" THEN Q!Push(1, a[1]) ELSE P!Push(1, a[1], s')]_vars
=============================================================================
