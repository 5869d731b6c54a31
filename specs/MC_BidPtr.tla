----------------------------- MODULE MC_BidPtr -----------------------------
(* Every arrangement of up to MaxN nodes, created by the caller, on two lists or
   on none: the chains stay circular and lengths and owners agree with them, and
   each call is the call of the abstract lists.  Variants to refute: "corner"
   forgets that the node after the last is the first when moving the head after
   the last node, "keepowner" leaves a removed node its owner, "stalehead" does
   not advance the head when the head node moves to the back. *)
EXTENDS BidPtr, TLCExt
CONSTANTS MaxN, Variant, Emits
VARIABLES g, act
vars == <<g, act>>
Lists == {1, 2}
view == [g EXCEPT !.val = Len(g.val)]
A == INSTANCE BidList WITH st <- [o \in Lists |-> NodesOf(g, o)], val <- g.val, own <- g.own, r <- act.r
MInit == g = Memory(Lists) /\ act = [op |-> "New", o |-> 1, a |-> <<>>, r |-> <<0>>]
Does(op, o, a, r0) == act' = [op |-> op, o |-> o, a |-> a, r |-> r0]
OKr == <<0>>
N == Len(g.val)
X == N + 101
V(n) == <<1, n>>
H(n) == IF n = Nil THEN <<-2>> ELSE V(n)

Rm(o, n) == IF Variant = "keepowner" THEN [Remove(g, o, n) EXCEPT !.own[n] = g.own[n]] ELSE Remove(g, o, n)
MvAfter(o, n, m) == IF Variant = "corner" /\ g.own[n] = o /\ g.own[m] = o THEN MoveTo(g, o, n, m) ELSE MoveAfter(g, o, n, m)
MvBack(o, n) == IF Variant = "stalehead" /\ g.own[n] = o /\ g.len[o] > 1 /\ g.head[o] = n THEN g ELSE MoveToBack(g, o, n)
DoPush == N < MaxN /\ \E o \in Lists : \/ g' = PushBack(g, o, X) /\ Does("PushBack", o, <<X>>, OKr)
                                       \/ g' = PushFront(g, o, X) /\ Does("PushFront", o, <<X>>, OKr)
DoInsert == N < MaxN /\ \E o \in Lists, n \in 1..N :
              \/ g' = InsertAfter(g, o, X, n) /\ Does("InsertAfter", o, <<X, n>>, IF g.own[n] = o THEN V(N + 1) ELSE H(Nil))
              \/ g' = InsertBefore(g, o, X, n) /\ Does("InsertBefore", o, <<X, n>>, IF g.own[n] = o THEN V(N + 1) ELSE H(Nil))
DoRemove == \E o \in Lists :
              \/ \E n \in 1..N : g' = Rm(o, n) /\ Does("Remove", o, <<n>>, V(g.val[n]))
              \/ /\ g.len[o] > 0
                 /\ \/ g' = Take(g, o, g.head[o]) /\ Does("PopFront", o, <<>>, V(g.val[g.head[o]]))
                    \/ g' = Take(g, o, Back(g, o)) /\ Does("PopBack", o, <<>>, V(g.val[Back(g, o)]))
                    \/ g' = Clear(g, o) /\ Does("Clear", o, <<>>, OKr)
DoMove == \E o \in Lists, n \in 1..N :
            \/ g' = MoveToFront(g, o, n) /\ Does("MoveToFront", o, <<n>>, OKr)
            \/ g' = MvBack(o, n) /\ Does("MoveToBack", o, <<n>>, OKr)
            \/ \E m \in 1..N : g' = MvAfter(o, n, m) /\ Does("MoveAfter", o, <<n, m>>, OKr)
(* new nodes are numbered by position: those pushed to the front one by one come
   out in the opposite order, and are renumbered *)
Renumber(h, from) == LET n == Len(h.val)
                         m(x) == IF x > from THEN n + from + 1 - x ELSE x
                         mv(f) == [x \in 1..n |-> m(f[m(x)])]
                     IN [h EXCEPT !.head = [o \in Lists |-> m(h.head[o])], !.next = mv(h.next), !.prev = mv(h.prev),
                                  !.own = [x \in 1..n |-> h.own[m(x)]], !.val = [x \in 1..n |-> h.val[m(x)]]]
DoCopy == \E o, q \in Lists : /\ N + g.len[q] <= MaxN /\ g.len[q] > 0
                              /\ \/ g' = PushBackList(g, o, q) /\ Does("PushBackList", o, <<q>>, OKr)
                                 \/ g' = Renumber(PushFrontList(g, o, q), N) /\ Does("PushFrontList", o, <<q>>, OKr)
DoRead == \E n \in 1..N : /\ UNCHANGED g
                          /\ \/ Does("NodeNext", 1, <<n>>, H(NextOf(g, n)))
                             \/ Does("NodePrev", 1, <<n>>, H(PrevOf(g, n)))
MNext == DoPush \/ DoInsert \/ DoRemove \/ DoMove \/ DoCopy \/ DoRead
MSpec == MInit /\ [][MNext]_vars
Emit == (Emits => PrintT(<<"E", TLCFP(view), act'.op, act'.o, act'.a, TLCFP(view')>>)) = TRUE
WellFormed == Circular(g) /\ Alone(g) /\ HeadsOK(g) /\ LensOK(g)
Refines == [][LET a == act'.a o == act'.o IN
              CASE act'.op = "PushBack" -> A!PushBack(o, a[1])
                [] act'.op = "PushFront" -> A!PushFront(o, a[1])
                [] act'.op = "InsertAfter" -> A!InsertAfter(o, a[1], a[2])
                [] act'.op = "InsertBefore" -> A!InsertBefore(o, a[1], a[2])
                [] act'.op = "Remove" -> A!Remove(o, a[1])
                [] act'.op = "PopFront" -> A!PopFront(o)
                [] act'.op = "PopBack" -> A!PopBack(o)
                [] act'.op = "Clear" -> A!Clear(o)
                [] act'.op = "MoveToFront" -> A!MoveToFront(o, a[1])
                [] act'.op = "MoveToBack" -> A!MoveToBack(o, a[1])
                [] act'.op = "MoveAfter" -> A!MoveAfter(o, a[1], a[2])
                [] act'.op = "PushBackList" -> A!PushBackList(o, a[1])
                [] act'.op = "PushFrontList" -> A!PushFrontList(o, a[1])
                [] act'.op = "NodeNext" -> A!NodeNext(a[1])
                [] act'.op = "NodePrev" -> A!NodePrev(a[1])]_vars
=============================================================================
