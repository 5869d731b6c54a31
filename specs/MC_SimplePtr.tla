---------------------------- MODULE MC_SimplePtr ----------------------------
(* Every arrangement of up to MaxN nodes on two singly linked lists or on none:
   chains, ends, lengths and owners agree, and each call is the call of the
   abstract lists.  Variants to refute: "keeptail" does not move the last node
   when it is unlinked, "noinsertail" does not notice an insertion at the end,
   "anypre" moves a node to the front whatever the predecessor given. *)
EXTENDS SimplePtr, TLCExt
CONSTANTS MaxN, Variant, Emits
VARIABLES g, act
vars == <<g, act>>
Lists == {1, 2}
view == [g EXCEPT !.val = Len(g.val), !.next = [n \in DOMAIN g.next |-> IF g.own[n] = Nil THEN Nil ELSE g.next[n]]]
A == INSTANCE SimpleList WITH st <- [o \in Lists |-> NodesOf(g, o)], val <- g.val, own <- g.own, r <- act.r
MInit == g = Memory(Lists) /\ act = [op |-> "New", o |-> 1, a |-> <<>>, r |-> <<0>>]
Does(op, o, a, r0) == act' = [op |-> op, o |-> o, a |-> a, r |-> r0]
OKr == <<0>>
N == Len(g.val)
X == N + 101
V(n) == <<1, n>>
H(n) == IF n = Nil THEN <<-2>> ELSE V(n)
OnList(o) == Range(NodesOf(g, o))
PreOf(o, n) == LET s == NodesOf(g, o) i == CHOOSE j \in 1..Len(s) : s[j] = n IN IF i = 1 THEN Nil ELSE s[i - 1]
Rm(o, p, n) == IF Variant = "keeptail" /\ p # Nil THEN [Remove(g, o, p, n) EXCEPT !.tail[o] = g.tail[o]] ELSE Remove(g, o, p, n)
Ins(o, m) == IF Variant = "noinserttail" THEN [InsertAfter(g, o, X, m) EXCEPT !.tail[o] = g.tail[o]] ELSE InsertAfter(g, o, X, m)
MvFront(o, p, n) == IF Variant = "anypre" /\ p # Nil /\ g.len[o] > 1
                    THEN LET h == Unlink(g, o, p, n) IN [h EXCEPT !.next[n] = h.head[o], !.head[o] = n]
                    ELSE MoveToFront(g, o, p, n)
DoPush == N < MaxN /\ \E o \in Lists : \/ g' = PushBack(g, o, X) /\ Does("PushBack", o, <<X>>, OKr)
                                       \/ g' = PushFront(g, o, X) /\ Does("PushFront", o, <<X>>, OKr)
DoInsert == N < MaxN /\ \E o \in Lists, m \in 1..N :
              IF g.own[m] = o THEN g' = Ins(o, m) /\ Does("InsertAfter", o, <<X, m>>, V(N + 1))
              ELSE UNCHANGED g /\ Does("InsertAfter", o, <<X, m>>, H(Nil))
DoRemove == \E o \in Lists : \E n \in OnList(o) : g' = Rm(o, PreOf(o, n), n) /\ Does("Remove", o, <<PreOf(o, n), n>>, V(g.val[n]))
DoMove == \E o \in Lists : \E n \in OnList(o) :
            \/ \E p \in OnList(o) \cup {Nil} : g' = MvFront(o, p, n) /\ Does("MoveToFront", o, <<p, n>>, OKr)
            \/ g' = MoveToBack(g, o, PreOf(o, n), n) /\ Does("MoveToBack", o, <<PreOf(o, n), n>>, OKr)
DoRead == UNCHANGED g /\ \E o \in Lists :
            \/ Does("FrontNode", o, <<>>, H(g.head[o]))
            \/ Does("BackNode", o, <<>>, H(g.tail[o]))
            \/ \E n \in OnList(o) : Does("NodeNext", o, <<n>>, H(g.next[n]))
MNext == DoPush \/ DoInsert \/ DoRemove \/ DoMove \/ DoRead
MSpec == MInit /\ [][MNext]_vars
Emit == (Emits => PrintT(<<"E", TLCFP(view), act'.op, act'.o, act'.a, TLCFP(view')>>)) = TRUE
Sound == WellFormed(g)
Refines == [][LET a == act'.a o == act'.o IN
              CASE act'.op = "PushBack" -> A!PushBack(o, a[1])
                [] act'.op = "PushFront" -> A!PushFront(o, a[1])
                [] act'.op = "InsertAfter" -> A!InsertAfter(o, a[1], a[2])
                [] act'.op = "Remove" -> A!SRemove(o, a[1], a[2])
                [] act'.op = "MoveToFront" -> A!SMoveToFront(o, a[1], a[2])
                [] act'.op = "MoveToBack" -> A!SMoveToBack(o, a[1], a[2])
                [] act'.op = "FrontNode" -> A!FrontNode(o)
                [] act'.op = "BackNode" -> A!BackNode(o)
                [] act'.op = "NodeNext" -> A!NodeNext(a[1])]_vars
=============================================================================
