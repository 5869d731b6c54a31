----------------------------- MODULE MC_SkipPtr -----------------------------
(* Every skip list on the keys 1..MaxK with every choice of heights.  Variants
   to refute: "low" takes a node off its lowest chain only, "heads" takes
   the head when nothing follows on a level, "above" gives up when the topmost
   chain starts above the key. *)
EXTENDS SkipPtr, TLCExt
CONSTANTS MaxK, Variant, Emits
VARIABLES g, act
vars == <<g, act>>
Keys == 1..MaxK
view == <<g.next, g.val>>
InOrder == Level(g, 1)
A == INSTANCE Ordered WITH st <- (1 :> [j \in 1..Len(InOrder) |-> <<InOrder[j], g.val[InOrder[j]]>>]), kind <- (1 :> 0), r <- act.r
MInit == g = Empty /\ act = [op |-> "New", a |-> <<0>>, r |-> <<0>>]
Does(op, a, r0) == act' = [op |-> op, a |-> a, r |-> r0]
P(k) == IF Variant = "heads" THEN [i \in 1..Levels |-> IF i > 1 /\ At(g, Find(g, k)[i], i) = Nil THEN 0 ELSE Find(g, k)[i]]
        ELSE Find(g, k)
DoInsert == \E k \in Keys, v \in 1..2, h \in 1..Levels :
              /\ (k \in DOMAIN g.val => h = 1)
              /\ g' = Insert(g, P(k), k, v, h) /\ Does("InsertUnique", <<k, v>>, <<0>>)
Out(k) == IF Variant = "low" /\ At(g, P(k)[1], 1) = k
          THEN [g EXCEPT !.next[P(k)[1]][1] = g.next[k][1]] ELSE Remove(g, P(k), k)
DoRemove == \E k \in Keys : g' = Out(k) /\ Does("RemoveKey", <<k>>, IF k \in DOMAIN g.val THEN <<2, 1>> ELSE <<2, 0>>)
DoGet == \E k \in Keys : UNCHANGED g /\
           LET n == IF Variant = "above" /\ At(g, 0, Levels) > k THEN Nil ELSE Look(g, 0, Levels, k) IN
           Does("Get", <<k>>, IF n = Nil THEN <<-2>> ELSE <<1, g.val[n]>>)
DoKeys == UNCHANGED g /\ Does("Keys", <<>>, <<3>> \o Level(g, 1))
MNext == DoInsert \/ DoRemove \/ DoGet \/ DoKeys
MSpec == MInit /\ [][MNext]_vars
Emit == (Emits => PrintT(<<"E", TLCFP(view), act'.op, 1, act'.a, TLCFP(view')>>)) = TRUE
Sound == WellFormed(g)
Refines == [][LET a == act'.a IN
              CASE act'.op = "InsertUnique" -> A!InsertUnique(1, a[1], a[2])
                [] act'.op = "RemoveKey" -> A!RemoveKey(1, a[1])
                [] act'.op = "Get" -> A!Get(1, a[1])
                [] act'.op = "Keys" -> A!Keys(1)]_vars
=============================================================================
