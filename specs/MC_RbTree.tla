------------------------------ MODULE MC_RbTree ------------------------------
(* The red-black tree and the containers made of it.  Explored is every tree of
   up to MaxN nodes that the calls of a container (Flavor) lead to, up to keys
   (Keys = 0: a fresh key for every gap) or with the keys 0..Keys-1: the tree
   stays red-black, stays within its height bound, lookups and steps agree with
   the sorted sequence it stands for, and each call is the one of the sequence
   (Ordered).
   Variant "nofixup" leaves out the repair after a deletion, "leftfirst" inserts
   equal keys before each other, "anynode" erases whichever node with the key
   the descent meets; the properties must refute them. *)
EXTENDS RbTree, TLCExt
CONSTANTS MaxN, Keys, Flavor, Variant, Emits
VARIABLES h, cnt, act
vars == <<h, cnt, act>>
view == <<Shape(h, h.root), IF Keys > 0 THEN [i \in DOMAIN Content(h) |-> Content(h)[i][1]] ELSE <<>>>>
Size == Cardinality(DOMAIN h.p)
A == INSTANCE Ordered WITH st <- (1 :> Content(h)), kind <- (1 :> 0), r <- act.r

OKr == <<0>>
MInit == h = Empty /\ cnt = 0 /\ act = [op |-> "New", a |-> <<0>>, r |-> OKr]
Fresh == CHOOSE n \in 1..(MaxN + 1) : n \notin DOMAIN h.p
S == InOrder(h, h.root)
(* a key for the gap after the i-th entry *)
Gap(i) == LET s == S IN
          IF s = <<>> THEN 1000000 * 512
          ELSE IF i = 0 THEN h.key[s[1]] - 32768
          ELSE IF i = Len(s) THEN h.key[s[i]] + 32768
          ELSE (h.key[s[i]] + h.key[s[i + 1]]) \div 2
NewKeys == IF Keys > 0 THEN 0..(Keys - 1) ELSE {Gap(i) : i \in 0..Size}
OldKeys == IF Keys > 0 THEN 0..(Keys - 1) ELSE {h.key[n] : n \in DOMAIN h.p}
NewVal == IF Flavor \in {"set", "multiset"} THEN 0 ELSE cnt + 1
Does(op, a, r0) == act' = [op |-> op, a |-> a, r |-> r0] /\ cnt' = cnt + 1

Put(k) == Insert(h, Fresh, IF Variant = "leftfirst" /\ \E n \in DOMAIN h.p : h.key[n] = k THEN k - 1 ELSE k, NewVal)
DoInsertMulti == /\ Flavor \in {"rbtree", "multimap", "multiset"} /\ Size < MaxN
                 /\ \E k \in NewKeys : h' = Put(k) /\ Does("InsertMulti", <<k, NewVal>>, OKr)
(* first look for the key; a node found is given the new value *)
FirstNode(k) == LET n == LowerNode(h, h.root, k) IN IF n # Nil /\ h.key[n] = k THEN n ELSE Nil
RECURSIVE AnyNode(_, _)
AnyNode(k, n) == IF n = Nil \/ h.key[n] = k THEN n ELSE AnyNode(k, IF k < h.key[n] THEN h.l[n] ELSE h.r[n])
TheNode(k) == IF Variant = "anynode" THEN AnyNode(k, h.root) ELSE FirstNode(k)
DoInsertUnique == /\ Flavor \in {"map", "set"}
                  /\ \E k \in NewKeys :
                       LET n == FirstNode(k) IN
                       /\ (n = Nil => Size < MaxN) = TRUE
                       /\ h' = IF n = Nil THEN Put(k) ELSE [h EXCEPT !.val[n] = NewVal]
                       /\ Does("InsertUnique", <<k, NewVal>>, OKr)
Del(g, z) == IF Variant = "nofixup" /\ (g.l[z] = Nil \/ g.r[z] = Nil)
             THEN LET x == IF g.l[z] # Nil THEN g.l[z] ELSE g.r[z]
                      h1 == Replace(SetP(g, x, g.p[z]), z, x)
                  IN [root |-> h1.root, p |-> Drop(h1.p, z), l |-> Drop(h1.l, z), r |-> Drop(h1.r, z),
                      red |-> Drop(h1.red, z), key |-> Drop(h1.key, z), val |-> Drop(h1.val, z)]
             ELSE Delete(g, z)
DoEraseAt == /\ Flavor \in {"rbtree", "map"} /\ Size > 0
             /\ \E i \in 0..(Size - 1) : h' = Del(h, S[i + 1]) /\ Does("EraseAt", <<i>>, OKr)
DoEraseFirst == /\ Flavor \in {"rbtree", "map", "set", "multiset"}
                /\ \E k \in OldKeys : /\ h' = IF TheNode(k) = Nil THEN h ELSE Del(h, TheNode(k))
                                      /\ Does("EraseFirst", <<k>>, OKr)
(* as long as there is one, the first node with the key goes *)
RECURSIVE DelAll(_, _)
DelAll(g, k) == LET n == LowerNode(g, g.root, k) IN
                IF n = Nil \/ g.key[n] # k THEN g ELSE DelAll(Del(g, n), k)
DoEraseAll == /\ Flavor \in {"multimap", "multiset"}
              /\ \E k \in OldKeys : h' = DelAll(h, k) /\ Does("EraseAll", <<k>>, OKr)
DoClear == Size > 0 /\ h' = Empty /\ Does("Clear", <<>>, OKr)
Entry(n) == IF n = Nil THEN <<-2>> ELSE <<4, h.key[n], h.val[n]>>
DoRead == /\ Keys > 0 /\ UNCHANGED h
          /\ \E k \in -1..Keys :
               \/ Does("LowerBound", <<k>>, Entry(LowerNode(h, h.root, k)))
               \/ Does("UpperBound", <<k>>, Entry(UpperNode(h, h.root, k)))
               \/ Does("Find", <<k>>, Entry(FirstNode(k)))
               \/ /\ Flavor # "rbtree" /\ k >= 0
                  /\ \/ Does("StepFrom", <<k, 1>>, Entry(IF FirstNode(k) = Nil THEN Nil ELSE Successor(h, FirstNode(k))))
                     \/ Does("StepFrom", <<k, -1>>, Entry(IF FirstNode(k) = Nil THEN Nil ELSE Predecessor(h, FirstNode(k))))
MNext == DoInsertMulti \/ DoInsertUnique \/ DoEraseAt \/ DoEraseFirst \/ DoEraseAll \/ DoClear \/ DoRead
MSpec == MInit /\ [][MNext]_vars
Emit == (Emits => PrintT(<<"E", TLCFP(view), act'.op, 1, act'.a, TLCFP(view')>>)) = TRUE

RedBlack == IsRedBlack(h)
Pointers == ParentsOK(h)
Balanced == HeightBound(h)
InOrderSorted == Sorted(h)
(* lookups and steps against the sequence *)
At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE Nil
Lookups == LET s == S IN
  /\ \A i \in 1..Len(s) : Successor(h, s[i]) = At(s, i + 1) /\ Predecessor(h, s[i]) = At(s, i - 1)
  /\ \A i \in 1..Len(s) : \A d \in {-1, 0, 1} :
       LET k == h.key[s[i]] + d
           lb == Cardinality({j \in 1..Len(s) : h.key[s[j]] < k})
           ub == Cardinality({j \in 1..Len(s) : h.key[s[j]] <= k})
       IN LowerNode(h, h.root, k) = At(s, lb + 1) /\ UpperNode(h, h.root, k) = At(s, ub + 1)
(* each call is the call of the abstract container *)
Refines == [][LET a == act'.a IN
              CASE act'.op = "InsertMulti" -> A!InsertMulti(1, a[1], a[2])
                [] act'.op = "InsertUnique" -> A!InsertUnique(1, a[1], a[2])
                [] act'.op = "EraseAt" -> A!EraseAt(1, a[1])
                [] act'.op = "EraseFirst" -> A!EraseFirst(1, a[1])
                [] act'.op = "EraseAll" -> A!EraseAll(1, a[1])
                [] act'.op = "Clear" -> A!Clear(1)
                [] act'.op = "LowerBound" -> A!LowerBound(1, a[1])
                [] act'.op = "UpperBound" -> A!UpperBound(1, a[1])
                [] act'.op = "Find" -> A!Find(1, a[1])
                [] act'.op = "StepFrom" -> A!StepFrom(1, a[1], a[2])]_vars
=============================================================================
