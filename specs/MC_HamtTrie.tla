---------------------------- MODULE MC_HamtTrie ----------------------------
(* Every trie over the keys Univ, up to the values: well placed and compact, and
   each call is the call of the abstract map.  Variants to refute: "lose" keeps
   only the newest entry of a leaf that is pushed down, "collapse" also pulls up
   an inner node's only inner child, "chain" unlinks the rest of a leaf's list
   with the entry erased. *)
EXTENDS HamtTrie, TLCExt
CONSTANTS Univ, Variant, Emits
VARIABLES root, cnt, act
vars == <<root, cnt, act>>
RECURSIVE Strip(_)
Strip(n) == IF n.leaf THEN [i \in DOMAIN n.list |-> n.list[i][1]]
            ELSE <<n.bits, [i \in DOMAIN n.kids |-> Strip(n.kids[i])]>>
view == Strip(root)
Pairs == Walk(root)
Map == LET p == TLCEval(Pairs) IN TLCEval([k \in {p[i][1] : i \in DOMAIN p} |-> p[CHOOSE i \in DOMAIN p : p[i][1] = k][2]])
A == INSTANCE Hamt WITH st <- (1 :> Map), r <- act.r
MInit == root = EmptyNode /\ cnt = 0 /\ act = [op |-> "New", a |-> <<0>>, r |-> <<0>>]
Does(op, a, r0) == act' = [op |-> op, a |-> a, r |-> r0] /\ cnt' = cnt + 1

RECURSIVE BadInsert(_, _, _), BadErase(_, _, _)
BadInsert(n, depth, list) ==
  LET pos == Chunk(list[1][1], depth) i == Index(n, pos) IN
  IF pos \in n.bits /\ ~n.kids[i].leaf THEN [n EXCEPT !.kids[i] = BadInsert(n.kids[i], depth + 1, list)]
  ELSE IF pos \in n.bits /\ ~SameHash(HashKey(n.kids[i]), list[1][1])
  THEN [n EXCEPT !.kids[i] = Insert(Insert(EmptyNode, depth + 1, Prefix(n.kids[i].list, 1)), depth + 1, list)]
  ELSE Insert(n, depth, list)
BadErase(n, depth, k) ==
  LET pos == Chunk(k, depth) i == Index(n, pos) IN
  IF pos \in n.bits /\ ~n.kids[i].leaf
  THEN LET f == BadErase(n.kids[i], depth + 1, k) IN
       IF f # n.kids[i] /\ Len(f.kids) = 1 /\ (f.kids[1].leaf \/ Variant = "collapse")
       THEN [n EXCEPT !.kids[i] = f.kids[1]] ELSE [n EXCEPT !.kids[i] = f]
  ELSE IF pos \in n.bits /\ Variant = "chain" /\ \E j \in DOMAIN n.kids[i].list : j > 1 /\ n.kids[i].list[j][1] = k
  THEN [n EXCEPT !.kids[i].list = Prefix(@, (CHOOSE j \in DOMAIN @ : @[j][1] = k) - 1)]
  ELSE Erase(n, depth, k)
DoInsert == \E k \in Univ : /\ root' = IF Variant = "lose" THEN BadInsert(root, 0, <<<<k, cnt + 1>>>>)
                                       ELSE Insert(root, 0, <<<<k, cnt + 1>>>>)
                            /\ Does("Insert", <<k, cnt + 1>>, <<0>>)
DoErase == \E k \in Univ : /\ root' = IF Variant \in {"collapse", "chain"} THEN BadErase(root, 0, k) ELSE Erase(root, 0, k)
                           /\ Does("Erase", <<k>>, <<2, IF Find(root, 0, k) # <<>> THEN 1 ELSE 0>>)
MNext == DoInsert \/ DoErase
MSpec == MInit /\ [][MNext]_vars
Emit == (Emits => PrintT(<<"E", TLCFP(view), act'.op, 1, act'.a, TLCFP(view')>>)) = TRUE
WellPlaced == Placed(root, 0, <<>>)
IsCompact == Compact(root, TRUE)
Lookups == LET m == Map IN \A k \in Univ : Find(root, 0, k) = IF k \in DOMAIN m THEN <<m[k]>> ELSE <<>>
NoDoubles == LET p == Pairs IN Cardinality({p[i][1] : i \in DOMAIN p}) = Len(p)
Refines == [][LET a == act'.a IN
              CASE act'.op = "Insert" -> A!Insert(1, a[1], a[2]) [] act'.op = "Erase" -> A!Erase(1, a[1])]_vars
=============================================================================
