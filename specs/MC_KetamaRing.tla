---------------------------- MODULE MC_KetamaRing ----------------------------
(* Every way to give Nodes nodes their positions on a ring of Points (Reps each,
   no position belonging to two nodes), every sequence of additions and removals
   of one or two nodes; keys at every position and after the last.  Variants to
   refute: "nowrap" sends what follows the last position to the last node,
   "after" looks only after the key's own position, "first" removes a node's
   first position only, "others" removes whatever comes next as well. *)
EXTENDS KetamaRing, TLCExt
CONSTANTS Nodes, Points, Reps, Variant, Emits
VARIABLES pts, pref, ring, inn, act
vars == <<pts, pref, ring, inn, act>>
All == 1..Nodes
Hs == 1..(Points + 1)
R0 == INSTANCE Ring WITH pref <- <<>>, nodes <- <<>>, r <- <<>>
R == INSTANCE Ring WITH pref <- pref, nodes <- (1 :> inn), r <- act.r
Assign == {f \in [All -> [1..Reps -> 1..Points]] :
             \A a \in All, b \in All : a # b => R0!Range(f[a]) \cap R0!Range(f[b]) = {}}
MInit == pts \in TLCEval(Assign) /\ pref = [h \in Hs |-> R0!PrefOf(pts, All, h)] /\ ring = <<>> /\ inn = {} /\ act = [op |-> "New", a |-> <<>>, r |-> <<0>>]
Does(op, a, r0) == act' = [op |-> op, a |-> a, r |-> r0] /\ UNCHANGED <<pts, pref>>
Lists == {<<a>> : a \in All} \cup {<<a, b>> : a, b \in All} \cup {<<>>}
view == <<pts, ring, inn>>
MAdd(ns) == AddAll(ring, pts, ns, 1)
MRemove(ns) ==
  IF ns = <<>> THEN ring ELSE
  CASE Variant = "first" -> Take(ring, <<pts[ns[1]][1]>>, ns[1], 1)
    [] Variant = "others" /\ DOMAIN ring # {} /\ inn # {} ->
         LET x == RemoveAll(ring, pts, ns, 1) up == SelectSeq(Sorted(x), LAMBDA p : p > pts[ns[1]][1]) IN
         IF up = <<>> \/ ns[1] \notin inn THEN x ELSE Drop(x, up[1])
    [] OTHER -> RemoveAll(ring, pts, ns, 1)
MGet(h) == IF Variant = "nowrap" /\ DOMAIN ring # {} /\ \A p \in DOMAIN ring : p < h THEN ring[Sorted(ring)[Len(Sorted(ring))]]
           ELSE IF Variant = "after" THEN Get(ring, h + 1) ELSE Get(ring, h)
MNext == \E ns \in Lists : \/ ring' = MAdd(ns) /\ inn' = inn \cup R0!Range(ns) /\ Does("Add", ns, <<0>>)
                           \/ ring' = MRemove(ns) /\ inn' = inn \ R0!Range(ns) /\ Does("Remove", ns, <<0>>)
MSpec == MInit /\ [][MNext]_vars
Emit == (Emits => PrintT(<<"E", TLCFP(inn), act'.op, 1, act'.a, TLCFP(inn')>>)) = TRUE
(* a node present holds all its positions, others none; every key goes where the
   ring's specification sends it *)
Holds == \A n \in All : {p \in DOMAIN ring : ring[p] = n} = (IF n \in inn THEN R0!Range(pts[n]) ELSE {})
Sends == \A h \in Hs : LET n == MGet(h) IN R!Get(inn, h) = (IF n = 0 THEN <<-2>> ELSE <<1, n>>)
Refines == [][CASE act'.op = "Add" -> R!Add(1, act'.a)
                [] act'.op = "Remove" -> R!Remove(1, act'.a)]_vars
=============================================================================
