---------------------------- MODULE SimpleList -----------------------------
(* Singly linked lists.  Calls that unlink a node are given its predecessor. *)
EXTENDS BidList
(* p = 0 stands for nil.  Pre(o, n): the true predecessor, 0 for the front *)
Pre(o, n) == LET i == Pos(st[o], n) IN IF i = 1 THEN 0 ELSE st[o][i - 1]
SRemove(o, p, n) == IF n = 0 THEN r' = Val(0) /\ NoChange
                    ELSE r' = Val(val[n]) /\ own[n] = o /\ p = Pre(o, n) /\ Take(o, n)
(* a predecessor that is not one leaves the list as it is *)
SMoveToFront(o, p, n) == r' = OK /\ IF n = 0 \/ p = 0 THEN NoChange
                                    ELSE IF p # Pre(o, n) THEN NoChange
                                    ELSE Order(o, <<n>> \o Without(st[o], n))
SMoveToBack(o, p, n)  == r' = OK /\ IF n = 0 THEN NoChange
                                    ELSE p = Pre(o, n) /\ Order(o, Without(st[o], n) \o <<n>>)
SObs(o) == NoChange /\ r' = <<Len(st[o])>>
=============================================================================
