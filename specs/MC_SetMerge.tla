----------------------------- MODULE MC_SetMerge -----------------------------
(* Every pair of sets of elements of Univ, all three operations, a set with
   itself too.  Elements are compared by tens if Tens.  Variants to refute:
   "tail" forgets what is left when the other side ends, "restart" leaves the
   right side where it is on equal elements, "right" takes equal elements from
   the right, "skip" moves both sides on when the left is less. *)
EXTENDS Integers, Sequences, TLC, TLCExt, FiniteSets
CONSTANTS Univ, Tens, Variant, Emits
VARIABLES s1, s2, w, act
vars == <<s1, s2, w, act>>
Key(x) == IF Tens THEN x \div 10 ELSE x
M == INSTANCE SetMerge WITH Ord <- Key
RECURSIVE Sorted(_)
Sorted(D) == IF D = {} THEN <<>> ELSE LET m == CHOOSE x \in D : \A y \in D : x <= y IN <<m>> \o Sorted(D \ {m})
Pairs(s) == [i \in 1..Len(s) |-> <<s[i], 0>>]
Kind == IF Tens THEN 2 ELSE 0
A == INSTANCE Ordered WITH st <- (1 :> Pairs(s1) @@ 2 :> Pairs(s2) @@ 3 :> Pairs(IF act.res THEN w.out ELSE <<>>)),
                           kind <- (1 :> Kind @@ 2 :> Kind @@ 3 :> Kind), r <- <<0>>
Idle == M!Start("none", <<>>, <<>>)
MInit == s1 = <<>> /\ s2 = <<>> /\ w = Idle /\ act = [op |-> "New", o |-> 1, a |-> <<Kind>>, res |-> FALSE]
Does(op, o, a, res) == act' = [op |-> op, o |-> o, a |-> a, res |-> res]
Ks(s) == {Key(s[i]) : i \in 1..Len(s)}
With(s, x) == Sorted({s[i] : i \in 1..Len(s)} \cup {x})
(* build the two sets: largest elements last, s1 before s2 *)
Fill == /\ w = Idle
        /\ \/ s2 = <<>> /\ \E x \in Univ : (\A i \in 1..Len(s1) : s1[i] < x) /\ Key(x) \notin Ks(s1)
                                    /\ s1' = Append(s1, x) /\ UNCHANGED <<s2, w>> /\ Does("InsertUnique", 1, <<x, 0>>, FALSE)
           \/ \E x \in Univ : (\A i \in 1..Len(s2) : s2[i] < x) /\ Key(x) \notin Ks(s2)
                                    /\ s2' = Append(s2, x) /\ UNCHANGED <<s1, w>> /\ Does("InsertUnique", 2, <<x, 0>>, FALSE)
S(o) == IF o = 1 THEN s1 ELSE s2
Begin == /\ w = Idle
         /\ \E op \in {"Intersect", "Union", "Diff"}, o \in 1..2, q \in 1..2 :
              /\ w' = M!Start(op, S(o), S(q)) /\ UNCHANGED <<s1, s2>> /\ Does(op, o, <<q, 3>>, FALSE)
MStep(x) ==
  CASE Variant = "tail" /\ ~M!Both(x) /\ M!L(x) -> M!SkipA(x)
    [] Variant = "restart" /\ M!Both(x) /\ x.op = "Union" -> IF M!Cmp(x) = 0 THEN M!TakeA(x) ELSE M!Step(x)
    [] Variant = "right" /\ M!Both(x) /\ x.op = "Intersect" -> IF M!Cmp(x) = 0 THEN M!SkipA(M!TakeB(x)) ELSE M!Step(x)
    [] Variant = "skip" /\ M!Both(x) /\ x.op # "Union" -> IF M!Cmp(x) < 0 THEN M!SkipB(M!Step(x)) ELSE M!Step(x)
    [] OTHER -> M!Step(x)
Go == w # Idle /\ ~M!Done(w) /\ w' = MStep(w) /\ UNCHANGED <<s1, s2>> /\ Does(act.op, act.o, act.a, FALSE)
End == w # Idle /\ M!Done(w) /\ ~act.res /\ UNCHANGED <<s1, s2, w>> /\ Does(act.op, act.o, act.a, TRUE)
MNext == Fill \/ Begin \/ Go \/ End
MSpec == MInit /\ [][MNext]_vars
(* calls as the code makes them: building, and whole operations *)
Emit == (Emits /\ (w = Idle) => PrintT(<<"E", TLCFP(<<s1, s2>>), act'.op, act'.o, act'.a, TLCFP(<<s1, s2>>')>>)) = TRUE
view == <<s1, s2, w, act.res, IF w = Idle THEN <<>> ELSE <<act.o, act.a>>>>
Right == act.res => Pairs(w.out) = (CASE act.op = "Union" -> A!MergeK(Kind, Pairs(S(act.o)), A!Sel(Pairs(S(act.a[1])), LAMBDA e : ~A!Member(Pairs(S(act.o)), Kind, e[1])))
                                      [] act.op = "Intersect" -> A!Sel(Pairs(S(act.o)), LAMBDA e : A!Member(Pairs(S(act.a[1])), Kind, e[1]))
                                      [] act.op = "Diff" -> A!Sel(Pairs(S(act.o)), LAMBDA e : ~A!Member(Pairs(S(act.a[1])), Kind, e[1])))
Ends == [][w # Idle /\ w' # w => M!Left(w') < M!Left(w)]_vars
Refines == [][act'.op = "InsertUnique" => IF act'.o = 1 THEN A!InsertUnique(1, act'.a[1], 0) ELSE A!InsertUnique(2, act'.a[1], 0)]_vars
=============================================================================
