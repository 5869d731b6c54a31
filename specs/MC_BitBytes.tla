----------------------------- MODULE MC_BitBytes -----------------------------
(* Every bitmap of up to MaxSize bits that calls on the positions Univ lead to,
   from one of 12 bits on.  Variants to refute: "toggle" sets by exclusive or,
   "edge" lets a position just past the end be read and written when there is a
   byte, "keep" enlarges without clearing what was cut off before, "floor"
   rounds sizes down, "mod7" uses seven bits of each byte. *)
EXTENDS BitBytes, TLC, TLCExt
CONSTANTS Univ, Sizes, Variant, Emits
VARIABLES d, old, act
vars == <<d, old, act>>
view == <<d, IF Variant = "keep" THEN old ELSE <<>>>>
B == INSTANCE Bitmap WITH sz <- (1 :> Size(d)), on <- (1 :> {p \in 0..(Size(d) - 1) : IsSet(d, p)}), r <- act.r
MInit == d = Make(12) /\ old = Make(12) /\ act = [op |-> "New", a |-> <<12>>, r |-> <<0>>]
Does(op, a, r0) == act' = [op |-> op, a |-> a, r |-> r0]
Bl(b) == <<2, IF b THEN 1 ELSE 0>>
MSet(p) == IF Variant = "toggle" /\ IsSet(d, p) THEN Unset(d, p)
           ELSE IF Variant = "mod7" /\ In(d, p) THEN [d EXCEPT ![p \div 8 + 1] = Or(@, 2^(p % 7))] ELSE Set(d, p)
MResize(n) == IF Variant = "floor" THEN Resize(d, (n \div 8) * 8)
              ELSE IF Variant = "keep" /\ Size(d) # 8 * Bytes(n)
              THEN [i \in 1..Bytes(n) |-> IF i <= Len(d) THEN d[i] ELSE IF i <= Len(old) THEN old[i] ELSE 0]
              ELSE Resize(d, n)
MIsSet(p) == IF Variant = "edge" /\ p = Size(d) /\ p > 0 THEN Has1(d[Len(d)], 128) ELSE IsSet(d, p)
Keeps == old' = IF Variant = "keep" /\ Len(d') < Len(d) THEN d ELSE old
Calls ==
  \/ \E p \in Univ : \/ d' = MSet(p) /\ Does("Set", <<p>>, Bl(In(d, p)))
                     \/ d' = Unset(d, p) /\ Does("Unset", <<p>>, Bl(In(d, p)))
                     \/ d' = d /\ Does("IsSet", <<p>>, Bl(MIsSet(p)))
  \/ \E n \in Sizes : d' = MResize(n) /\ Does("Resize", <<n>>, <<0>>)
  \/ d' = Clear(d) /\ Does("Clear", <<>>, <<0>>)
MNext == Calls /\ Keeps
MSpec == MInit /\ [][MNext]_vars
Emit == (Emits => PrintT(<<"E", TLCFP(view), act'.op, 1, act'.a, TLCFP(view')>>)) = TRUE
Sound == B!Inv /\ \A i \in 1..Len(d) : d[i] \in 0..255
Refines == [][LET a == act'.a IN
              CASE act'.op = "Set" -> B!Set(1, a[1])
                [] act'.op = "Unset" -> B!Unset(1, a[1])
                [] act'.op = "IsSet" -> B!IsSet(1, a[1])
                [] act'.op = "Resize" -> B!Resize(1, a[1])
                [] act'.op = "Clear" -> B!Clear(1)]_vars
=============================================================================
