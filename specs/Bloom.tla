------------------------------- MODULE Bloom --------------------------------
(* Bloom filters of m bits with k hash functions.  The hash of a value is not
   chosen by the specification: it is a function H of m, k and the value, whose
   values are learned and must then never change. *)
EXTENDS SeqOps, Results
VARIABLES H,   \* <<m, k, x>> -> set of bit positions
          fm,  \* object -> <<m, k>>
          fb,  \* object -> set of bits
          fx,  \* object -> the values added (ghost)
          r
vars == <<H, fm, fb, fx, r>>
Init == H = <<>> /\ fm = <<>> /\ fb = <<>> /\ fx = <<>> /\ r = OK
Hash(o, x) == H[<<fm[o][1], fm[o][2], x>>]
Same == UNCHANGED <<H, fm, fb, fx>>
Learn(m, k, x, S) ==
  /\ r' = OK /\ UNCHANGED <<fm, fb, fx>>
  /\ S # {} /\ S \subseteq 0..(m - 1) /\ Cardinality(S) <= k
  /\ IF <<m, k, x>> \in DOMAIN H THEN H[<<m, k, x>>] = S /\ UNCHANGED H
     ELSE H' = (<<m, k, x>> :> S) @@ H
New(o, m, k) == /\ fm' = (o :> <<m, k>>) @@ fm /\ fb' = (o :> {}) @@ fb
                /\ fx' = (o :> {}) @@ fx /\ UNCHANGED H /\ r' = OK
FromData(o, q) == /\ fm' = (o :> fm[q]) @@ fm /\ fb' = (o :> fb[q]) @@ fb
                  /\ fx' = (o :> fx[q]) @@ fx /\ UNCHANGED H /\ r' = OK
Add(o, x) == /\ fb' = [fb EXCEPT ![o] = @ \cup Hash(o, x)]
             /\ fx' = [fx EXCEPT ![o] = @ \cup {x}] /\ UNCHANGED <<H, fm>> /\ r' = OK
Contains(o, x) == r' = Bool(Hash(o, x) \subseteq fb[o]) /\ Same

NoFalseNegative == \A o \in DOMAIN fx : \A x \in fx[o] : Hash(o, x) \subseteq fb[o]
RoundUp8(n) == (n + 7) \div 8

(* filters that were stored by the library at the pinned commit *)
GoldenBits ==
  (<<997, 8, 0>> :> {40, 76, 396, 398, 514, 544, 737, 762}) @@
  (<<997, 8, 1>> :> {218, 238, 390, 507, 595, 645, 954, 957}) @@
  (<<997, 8, 2>> :> {199, 278, 486, 617, 736, 822, 901, 916}) @@
  (<<997, 8, 3>> :> {4, 232, 393, 501, 704, 767, 845, 864}) @@
  (<<997, 8, 4>> :> {12, 351, 537, 652, 691, 704, 801, 840}) @@
  (<<997, 8, 5>> :> {219, 250, 351, 593, 658, 679, 892, 940}) @@
  (<<997, 8, 6>> :> {196, 328, 346, 450, 565, 641, 848, 891}) @@
  (<<997, 8, 7>> :> {147, 315, 619, 644, 716, 720, 814, 922}) @@
  (<<997, 8, 8>> :> {1, 99, 209, 246, 368, 374, 480, 752}) @@
  (<<997, 8, 9>> :> {401, 474, 516, 908, 923, 934, 983, 986}) @@
  (<<1, 3, 5>> :> {0}) @@
  (<<8, 3, 5>> :> {0, 1, 7}) @@
  (<<64, 3, 5>> :> {17, 32, 39}) @@
  (<<100, 3, 5>> :> {29, 32, 35})
Golden(m, k, x, S) == r' = OK /\ Same /\ S = GoldenBits[<<m, k, x>>]
(* f: false positives, false negatives, estimated parameters used, m, k.  No
   value added is denied; of q other values, no more are reported than the
   rate num/den allows (with a margin of half plus ten for chance) *)
Rate(n, num, den, q, f) == /\ r' = OK /\ Same
                           /\ f[2] = 0 /\ f[3] = 1
                           /\ 2 * f[1] * den <= 3 * num * q + 20 * den
(* f: the false positive rate of n entries with the parameters estimated for
   them, in thousandths of the rate asked for *)
Estimate(f) == r' = OK /\ Same /\ f[1] <= 1500 /\ f[2] = 1
=============================================================================
