-------------------------------- MODULE Elem -------------------------------
(* Containers know nothing of their elements but what the comparator tells:
   with the same calls, a container of elements of any type shows the image of
   what a container of integers shows.  What that is, the specifications of the
   containers say; e is the way from integers to elements, and a one-to-one
   one. *)
EXTENDS Integers, Sequences, TLC, Results
VARIABLES st, im, r     \* the content of the one and, read back, of the other
vars == <<st, im, r>>
Init == st = <<>> /\ im = <<>> /\ r = OK
Mut(c) == st' = c /\ im' = c
Keep   == UNCHANGED <<st, im>>
=============================================================================
