-------------------------------- MODULE Frame -------------------------------
(* Instances are independent: a call changes the content of the instance it is
   made on and of no other; reading calls and calls that cannot succeed change
   nothing at all; a copy has the content of the original and a life of its
   own. *)
EXTENDS Integers, Sequences, TLC, Results
VARIABLES st, r     \* object -> its whole content, as a sequence of integers
vars == <<st, r>>
Init == st = <<>> /\ r = OK
New(o, c)    == st' = (o :> c) @@ st
Mut(o, c)    == st' = [st EXCEPT ![o] = c]       \* any content, of this object only
Copy(o, q)   == st' = [st EXCEPT ![o] = st[q]]
Keep         == UNCHANGED st                     \* Read, Bad, a visitor that panics
=============================================================================
