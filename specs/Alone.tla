------------------------------- MODULE Alone -------------------------------
(* Independence of instances, for instances used at the same time: a thread
   that makes calls on objects no other thread uses gets, from every call, what
   it would get if it ran alone - whatever runs in between.  will[t] is the
   sequence of results its calls give alone; at[t] counts those returned. *)
EXTENDS Integers, Sequences
VARIABLES will, at, busy
avars == <<will, at, busy>>
AInit == will = <<>> /\ at = <<>> /\ busy = {}
ABegin(w) == /\ will' = w /\ busy' = {}
             /\ at' = [t \in 1..Len(w) |-> 0]
ACall(t) == /\ t \in DOMAIN will /\ t \notin busy
            /\ at[t] < Len(will[t])
            /\ busy' = busy \cup {t} /\ UNCHANGED <<will, at>>
AReturn(t, r) == /\ t \in busy
                 /\ r = will[t][at[t] + 1]
                 /\ at' = [at EXCEPT ![t] = @ + 1]
                 /\ busy' = busy \ {t} /\ UNCHANGED will
=============================================================================
