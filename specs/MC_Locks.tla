------------------------------ MODULE MC_Locks ------------------------------
(* The locking discipline of the goroutine-safe containers: a call takes one
   lock, shared or alone, does its work and lets go of it before it takes
   another one; set algebra reads one operand after the other.  Style selects
   the discipline ("single") or one of two ways to break it. *)
EXTENDS Locks, Sequences, TLC
CONSTANTS Style, Calls
VARIABLES todo, left        \* what the call still has to do; how many calls each thread will make
mcvars == <<lvars, todo, left>>
(* a step is <<kind, lock>>; the shapes a call may have *)
Shapes ==
  {<<<<"W", a>>, <<"w", a>>>> : a \in L} \cup {<<<<"R", a>>, <<"r", a>>>> : a \in L} \cup
  (CASE Style = "single" -> {<<<<"R", p[1]>>, <<"r", p[1]>>, <<"R", p[2]>>, <<"r", p[2]>>>> : p \in L \X L}
     [] Style = "nested" -> {<<<<"R", p[1]>>, <<"R", p[2]>>, <<"r", p[2]>>, <<"r", p[1]>>>> :
                             p \in {q \in L \X L : q[1] # q[2]}}
     [] Style = "again"  -> {<<<<"R", a>>, <<"R", a>>, <<"r", a>>, <<"r", a>>>> : a \in L}
     [] Style = "kept"   -> {<<<<"W", a>>>> : a \in L})
MInit == LInit /\ todo = [t \in T |-> <<>>] /\ left = [t \in T |-> Calls]
Pop(t) == todo' = [todo EXCEPT ![t] = Tail(@)] /\ UNCHANGED left
Start(t) == /\ left[t] > 0 /\ t \notin busy
            /\ Enter(t) /\ left' = [left EXCEPT ![t] = @ - 1]
            /\ \E s \in Shapes : todo' = [todo EXCEPT ![t] = s]
End(t)   == todo[t] = <<>> /\ Leave(t) /\ UNCHANGED <<todo, left>>
Go(t) == /\ t \in busy /\ todo[t] # <<>>
         /\ LET s == Head(todo[t])[1] a == Head(todo[t])[2] IN
            \/ s = "W" /\ AcqW(t, a) /\ Pop(t)
            \/ s = "R" /\ AcqR(t, a) /\ Pop(t)
            \/ s = "w" /\ RelW(t, a) /\ Pop(t)
            \/ s = "r" /\ RelR(t, a) /\ Pop(t)
            \/ s = "W" /\ t \notin waitW[a] /\ WaitW(t, a) /\ UNCHANGED <<todo, left>>
            \/ s = "R" /\ t \notin waitR[a] \cup granted[a] /\ WaitR(t, a) /\ UNCHANGED <<todo, left>>
MNext == \E t \in T : Start(t) \/ Go(t) \/ End(t)
MSpec == MInit /\ [][MNext]_mcvars /\ \A t \in T : SF_mcvars(Go(t)) /\ WF_mcvars(End(t))
Returns == \A t \in T : (t \in busy) ~> (t \notin busy)
NothingHeld == busy = {} => \A l \in L : Free(l)
=============================================================================
