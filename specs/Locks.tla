------------------------------- MODULE Locks -------------------------------
(* Calls and the locks they use.  A lock is a reader/writer lock in which a
   waiting writer keeps new readers out, and the readers that wait when a
   writer lets go enter before the next writer (sync.RWMutex). *)
EXTENDS Integers, FiniteSets
CONSTANTS T, L                     \* threads, locks
VARIABLES writer,                  \* writer[l]: the thread that holds l alone, -1: none
          readers,                 \* readers[l][t]: how often t holds l shared
          granted,                 \* granted[l]: waiting readers let in, not yet running
          waitW, waitR,            \* those that wait
          busy                     \* threads inside a call
lvars == <<writer, readers, granted, waitW, waitR, busy>>

LInit == /\ writer = [l \in L |-> -1] /\ readers = [l \in L |-> [t \in T |-> 0]]
         /\ granted = [l \in L |-> {}] /\ waitW = [l \in L |-> {}] /\ waitR = [l \in L |-> {}]
         /\ busy = {}

NoReaders(l) == (\A t \in T : readers[l][t] = 0) /\ granted[l] = {}
Free(l)      == writer[l] = -1 /\ NoReaders(l)
MayRead(l)   == writer[l] = -1 /\ waitW[l] = {}
Waits(t)     == \E l \in L : t \in waitW[l] \cup waitR[l]
Holds(t)     == {l \in L : writer[l] = t \/ readers[l][t] > 0}

Enter(t) == t \notin busy /\ busy' = busy \cup {t} /\ UNCHANGED <<writer, readers, granted, waitW, waitR>>
(* a call that is over holds nothing *)
Leave(t) == /\ t \in busy /\ ~Waits(t) /\ Holds(t) = {}
            /\ busy' = busy \ {t} /\ UNCHANGED <<writer, readers, granted, waitW, waitR>>

WaitW(t, l) == /\ t \in busy /\ ~Free(l)
               /\ waitW' = [waitW EXCEPT ![l] = @ \cup {t}]
               /\ UNCHANGED <<writer, readers, granted, waitR, busy>>
AcqW(t, l) == /\ t \in busy /\ Free(l)
              /\ writer' = [writer EXCEPT ![l] = t] /\ waitW' = [waitW EXCEPT ![l] = @ \ {t}]
              /\ UNCHANGED <<readers, granted, waitR, busy>>
RelW(t, l) == /\ writer[l] = t
              /\ writer' = [writer EXCEPT ![l] = -1]
              /\ granted' = [granted EXCEPT ![l] = waitR[l]] /\ waitR' = [waitR EXCEPT ![l] = {}]
              /\ UNCHANGED <<readers, waitW, busy>>
WaitR(t, l) == /\ t \in busy /\ ~MayRead(l)
               /\ waitR' = [waitR EXCEPT ![l] = @ \cup {t}]
               /\ UNCHANGED <<writer, readers, granted, waitW, busy>>
AcqR(t, l) == /\ t \in busy /\ (t \in granted[l] \/ (MayRead(l) /\ t \notin waitR[l]))
              /\ readers' = [readers EXCEPT ![l][t] = @ + 1]
              /\ granted' = [granted EXCEPT ![l] = @ \ {t}]
              /\ UNCHANGED <<writer, waitW, waitR, busy>>
RelR(t, l) == /\ readers[l][t] > 0
              /\ readers' = [readers EXCEPT ![l][t] = @ - 1]
              /\ UNCHANGED <<writer, granted, waitW, waitR, busy>>

Exclusive == \A l \in L : writer[l] # -1 => NoReaders(l)
(* t cannot go on before one of these does *)
WaitsFor(t) == {u \in T : \E l \in L :
                 \/ t \in waitW[l] /\ (writer[l] = u \/ readers[l][u] > 0 \/ u \in granted[l])
                 \/ t \in waitR[l] /\ (writer[l] = u \/ (u \in waitW[l] /\ writer[l] = -1))}
RECURSIVE Reach(_)
Reach(S) == LET N == S \cup UNION {WaitsFor(u) : u \in S} IN IF N = S THEN S ELSE Reach(N)
NoDeadlock == \A t \in T : t \notin Reach(WaitsFor(t))
=============================================================================
