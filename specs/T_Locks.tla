------------------------------ MODULE T_Locks ------------------------------
EXTENDS Trace, FiniteSets
VARIABLES writer, readers, granted, waitW, waitR, busy, l
T == 0..4
L == 1..8
K == INSTANCE Locks WITH T <- T, L <- L
vars == <<writer, readers, granted, waitW, waitR, busy>>
Step(e) ==
  CASE e.op = "Start" -> UNCHANGED vars
    [] e.op = "Call"  -> K!Enter(e.o)
    [] e.op = "Ret"   -> e.r # <<-9>> /\ K!Leave(e.o)     \* -9: unlocked what was not locked
    [] e.op = "WaitW" -> K!WaitW(e.o, e.a[1])
    [] e.op = "AcqW"  -> K!AcqW(e.o, e.a[1])
    [] e.op = "RelW"  -> K!RelW(e.o, e.a[1])
    [] e.op = "WaitR" -> K!WaitR(e.o, e.a[1])
    [] e.op = "AcqR"  -> K!AcqR(e.o, e.a[1])
    [] e.op = "RelR"  -> K!RelR(e.o, e.a[1])
    [] OTHER          -> FALSE  \* Deadlock, LockHeld, NoProgress
TInit == K!LInit /\ l = 1
TNext == \E i \in DOMAIN Nodes[l].k :
           /\ l' = Nodes[l].k[i]
           /\ Step(Nodes[Nodes[l].k[i]])
           /\ (K!Exclusive /\ K!NoDeadlock)'
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
