------------------------------ MODULE MC_Conc ------------------------------
(* How the goroutine-safe containers get their linearizability: a call takes
   the lock, reads the shared state, works on what it read, writes the state
   and lets go.  Conc watches the calls and returns; a return it cannot explain
   is a state in which it is stuck.  Style:
     "locked"    readers share the lock, writers hold it alone
     "unlocked"  no lock at all
     "readlock"  writers take the lock shared
     "early"     the lock is released between reading and writing
   Set algebra ("setalg") reads each operand under that operand's lock. *)
EXTENDS Conc, TLC
CONSTANTS Kind, Style, Calls, NT
VARIABLES st,            \* the container's state
          lockW, lockR,  \* per operand: the writer (0: none), the number of readers
          pc, loc, n
mvars == <<vars, st, lockW, lockR, pc, loc, n>>
T == 1..NT

Ops == CASE Kind = "map" -> {<<"Insert", <<1, 7>>>>, <<"Insert", <<2, 8>>>>, <<"Erase", <<1>>>>, <<"Get", <<1>>>>, <<"Size", <<>>>>, <<"Traversal", <<0>>>>}
        [] Kind = "multimap" -> {<<"Insert", <<1, 7>>>>, <<"Insert", <<1, 8>>>>, <<"Erase", <<1>>>>, <<"Get", <<1>>>>, <<"Traversal", <<0>>>>}
        [] Kind = "multiset" -> {<<"Insert", <<1>>>>, <<"Erase", <<1>>>>, <<"Count", <<1>>>>, <<"Clear", <<>>>>}
        [] Kind = "queue" -> {<<"Push", <<1>>>>, <<"Push", <<2>>>>, <<"Pop", <<>>>>, <<"Size", <<>>>>}
        [] Kind = "stack" -> {<<"Push", <<1>>>>, <<"Push", <<2>>>>, <<"Pop", <<>>>>, <<"Top", <<>>>>}
        [] Kind = "pq" -> {<<"Push", <<2001>>>>, <<"Push", <<1001>>>>, <<"Pop", <<>>>>, <<"Top", <<>>>>}
        [] Kind = "skiplist" -> {<<"Insert", <<1, 7>>>>, <<"Insert", <<2, 8>>>>, <<"Remove", <<1>>>>, <<"Get", <<1>>>>, <<"Keys", <<>>>>}
        [] Kind = "hamt" -> {<<"Insert", <<1, 7>>>>, <<"Insert", <<2, 8>>>>, <<"Remove", <<1>>>>, <<"Get", <<1>>>>, <<"Keys", <<>>>>}
        [] Kind = "bloom" -> {<<"Add", <<1>>>>, <<"Add", <<2>>>>, <<"Contains", <<1>>>>, <<"Data", <<>>>>}
        [] Kind = "ketama" -> {<<"Add", <<1>>>>, <<"Add", <<2>>>>, <<"Remove", <<1>>>>, <<"Get", <<1>>>>, <<"Empty", <<>>>>}
        [] Kind = "setalg" -> {<<"Insert", <<1, 1>>>>, <<"Insert", <<1, 2>>>>, <<"Insert", <<2, 1>>>>, <<"Erase", <<1, 1>>>>, <<"Clear", <<2>>>>,
                               <<"Union", <<1, 2>>>>, <<"Intersect", <<2, 1>>>>, <<"Diff", <<1, 2>>>>}
Univ == CASE Kind = "ketama" -> <<<<2, 1>>>>
          [] Kind = "bloom" -> <<<<1, 2>>, <<2, 3>>>>
          [] OTHER -> <<>>
Writes(op) == op \in {"Insert", "Erase", "Remove", "Push", "Pop", "Clear", "Add"}
Alg(op) == Kind = "setalg" /\ op \in Algebra
Mine(a) == IF Kind = "setalg" THEN a[1] ELSE 1     \* the lock of a call on one object

MInit == /\ kind = Kind /\ univ = Univ
         /\ confs = {<<CStart(Kind), [t \in Threads |-> Idle]>>}
         /\ st = CStart(Kind)
         /\ lockW = [i \in 1..2 |-> 0] /\ lockR = [i \in 1..2 |-> 0]
         /\ pc = [t \in T |-> "idle"] /\ loc = [t \in T |-> <<>>] /\ n = [t \in T |-> Calls]
Own == UNCHANGED vars
DoCall(t) == /\ pc[t] = "idle" /\ n[t] > 0
             /\ \E o \in Ops :
                  /\ Call(t, o[1], o[2])
                  /\ loc' = [loc EXCEPT ![t] = <<o[1], o[2]>>]
             /\ pc' = [pc EXCEPT ![t] = "lock"] /\ n' = [n EXCEPT ![t] = @ - 1]
             /\ UNCHANGED <<st, lockW, lockR>>
Excl(op) == Writes(op) /\ Style # "readlock"
TakeOk(op, i) == Style = "unlocked" \/ (lockW[i] = 0 /\ (~Excl(op) \/ lockR[i] = 0))
Take(op, i, t) == IF Style = "unlocked" THEN UNCHANGED <<lockW, lockR>>
                  ELSE IF Excl(op) THEN lockW' = [lockW EXCEPT ![i] = t] /\ UNCHANGED lockR
                  ELSE lockR' = [lockR EXCEPT ![i] = @ + 1] /\ UNCHANGED lockW
Let(op, i) == IF Style = "unlocked" THEN UNCHANGED <<lockW, lockR>>
              ELSE IF Excl(op) THEN lockW' = [lockW EXCEPT ![i] = 0] /\ UNCHANGED lockR
              ELSE lockR' = [lockR EXCEPT ![i] = @ - 1] /\ UNCHANGED lockW
To(t, p) == pc' = [pc EXCEPT ![t] = p]
Lock(t) == /\ pc[t] = "lock" /\ LET op == loc[t][1] i == Mine(loc[t][2]) IN TakeOk(op, i) /\ Take(op, i, t)
           /\ To(t, "read") /\ Own /\ UNCHANGED <<st, loc, n>>
(* what is read: the whole state; set algebra: the first operand *)
Read(t) == /\ pc[t] = "read"
           /\ loc' = [loc EXCEPT ![t] = Append(@, IF Alg(@[1]) THEN st[@[2][1]] ELSE st)]
           /\ To(t, IF Alg(loc[t][1]) \/ (Style = "early" /\ Writes(loc[t][1])) THEN "unlock1" ELSE "write")
           /\ Own /\ UNCHANGED <<st, lockW, lockR, n>>
Unlock1(t) == /\ pc[t] = "unlock1" /\ Let(loc[t][1], Mine(loc[t][2]))
              /\ To(t, "lock2") /\ Own /\ UNCHANGED <<st, loc, n>>
Second(t) == IF Alg(loc[t][1]) THEN loc[t][2][2] ELSE Mine(loc[t][2])
Lock2(t) == /\ pc[t] = "lock2" /\ TakeOk(loc[t][1], Second(t)) /\ Take(loc[t][1], Second(t), t)
            /\ To(t, IF Alg(loc[t][1]) THEN "read2" ELSE "write") /\ Own /\ UNCHANGED <<st, loc, n>>
Read2(t) == /\ pc[t] = "read2"
            /\ loc' = [loc EXCEPT ![t] = Append(@, Seq3(Combine(@[1], @[3], st[@[2][2]])))]
            /\ To(t, "unlock") /\ Own /\ UNCHANGED <<st, lockW, lockR, n>>
Write(t) == /\ pc[t] = "write"
            /\ LET x == Apply(Kind, Univ, loc[t][3], loc[t][1], loc[t][2]) IN
               /\ IF ~Writes(loc[t][1]) THEN UNCHANGED st
                  ELSE IF Kind = "setalg" THEN st' = [st EXCEPT ![Mine(loc[t][2])] = x[1][Mine(loc[t][2])]]
                  ELSE st' = x[1]
               /\ loc' = [loc EXCEPT ![t] = Append(@, x[2])]
            /\ To(t, "unlock") /\ Own /\ UNCHANGED <<lockW, lockR, n>>
Unlock(t) == /\ pc[t] = "unlock"
             /\ Let(loc[t][1], IF Alg(loc[t][1]) THEN Second(t) ELSE Mine(loc[t][2]))
             /\ To(t, "ret") /\ Own /\ UNCHANGED <<st, loc, n>>
DoRet(t) == /\ pc[t] = "ret" /\ Return(t, loc[t][4])
            /\ To(t, "idle") /\ loc' = [loc EXCEPT ![t] = <<>>] /\ UNCHANGED <<st, lockW, lockR, n>>
MNext == \E t \in T : \/ DoCall(t) \/ Lock(t) \/ Read(t) \/ Unlock1(t) \/ Lock2(t) \/ Read2(t) \/ Write(t) \/ Unlock(t) \/ DoRet(t)
MSpec == MInit /\ [][MNext]_mvars
Explained == \A t \in T : pc[t] = "ret" => \E c \in Closure(kind, univ, confs) : c[2][t] = <<"done", loc[t][4]>>
(* the container's state at rest is that of one of the explanations *)
AtRest == (\A t \in T : pc[t] = "idle") => \E c \in confs : c[1] = st
=============================================================================
