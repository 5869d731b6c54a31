-------------------------------- MODULE Conc --------------------------------
(* Linearizability, as a monitor: confs is the set of all explanations of the
   calls and returns seen so far.  An explanation is a state of the container
   and, for every thread, what became of its pending call: called but not yet
   effective, or effective with a result.  A call takes effect at one moment
   between call and return; set algebra over two sets reads each operand at one
   moment. *)
EXTENDS ConcObj
VARIABLES kind, univ, confs
vars == <<kind, univ, confs>>
Idle == <<"idle">>
Threads == 0..4
Init == kind = "" /\ univ = <<>> /\ confs = {}
Begin(k, u) == /\ kind' = k /\ univ' = u
               /\ confs' = {<<CStart(k), [t \in Threads |-> Idle]>>}

(* the explanations that follow from c when the pending call of t goes one step on *)
Adv(k, u, c, t) ==
  LET p == c[2][t] s == c[1] IN
  IF p[1] = "call" /\ ~(k = "setalg" /\ p[2] \in Algebra)
  THEN LET x == Apply(k, u, s, p[2], p[3]) IN {<<x[1], [c[2] EXCEPT ![t] = <<"done", x[2]>>]>>}
  ELSE IF p[1] = "call"       \* one of the operands is read
  THEN {<<s, [c[2] EXCEPT ![t] = <<"first", p[2], p[3], s[p[3][1]]>>]>>,
        <<s, [c[2] EXCEPT ![t] = <<"second", p[2], p[3], s[p[3][2]]>>]>>}
  ELSE IF p[1] = "first"      \* the other one
  THEN {<<s, [c[2] EXCEPT ![t] = <<"done", Seq3(Combine(p[2], p[4], s[p[3][2]]))>>]>>}
  ELSE IF p[1] = "second"
  THEN {<<s, [c[2] EXCEPT ![t] = <<"done", Seq3(Combine(p[2], s[p[3][1]], p[4]))>>]>>}
  ELSE {}
RECURSIVE Closure(_, _, _)
Closure(k, u, C) == LET D == C \cup UNION {UNION {Adv(k, u, c, t) : t \in Threads} : c \in C}
                    IN IF D = C THEN C ELSE Closure(k, u, D)

Call(t, op, a) ==
  /\ \A c \in confs : c[2][t] = Idle
  /\ confs' = {<<c[1], [c[2] EXCEPT ![t] = <<"call", op, a>>]>> : c \in confs}
  /\ UNCHANGED <<kind, univ>>
(* t returns r: only the explanations in which its call has had this result remain *)
Return(t, r) ==
  LET ok == {c \in Closure(kind, univ, confs) : c[2][t] = <<"done", r>>} IN
  /\ ok # {}
  /\ confs' = {<<c[1], [c[2] EXCEPT ![t] = Idle]>> : c \in ok}
  /\ UNCHANGED <<kind, univ>>
(* two calls ran at once and the race detector saw nothing *)
NoRace(r) == r = OK /\ UNCHANGED vars
=============================================================================
