------------------------------- MODULE Array -------------------------------
(* Fixed-size arrays (objects 1..) and slice wrappers.  An array owns its
   values; a wrapper is a window on a slice the caller owns, so the state keeps
   the values of *buffers* and, per object, which buffer it shows. *)
EXTENDS SeqOps, Results
VARIABLES buf,   \* buffer -> sequence of values
          own,   \* object -> buffer
          r
vars == <<buf, own, r>>
Init == buf = <<>> /\ own = <<>> /\ r = OK
V(o) == buf[own[o]]
Upd(o, s) == buf' = [buf EXCEPT ![own[o]] = s] /\ UNCHANGED own
Same == UNCHANGED <<buf, own>>
Fresh == Cardinality(DOMAIN buf) + 1
Make(o, s) == /\ buf' = (Fresh :> s) @@ buf
              /\ own' = (o :> Fresh) @@ own

(* arrays *)
New(o, n)      == Make(o, [i \in 1..n |-> 0]) /\ r' = OK
NewFrom(o, q)  == Make(o, V(q)) /\ r' = OK
Fill(o, x)     == Upd(o, [i \in 1..Len(V(o)) |-> x]) /\ r' = OK
SwapArray(o, q) == /\ r' = OK /\ UNCHANGED buf
                   /\ own' = IF Len(V(o)) # Len(V(q)) THEN own
                             ELSE [own EXCEPT ![o] = own[q], ![q] = own[o]]
(* wrappers: the same slice may be wrapped twice, attached, or written to by its owner *)
NewSlice(o, s)  == Make(o, s) /\ r' = OK            \* wrapper o on a new slice
Wrap(o, q)      == own' = (o :> own[q]) @@ own /\ UNCHANGED buf /\ r' = OK
Attach(o, s)    == Make(o, s) /\ r' = OK            \* o now shows another slice
AttachOf(o, q)  == Wrap(o, q)
SetRaw(o, p, x) == Upd(o, Put0(V(o), p, x)) /\ r' = OK  \* the owner writes its slice
(* both *)
Set(o, p, x) == r' = OK /\ IF InSeq(V(o), p) THEN Upd(o, Put0(V(o), p, x)) ELSE Same
At(o, p)     == Same /\ r' = IF InSeq(V(o), p) THEN Val(At0(V(o), p)) ELSE PANIC
Front(o)     == At(o, 0)
Back(o)      == At(o, Len(V(o)) - 1)
Obs(o)       == Same /\ r' = <<Len(V(o)), B2I(V(o) = <<>>)>>
=============================================================================
