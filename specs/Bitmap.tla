------------------------------- MODULE Bitmap -------------------------------
(* A bitmap: a size in bits (a multiple of 8) and the set of positions that are
   on.  Negative positions stand for 64-bit positions far beyond any size. *)
EXTENDS SeqOps, Results
VARIABLES sz,   \* object -> number of bits
          on,   \* object -> set of positions
          r
vars == <<sz, on, r>>
Init == sz = <<>> /\ on = <<>> /\ r = OK
RoundUp(n) == ((n + 7) \div 8) * 8
In(o, p)   == p >= 0 /\ p < sz[o]
Same       == UNCHANGED <<sz, on>>
ByteBits(b) == {j \in 0..7 : (b \div 2^j) % 2 = 1}
BitsOf(d)  == {p \in 0..(8 * Len(d) - 1) : p % 8 \in ByteBits(d[p \div 8 + 1])}
ByteOf(S, i) == LET RECURSIVE Sum(_)
                    Sum(j) == IF j > 7 THEN 0 ELSE (IF 8 * i + j \in S THEN 2^j ELSE 0) + Sum(j + 1)
                IN Sum(0)
Bytes(o)   == [i \in 1..(sz[o] \div 8) |-> ByteOf(on[o], i - 1)]

New(o, n)  == sz' = (o :> RoundUp(n)) @@ sz /\ on' = (o :> {}) @@ on /\ r' = OK
FromData(o, d) == sz' = (o :> 8 * Len(d)) @@ sz /\ on' = (o :> BitsOf(d)) @@ on /\ r' = OK
Set(o, p)   == /\ r' = Bool(In(o, p)) /\ UNCHANGED sz
               /\ on' = IF In(o, p) THEN [on EXCEPT ![o] = @ \cup {p}] ELSE on
Unset(o, p) == /\ r' = Bool(In(o, p)) /\ UNCHANGED sz
               /\ on' = IF In(o, p) THEN [on EXCEPT ![o] = @ \ {p}] ELSE on
IsSet(o, p) == r' = Bool(p \in on[o]) /\ Same
Resize(o, n) == /\ r' = OK /\ sz' = [sz EXCEPT ![o] = RoundUp(n)]
                /\ on' = [on EXCEPT ![o] = {p \in @ : p < RoundUp(n)}]
Clear(o)    == r' = OK /\ UNCHANGED sz /\ on' = [on EXCEPT ![o] = {}]

Inv == \A o \in DOMAIN sz : sz[o] % 8 = 0 /\ \A p \in on[o] : p >= 0 /\ p < sz[o]
=============================================================================
