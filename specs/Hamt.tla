------------------------------- MODULE Hamt --------------------------------
(* Unordered map from byte strings to values; keys are the numbers the driver
   gave to byte strings (many of which have the same hash). *)
EXTENDS SeqOps, Results
VARIABLES st, r      \* st: object -> function from keys to values
vars == <<st, r>>
Init == st = <<>> /\ r = OK
Upd(o, f) == st' = [st EXCEPT ![o] = f]
Same == UNCHANGED st
New(o) == st' = (o :> <<>>) @@ st /\ r' = OK
Insert(o, k, v) == Upd(o, (k :> v) @@ st[o]) /\ r' = OK
(* n calls in a row, with the keys k, k+1, ...; of erasures, how many found theirs *)
InsertRun(o, k, v, n) == Upd(o, [x \in k..(k + n - 1) |-> v + x - k] @@ st[o]) /\ r' = OK
EraseRun(o, k, n) == LET gone == DOMAIN st[o] \cap (k..(k + n - 1)) IN
                     /\ r' = Val(Cardinality(gone))
                     /\ Upd(o, [x \in DOMAIN st[o] \ gone |-> st[o][x]])
Get(o, k) == Same /\ r' = IF k \in DOMAIN st[o] THEN Val(st[o][k]) ELSE NOTFOUND
Erase(o, k) == /\ r' = Bool(k \in DOMAIN st[o])
               /\ Upd(o, [x \in DOMAIN st[o] \ {k} |-> st[o][x]])
(* the keys, each once, in any order *)
Keys(o, s) == Same /\ r' = OK /\ Range(s) = DOMAIN st[o] /\ Len(s) = Cardinality(DOMAIN st[o])
(* visiting stops after n visits; what was visited are n different entries *)
Walk(o, n, s) == LET m == Cardinality(DOMAIN st[o]) IN
                 /\ Same /\ r' = OK
                 /\ Len(s) = (IF n < 1 THEN m ELSE Min2(n, m))
                 /\ \A i \in 1..Len(s) : s[i][1] \in DOMAIN st[o] /\ st[o][s[i][1]] = s[i][2]
                 /\ Cardinality({s[i][1] : i \in 1..Len(s)}) = Len(s)
=============================================================================
