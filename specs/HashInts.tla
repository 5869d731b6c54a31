------------------------------ MODULE HashInts ------------------------------
(* Expansion of a seed into n hash values (numbered as they appear).  The first
   eight are the words of the seed's SHA-512 digest (w). *)
EXTENDS SeqOps, Results
CONSTANT Period8   \* accept the known repetition of the first eight values
VARIABLES seen,    \* seed -> longest expansion so far
          r
vars == <<seen, r>>
Init == seen = <<>> /\ r = OK
Gen(s, n, f, w) ==
  /\ r' = OK
  /\ Len(f) = n
  /\ \A i \in 1..Min2(n, 8) : f[i] = w[i]
  /\ (\A i, j \in 1..n : f[i] = f[j] => (i = j \/ (Period8 /\ (i - j) % 8 = 0))) = TRUE
  /\ \A t \in DOMAIN seen \ {s} : Range(f) \cap Range(seen[t]) = {}
  /\ s \in DOMAIN seen => LET m == Min2(n, Len(seen[s])) IN Prefix(f, m) = Prefix(seen[s], m)
  /\ seen' = IF s \in DOMAIN seen /\ Len(seen[s]) >= n THEN seen ELSE (s :> f) @@ seen
=============================================================================
