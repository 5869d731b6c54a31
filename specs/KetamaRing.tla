----------------------------- MODULE KetamaRing -----------------------------
(* The hash ring as it is built: an ordered map from positions to nodes.  A node
   added takes those of its positions that are free; a node removed gives up
   those that it holds. *)
EXTENDS Integers, Sequences, TLC
Sorted(ring) == LET RECURSIVE S(_)
                    S(D) == IF D = {} THEN <<>> ELSE LET m == CHOOSE x \in D : \A y \in D : x <= y IN <<m>> \o S(D \ {m})
                IN S(DOMAIN ring)
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
RECURSIVE Put(_, _, _, _)
Put(ring, ps, n, i) == IF i > Len(ps) THEN ring
                       ELSE Put(IF ps[i] \in DOMAIN ring THEN ring ELSE (ps[i] :> n) @@ ring, ps, n, i + 1)
RECURSIVE Take(_, _, _, _)
Take(ring, ps, n, i) == IF i > Len(ps) THEN ring
                        ELSE Take(IF ps[i] \in DOMAIN ring THEN IF ring[ps[i]] = n THEN Drop(ring, ps[i]) ELSE ring ELSE ring, ps, n, i + 1)
RECURSIVE AddAll(_, _, _, _)
AddAll(ring, pts, ns, i) == IF i > Len(ns) THEN ring ELSE AddAll(Put(ring, pts[ns[i]], ns[i], 1), pts, ns, i + 1)
RECURSIVE RemoveAll(_, _, _, _)
RemoveAll(ring, pts, ns, i) == IF i > Len(ns) THEN ring ELSE RemoveAll(Take(ring, pts[ns[i]], ns[i], 1), pts, ns, i + 1)
(* the first position at or after h, else the very first *)
Get(ring, h) ==
  IF DOMAIN ring = {} THEN 0
  ELSE LET s == Sorted(ring) up == SelectSeq(s, LAMBDA p : p >= h) IN
       ring[IF up # <<>> THEN up[1] ELSE s[1]]
=============================================================================
