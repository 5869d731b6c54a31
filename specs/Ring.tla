-------------------------------- MODULE Ring --------------------------------
(* Consistent hashing.  Positions on the ring are ranks of 64-bit hashes.  A
   ring with a set of nodes sends a key to the node owning the first point at
   or after the key's position, around the end to the first point of all.  For
   every key this is the first present node in an order of preference over all
   nodes, which does not depend on the ring's history. *)
EXTENDS SeqOps, Results
LOCAL X == INSTANCE SequencesExt
VARIABLES pref,   \* key -> sequence of nodes, most preferred first
          nodes,  \* object -> set of nodes present
          r
vars == <<pref, nodes, r>>
Init == pref = <<>> /\ nodes = <<>> /\ r = OK
Same == UNCHANGED <<pref, nodes>>

(* pts: node -> its points; the owner of position h among the nodes N *)
Owner(pts, N, h) ==
  LET P  == UNION {Range(pts[n]) : n \in N}
      At(p) == CHOOSE n \in N : p \in Range(pts[n])
      Up == {p \in P : p >= h}
  IN At(SeqMin(IF Up # {} THEN Up ELSE P))
RECURSIVE PrefOf(_, _, _)
PrefOf(pts, N, h) == IF N = {} THEN <<>> ELSE
                     LET n == Owner(pts, N, h) IN <<n>> \o PrefOf(pts, N \ {n}, h)

(* the same for many: the points in the order in which they come after h, each
   node when its first does *)
PrefAfter(pts, h) ==
  LET all == UNION {{<<IF pts[n][i] >= h THEN 0 ELSE 1, pts[n][i], n>> : i \in 1..Len(pts[n])} : n \in 1..Len(pts)}
      q == SortSeq(X!SetToSeq(all), LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2]))
      first == X!FoldLeft(LAMBDA acc, x : IF x[3] \in acc[2] THEN acc ELSE <<Append(acc[1], x[3]), acc[2] \cup {x[3]}>>,
                          <<<<>>, {}>>, q)
  IN first[1]
ASSUME LET pts == <<<<3, 9>>, <<1, 6>>, <<4, 2>>>> IN
       \A h \in 0..10 : PrefAfter(pts, h) = PrefOf(pts, 1..3, h)

(* the universe, by the nodes' and the keys' positions, or by preference *)
Univ(pts, keys) == /\ pref' = [k \in 1..Len(keys) |-> IF Len(pts) < 20 THEN PrefOf(pts, 1..Len(pts), keys[k])
                                                               ELSE PrefAfter(pts, keys[k])]
                   /\ nodes' = <<>> /\ r' = OK
UnivPref(p, n)  == /\ \A k \in 1..Len(p) : Len(p[k]) = n /\ Range(p[k]) = 1..n
                   /\ pref' = p /\ nodes' = <<>> /\ r' = OK
New(o)       == nodes' = (o :> {}) @@ nodes /\ UNCHANGED pref /\ r' = OK
Add(o, s)    == nodes' = [nodes EXCEPT ![o] = @ \cup Range(s)] /\ UNCHANGED pref /\ r' = OK
Remove(o, s) == nodes' = [nodes EXCEPT ![o] = @ \ Range(s)] /\ UNCHANGED pref /\ r' = OK
Empty(o)     == Same /\ r' = Bool(nodes[o] = {})
Get(N, k)    == IF N = {} THEN NOTFOUND
                ELSE Val(pref[k][SeqMin({i \in 1..Len(pref[k]) : pref[k][i] \in N})])
=============================================================================
