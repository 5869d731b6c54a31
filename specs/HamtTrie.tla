------------------------------ MODULE HamtTrie ------------------------------
(* The hash array mapped trie as it is built.  An inner node has the set of hash
   chunks (0..63) it has children for, and the children in the order of their
   chunks; a leaf has all entries of one hash, newest first.  Keys are numbers,
   Chunks[k] the hash of key k. *)
EXTENDS SeqOps, HamtKeys
Chunk(k, depth) == IF depth < 11 THEN Chunks[k][depth + 1] ELSE 0
SameHash(a, b) == Chunks[a] = Chunks[b]
EmptyNode == [leaf |-> FALSE, bits |-> {}, kids |-> <<>>]
Leaf(list) == [leaf |-> TRUE, list |-> list]              \* list: <<key, value>>, ...
HashKey(n) == n.list[1][1]                               \* a key with the leaf's hash
Index(n, pos) == Cardinality({p \in n.bits : p < pos}) + 1

AddKid(n, pos, kid) == LET i == Index(n, pos) IN
  [n EXCEPT !.bits = @ \cup {pos}, !.kids = InsertAt0(@, i - 1, kid)]
(* list: the entries to put in, all of one hash; a single one replaces its equal *)
RECURSIVE Insert(_, _, _)
Insert(n, depth, list) ==
  LET k == list[1][1]
      pos == Chunk(k, depth)
      i == Index(n, pos)
  IN IF pos \notin n.bits THEN AddKid(n, pos, Leaf(list))
     ELSE LET e == n.kids[i] IN
          IF ~e.leaf THEN [n EXCEPT !.kids[i] = Insert(e, depth + 1, list)]
          ELSE IF SameHash(HashKey(e), k)
          THEN IF \E j \in DOMAIN e.list : e.list[j][1] = k
               THEN [n EXCEPT !.kids[i].list = [j \in DOMAIN e.list |-> IF e.list[j][1] = k THEN list[1] ELSE e.list[j]]]
               ELSE [n EXCEPT !.kids[i].list = list \o @]
          ELSE [n EXCEPT !.kids[i] = Insert(Insert(EmptyNode, depth + 1, e.list), depth + 1, list)]
RECURSIVE Find(_, _, _)
Find(n, depth, k) ==        \* <<>> or <<value>>
  LET pos == Chunk(k, depth) IN
  IF pos \notin n.bits THEN <<>>
  ELSE LET e == n.kids[Index(n, pos)] IN
       IF ~e.leaf THEN Find(e, depth + 1, k)
       ELSE IF \E j \in DOMAIN e.list : e.list[j][1] = k
       THEN <<e.list[CHOOSE j \in DOMAIN e.list : e.list[j][1] = k][2]>> ELSE <<>>
(* an inner node left with one leaf becomes that leaf *)
RECURSIVE Erase(_, _, _)
Erase(n, depth, k) ==
  LET pos == Chunk(k, depth)
      i == Index(n, pos)
  IN IF pos \notin n.bits THEN n
     ELSE LET e == n.kids[i] IN
          IF e.leaf
          THEN LET rest == SelectSeq(e.list, LAMBDA x : x[1] # k) IN
               IF rest = <<>> THEN [n EXCEPT !.bits = @ \ {pos}, !.kids = RemoveAt0(@, i - 1)]
               ELSE [n EXCEPT !.kids[i].list = rest]
          ELSE LET f == Erase(e, depth + 1, k) IN
               IF f # e /\ Len(f.kids) = 1 /\ f.kids[1].leaf THEN [n EXCEPT !.kids[i] = f.kids[1]]
               ELSE [n EXCEPT !.kids[i] = f]
RECURSIVE Walk(_), WalkKids(_, _)
Walk(n) == IF n.leaf THEN n.list ELSE WalkKids(n.kids, 1)
WalkKids(s, i) == IF i > Len(s) THEN <<>> ELSE Walk(s[i]) \o WalkKids(s, i + 1)

(* ---- what holds of every trie ---- *)
RECURSIVE Placed(_, _, _), Compact(_, _)
(* every leaf hangs where its hash says, and holds one hash only *)
Placed(n, depth, path) ==
  IF n.leaf
  THEN /\ n.list # <<>>
       /\ \A j \in DOMAIN n.list : SameHash(n.list[j][1], HashKey(n)) /\ Prefix(Chunks[n.list[j][1]], depth) = path
       /\ \A i, j \in DOMAIN n.list : i # j => n.list[i][1] # n.list[j][1]
  ELSE /\ Cardinality(n.bits) = Len(n.kids)
       /\ \A pos \in n.bits : Placed(n.kids[Index(n, pos)], depth + 1, Append(path, pos))
(* below the root there is no inner node with nothing but one leaf *)
Compact(n, top) == IF n.leaf THEN TRUE
                   ELSE /\ top \/ Len(n.kids) >= 1
                        /\ top \/ ~(Len(n.kids) = 1 /\ n.kids[1].leaf)
                        /\ \A i \in DOMAIN n.kids : Compact(n.kids[i], FALSE)
=============================================================================
