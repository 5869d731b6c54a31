From 06adde475803096c90b1d44de3f4ba94fec0dc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:43 +0000
Subject: [PATCH 01/15] fix: import math in utils/comparator so that it and its
 dependents compile

---
 utils/comparator/comparator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/comparator/comparator.go b/utils/comparator/comparator.go
index 32ba76d..aad362d 100644
--- a/utils/comparator/comparator.go
+++ b/utils/comparator/comparator.go
@@ -1,5 +1,7 @@
 package comparator
 
+import "math"
+
 type Ordered interface {
 	Integer | Float | ~string
 }
-- 
2.43.0


From 6f872b6c06333b37bf3342246fe582bc9bb36d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:24 +0000
Subject: [PATCH 02/15] fix: Complex64Comparator compared the real part of a
 with itself

---
 utils/comparator/comparator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/comparator/comparator.go b/utils/comparator/comparator.go
index aad362d..f903548 100644
--- a/utils/comparator/comparator.go
+++ b/utils/comparator/comparator.go
@@ -282,7 +282,7 @@ func Complex64Comparator(a, b complex64) int {
 	if a == b {
 		return 0
 	}
-	if real(a) < real(a) {
+	if real(a) < real(b) {
 		return -1
 	}
 	if real(a) == real(b) && imag(a) < imag(b) {
-- 
2.43.0


From 0ec83e568b664631be63a883e4737d768a9ec7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:26 +0000
Subject: [PATCH 03/15] fix: Stable on an empty range recursed without end

---
 algorithm/sort/stable_sort.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithm/sort/stable_sort.go b/algorithm/sort/stable_sort.go
index 1765635..db1c07b 100644
--- a/algorithm/sort/stable_sort.go
+++ b/algorithm/sort/stable_sort.go
@@ -13,7 +13,7 @@ func Stable[T any](first, last iterator.RandomAccessIterator[T], cmp comparator.
 }
 
 func mergeSort[T any](first, last iterator.RandomAccessIterator[T], cmp comparator.Comparator[T], tempSlice []T) {
-	if first.Position()+1 == last.Position() {
+	if first.Position()+1 >= last.Position() {
 		return
 	}
 	mid := first.IteratorAt((first.Position() + last.Position()) >> 1)
-- 
2.43.0


From 413fa500ae59785affb47074ce22eb1e4d007746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:29 +0000
Subject: [PATCH 04/15] fix: NthElement left two-element ranges unordered

---
 algorithm/sort/nth_element.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithm/sort/nth_element.go b/algorithm/sort/nth_element.go
index 9b434e1..57b8cf5 100644
--- a/algorithm/sort/nth_element.go
+++ b/algorithm/sort/nth_element.go
@@ -15,7 +15,7 @@ func NthElement[T any](first, last iterator.RandomAccessIterator[T], n int, cmp
 }
 
 func nthElement[T any](first, last iterator.RandomAccessIterator[T], n int, cmp comparator.Comparator[T]) {
-	if first.Position()+1 >= last.Position() {
+	if first.Position() >= last.Position() {
 		return
 	}
 
-- 
2.43.0


From 309e91d1ff5c9796c6f9a0e125839fc1c4461f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:31 +0000
Subject: [PATCH 05/15] fix: Reverse on an empty range stepped outside the
 range

---
 algorithm/op.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/algorithm/op.go b/algorithm/op.go
index 3762592..c980e2b 100644
--- a/algorithm/op.go
+++ b/algorithm/op.go
@@ -14,6 +14,9 @@ func Swap[T any](a, b iterator.Iterator[T]) {
 
 // Reverse reverse the elements in the range [first, last]
 func Reverse[T any](first, last iterator.BidIterator[T]) {
+	if first.Equal(last) {
+		return
+	}
 	left := first.Clone().(iterator.BidIterator[T])
 	right := last.Clone().(iterator.BidIterator[T]).Prev().(iterator.BidIterator[T])
 	for !left.Equal(right) {
-- 
2.43.0


From 4d0cf442f5156a446ce9b8ec096d669052cba3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:33 +0000
Subject: [PATCH 06/15] fix: SliceWrapper.Last returned the end iterator

---
 ds/slice/slice_wrapper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ds/slice/slice_wrapper.go b/ds/slice/slice_wrapper.go
index 32c0935..608f9d7 100644
--- a/ds/slice/slice_wrapper.go
+++ b/ds/slice/slice_wrapper.go
@@ -60,6 +60,6 @@ func (s *SliceWrapper[T]) First() *SliceIterator[T] {
 // Last returns the last iterator of s
 func (s *SliceWrapper[T]) Last() *SliceIterator[T] {
 	return &SliceIterator[T]{s: s,
-		position: s.Len(),
+		position: s.Len() - 1,
 	}
 }
-- 
2.43.0


From 702bbff968ac12493e8d262e19fee7912e01b831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 07/15] fix: PushBackList and PushFrontList panicked on an
 empty receiver

---
 ds/list/bidlist/list.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ds/list/bidlist/list.go b/ds/list/bidlist/list.go
index bde246e..a4a1932 100644
--- a/ds/list/bidlist/list.go
+++ b/ds/list/bidlist/list.go
@@ -269,7 +269,7 @@ func (l *List[T]) moveToAfter(n, at *Node[T]) {
 // The list and other may be the same. They must not be nil.
 func (l *List[T]) PushBackList(other *List[T]) {
 	for i, n := other.Len(), other.FrontNode(); i > 0; i, n = i-1, n.Next() {
-		l.InsertAfter(n.Value, l.head.prev)
+		l.PushBack(n.Value)
 	}
 }
 
@@ -277,7 +277,7 @@ func (l *List[T]) PushBackList(other *List[T]) {
 // The list and other may be the same. They must not be nil.
 func (l *List[T]) PushFrontList(other *List[T]) {
 	for i, e := other.Len(), other.BackNode(); i > 0; i, e = i-1, e.Prev() {
-		l.InsertBefore(e.Value, l.head)
+		l.PushFront(e.Value)
 	}
 }
 
-- 
2.43.0


From 682ef4697353937160a1fa9357b1d84afda1f096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:38 +0000
Subject: [PATCH 08/15] fix: MoveAfter did not move the front node after the
 back node

---
 ds/list/bidlist/list.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ds/list/bidlist/list.go b/ds/list/bidlist/list.go
index a4a1932..07a8add 100644
--- a/ds/list/bidlist/list.go
+++ b/ds/list/bidlist/list.go
@@ -247,6 +247,11 @@ func (l *List[T]) MoveAfter(n, mark *Node[T]) {
 	if n.list != l || n == mark || mark.list != l {
 		return
 	}
+	if n == l.head && mark == n.prev {
+		// the list is circular: n already follows mark, but as the front node
+		l.head = n.next
+		return
+	}
 	l.moveToAfter(n, mark)
 }
 
-- 
2.43.0


From 173d266197b5843e97cb2e21753b2f75a69c52c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:40 +0000
Subject: [PATCH 09/15] fix: bidlist Clear left its nodes attached, so reusing
 one corrupted the list

---
 ds/list/bidlist/list.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ds/list/bidlist/list.go b/ds/list/bidlist/list.go
index 07a8add..0892c69 100644
--- a/ds/list/bidlist/list.go
+++ b/ds/list/bidlist/list.go
@@ -190,8 +190,9 @@ func (l *List[T]) remove(n *Node[T]) *Node[T] {
 
 // Clear removes all nodes
 func (l *List[T]) Clear() {
-	l.head = nil
-	l.len = 0
+	for l.len > 0 {
+		l.remove(l.head)
+	}
 }
 
 // PopBack removes the last node in the list and returns its value
-- 
2.43.0


From bc0f2b76f33bce36df9a51dc496cf2d0aa37a589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:42 +0000
Subject: [PATCH 10/15] fix: Hamt traversal went on after the visitor returned
 false

---
 ds/hamt/hamt.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ds/hamt/hamt.go b/ds/hamt/hamt.go
index 9ca1833..03684c1 100644
--- a/ds/hamt/hamt.go
+++ b/ds/hamt/hamt.go
@@ -161,19 +161,22 @@ func (h *BitmapNode[T]) find(depth int, hash uint64, key Key) (T, error) {
 	return *new(T), ErrorNotFound
 }
 
-func (h *BitmapNode[T]) traversal(visitor visitor.KvVisitor[Key, T]) {
+func (h *BitmapNode[T]) traversal(visitor visitor.KvVisitor[Key, T]) bool {
 	for _, entry := range h.children {
 		if entry.Type() == BITMAP_NODE {
-			entry.(*BitmapNode[T]).traversal(visitor)
+			if !entry.(*BitmapNode[T]).traversal(visitor) {
+				return false
+			}
 		} else {
 			node := entry.(*KvNode[T])
 			for kv := node.kvList; kv != nil; kv = kv.next {
 				if !visitor(kv.key, kv.value) {
-					return
+					return false
 				}
 			}
 		}
 	}
+	return true
 }
 
 func (h *BitmapNode[T]) erase(depth int, hash uint64, key Key) bool {
-- 
2.43.0


From 4961e76dd8fa384389329f717b24985a2e0258b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:44 +0000
Subject: [PATCH 11/15] fix: Ketama.Get could panic when the ring was emptied
 concurrently

---
 ds/ketama/ketama.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ds/ketama/ketama.go b/ds/ketama/ketama.go
index a890a76..2d202ef 100644
--- a/ds/ketama/ketama.go
+++ b/ds/ketama/ketama.go
@@ -105,16 +105,15 @@ func (k *Ketama) Remove(nodes ...string) {
 
 // Get returns the node closest to key in the clockwise direction
 func (k *Ketama) Get(key string) (string, bool) {
-	if k.Empty() {
-		return "", false
-	}
-
 	hashs := hash.GenHashInts([]byte(salt+key), 1)
 	hash := hashs[0]
 
 	k.locker.Lock()
 	defer k.locker.Unlock()
 
+	if k.m.Size() == 0 {
+		return "", false
+	}
 	iter := k.m.LowerBound(hash)
 	if iter.IsValid() {
 		return iter.Value(), true
-- 
2.43.0


From 29ed6708871484948f9cad2f106bebbde1b94cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 12/15] fix: simplelist InsertAfter modified lists through a
 node of another list

---
 ds/list/simplelist/simplelist.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ds/list/simplelist/simplelist.go b/ds/list/simplelist/simplelist.go
index dbbaa57..eb555b2 100644
--- a/ds/list/simplelist/simplelist.go
+++ b/ds/list/simplelist/simplelist.go
@@ -9,6 +9,7 @@ import (
 type Node[T any] struct {
 	next  *Node[T]
 	Value T
+	list  *List[T]
 }
 
 // Next returns the next list node or nil.
@@ -49,7 +50,7 @@ func (l *List[T]) BackNode() *Node[T] {
 
 // PushFront inserts a new node n with value v at the front of the list.
 func (l *List[T]) PushFront(v T) {
-	n := &Node[T]{Value: v}
+	n := &Node[T]{Value: v, list: l}
 	if l.len == 0 {
 		l.head = n
 		l.tail = n
@@ -62,7 +63,7 @@ func (l *List[T]) PushFront(v T) {
 
 // PushBack inserts a new node n with value v at the back of the list.
 func (l *List[T]) PushBack(v T) {
-	n := &Node[T]{Value: v}
+	n := &Node[T]{Value: v, list: l}
 	if l.len == 0 {
 		l.head = n
 		l.tail = n
@@ -77,7 +78,10 @@ func (l *List[T]) PushBack(v T) {
 // If mark is not a node of the list, the list is not modified.
 // The mark must not be nil.
 func (l *List[T]) InsertAfter(v T, mark *Node[T]) *Node[T] {
-	return l.insertAfter(&Node[T]{Value: v}, mark)
+	if mark.list != l {
+		return nil
+	}
+	return l.insertAfter(&Node[T]{Value: v, list: l}, mark)
 }
 
 func (l *List[T]) insertAfter(n, at *Node[T]) *Node[T] {
@@ -107,6 +111,7 @@ func (l *List[T]) Remove(pre, n *Node[T]) T {
 			l.tail = pre
 		}
 	}
+	n.list = nil
 	l.len--
 	return n.Value
 }
-- 
2.43.0


From 6a3d5410aaa56dda06eda7673dfaa3b21aa2df5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:28 +0000
Subject: [PATCH 13/15] fix: Set algebra read the other set without holding its
 lock

---
 ds/set/set.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/ds/set/set.go b/ds/set/set.go
index 057be50..ef69374 100644
--- a/ds/set/set.go
+++ b/ds/set/set.go
@@ -182,15 +182,30 @@ func (s *Set[T]) String() string {
 	return str
 }
 
+// snapshot returns a copy of the tree of the set, taken under the lock of the set. Never call it with
+// the lock of another set held: two sets combined with each other at once could then deadlock.
+func (s *Set[T]) snapshot() *rbtree.RbTree[T, bool] {
+	s.locker.RLock()
+	defer s.locker.RUnlock()
+
+	tree := rbtree.New[T, bool](s.keyCmp)
+	for node := s.tree.First(); node != nil; node = node.Next() {
+		tree.Insert(node.Key(), Empty)
+	}
+	return tree
+}
+
 // Intersect returns a new set with the common elements in the set s and the passed set
 // Please ensure s set and other set uses the same keyCmp
 func (s *Set[T]) Intersect(other *Set[T]) *Set[T] {
+	otherTree := other.snapshot()
+
 	s.locker.RLock()
 	defer s.locker.RUnlock()
 
 	set := New(s.keyCmp)
 	sIter := s.tree.IterFirst()
-	otherIter := other.tree.IterFirst()
+	otherIter := otherTree.IterFirst()
 	for sIter.IsValid() && otherIter.IsValid() {
 		cmp := s.keyCmp(sIter.Key(), otherIter.Key())
 		if cmp == 0 {
@@ -209,12 +224,14 @@ func (s *Set[T]) Intersect(other *Set[T]) *Set[T] {
 // Union returns a new set with the all elements in the set s and the passed set
 // Please ensure s set and other set uses the same keyCmp
 func (s *Set[T]) Union(other *Set[T]) *Set[T] {
+	otherTree := other.snapshot()
+
 	s.locker.RLock()
 	defer s.locker.RUnlock()
 
 	set := New(s.keyCmp)
 	sIter := s.tree.IterFirst()
-	otherIter := other.tree.IterFirst()
+	otherIter := otherTree.IterFirst()
 	for sIter.IsValid() && otherIter.IsValid() {
 		cmp := s.keyCmp(sIter.Key(), otherIter.Key())
 		if cmp == 0 {
@@ -241,12 +258,14 @@ func (s *Set[T]) Union(other *Set[T]) *Set[T] {
 // Diff returns a new set with the elements in the set s but not in the passed set
 // Please ensure s set and other set uses the same keyCmp
 func (s *Set[T]) Diff(other *Set[T]) *Set[T] {
+	otherTree := other.snapshot()
+
 	s.locker.RLock()
 	defer s.locker.RUnlock()
 
 	set := New(s.keyCmp)
 	sIter := s.tree.IterFirst()
-	otherIter := other.tree.IterFirst()
+	otherIter := otherTree.IterFirst()
 	for sIter.IsValid() && otherIter.IsValid() {
 		cmp := s.keyCmp(sIter.Key(), otherIter.Key())
 		if cmp == 0 {
-- 
2.43.0


From cd2c7b8f5ad3bf295b56191d9d8b12c21ff1170b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:30 +0000
Subject: [PATCH 14/15] fix: PriorityQueue served elements of the same priority
 out of order

---
 ds/priorityqueue/priority_queue.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ds/priorityqueue/priority_queue.go b/ds/priorityqueue/priority_queue.go
index 8f2371e..ba32ae1 100644
--- a/ds/priorityqueue/priority_queue.go
+++ b/ds/priorityqueue/priority_queue.go
@@ -15,12 +15,16 @@ var (
 // ElementHolder holds elements of the PriorityQueue
 type ElementHolder[T any] struct {
 	elements []T
+	seqs     []uint64 // seqs[i] is the push order of elements[i], elements with the same priority are served by it
+	nextSeq  uint64
 	cmpFun   comparator.Comparator[T]
 }
 
 // Push pushes an element to the ElementHolder
 func (h *ElementHolder[T]) Push(element T) {
 	h.elements = append(h.elements, element)
+	h.seqs = append(h.seqs, h.nextSeq)
+	h.nextSeq++
 }
 
 // Pop pops an element from the ElementHolder
@@ -30,6 +34,7 @@ func (h *ElementHolder[T]) Pop() T {
 	}
 	item := h.elements[h.Len()-1]
 	h.elements = h.elements[:h.Len()-1]
+	h.seqs = h.seqs[:h.Len()]
 	return item
 }
 
@@ -45,14 +50,18 @@ func (h *ElementHolder[T]) Len() int {
 	return len(h.elements)
 }
 
-// Len compare two elements at position i and j , and returns true if elements[i] < elements[j]
+// Less compare two elements at position i and j , and returns true if elements[i] must be served before elements[j]
 func (h *ElementHolder[T]) Less(i, j int) bool {
-	return h.cmpFun(h.elements[i], h.elements[j]) < 0
+	if cmp := h.cmpFun(h.elements[i], h.elements[j]); cmp != 0 {
+		return cmp < 0
+	}
+	return h.seqs[i] < h.seqs[j]
 }
 
 // Swap swaps two elements at position i and j
 func (h *ElementHolder[T]) Swap(i, j int) {
 	h.elements[i], h.elements[j] = h.elements[j], h.elements[i]
+	h.seqs[i], h.seqs[j] = h.seqs[j], h.seqs[i]
 }
 
 // Options holds PriorityQueue's options
@@ -133,6 +142,7 @@ func (q *PriorityQueue[T]) Clear() {
 
 	// reset cap to zero
 	q.holder.elements = q.holder.elements[:0]
+	q.holder.seqs = q.holder.seqs[:0]
 }
 
 // Size returns the amount of elements in the queue
-- 
2.43.0


From e4ebd15d162ab909aba3276daa99ba14b0434cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:56 +0000
Subject: [PATCH 15/15] fix: String left out the separator after leading
 elements whose form is empty

---
 ds/deque/deque.go                | 2 +-
 ds/list/bidlist/list.go          | 2 +-
 ds/list/simplelist/simplelist.go | 2 +-
 ds/set/multiset.go               | 4 +++-
 ds/set/set.go                    | 4 +++-
 5 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/ds/deque/deque.go b/ds/deque/deque.go
index aced69f..7f39cf3 100644
--- a/ds/deque/deque.go
+++ b/ds/deque/deque.go
@@ -387,7 +387,7 @@ func (d *Deque[T]) preIndex(index int) int {
 func (d *Deque[T]) String() string {
 	str := "["
 	for i := 0; i < d.Size(); i++ {
-		if str != "[" {
+		if i > 0 {
 			str += " "
 		}
 		str += fmt.Sprintf("%v", d.At(i))
diff --git a/ds/list/bidlist/list.go b/ds/list/bidlist/list.go
index 0892c69..b19f487 100644
--- a/ds/list/bidlist/list.go
+++ b/ds/list/bidlist/list.go
@@ -291,7 +291,7 @@ func (l *List[T]) PushFrontList(other *List[T]) {
 func (l *List[T]) String() string {
 	str := "["
 	for n := l.FrontNode(); n != nil; n = n.Next() {
-		if str != "[" {
+		if n != l.FrontNode() {
 			str += " "
 		}
 		str += fmt.Sprintf("%v", n.Value)
diff --git a/ds/list/simplelist/simplelist.go b/ds/list/simplelist/simplelist.go
index eb555b2..ed967fb 100644
--- a/ds/list/simplelist/simplelist.go
+++ b/ds/list/simplelist/simplelist.go
@@ -150,7 +150,7 @@ func (l *List[T]) MoveToBack(pre, n *Node[T]) {
 func (l *List[T]) String() string {
 	str := "["
 	for n := l.FrontNode(); n != nil; n = n.Next() {
-		if str != "[" {
+		if n != l.FrontNode() {
 			str += " "
 		}
 		str += fmt.Sprintf("%v", n.Value)
diff --git a/ds/set/multiset.go b/ds/set/multiset.go
index 2ae7a3f..bb83038 100644
--- a/ds/set/multiset.go
+++ b/ds/set/multiset.go
@@ -166,10 +166,12 @@ func (ms *MultiSet[T]) Traversal(visitor visitor.Visitor[T]) {
 // String returns s string representation of the MultiSet
 func (ms *MultiSet[T]) String() string {
 	str := "["
+	first := true
 	ms.Traversal(func(value T) bool {
-		if str != "[" {
+		if !first {
 			str += " "
 		}
+		first = false
 		str += fmt.Sprintf("%v", value)
 		return true
 	})
diff --git a/ds/set/set.go b/ds/set/set.go
index ef69374..9084db5 100644
--- a/ds/set/set.go
+++ b/ds/set/set.go
@@ -171,10 +171,12 @@ func (s *Set[T]) Traversal(visitor visitor.Visitor[T]) {
 // String returns a string representation of the set
 func (s *Set[T]) String() string {
 	str := "["
+	first := true
 	s.Traversal(func(value T) bool {
-		if str != "[" {
+		if !first {
 			str += " "
 		}
+		first = false
 		str += fmt.Sprintf("%v", value)
 		return true
 	})
-- 
2.43.0

