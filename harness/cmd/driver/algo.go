package main

import (
	. "verif/harness/things"

	"math"
	"math/rand"
	gosort "sort"
	"strings"

	"github.com/liyue201/gostl/algorithm"
	"github.com/liyue201/gostl/algorithm/sort"
	"github.com/liyue201/gostl/ds/array"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
	treemap "github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/pair"
	"github.com/liyue201/gostl/ds/rbtree"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/ds/slice"
	"github.com/liyue201/gostl/ds/vector"
	"github.com/liyue201/gostl/utils/comparator"
	"github.com/liyue201/gostl/utils/iterator"
)

// ---- the containers algorithms run on ----

const (
	kSlice = iota
	kVector
	kDeque
	kArray
	kBidList
	kSimpleList
	kSet
	kMap
	kMultiMap
	kMultiSet
	kRbTree
	nKinds
)

// seq is one container with what is needed to build its iterators.
type seq struct {
	kind  int
	vals  func() []int                                     // content, without using iterators
	ra    func(pos int) iterator.RandomAccessIterator[int] // kinds 0..3
	begin func() iterator.ConstIterator[int]
	end   func() iterator.ConstIterator[int]
	first func() iterator.ConstIterator[int] // nil if the container has none
	last  func() iterator.ConstIterator[int]
	ins   func(p, v int) // insert before index p (the content at p becomes v)
	del   func(p int)
}

func mkDeque(v []int) *deque.Deque[int] {
	d := deque.New[int]()
	h := len(v) / 2
	for i := h - 1; i >= 0; i-- {
		d.PushFront(v[i])
	}
	for _, x := range v[h:] {
		d.PushBack(x)
	}
	return d
}

// keyAt picks a key between the keys of neighbours.
type keys struct{ ks []int }

func newKeys(n int) *keys {
	k := &keys{}
	for i := 0; i < n; i++ {
		k.ks = append(k.ks, (i+1)<<16)
	}
	return k
}
func (k *keys) at(p int) int {
	lo, hi := 0, 1<<30
	if p > 0 {
		lo = k.ks[p-1]
	}
	if p < len(k.ks) {
		hi = k.ks[p]
	} else {
		hi = lo + 1<<17
	}
	x := (lo + hi) / 2
	k.ks = append(k.ks[:p], append([]int{x}, k.ks[p:]...)...)
	return x
}

func mkSeq(kind int, v []int) *seq {
	s := &seq{kind: kind}
	switch kind {
	case kSlice:
		d, margins := InsideInts(v)
		c := slice.NewSliceWrapper(d)
		s.vals = func() []int { return append(margins(), d...) }
		s.ra = func(p int) iterator.RandomAccessIterator[int] { return c.Begin().IteratorAt(p) }
		s.begin = func() iterator.ConstIterator[int] { return c.Begin() }
		s.end = func() iterator.ConstIterator[int] { return c.End() }
		s.first = func() iterator.ConstIterator[int] { return c.First() }
		s.last = func() iterator.ConstIterator[int] { return c.Last() }
	case kVector:
		c := vector.New[int]()
		for _, x := range v {
			c.PushBack(x)
		}
		s.vals = func() []int { return AtAll(c.Size, c.At) }
		s.ra = func(p int) iterator.RandomAccessIterator[int] { return c.IterAt(p) }
		s.begin = func() iterator.ConstIterator[int] { return c.Begin() }
		s.end = func() iterator.ConstIterator[int] { return c.End() }
		s.first = func() iterator.ConstIterator[int] { return c.First() }
		s.last = func() iterator.ConstIterator[int] { return c.Last() }
		s.ins = c.InsertAt
		s.del = c.EraseAt
	case kDeque:
		c := mkDeque(v)
		s.vals = func() []int { return AtAll(c.Size, c.At) }
		s.ra = func(p int) iterator.RandomAccessIterator[int] { return c.IterAt(p) }
		s.begin = func() iterator.ConstIterator[int] { return c.Begin() }
		s.end = func() iterator.ConstIterator[int] { return c.End() }
		s.first = func() iterator.ConstIterator[int] { return c.First() }
		s.last = func() iterator.ConstIterator[int] { return c.Last() }
		s.ins = c.Insert
		s.del = c.EraseAt
	case kArray:
		c := array.New[int](len(v))
		for i, x := range v {
			c.Set(i, x)
		}
		s.vals = func() []int { return AtAll(c.Size, c.At) }
		s.ra = func(p int) iterator.RandomAccessIterator[int] { return c.IterAt(p) }
		s.begin = func() iterator.ConstIterator[int] { return c.Begin() }
		s.end = func() iterator.ConstIterator[int] { return c.End() }
		s.first = func() iterator.ConstIterator[int] { return c.First() }
		s.last = func() iterator.ConstIterator[int] { return c.Last() }
	case kBidList:
		c := bidlist.New[int]()
		for _, x := range v {
			c.PushBack(x)
		}
		node := func(p int) *bidlist.Node[int] {
			n := c.FrontNode()
			for ; p > 0; p-- {
				n = n.Next()
			}
			return n
		}
		s.vals = func() []int {
			r := []int{}
			for n := c.FrontNode(); n != nil && len(r) < maxWalk; n = n.Next() {
				r = append(r, n.Value)
			}
			return r
		}
		s.begin = func() iterator.ConstIterator[int] { return bidlist.NewIterator(c.FrontNode()) }
		s.end = func() iterator.ConstIterator[int] { return bidlist.NewIterator[int](nil) }
		s.last = func() iterator.ConstIterator[int] { return bidlist.NewIterator(c.BackNode()) }
		s.ins = func(p, v int) {
			if p == c.Len() {
				c.PushBack(v)
			} else {
				c.InsertBefore(v, node(p))
			}
		}
	case kSimpleList:
		c := simplelist.New[int]()
		for _, x := range v {
			c.PushBack(x)
		}
		s.vals = func() []int {
			r := []int{}
			for n := c.FrontNode(); n != nil && len(r) < maxWalk; n = n.Next() {
				r = append(r, n.Value)
			}
			return r
		}
		s.begin = func() iterator.ConstIterator[int] { return simplelist.NewIterator(c.FrontNode()) }
		s.end = func() iterator.ConstIterator[int] { return simplelist.NewIterator[int](nil) }
		s.last = func() iterator.ConstIterator[int] { return simplelist.NewIterator(c.BackNode()) }
		s.ins = func(p, v int) {
			if p == 0 {
				c.PushFront(v)
				return
			}
			n := c.FrontNode()
			for ; p > 1; p-- {
				n = n.Next()
			}
			c.InsertAfter(v, n)
		}
	case kSet: // the values must be ascending
		c := set.New[int](comparator.IntComparator)
		for _, x := range v {
			c.Insert(x)
		}
		s.vals = func() (r []int) {
			r = []int{}
			c.Traversal(func(x int) bool { r = append(r, x); return len(r) < maxWalk })
			return r
		}
		s.begin = func() iterator.ConstIterator[int] { return c.Begin() }
		s.end = func() iterator.ConstIterator[int] { return c.Find(-1 << 31) }
		s.first = func() iterator.ConstIterator[int] { return c.First() }
		s.last = func() iterator.ConstIterator[int] { return c.Last() }
		s.ins = func(p, v int) { c.Insert(v) }
	case kMultiSet:
		c := set.NewMultiSet[int](comparator.IntComparator)
		for _, x := range v {
			c.Insert(x)
		}
		s.vals = func() (r []int) {
			r = []int{}
			c.Traversal(func(x int) bool { r = append(r, x); return len(r) < maxWalk })
			return r
		}
		s.begin = func() iterator.ConstIterator[int] { return c.Begin() }
		s.end = func() iterator.ConstIterator[int] { return c.Find(-1 << 31) }
		s.first = func() iterator.ConstIterator[int] { return c.First() }
		s.last = func() iterator.ConstIterator[int] { return c.Last() }
		s.ins = func(p, v int) { c.Insert(v) }
	case kMap:
		c := treemap.New[int, int](comparator.IntComparator)
		k := newKeys(len(v))
		for i, x := range v {
			c.Insert(k.ks[i], x)
		}
		s.vals = func() (r []int) {
			r = []int{}
			c.Traversal(func(_, x int) bool { r = append(r, x); return len(r) < maxWalk })
			return r
		}
		s.begin = func() iterator.ConstIterator[int] { return c.Begin() }
		s.end = func() iterator.ConstIterator[int] { return c.Find(-1) }
		s.first = func() iterator.ConstIterator[int] { return c.First() }
		s.last = func() iterator.ConstIterator[int] { return c.Last() }
		s.ins = func(p, v int) { c.Insert(k.at(p), v) }
	case kMultiMap:
		c := treemap.NewMultiMap[int, int](comparator.IntComparator)
		k := newKeys(len(v))
		for i, x := range v {
			c.Insert(k.ks[i], x)
		}
		s.vals = func() (r []int) {
			r = []int{}
			c.Traversal(func(_, x int) bool { r = append(r, x); return len(r) < maxWalk })
			return r
		}
		s.begin = func() iterator.ConstIterator[int] { return c.Begin() }
		s.end = func() iterator.ConstIterator[int] { return c.Find(-1) }
		s.first = func() iterator.ConstIterator[int] { return c.First() }
		s.last = func() iterator.ConstIterator[int] { return c.Last() }
		s.ins = func(p, v int) { c.Insert(k.at(p), v) }
	case kRbTree:
		c := rbtree.New[int, int](comparator.IntComparator)
		k := newKeys(len(v))
		for i, x := range v {
			c.Insert(k.ks[i], x)
		}
		s.vals = func() (r []int) {
			r = []int{}
			c.Traversal(func(_, x int) bool { r = append(r, x); return len(r) < maxWalk })
			return r
		}
		s.begin = func() iterator.ConstIterator[int] { return rbA2{rbtree.NewIterator(c.Begin())} }
		s.end = func() iterator.ConstIterator[int] { return rbA2{rbtree.NewIterator(c.FindNode(-1))} }
		s.first = func() iterator.ConstIterator[int] { return rbA2{c.IterFirst()} }
		s.last = func() iterator.ConstIterator[int] { return rbA2{c.IterLast()} }
		s.ins = func(p, v int) { c.Insert(k.at(p), v) }
	default:
		fatal("kind", kind)
	}
	return s
}

// rbA2 gives the tree's iterator the method set of the others (its SetValue
// returns an error).
type rbA2 struct {
	*rbtree.RbTreeIterator[int, int]
}

func (a rbA2) SetValue(v int) { a.RbTreeIterator.SetValue(v) }
func (a rbA2) Next() iterator.ConstIterator[int] {
	if a.RbTreeIterator.Next() != iterator.ConstIterator[int](a.RbTreeIterator) {
		return nil
	}
	return a
}
func (a rbA2) Prev() iterator.ConstBidIterator[int] {
	if a.RbTreeIterator.Prev() != iterator.ConstBidIterator[int](a.RbTreeIterator) {
		return nil
	}
	return a
}
func (a rbA2) Clone() iterator.ConstIterator[int] {
	return rbA2{a.RbTreeIterator.Clone().(*rbtree.RbTreeIterator[int, int])}
}
func (a rbA2) Equal(o iterator.ConstIterator[int]) bool {
	if b, ok := o.(rbA2); ok {
		return a.RbTreeIterator.Equal(b.RbTreeIterator)
	}
	return a.RbTreeIterator.Equal(o)
}

// at gives the iterator at index p, or the end if p is the length.
func (s *seq) at(p int) iterator.ConstIterator[int] {
	if s.ra != nil {
		return s.ra(p)
	}
	if p >= len(s.vals()) {
		return s.end()
	}
	it := s.begin()
	for ; p > 0; p-- {
		it.Next()
	}
	return it
}

// index finds where an iterator is.
func (s *seq) index(it iterator.ConstIterator[int]) int {
	if it == nil {
		return -7
	}
	if r, ok := it.(iterator.RandomAccessIterator[int]); ok {
		return r.Position()
	}
	n := len(s.vals())
	b := s.begin()
	for i := 0; i < n; i++ {
		if b.Equal(it) {
			return i
		}
		b.Next()
	}
	if !it.IsValid() {
		return n
	}
	return -8
}

const keyUnit = 100000

func keyOf(v int) int { return v / keyUnit }

// ---- algorithms ----

type algoM struct {
	p     Params
	cmps  int
	al    []func() Op
	calls int
	i     int
}

func (m *algoM) Reset()                { m.i = 0 }
func (m *algoM) Start(*rand.Rand) []Op { return nil }
func (m *algoM) Final() []Op           { return nil }
func (m *algoM) cmp(kind int) comparator.Comparator[int] {
	c := comparator.Comparator[int](func(a, b int) int {
		m.cmps++
		switch x, y := keyOf(a), keyOf(b); {
		case x < y:
			return -1
		case x > y:
			return 1
		}
		return 0
	})
	if kind == 1 {
		return comparator.Reverse(c)
	}
	return c
}

// input builds values with the given keys; ids make them distinct.
func input(ks []int) []int {
	v := []int{}
	for i, k := range ks {
		v = append(v, k*keyUnit+i)
	}
	return v
}

func (m *algoM) profile() string { return strings.TrimSuffix(m.p.Profile, "big") }

func (m *algoM) names() []string {
	switch m.profile() {
	case "sort":
		return []string{"Sort", "Stable"}
	case "search":
		return []string{"BinarySearch", "LowerBound", "UpperBound"}
	case "perm":
		return []string{"NextPermutation"}
	case "nth":
		return []string{"NthElement"}
	}
	return []string{"Count", "CountIf", "Find", "FindIf", "MaxElement", "MinElement", "AnyOf", "AllOf", "NoneOf", "Swap", "Reverse"}
}

// arguments: kind, first, last, cmp, n, then the values
func (m *algoM) mkOp(name string, kind, f, l, c, n int, ks []int) Op {
	if m.profile() == "search" { // the searched range is sorted
		r := append([]int{}, ks[f:l]...)
		gosort.Ints(r)
		if c == 1 {
			for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
				r[i], r[j] = r[j], r[i]
			}
		}
		ks = append(append(append([]int{}, ks[:f]...), r...), ks[l:]...)
	}
	v := input(ks)
	if kind >= kSet {
		gosort.Ints(v)
	}
	return Op{name, kind, append([]int{f, l, c, n}, v...)}
}

func (m *algoM) Alpha() []func() Op {
	if m.al != nil {
		return m.al
	}
	add := func(op Op) { m.al = append(m.al, func() Op { return op }) }
	maxLen, nkeys := 6, 3
	if m.profile() == "ops" {
		maxLen = 4
	}
	if m.profile() == "search" {
		maxLen = 5
	}
	i := 0
	var rec func(ks []int)
	rec = func(ks []int) {
		n := len(ks)
		for _, name := range m.names() {
			i++
			kind := i % 4
			c := i / 4 % 2
			switch m.profile() {
			case "nth":
				for j := 0; j < n; j++ {
					add(m.mkOp(name, kind, 0, n, c, j, ks))
				}
				add(m.mkOp(name, kind, 0, n, c, n, ks))
				add(m.mkOp(name, kind, 0, n, c, n+1, ks))
			case "search":
				for x := -1; x <= nkeys; x++ {
					add(m.mkOp(name, kind, 0, n, c, x+1, ks))
				}
			case "ops":
				kind = i % (nKinds - 3)
				if kind > kBidList && (name == "Reverse") || kind == kSet && name == "Swap" {
					kind = i % 5
				}
				switch name {
				case "Swap":
					for j := 0; j < n*n; j++ {
						add(m.mkOp(name, kind, j/n, j%n, 0, 0, ks))
					}
				case "Reverse":
					for f := 0; f <= n; f++ {
						for l := f; l <= n && (kind < kBidList || l < n); l++ {
							add(m.mkOp(name, kind, f, l, 0, 0, ks))
						}
					}
				default:
					for x := 0; x < nkeys; x++ {
						add(m.mkOp(name, kind, 0, n, c, x, ks))
					}
				}
				continue
			default:
				add(m.mkOp(name, kind, 0, n, c, 0, ks))
				add(m.mkOp(name, (kind+1)%4, 0, n, 1-c, 0, ks))
			}
			// a sub-range
			if n >= 2 {
				f := i % n
				l := f + i/n%(n-f+1)
				add(m.mkOp(name, kind, f, l, c, i%(l-f+1), ks))
			}
		}
		if n < maxLen {
			for k := 0; k < nkeys; k++ {
				rec(append(append([]int{}, ks...), k))
			}
		}
	}
	rec(nil)
	if m.profile() == "perm" { // distinct keys: every permutation of up to 6
		var perm func(pre, rest []int)
		perm = func(pre, rest []int) {
			if len(rest) == 0 {
				i++
				add(m.mkOp("NextPermutation", i%4, 0, len(pre), i/4%2, 0, pre))
			}
			for j := range rest {
				perm(append(append([]int{}, pre...), rest[j]), append(append([]int{}, rest[:j]...), rest[j+1:]...))
			}
		}
		perm(nil, []int{0, 1, 2, 3, 4})
		perm(nil, []int{0, 1, 2, 3, 4, 5})
	}
	return m.al
}

// adverse finds keys on which the algorithm does badly: they are fixed only
// when it compares them (M. D. McIlroy, A killer adversary for quicksort).
func adverse(name string, n, at int) []int {
	ks, pos, next, pick, calls := make([]int, n), make([]int, n), 0, 0, 0
	const open = 1 << 20
	for i := range ks {
		ks[i], pos[i] = open, i
	}
	cmp := func(a, b int) int {
		if calls++; calls > 2000*(n+1) {
			panic("it has done enough")
		}
		if ks[a] == open && ks[b] == open {
			if a == pick {
				ks[a] = next
			} else {
				ks[b] = next
			}
			next++
		}
		if ks[a] == open {
			pick = a
		} else if ks[b] == open {
			pick = b
		}
		return ks[a] - ks[b]
	}
	try(func() []int {
		w := slice.NewSliceWrapper(pos)
		switch name {
		case "NthElement":
			sort.NthElement[int](w.Begin(), w.End(), at, cmp)
		case "Stable":
			sort.Stable[int](w.Begin(), w.End(), cmp)
		default:
			sort.Sort[int](w.Begin(), w.End(), cmp)
		}
		return nil
	})
	for i := range ks {
		if ks[i] == open {
			ks[i] = next
		}
	}
	return ks
}

func (m *algoM) Gen(r *rand.Rand) Op {
	m.i++
	names := m.names()
	name := names[r.Intn(len(names))]
	n := []int{r.Intn(8), 8 + r.Intn(20), 8 + r.Intn(20), 20 + r.Intn(40), 20 + r.Intn(100), 100 + r.Intn(200)}[r.Intn(6)]
	if m.profile() == "ops" {
		n = r.Intn(30)
	}
	large := m.profile() != m.p.Profile
	if large {
		n = 300 + r.Intn(2700)
		if m.profile() == "ops" {
			n = 150 + r.Intn(400)
		}
		if r.Intn(3) == 0 {
			n = 1000 + r.Intn(4500)
		}
	}
	span := []int{2, 5, 50, 10000}[r.Intn(4)]
	ks := []int{}
	switch pat := r.Intn(10); pat {
	case 0: // ascending
		for i := 0; i < n; i++ {
			ks = append(ks, i*span/(n+1))
		}
	case 1: // descending
		for i := 0; i < n; i++ {
			ks = append(ks, (n-i)*span/(n+1))
		}
	case 2: // organ pipe
		for i := 0; i < n; i++ {
			ks = append(ks, minInt(i, n-i))
		}
	case 3: // all equal
		for i := 0; i < n; i++ {
			ks = append(ks, 7)
		}
	case 4: // nearly sorted
		for i := 0; i < n; i++ {
			ks = append(ks, i)
		}
		for i := 0; i < 3 && n > 0; i++ {
			a, b := r.Intn(n), r.Intn(n)
			ks[a], ks[b] = ks[b], ks[a]
		}
	case 5: // saw teeth
		for i := 0; i < n; i++ {
			ks = append(ks, i%span)
		}
	case 6: // as unfortunate as possible for the algorithm
		ks = adverse(name, minInt(n, 600), r.Intn(n+1))
		n = len(ks)
	default:
		for i := 0; i < n; i++ {
			ks = append(ks, r.Intn(span))
		}
	}
	if large && n > 0 && r.Intn(2) == 0 { // the smallest and the greatest where algorithms look first
		for i := range ks {
			ks[i]++
		}
		at := []int{0, 1, n / 2, n - 2, n - 1, r.Intn(n)}
		if few := r.Intn(3); few > 0 { // nothing else is as small, or as great
			at = nil
			for _, i := range r.Perm(3)[:2] {
				ks[[]int{0, n / 2, n - 1}[i]] = (few - 1) * 10002
			}
		}
		for _, i := range at {
			switch r.Intn(4) {
			case 0:
				ks[i] = 0
			case 1:
				ks[i] = 10000
			}
		}
	}
	if large && m.profile() == "perm" && r.Intn(4) > 0 { // what is to be reversed is long
		from := r.Intn(n)
		gosort.Sort(gosort.Reverse(gosort.IntSlice(ks[from:])))
	}
	f, l := 0, n
	if r.Intn(3) == 0 {
		f = r.Intn(n + 1)
		l = f + r.Intn(n-f+1)
	}
	kind := r.Intn(4)
	x := 0
	switch m.profile() {
	case "nth":
		x = r.Intn(l - f + 2)
		if l > f && r.Intn(4) > 0 {
			x = r.Intn(l - f)
			if large && r.Intn(2) == 0 { // near an end
				x = minInt(r.Intn(4), l-f-1)
				if r.Intn(2) == 0 {
					x = l - f - 1 - x
				}
			}
		}
	case "search":
		x = r.Intn(span + 3) // one more than the key
		if n > 0 && r.Intn(2) == 0 {
			x = ks[r.Intn(n)] + r.Intn(3)
		}
	case "ops":
		kind = r.Intn(nKinds - 3)
		x = r.Intn(span)
		if n > 0 && r.Intn(2) == 0 {
			x = ks[r.Intn(n)]
		}
		if name == "Reverse" {
			kind = r.Intn(5)
			if kind == kBidList {
				l = minInt(l, n-1)
				f = minInt(f, l)
				if n == 0 {
					kind = kVector
				}
			}
			if n == 0 {
				f, l = 0, 0
			}
		}
		if name == "Swap" {
			if kind == kSet {
				kind = kMap
			}
			if n == 0 {
				name = "Find"
			} else {
				f, l = r.Intn(n), r.Intn(n)
			}
		}
	}
	return m.mkOp(name, kind, f, l, r.Intn(2), x, ks)
}

func (m *algoM) Do(op Op) (ev Ev) {
	f, l, c, n, v := op.A[0], op.A[1], op.A[2], op.A[3], op.A[4:]
	ev.A = []int{f, l, c, n}
	ev.B = append([]int{}, v...)
	s := mkSeq(op.O, v)
	cmp := m.cmp(c)
	m.cmps = 0
	key := func(it iterator.ConstIterator[int]) int { return keyOf(it.Value()) }
	if s.ra != nil && (m.profile() != "ops") {
		first, last := s.ra(f), s.ra(l)
		val := (n-1)*keyUnit + 99999 // its id is that of no element
		if n == 0 {
			val = -keyUnit
		}
		pos := func(it iterator.RandomAccessIterator[int]) []int { return rVal(it.Position()) }
		switch op.Name {
		case "Sort":
			ev.R = do(func() { sort.Sort(first, last, cmp) })
		case "Stable":
			ev.R = do(func() { sort.Stable(first, last, cmp) })
		case "NthElement":
			ev.R = do(func() { sort.NthElement(first, last, n, cmp) })
		case "NextPermutation":
			ev.R = try(func() []int { return rBool(sort.NextPermutation(first, last, cmp)) })
		case "BinarySearch":
			ev.R = try(func() []int { return rBool(sort.BinarySearch(first, last, val, cmp)) })
		case "LowerBound":
			ev.R = try(func() []int { return pos(sort.LowerBound(first, last, val, cmp)) })
		case "UpperBound":
			ev.R = try(func() []int { return pos(sort.UpperBound(first, last, val, cmp)) })
		default:
			fatal("algo op", op.Name)
		}
		ev.D = m.cmps
		if first.Position() != f || last.Position() != l {
			ev.R = []int{-9} // the arguments are positions, not cursors
		}
	} else {
		first, last := s.at(f), s.at(l)
		val := n*keyUnit + 99999
		is := func(it iterator.ConstIterator[int]) bool { return key(it) == n }
		ge := func(it iterator.ConstIterator[int]) bool { return key(it) >= n }
		pred := is
		if c == 1 {
			pred = ge
		}
		at := func(it iterator.ConstIterator[int]) []int { return rVal(s.index(it)) }
		switch op.Name {
		case "Count":
			ev.R = try(func() []int { return rVal(algorithm.Count(first, last, val, cmp)) })
		case "CountIf":
			ev.R = try(func() []int { return rVal(algorithm.CountIf(first, last, pred)) })
		case "Find":
			ev.R = try(func() []int { return at(algorithm.Find(first, last, val, cmp)) })
		case "FindIf":
			ev.R = try(func() []int { return at(algorithm.FindIf(first, last, pred)) })
		case "MaxElement":
			ev.R = try(func() []int { return at(algorithm.MaxElement(first, last, cmp)) })
		case "MinElement":
			ev.R = try(func() []int { return at(algorithm.MinElement(first, last, cmp)) })
		case "AnyOf":
			ev.R = try(func() []int { return rBool(algorithm.AnyOf(first, last, pred)) })
		case "AllOf":
			ev.R = try(func() []int { return rBool(algorithm.AllOf(first, last, pred)) })
		case "NoneOf":
			ev.R = try(func() []int { return rBool(algorithm.NoneOf(first, last, pred)) })
		case "Swap":
			ev.R = do(func() { algorithm.Swap(first.(iterator.Iterator[int]), last.(iterator.Iterator[int])) })
		case "Reverse":
			ev.R = do(func() {
				algorithm.Reverse(first.(iterator.BidIterator[int]), last.(iterator.BidIterator[int]))
			})
		default:
			fatal("algo op", op.Name)
		}
		if s.index(first) != f || s.index(last) != l {
			ev.R = []int{-9}
		}
	}
	ev.F = s.vals()
	return ev
}

// Suspect looks at a result with the eyes of package sort; what it points out
// is for the specification to judge.
func (m *algoM) Suspect(ev *Ev) bool {
	f, l, n := ev.A[0], ev.A[1], ev.A[3]
	v, w := ev.B.([]int), ev.F.([]int)
	if len(ev.R) == 0 || ev.R[0] < 0 || len(v) != len(w) {
		return true
	}
	ord := func(x int) int {
		if ev.A[2] == 1 {
			return -keyOf(x)
		}
		return keyOf(x)
	}
	if ev.Op == "Swap" {
		v[f], v[l] = v[l], v[f]
		ok := equal(v, w)
		v[f], v[l] = v[l], v[f]
		return !ok
	}
	has := func(x int) bool {
		if ev.A[2] == 1 {
			return keyOf(x) >= n
		}
		return keyOf(x) == n
	}
	count := func(p func(int) bool) (c int) {
		for _, x := range v[f:l] {
			if p(x) {
				c++
			}
		}
		return
	}
	first := func(p func(int) bool) int {
		for i := f; i < l; i++ {
			if p(v[i]) {
				return i
			}
		}
		return l
	}
	best := func(better func(a, b int) bool) int {
		b := l
		for i := f; i < l; i++ {
			if b == l || better(ord(v[i]), ord(v[b])) {
				b = i
			}
		}
		return b
	}
	is := func(x int) bool { return keyOf(x) == n }
	switch ev.Op {
	case "Count":
		return ev.R[1] != count(is)
	case "CountIf":
		return ev.R[1] != count(has)
	case "Find":
		return ev.R[1] != first(is)
	case "FindIf":
		return ev.R[1] != first(has)
	case "MaxElement":
		return ev.R[1] != best(func(a, b int) bool { return a > b })
	case "MinElement":
		return ev.R[1] != best(func(a, b int) bool { return a < b })
	case "AnyOf":
		return (ev.R[1] == 1) != (count(has) > 0)
	case "AllOf":
		return (ev.R[1] == 1) != (count(has) == l-f)
	case "NoneOf":
		return (ev.R[1] == 1) != (count(has) == 0)
	case "Reverse":
		x := append([]int{}, v...)
		for a, b := f, l-1; a < b; a, b = a+1, b-1 {
			x[a], x[b] = x[b], x[a]
		}
		return !equal(x, w)
	}
	switch ev.Op {
	case "Sort", "Stable", "NthElement", "NextPermutation":
	default:
		if ev.Op != "Swap" && ev.Op != "Reverse" && !equal(v, w) {
			return true
		}
	}
	switch ev.Op {
	case "Sort", "Stable":
		x := append([]int{}, v[f:l]...)
		gosort.SliceStable(x, func(i, j int) bool { return ord(x[i]) < ord(x[j]) })
		for i, y := range x {
			if ord(w[f+i]) != ord(y) || ev.Op == "Stable" && w[f+i] != y {
				return true
			}
		}
	case "NthElement":
		if n < l-f {
			x := append([]int{}, v[f:l]...)
			gosort.SliceStable(x, func(i, j int) bool { return ord(x[i]) < ord(x[j]) })
			for i := f; i < l; i++ {
				if i <= f+n && ord(w[i]) > ord(x[n]) || i >= f+n && ord(w[i]) < ord(x[n]) {
					return true
				}
			}
		}
	case "NextPermutation":
		x := append([]int{}, v[f:l]...)
		i := len(x) - 2
		for i >= 0 && ord(x[i]) >= ord(x[i+1]) {
			i--
		}
		if i < 0 {
			return ev.R[1] != 0 || !equal(v, w)
		}
		j := len(x) - 1
		for ord(x[j]) <= ord(x[i]) {
			j--
		}
		x[i], x[j] = x[j], x[i]
		for a, b := i+1, len(x)-1; a < b; a, b = a+1, b-1 {
			x[a], x[b] = x[b], x[a]
		}
		for i, y := range x {
			if ord(w[f+i]) != ord(y) {
				return true
			}
		}
		return ev.R[1] != 1
	case "BinarySearch", "LowerBound", "UpperBound":
		lo, up := f, f
		for _, x := range v[f:l] {
			if ord(x) < ord((n-1)*keyUnit) {
				lo++
			}
			if ord(x) <= ord((n-1)*keyUnit) {
				up++
			}
		}
		switch ev.Op {
		case "BinarySearch":
			return (ev.R[1] == 1) != (lo < up)
		case "LowerBound":
			return ev.R[1] != lo
		}
		return ev.R[1] != up
	}
	return false
}

// ---- iterators ----

type iterM struct {
	p    Params
	kind int
	s    [2]*seq
	it   map[int]iterator.ConstIterator[int]
	in   map[int]int // iterator -> container
	next int
	n    int
}

func (m *iterM) Reset() {
	m.s = [2]*seq{}
	m.it, m.in = map[int]iterator.ConstIterator[int]{}, map[int]int{}
	m.next = 0
}
func (m *iterM) Start(r *rand.Rand) []Op {
	m.n++
	kind := 0
	if r == nil {
		for i := 0; i < nKinds; i++ {
			if m.p.Profile == itoa(i) {
				kind = i
			}
		}
		return []Op{{"Cont", 0, []int{kind, 10, 20, 30}}, {"Cont", 1, []int{kind, 40}}, {"Begin", 1, []int{0}}, {"Begin", 2, []int{0}}}
	}
	kind = m.n % nKinds
	v := func() []int {
		s := []int{kind}
		n, gap := []int{0, 1, 2, 3, 5, 9}[r.Intn(6)], 1000
		if m.p.Profile == "big" {
			n, gap = []int{63, 127, 128, 129, 200, 255, 256, 257, 300}[r.Intn(9)], 16
		}
		for i := n; i > 0; i-- {
			m.next += gap
			s = append(s, m.next)
		}
		return s
	}
	return []Op{{"Cont", 0, v()}, {"Cont", 1, v()}, {"Begin", 1, []int{0}}, {"Begin", 2, []int{0}}, {"End", 3, []int{0}}, {"Begin", 4, []int{1}}}
}
func itoa(i int) string { return string(rune('a' + i)) }
func (m *iterM) Final() []Op {
	f := []Op{{"Value", 1, nil}, {"Value", 2, nil}}
	if m.in[1] == m.in[2] {
		f = append(f, Op{"Equal", 1, []int{2}})
	}
	return f
}
func (m *iterM) Alpha() []func() Op {
	op := func(name string, o int, a ...int) func() Op { return func() Op { return Op{name, o, a} } }
	al := []func() Op{op("Next", 1), op("Next", 2), op("Clone", 2, 1), op("Last", 1, 0), op("Equal", 1, 2)}
	if m.kind != kSimpleList {
		al = append(al, op("Prev", 1))
	}
	if m.kind != kSet && m.kind != kMultiSet {
		m.next++
		v := m.next
		al = append(al, func() Op {
			return Op{"SetValue", 1, []int{v}}
		})
	}
	return al
}
func (m *iterM) Gen(r *rand.Rand) Op {
	j := 1 + r.Intn(4)
	c := m.in[j]
	n := len(m.s[c].vals())
	const0 := m.kind == kSet || m.kind == kMultiSet
	switch k := r.Intn(20); {
	case k < 4:
		return Op{"Next", j, nil}
	case k < 7:
		if m.kind == kSimpleList {
			return Op{"Next", j, nil}
		}
		return Op{"Prev", j, nil}
	case k < 9:
		return Op{"Clone", 1 + r.Intn(4), []int{j}}
	case k < 11:
		q := 1 + r.Intn(4)
		if m.in[q] != c && m.kind != kVector && m.kind != kDeque && m.kind != kArray {
			q = j
		}
		return Op{"Equal", j, []int{q}}
	case k < 12:
		return Op{"Begin", j, []int{r.Intn(2)}}
	case k < 13:
		return Op{[]string{"End", "Last", "First"}[r.Intn(3)], j, []int{r.Intn(2)}}
	case k < 15:
		return Op{"Value", j, nil}
	case k < 16:
		if const0 || r.Intn(4) == 0 {
			return Op{"EqualOther", j, nil}
		}
		m.next++
		return Op{"SetValue", j, []int{m.next}}
	case k < 18:
		p := r.Intn(n+3) - 1
		if m.p.Profile == "big" && r.Intn(2) == 0 { // near where the segments of a deque may meet
			p = r.Intn(n/64+1)*64 + r.Intn(3) - 1 - n/2%128*r.Intn(2)
			if p < 0 || p > n {
				p = n / 2
			}
		}
		if m.s[c].ra != nil {
			return Op{"IteratorAt", 1 + r.Intn(4), []int{j, p}}
		}
		return Op{"Seek", j, []int{c, minInt(n, p-b2i(p < 0)*p)}}
	case k < 19:
		if m.s[c].ins != nil && (n < 14 || m.p.Profile == "big" && n < 310) {
			p := r.Intn(n + 1)
			m.next++
			v := m.next
			if const0 { // keep the order
				vs := m.s[c].vals()
				lo, hi := 0, 1<<20
				if p > 0 {
					lo = vs[p-1]
				}
				if p < n {
					hi = vs[p]
				} else {
					hi = lo + 2000
				}
				v = (lo + hi) / 2
				if v == lo || v == hi {
					return Op{"Next", j, nil}
				}
			}
			return Op{"Insert", 0, []int{c, p, v}}
		}
	default:
		if m.s[c].del != nil && n > 0 {
			return Op{"Erase", 0, []int{c, r.Intn(n)}}
		}
	}
	return Op{"Value", j, nil}
}
func (m *iterM) Do(op Op) (ev Ev) {
	a := op.A
	it := m.it[op.O]
	put := func(j, c int, x iterator.ConstIterator[int]) { m.it[j], m.in[j] = x, c }
	switch op.Name {
	case "Cont":
		m.kind = a[0]
		m.s[op.O] = mkSeq(a[0], a[1:])
		ev.R = rOK
		ev.O = op.O
	case "Begin":
		ev.R = do(func() { put(op.O, a[0], m.s[a[0]].begin()) })
	case "End":
		ev.R = do(func() { put(op.O, a[0], m.s[a[0]].end()) })
	case "First":
		f := m.s[a[0]].first
		if f == nil {
			f = m.s[a[0]].begin
		}
		ev.R = do(func() { put(op.O, a[0], f()) })
	case "Last":
		ev.R = do(func() { put(op.O, a[0], m.s[a[0]].last()) })
	case "Seek":
		ev.R = do(func() { put(op.O, a[0], m.s[a[0]].at(a[1])) })
	case "IteratorAt": // does not move the iterator it is called on
		ev.R = do(func() {
			put(op.O, m.in[a[0]], m.it[a[0]].(iterator.RandomAccessIterator[int]).IteratorAt(a[1]))
		})
	case "Next":
		ev.R = try(func() []int { return rBool(it.Next() == it) })
	case "Prev":
		ev.R = try(func() []int {
			return rBool(any(it.(iterator.ConstBidIterator[int]).Prev()) == any(it))
		})
	case "Clone":
		ev.R = do(func() { put(op.O, m.in[a[0]], m.it[a[0]].Clone()) })
	case "Equal":
		ev.R = try(func() []int { return rBool(it.Equal(m.it[a[0]])) })
	case "EqualOther":
		k := kVector
		if m.kind == kVector {
			k = kDeque
		}
		o := mkSeq(k, []int{1, 2, 3})
		ev.R = try(func() []int {
			return rBool(it.Equal(o.begin()) || o.begin().Equal(it) || it.Equal(o.end()))
		})
	case "Value":
		ev.R = try(func() []int { return rVal(it.Value()) })
	case "SetValue":
		ev.R = do(func() { it.(interface{ SetValue(int) }).SetValue(a[0]) })
	case "Insert":
		ev.R = do(func() { m.s[a[0]].ins(a[1], a[2]) })
	case "Erase":
		ev.R = do(func() { m.s[a[0]].del(a[1]) })
	default:
		fatal("iter op", op.Name)
	}
	// every iterator: number, container, whether valid, the value, its position
	c := [][]int{}
	ids := []int{}
	for j := range m.it {
		ids = append(ids, j)
	}
	gosort.Ints(ids)
	for _, j := range ids {
		it := m.it[j]
		x := []int{j, m.in[j], b2i(it.IsValid())}
		if it.IsValid() {
			x = append(x, try(func() []int { return []int{it.Value()} })...)
		} else {
			x = append(x, 0)
		}
		if r, ok := it.(iterator.RandomAccessIterator[int]); ok {
			x = append(x, r.Position())
		}
		c = append(c, x)
	}
	ev.C = c
	f := [][]int{}
	for i := range m.s {
		if m.s[i] != nil {
			f = append(f, m.s[i].vals())
		}
	}
	ev.F = f
	return ev
}

// ---- comparators and pairs ----

type ctype struct {
	name string
	rank []int                         // ranks of the universe, by construction
	cmp  func(rev, i, j int) int       // compare universe members
	rnd  func(r *rand.Rand) (int, int) // compare random values: result, expected
}

func mkType[T any](name string, cmp comparator.Comparator[T], rank []int, u []T, rnd func(r *rand.Rand) (T, T, int)) ctype {
	return ctype{name, rank, func(rev, i, j int) int {
		c := cmp
		for k := 0; k < rev; k++ {
			c = comparator.Reverse(c)
		}
		return c(u[i], u[j])
	}, func(r *rand.Rand) (int, int) {
		a, b, want := rnd(r)
		return cmp(a, b), want
	}}
}

func up(n int) []int {
	s := []int{}
	for i := 0; i < n; i++ {
		s = append(s, i)
	}
	return s
}

func intType[T comparator.Integer](name string, cmp comparator.Comparator[T], min, max T) ctype {
	u := []T{min, min + 1, 0, 1, 2, 63, 64, 100, max/2 + 1, max - 1, max}
	rank := up(len(u))
	if min == 0 {
		rank = []int{0, 1, 0, 1, 2, 63, 64, 100, 200, 300, 400}
	} else {
		rank = []int{-900, -800, 0, 1, 2, 63, 64, 100, 200, 300, 400}
	}
	if max == 127 {
		rank[7], rank[8] = 100, 64
	}
	if max/2 < 127 && max > 127 { // uint8: max/2+1 = 128
		rank[8] = 200
	}
	return mkType(name, cmp, rank, u, func(r *rand.Rand) (T, T, int) {
		a, b := T(r.Uint64()), T(r.Uint64())
		switch r.Intn(4) {
		case 0:
			b = a
		case 1:
			b = a + T(r.Intn(3))
		}
		return a, b, b2i(a > b) - b2i(a < b)
	})
}

type myInt int32
type myStr string
type myF float64

func fl[T ~float32 | ~float64](name string, cmp comparator.Comparator[T], nan bool) ctype {
	u := []T{T(math.Inf(-1)), -1e30, -1.5, -1, -1e-30, T(math.Copysign(0, -1)), 0, 1e-30, 1, 1.5, 1e30, T(math.Inf(1))}
	rank := []int{0, 1, 2, 3, 4, 5, 5, 6, 7, 8, 9, 10}
	if nan {
		u = append(u, T(math.NaN()), T(math.Float64frombits(0x7ff8000000000123)))
		rank = append(rank, -1, -1)
	}
	return mkType(name, cmp, rank, u, func(r *rand.Rand) (T, T, int) {
		a, b := T(r.NormFloat64()), T(r.NormFloat64())
		if r.Intn(3) == 0 {
			b = a
		}
		return a, b, b2i(a > b) - b2i(a < b)
	})
}
func st[T ~string](name string, cmp comparator.Comparator[T]) ctype {
	u := []T{"", "\x00", "\x00\x00", "A", "Z", "a", "aa", "ab", "b", "z", "z\xff", "é", "日", "\uf8ff", "\xef\xbf\xbd", "\xef\xbf\xbe", "\U0001F600", "\xf8", "\xfe", "\xff", "\xff\x00", "\xff\xff"}
	return mkType(name, cmp, up(len(u)), u, func(r *rand.Rand) (T, T, int) {
		g := func() T {
			b := make([]byte, r.Intn(4))
			for i := range b {
				b[i] = byte(97 + r.Intn(3))
				if r.Intn(3) == 0 {
					b[i] = byte(r.Intn(256))
				}
			}
			return T(b)
		}
		a, b := g(), g()
		return a, b, b2i(a > b) - b2i(a < b)
	})
}
func cx[T complex64 | complex128](name string, cmp comparator.Comparator[T]) ctype {
	u := []T{}
	for _, re := range []float64{-2, -1, 0, 1, 2} {
		for _, im := range []float64{-1, 0, 1} {
			u = append(u, T(complex(re, im)))
		}
	}
	return mkType(name, cmp, up(len(u)), u, func(r *rand.Rand) (T, T, int) {
		a, b := complex(float64(r.Intn(4)), float64(r.Intn(4))), complex(float64(r.Intn(4)), float64(r.Intn(4)))
		want := b2i(real(a) > real(b)) - b2i(real(a) < real(b))
		if want == 0 {
			want = b2i(imag(a) > imag(b)) - b2i(imag(a) < imag(b))
		}
		return T(a), T(b), want
	})
}

func ctypes() []ctype {
	maxU := ^uint(0)
	return []ctype{
		intType("int", comparator.IntComparator, math.MinInt, math.MaxInt),
		intType("uint", comparator.UintComparator, 0, maxU),
		intType("int8", comparator.Int8Comparator, -128, 127),
		intType("uint8", comparator.Uint8Comparator, 0, 255),
		intType("int16", comparator.Int16Comparator, math.MinInt16, math.MaxInt16),
		intType("uint16", comparator.Uint16Comparator, 0, math.MaxUint16),
		intType("int32", comparator.Int32Comparator, math.MinInt32, math.MaxInt32),
		intType("uint32", comparator.Uint32Comparator, 0, math.MaxUint32),
		intType("int64", comparator.Int64Comparator, math.MinInt64, math.MaxInt64),
		intType("uint64", comparator.Uint64Comparator, 0, math.MaxUint64),
		intType("uintptr", comparator.UintptrComparator, 0, ^uintptr(0)),
		fl("float32", comparator.Float32Comparator, true),
		fl("float64", comparator.Float64Comparator, true),
		st("string", comparator.StringComparator),
		cx("complex64", comparator.Complex64Comparator),
		cx("complex128", comparator.Complex128Comparator),
		mkType("bool", comparator.BoolComparator, up(2), []bool{false, true}, func(r *rand.Rand) (bool, bool, int) {
			a, b := r.Intn(2), r.Intn(2)
			return a == 1, b == 1, b2i(a > b) - b2i(a < b)
		}),
		intType("ordered int", comparator.OrderedTypeCmp[int], math.MinInt, math.MaxInt),
		intType("ordered int8", comparator.OrderedTypeCmp[int8], -128, 127),
		intType("ordered uint64", comparator.OrderedTypeCmp[uint64], 0, math.MaxUint64),
		intType("ordered myInt", comparator.OrderedTypeCmp[myInt], math.MinInt32, math.MaxInt32),
		fl("ordered float64", comparator.OrderedTypeCmp[float64], false),
		fl("ordered float32", comparator.OrderedTypeCmp[float32], false),
		fl("ordered myF", comparator.OrderedTypeCmp[myF], false),
		st("ordered string", comparator.OrderedTypeCmp[string]),
		st("ordered myStr", comparator.OrderedTypeCmp[myStr]),
	}
}

type cmpM struct {
	p  Params
	ts []ctype
	al []func() Op
}

func (m *cmpM) Reset() {
	if m.ts == nil {
		m.ts = ctypes()
	}
}
func (m *cmpM) Start(*rand.Rand) []Op { return nil }
func (m *cmpM) Final() []Op           { return nil }
func (m *cmpM) Alpha() []func() Op {
	if m.al == nil {
		add := func(op Op) { m.al = append(m.al, func() Op { return op }) }
		for t := range m.ts {
			n := len(m.ts[t].rank)
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					for rev := 0; rev < 3; rev++ {
						add(Op{"Cmp", t, []int{rev, i, j}})
					}
				}
			}
		}
		for i := 0; i < 625; i++ {
			add(Op{"Pair", 0, []int{i % 5, i / 5 % 5, i / 25 % 5, i / 125}})
		}
	}
	return m.al
}
func (m *cmpM) Gen(r *rand.Rand) Op {
	return Op{"Rand", r.Intn(len(m.ts)), []int{r.Intn(1 << 30)}}
}
func (m *cmpM) Do(op Op) (ev Ev) {
	a := op.A
	switch op.Name {
	case "Cmp":
		t := m.ts[op.O]
		ev.F = []int{t.rank[a[1]], t.rank[a[2]]}
		ev.R = try(func() []int { return rVal(t.cmp(a[0], a[1], a[2])) })
	case "Rand":
		got, want := 0, 0
		ev.R = try(func() []int {
			got, want = m.ts[op.O].rnd(rand.New(rand.NewSource(int64(a[0]))))
			return rVal(got)
		})
		ev.F = []int{want, 0}
	case "Pair":
		ev.R = try(func() []int {
			val := func(x int) int { return []int{0, 1, 1 + 1<<32, -1, math.MinInt}[x] }
			num := func(y any) int {
				for x := 0; x < 5; x++ {
					if y == val(x) {
						return x
					}
				}
				return -9
			}
			p, q := pair.MakePair(val(a[0]), val(a[1])), pair.MakePair("x", nil)
			q.New(val(a[2]), val(a[3]))
			return []int{b2i(p.Equal(*q)), num(p.Fronts()), num(p.Backs()), num(q.Fronts()), num(q.Backs())}
		})
	}
	return ev
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}
func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}
