// Package things: every container and algorithm of the library, seen through a
// common interface.
package things

import (
	"github.com/liyue201/gostl/algorithm"
	"github.com/liyue201/gostl/algorithm/hash"
	"github.com/liyue201/gostl/algorithm/sort"

	"encoding/binary"
	"encoding/hex"
	"fmt"
	gosort "sort"

	"github.com/liyue201/gostl/ds/array"
	"github.com/liyue201/gostl/ds/bitmap"
	bloom "github.com/liyue201/gostl/ds/bloomfilter"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/hamt"
	"github.com/liyue201/gostl/ds/heap"
	"github.com/liyue201/gostl/ds/ketama"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
	treemap "github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/priorityqueue"
	"github.com/liyue201/gostl/ds/queue"
	"github.com/liyue201/gostl/ds/rbtree"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/ds/skiplist"
	"github.com/liyue201/gostl/ds/slice"
	"github.com/liyue201/gostl/ds/stack"
	"github.com/liyue201/gostl/ds/vector"
	"github.com/liyue201/gostl/utils/comparator"
	"github.com/liyue201/gostl/utils/iterator"
)

// Thing is any container, seen only through what it takes to change it, to
// read its content, and to make calls on it that must not change it.
type Thing struct {
	Mut  func(r, x int) // some modification
	Dump func() []int   // the whole content
	Bad  func(i, n int) // a call that cannot succeed
	Read func(i, n int) // a call that only reads
	Walk func(f func(int) bool)
	Cp   func() *Thing // an independent copy
	Ord  int           // order of a walk: 0 as inserted, 1 ascending, 2 any
	Put  func(x int)   // add an element (walks)

	Got int               // what the last modification returned, if it returns an element
	Obs func(i int) []int // further reads
	Str func() string     // its string form
}

var ThingKinds = []string{"vector", "deque", "array", "slice", "bidlist", "simplelist", "queue", "queuelist", "stack", "stacklist", "pq",
	"rbtree", "map", "multimap", "set", "multiset", "skiplist", "hamt", "hamtcoll", "bitmap", "bloom", "ketama", "heap", "sorting", "hashing"}

// PlainKinds hold elements of any type.
var PlainKinds = []string{"vector", "deque", "array", "slice", "bidlist", "simplelist", "queue", "queuelist", "stack", "stacklist", "pq",
	"rbtree", "map", "multimap", "set", "multiset", "skiplist", "hamt", "heap", "sorting"}
var WalkKinds = []string{"bidlist", "simplelist", "rbtree", "map", "multimap", "set", "multiset", "skiplist", "hamt", "hamtcoll"}

type theap[T any] struct {
	s   []T
	cmp func(a, b T) int
}

func (h *theap[T]) Len() int           { return len(h.s) }
func (h *theap[T]) Less(i, j int) bool { return h.cmp(h.s[i], h.s[j]) < 0 }
func (h *theap[T]) Swap(i, j int)      { h.s[i], h.s[j] = h.s[j], h.s[i] }
func (h *theap[T]) Push(x T)           { h.s = append(h.s, x) }
func (h *theap[T]) Pop() T {
	x := h.s[len(h.s)-1]
	h.s = h.s[:len(h.s)-1]
	return x
}

// cmpHook, when set, is called on every comparison.
type Hook struct{ F func() }

func (h *Hook) cmp(a, b int) int {
	if h.F != nil {
		h.F()
	}
	return comparator.IntComparator(a, b)
}

// MkThing makes a thing that holds integers.
func MkThing(kind string, safe bool, h *Hook) *Thing {
	id := func(x int) int { return x }
	return Make(kind, safe, h, id, id)
}

// Make makes a thing that holds elements e(x), which d turns back to x.
func Make[T any](kind string, safe bool, h *Hook, e func(int) T, d func(T) int) *Thing {
	t := &Thing{}
	cmp := comparator.Comparator[T](func(a, b T) int { return h.cmp(d(a), d(b)) })
	ids := func(s []T) []int {
		r := []int{}
		for _, x := range s {
			r = append(r, d(x))
		}
		return r
	}
	kv := func(k, v T) int { return KV(d(k), d(v)) }
	// what a call that returns an element returned
	el := func(f func() T) (x int) {
		defer func() {
			if recover() != nil {
				x = -1000000
			}
		}()
		return d(f())
	}
	orErr := func(v T, err error) int {
		if err != nil {
			return -2000000
		}
		return d(v)
	}
	fwd := func(it iterator.ConstIterator[T]) []int { return step(it, d, func() { it.Next() }) }
	back := func(it iterator.ConstBidIterator[T]) []int { return step[T](it, d, func() { it.Prev() }) }
	collect := func(walk func(f func(int) bool)) []int {
		r := []int{}
		walk(func(x int) bool { r = append(r, x); return len(r) < 20000 })
		return r
	}
	switch kind {
	case "vector":
		var mk func(c *vector.Vector[T]) *Thing
		mk = func(c *vector.Vector[T]) *Thing {
			t := &Thing{}
			t.Mut = func(r, x int) {
				switch n := c.Size(); {
				case r%5 == 0 && n > 0:
					t.Got = d(c.PopBack())
				case r%5 == 1 && n > 0:
					c.SetAt(r%n, e(x))
				case r%5 == 2:
					c.InsertAt(r%(n+1), e(x))
				case r%5 == 3 && n > 1:
					c.EraseIndexRange(r%n, r%n+1)
				case r%25 == 4:
					c.Resize(n / 2)
				case r%25 == 9:
					c.Clear()
				default:
					c.PushBack(e(x))
				}
			}
			t.Dump = func() []int { return AtAll(c.Size, func(i int) int { return d(c.At(i)) }) }
			t.Bad = func(i, n int) {
				switch i % 7 {
				case 0:
					c.At(n)
				case 1:
					c.SetAt(-1, e(5))
				case 2:
					c.SetAt(n, e(5))
				case 3:
					c.InsertAt(n+1, e(5))
				case 4:
					c.EraseAt(n)
				case 5:
					c.EraseIndexRange(0, n+1)
				default:
					if n == 0 {
						c.PopBack()
					} else {
						c.At(-1)
					}
				}
			}
			t.Obs = func(i int) []int {
				o := []int{el(c.Front), el(c.Back), el(func() T { return c.At(i) }), c.Size()}
				return append(append(o, fwd(c.Begin())...), back(c.Last())...)
			}
			t.Str = c.String
			t.Read = func(i, n int) { _, _, _ = c.Data(), c.String(), c.Empty(); vector.NewFromVector(c).PushBack(e(9)) }
			t.Cp = func() *Thing { return mk(vector.NewFromVector(c)) }
			return t
		}
		return mk(vector.New[T]())
	case "deque":
		c := deque.New[T]()
		t.Mut = func(r, x int) {
			switch n := c.Size(); {
			case r%7 == 0 && n > 0:
				t.Got = d(c.PopBack())
			case r%7 == 1 && n > 0:
				t.Got = d(c.PopFront())
			case r%7 == 2 && n > 0:
				c.Set(r%n, e(x))
			case r%7 == 3:
				c.Insert(r%(n+1), e(x))
			case r%7 == 4 && n > 1:
				c.EraseAt(r % n)
			case r%7 == 5:
				c.PushFront(e(x))
			default:
				c.PushBack(e(x))
			}
		}
		t.Dump = func() []int { return AtAll(c.Size, func(i int) int { return d(c.At(i)) }) }
		t.Bad = func(i, n int) {
			switch i % 6 {
			case 0:
				c.At(n)
			case 1:
				c.Set(-1, e(5))
			case 2:
				c.Set(n, e(5))
			case 3:
				c.EraseAt(n)
			case 4:
				c.Insert(n+1, e(5))
			default:
				if n == 0 {
					c.PopFront()
				} else {
					c.At(-1)
				}
			}
		}
		t.Obs = func(i int) []int {
			o := []int{el(c.Front), el(c.Back), el(func() T { return c.At(i) }), c.Size()}
			return append(append(o, fwd(c.Begin())...), back(c.Last())...)
		}
		t.Str = c.String
		t.Read = func(i, n int) { _, _ = c.String(), c.Empty() }
	case "array":
		var mk func(c *array.Array[T]) *Thing
		mk = func(c *array.Array[T]) *Thing {
			t := &Thing{}
			t.Mut = func(r, x int) {
				if r%9 == 0 {
					c.Fill(e(x))
				} else {
					c.Set(r%c.Size(), e(x))
				}
			}
			t.Dump = func() []int { return AtAll(c.Size, func(i int) int { return d(c.At(i)) }) }
			t.Bad = func(i, n int) {
				switch i % 4 {
				case 0:
					c.At(n)
				case 1:
					c.Set(n, e(5))
				case 2:
					c.Set(-1, e(5))
				default:
					c.SwapArray(array.New[T](n + 1))
				}
			}
			t.Obs = func(i int) []int {
				o := []int{el(c.Front), el(c.Back), el(func() T { return c.At(i) }), c.Size()}
				return append(append(o, fwd(c.Begin())...), back(c.Last())...)
			}
			t.Str = c.String
			t.Read = func(i, n int) { _, _, _ = c.String(), c.Empty(), c.Back(); array.NewFromArray(c).Fill(e(3)) }
			t.Cp = func() *Thing { return mk(array.NewFromArray(c)) }
			return t
		}
		c := array.New[T](4)
		c.Fill(e(0))
		return mk(c)
	case "slice":
		own, margins := Inside([]T{e(0), e(0), e(0), e(0)}, e(-777), func(x T) bool { return d(x) == -777 })
		c := slice.NewSliceWrapper(own)
		t.Mut = func(r, x int) { c.Set(r%4, e(x)) }
		t.Dump = func() []int { return append(margins(), ids(own)...) }
		t.Bad = func(i, n int) {
			switch i % 3 {
			case 0:
				c.At(n)
			case 1:
				c.Set(n, e(5))
			default:
				c.Set(-1, e(5))
			}
		}
		t.Obs = func(i int) []int {
			o := []int{el(func() T { return c.At(i) }), c.Len()}
			return append(append(o, fwd(c.Begin())...), back(c.Last())...)
		}
		t.Read = func(i, n int) { c.Len(); c.First(); c.Last() }
	case "bidlist":
		var mk func(c *bidlist.List[T]) *Thing
		mk = func(c *bidlist.List[T]) *Thing {
			t := &Thing{}
			other := bidlist.New[T]()
			other.PushBack(e(1))
			other.PushBack(e(2))
			t.Mut = func(r, x int) {
				switch n := c.Len(); {
				case r%6 == 0 && n > 0:
					t.Got = d(c.PopBack())
				case r%6 == 1 && n > 0:
					t.Got = d(c.PopFront())
				case r%6 == 2 && n > 0:
					c.MoveToBack(c.FrontNode())
				case r%6 == 3 && n > 0:
					c.InsertBefore(e(x), c.BackNode())
				case r%6 == 4:
					c.PushFront(e(x))
				case r%60 == 5:
					c.Clear()
				default:
					c.PushBack(e(x))
				}
			}
			t.Walk = func(f func(int) bool) { c.Traversal(func(x T) bool { return f(d(x)) }) }
			t.Dump = func() []int { return collect(t.Walk) }
			t.Put = func(x int) { c.PushBack(e(x)) }
			t.Bad = func(i, n int) {
				switch i % 6 {
				case 0:
					c.Remove(other.FrontNode())
				case 1:
					c.InsertAfter(e(5), other.FrontNode())
				case 2:
					c.InsertBefore(e(5), other.FrontNode())
				case 3:
					c.MoveToFront(other.BackNode())
				case 4:
					c.MoveToBack(other.FrontNode())
				default:
					if n == 0 {
						c.PopBack()
					} else {
						c.MoveAfter(c.FrontNode(), other.FrontNode())
					}
				}
				if fmt.Sprint(other) != fmt.Sprintf("[%v %v]", e(1), e(2)) {
					t.Dump = func() []int { return []int{-12345} } // the other list changed
				}
			}
			t.Obs = func(i int) []int {
				o := []int{el(c.Front), el(c.Back), c.Size()}
				return append(append(o, fwd(bidlist.NewIterator(c.FrontNode()))...), back(bidlist.NewIterator(c.BackNode()))...)
			}
			t.Str = c.String
			t.Read = func(i, n int) { _, _, _ = c.String(), c.Empty(), c.Size() }
			t.Cp = func() *Thing {
				d := bidlist.New[T]()
				d.PushBackList(c)
				return mk(d)
			}
			return t
		}
		return mk(bidlist.New[T]())
	case "simplelist":
		c := simplelist.New[T]()
		other := simplelist.New[T]()
		other.PushBack(e(1))
		t.Mut = func(r, x int) {
			switch n := c.Len(); {
			case r%4 == 0 && n > 0:
				t.Got = d(c.Remove(nil, c.FrontNode()))
			case r%4 == 1:
				c.PushFront(e(x))
			case r%4 == 2 && n > 0:
				c.InsertAfter(e(x), c.FrontNode())
			default:
				c.PushBack(e(x))
			}
		}
		t.Walk = func(f func(int) bool) { c.Traversal(func(x T) bool { return f(d(x)) }) }
		t.Dump = func() []int { return collect(t.Walk) }
		t.Put = func(x int) { c.PushBack(e(x)) }
		t.Bad = func(i, n int) { c.InsertAfter(e(5), other.FrontNode()) }
		t.Obs = func(i int) []int { return append([]int{c.Len()}, fwd(simplelist.NewIterator(c.FrontNode()))...) }
		t.Str = c.String
		t.Read = func(i, n int) { _ = c.String() }
	case "queue", "queuelist":
		o := []queue.Option[T]{}
		if kind == "queuelist" {
			o = append(o, queueList[T]())
		}
		if safe {
			o = append(o, queueSafe[T]())
		}
		c := queue.New(o...)
		t.Mut = func(r, x int) {
			if r%3 == 0 && c.Size() > 0 {
				t.Got = d(c.Pop())
			} else {
				c.Push(e(x))
			}
		}
		t.Dump = func() []int {
			if _, is := any(e(0)).(int); is {
				return ParseInts(c.String())
			}
			s := []int{}
			for i := c.Size(); i > 0; i-- { // taken out and put back
				x := c.Pop()
				s = append(s, d(x))
				c.Push(x)
			}
			return s
		}
		t.Bad = func(i, n int) {
			if n == 0 {
				switch i % 3 {
				case 0:
					c.Pop()
				case 1:
					c.Front()
				default:
					c.Back()
				}
			}
		}
		t.Obs = func(i int) []int { return []int{el(c.Front), el(c.Back), c.Size()} }
		t.Str = c.String
		t.Read = func(i, n int) { c.Empty() }
	case "stack", "stacklist":
		o := []stack.Option[T]{}
		if kind == "stacklist" {
			o = append(o, stackList[T]())
		}
		if safe {
			o = append(o, stackSafe[T]())
		}
		c := stack.New(o...)
		t.Mut = func(r, x int) {
			if r%3 == 0 && c.Size() > 0 {
				t.Got = d(c.Pop())
			} else {
				c.Push(e(x))
			}
		}
		t.Dump = func() []int {
			if _, is := any(e(0)).(int); is {
				return ParseInts(c.String())
			}
			s := make([]int, c.Size())
			for i := len(s) - 1; i >= 0; i-- { // taken out and put back
				s[i] = d(c.Pop())
			}
			for _, x := range s {
				c.Push(e(x))
			}
			return s
		}
		t.Bad = func(i, n int) {
			if n == 0 {
				if i%2 == 0 {
					c.Pop()
				} else {
					c.Top()
				}
			}
		}
		t.Obs = func(i int) []int { return []int{el(c.Top), c.Size()} }
		t.Str = c.String
		t.Read = func(i, n int) { c.Empty() }
	case "pq":
		o := []priorityqueue.Option{}
		if safe {
			o = append(o, PQSafe)
		}
		c := priorityqueue.New[T](cmp, o...)
		t.Mut = func(r, x int) {
			if r%3 == 0 && c.Size() > 0 {
				t.Got = d(c.Pop())
			} else {
				c.Push(e(x))
			}
		}
		t.Dump = func() []int { // taken out and put back
			s := []int{}
			for !c.Empty() && len(s) < 20000 {
				s = append(s, d(c.Pop()))
			}
			for _, x := range s {
				c.Push(e(x))
			}
			return s
		}
		t.Bad = func(i, n int) {
			if n == 0 {
				if i%2 == 0 {
					c.Pop()
				} else {
					c.Top()
				}
			}
		}
		t.Obs = func(i int) []int { return []int{el(c.Top), c.Size()} }
		t.Read = func(i, n int) { c.Empty(); c.Size() }
	case "rbtree":
		c := rbtree.New[T, T](cmp)
		t.Put = func(x int) { c.Insert(e(x), e(x+1)) }
		t.Mut = func(r, x int) {
			if r%3 == 0 && c.Size() > 0 {
				c.Delete([]*rbtree.Node[T, T]{c.First(), c.Last()}[r%2])
			} else {
				t.Put(x)
			}
		}
		t.Walk = func(f func(int) bool) { c.Traversal(func(k, v T) bool { return f(kv(k, v)) }) }
		t.Dump = func() []int { return collect(t.Walk) }
		t.Bad = func(i, n int) { c.Find(e(-5)); c.FindNode(e(-5)) }
		t.Obs = func(i int) []int {
			o := []int{orErr(c.Find(e(i))), c.Size()}
			for _, n := range []*rbtree.Node[T, T]{c.FindNode(e(i)), c.FindLowerBoundNode(e(i)), c.FindUpperBoundNode(e(i))} {
				if n != nil {
					o = append(o, kv(n.Key(), n.Value()))
				}
			}
			return append(append(o, fwd(c.IterFirst())...), back(c.IterLast())...)
		}
		t.Read = func(i, n int) { c.FindLowerBoundNode(e(n)); c.FindUpperBoundNode(e(n)); c.IsRbTree() }
		t.Ord = 3
	case "map":
		o := []treemap.Option{}
		if safe {
			o = append(o, MapSafe)
		}
		c := treemap.New[T, T](cmp, o...)
		t.Put = func(x int) { c.Insert(e(x), e(x+1)) }
		t.Mut = func(r, x int) {
			switch {
			case r%4 == 0 && c.Size() > 0:
				c.EraseIter(c.First())
			case r%4 == 1 && c.Size() > 0:
				c.Erase(c.Last().Key())
			default:
				t.Put(x)
			}
		}
		t.Walk = func(f func(int) bool) { c.Traversal(func(k, v T) bool { return f(kv(k, v)) }) }
		t.Dump = func() []int { return collect(t.Walk) }
		t.Bad = func(i, n int) { c.Get(e(-5)); c.Erase(e(-5)); c.Find(e(-5)); c.EraseIter(c.Find(e(-5))) }
		t.Obs = func(i int) []int {
			o := []int{orErr(c.Get(e(i))), b2i(c.Contains(e(i))), c.Size()}
			for _, it := range []*treemap.MapIterator[T, T]{c.Find(e(i)), c.LowerBound(e(i)), c.UpperBound(e(i))} {
				if it.IsValid() {
					o = append(o, kv(it.Key(), it.Value()))
				}
			}
			return append(append(o, fwd(c.Begin())...), back(c.Last())...)
		}
		t.Read = func(i, n int) { c.LowerBound(e(n)); c.UpperBound(e(n)); c.Contains(e(n)); c.Begin() }
		t.Ord = 1
	case "multimap":
		o := []treemap.Option{}
		if safe {
			o = append(o, MapSafe)
		}
		c := treemap.NewMultiMap[T, T](cmp, o...)
		t.Put = func(x int) { c.Insert(e(x), e(x+1)) }
		t.Mut = func(r, x int) {
			if r%3 == 0 && c.Size() > 0 {
				c.Erase(c.Last().Key())
			} else {
				t.Put(x)
			}
		}
		t.Walk = func(f func(int) bool) { c.Traversal(func(k, v T) bool { return f(kv(k, v)) }) }
		t.Dump = func() []int { return collect(t.Walk) }
		t.Bad = func(i, n int) { c.Get(e(-5)); c.Erase(e(-5)); c.Find(e(-5)) }
		t.Obs = func(i int) []int {
			o := []int{orErr(c.Get(e(i))), b2i(c.Contains(e(i))), c.Size()}
			for _, it := range []*treemap.MapIterator[T, T]{c.Find(e(i)), c.LowerBound(e(i)), c.UpperBound(e(i))} {
				if it.IsValid() {
					o = append(o, kv(it.Key(), it.Value()))
				}
			}
			return append(append(o, fwd(c.Begin())...), back(c.Last())...)
		}
		t.Read = func(i, n int) { c.LowerBound(e(n)); c.UpperBound(e(n)); c.Contains(e(n)); c.Begin(); c.First() }
		t.Ord = 3
	case "set":
		o := []set.Option{}
		if safe {
			o = append(o, SetSafe)
		}
		var mk func(c *set.Set[T]) *Thing
		mk = func(c *set.Set[T]) *Thing {
			t := &Thing{}
			t.Put = func(x int) { c.Insert(e(x)) }
			t.Mut = func(r, x int) {
				if r%3 == 0 && c.Size() > 0 {
					c.Erase(c.Last().Value())
				} else {
					t.Put(x)
				}
			}
			t.Walk = func(f func(int) bool) { c.Traversal(func(k T) bool { return f(d(k)) }) }
			t.Dump = func() []int { return collect(t.Walk) }
			t.Bad = func(i, n int) { c.Erase(e(-5)); c.Find(e(-5)); c.Contains(e(-5)) }
			t.Obs = func(i int) []int {
				o := []int{b2i(c.Contains(e(i))), c.Size()}
				for _, it := range []*set.SetIterator[T]{c.Find(e(i)), c.LowerBound(e(i)), c.UpperBound(e(i))} {
					if it.IsValid() {
						o = append(o, d(it.Value()))
					}
				}
				return append(append(o, fwd(c.Begin())...), back(c.Last())...)
			}
			t.Str = c.String
			t.Read = func(i, n int) {
				z := set.New[T](cmp, o...)
				z.Insert(e(-1))
				_, _, _ = c.LowerBound(e(n)), c.UpperBound(e(n)), c.String()
				c.Union(z).Insert(e(77))
				c.Intersect(c).Erase(e(n))
				c.Diff(z).Clear()
			}
			t.Cp = func() *Thing {
				if c.Size()%2 == 0 {
					return mk(c.Union(set.New[T](cmp, o...)))
				}
				return mk(c.Intersect(c))
			}
			t.Ord = 1
			return t
		}
		return mk(set.New[T](cmp, o...))
	case "multiset":
		o := []set.Option{}
		if safe {
			o = append(o, SetSafe)
		}
		c := set.NewMultiSet[T](cmp, o...)
		t.Put = func(x int) { c.Insert(e(x)) }
		t.Mut = func(r, x int) {
			switch {
			case r%4 == 0 && c.Size() > 0:
				c.Erase(c.Last().Value())
			case r%4 == 1 && c.Size() > 0:
				c.EraseAll(c.First().Value())
			default:
				t.Put(x)
			}
		}
		t.Walk = func(f func(int) bool) { c.Traversal(func(k T) bool { return f(d(k)) }) }
		t.Dump = func() []int { return collect(t.Walk) }
		t.Bad = func(i, n int) { c.Erase(e(-5)); c.EraseAll(e(-5)); c.Find(e(-5)); c.Count(e(-5)) }
		t.Obs = func(i int) []int {
			o := []int{b2i(c.Contains(e(i))), c.Size(), c.Count(e(i))}
			for _, it := range []*set.SetIterator[T]{c.Find(e(i)), c.LowerBound(e(i)), c.UpperBound(e(i))} {
				if it.IsValid() {
					o = append(o, d(it.Value()))
				}
			}
			return append(append(o, fwd(c.Begin())...), back(c.Last())...)
		}
		t.Str = c.String
		t.Read = func(i, n int) {
			_, _, _ = c.LowerBound(e(n)), c.UpperBound(e(n)), c.String()
			c.Contains(e(n))
			c.Begin()
		}
		t.Ord = 3
	case "skiplist":
		o := []skiplist.Option{skiplist.WithMaxLevel(4)}
		if safe {
			o = append(o, SkipSafe)
		}
		c := skiplist.New[T, T](cmp, o...)
		t.Put = func(x int) { c.Insert(e(x), e(x+1)) }
		t.Mut = func(r, x int) {
			if r%3 == 0 && c.Len() > 0 {
				c.Remove(c.Keys()[r%c.Len()])
			} else {
				t.Put(x)
			}
		}
		t.Walk = func(f func(int) bool) { c.Traversal(func(k, v T) bool { return f(kv(k, v)) }) }
		t.Dump = func() []int { return collect(t.Walk) }
		t.Bad = func(i, n int) { c.Get(e(-5)); c.Remove(e(-5)) }
		t.Obs = func(i int) []int { return append([]int{orErr(c.Get(e(i))), c.Len()}, ids(c.Keys())...) }
		t.Read = func(i, n int) {
			ks := c.Keys()
			gosort.Slice(ks, func(i, j int) bool { return d(ks[i]) > d(ks[j]) })
			c.Get(e(n))
		}
		t.Ord = 1
	case "hamt", "hamtcoll":
		o := []hamt.Option{}
		if safe {
			o = append(o, HamtSafe)
		}
		c := hamt.New[T](o...)
		key := func(x int) hamt.Key {
			if kind == "hamtcoll" && x >= 0 && x%10 == 0 && x/10 < len(CollKeys) { // keys with equal hashes
				b, _ := hex.DecodeString(CollKeys[x/10].Hex)
				return b
			}
			return hamt.Key(fmt.Sprintf("%d", x))
		}
		num := func(k hamt.Key) int {
			n := 0
			if kind == "hamtcoll" {
				for i, c := range CollKeys {
					if c.Hex == hex.EncodeToString(k) {
						return i * 10
					}
				}
			}
			fmt.Sscanf(string(k), "%d", &n)
			return n
		}
		t.Put = func(x int) { c.Insert(key(x), e(x+1)) }
		t.Mut = func(r, x int) {
			if r%3 == 0 && len(c.Keys()) > 0 {
				ks := c.Keys()
				c.Erase(append(hamt.Key{}, ks[r%len(ks)]...))
			} else {
				t.Put(x)
			}
		}
		t.Walk = func(f func(int) bool) {
			c.Traversal(func(k hamt.Key, v T) bool { return f(KV(num(k), d(v))) })
		}
		t.Dump = func() []int { s := collect(t.Walk); gosort.Ints(s); return s }
		t.Bad = func(i, n int) { c.Get(key(-5)); c.Erase(key(-5)) }
		t.Obs = func(i int) []int { return []int{orErr(c.Get(key(i))), len(c.Keys()), len(c.StringKeys())} }
		t.Read = func(i, n int) { c.Keys(); c.StringKeys(); c.Get(key(n)) }
		t.Ord = 2
	case "bitmap":
		c := bitmap.New(40)
		t.Mut = func(r, x int) {
			if r%3 == 0 {
				c.Unset(uint64(r % 40))
			} else {
				c.Set(uint64(r % 40))
			}
		}
		t.Dump = func() (s []int) {
			s = []int{int(c.Size())}
			for i := 0; i < 48; i++ {
				if c.IsSet(uint64(i)) {
					s = append(s, i)
				}
			}
			return s
		}
		t.Bad = func(i, n int) { c.Set(40); c.Unset(41); c.IsSet(1 << 40) }
		t.Read = func(i, n int) { c.Data(); c.Size() }
	case "bloom":
		var mk func(c *bloom.BloomFilter) *Thing
		o := []bloom.Option{}
		if safe {
			o = append(o, BloomSafe)
		}
		mk = func(c *bloom.BloomFilter) *Thing {
			t := &Thing{}
			t.Mut = func(r, x int) { c.Add(fmt.Sprint(x)) }
			t.Dump = func() []int { _, _, b, n := BloomBits(c); return append([]int{n}, b...) }
			t.Bad = func(i, n int) { c.Contains("nothing like it") }
			t.Read = func(i, n int) { d := c.Data(); d[len(d)-1] ^= 255; bloom.NewFromData(d, o...).Add("z") }
			t.Cp = func() *Thing { return mk(bloom.NewFromData(c.Data(), o...)) }
			return t
		}
		return mk(bloom.New(120, 3, o...))
	case "ketama":
		o := []ketama.Option{ketama.WithReplicas(2)}
		if safe {
			o = append(o, RingSafe)
		}
		c := ketama.New(o...)
		t.Mut = func(r, x int) {
			if r%3 == 0 {
				c.Remove(fmt.Sprint(r % 5))
			} else {
				c.Add(fmt.Sprint(r % 5))
			}
		}
		t.Dump = func() (s []int) {
			for i := 0; i < 20; i++ {
				n, ok := c.Get(fmt.Sprintf("k%d", i))
				x := -1
				if ok {
					fmt.Sscanf(n, "%d", &x)
				}
				s = append(s, x)
			}
			return s
		}
		t.Bad = func(i, n int) { c.Remove("nothing like it"); c.Remove() }
		t.Read = func(i, n int) { c.Empty(); c.Get("") }
	case "heap":
		c := &theap[T]{cmp: cmp}
		t.Mut = func(r, x int) {
			switch n := c.Len(); {
			case r%4 == 0 && n > 0:
				t.Got = d(heap.Pop[T](c))
			case r%4 == 1 && n > 0:
				t.Got = d(heap.Remove[T](c, r%n))
			default:
				heap.Push[T](c, e(x))
			}
		}
		t.Dump = func() []int { return ids(c.s) }
		t.Bad = func(i, n int) { // a fix where nothing is out of place
			if n > 0 {
				heap.Fix[T](c, i%n)
			}
		}
		t.Obs = func(i int) []int { return nil }
		t.Read = func(i, n int) {}
	case "sorting":
		c := vector.New[T]()
		t.Mut = func(r, x int) {
			b, end := c.Begin(), c.End()
			switch r % 12 {
			case 0:
				sort.Sort[T](b, end, cmp)
			case 1:
				sort.Stable[T](b, end, cmp)
			case 2:
				sort.Stable[T](c.IterAt(c.Size()/2), end, func(a, b T) int { return h.cmp(d(a)/4, d(b)/4) })
			case 3:
				if n := c.Size(); n > 0 {
					sort.NthElement[T](b, end, r/12%n, cmp)
				}
			case 4:
				sort.NextPermutation[T](b, end, cmp)
			case 5:
				algorithm.Reverse[T](b, end)
			default:
				c.PushBack(e(x))
			}
		}
		t.Dump = func() []int { return AtAll(c.Size, func(i int) int { return d(c.At(i)) }) }
		t.Bad = func(i, n int) { // nothing in the range to put in order
			b := c.IterAt(i % (n + 1))
			switch end := b; i % 3 {
			case 0:
				sort.Sort[T](b, end, cmp)
			case 1:
				sort.Stable[T](b, end, cmp)
			default:
				algorithm.Reverse[T](b, end)
			}
		}
		t.Obs = func(i int) []int {
			b, end := c.Begin(), c.End()
			o := []int{algorithm.Count[T](b, end, e(i), cmp), algorithm.Find[T](b, end, e(i), cmp).(*vector.VectorIterator[T]).Position()}
			if c.Size() > 0 {
				o = append(o, d(algorithm.MaxElement[T](b, end, cmp).Value()), d(algorithm.MinElement[T](b, end, cmp).Value()))
			}
			s := vector.NewFromVector(c)
			sort.Sort[T](s.Begin(), s.End(), cmp)
			return append(o, b2i(sort.BinarySearch[T](s.Begin(), s.End(), e(i), cmp)), sort.LowerBound[T](s.Begin(), s.End(), e(i), cmp).Position(),
				sort.UpperBound[T](s.Begin(), s.End(), e(i), cmp).Position())
		}
		t.Str = c.String
		t.Read = func(i, n int) {
			o := vector.NewFromVector(c)
			sort.Stable[T](o.Begin(), o.End(), cmp)
			sort.BinarySearch[T](o.Begin(), o.End(), e(i), cmp)
			sort.LowerBound[T](o.Begin(), o.End(), e(i), cmp)
			algorithm.Count[T](c.Begin(), c.End(), e(i), cmp)
			algorithm.MaxElement[T](c.Begin(), c.End(), cmp)
		}
	case "hashing":
		var kept [][]uint64
		var keys []string
		t.Mut = func(r, x int) {
			k := fmt.Sprint(r, x)
			keys = append(keys, k)
			kept = append(kept, hash.GenHashInts([]byte(k), 1+r%9))
			if len(kept) > 12 {
				keys, kept = keys[6:], kept[6:]
			}
		}
		t.Dump = func() []int {
			s := []int{}
			for i, k := range keys {
				for j, h := range hash.GenHashInts([]byte(k), len(kept[i])) {
					s = append(s, int(h>>34), int(kept[i][j]>>34))
				}
			}
			return s
		}
		t.Bad = func(i, n int) {}
		t.Read = func(i, n int) { hash.GenHashInts([]byte{byte(i)}, 8) }
	default:
		panic("no such thing: " + kind)
	}
	return t
}

func KV(k, v int) int {
	if v != k+1 {
		return -1000 - k
	}
	return k
}

func ParseInts(s string) []int {
	r := []int{}
	x, in, neg := 0, false, false
	for _, c := range s {
		switch {
		case c >= '0' && c <= '9':
			x, in = x*10+int(c-'0'), true
		case c == '-':
			neg = true
		default:
			if in {
				if neg {
					x = -x
				}
				r = append(r, x)
			}
			x, in, neg = 0, false, false
		}
	}
	return r
}

func BloomBits(f *bloom.BloomFilter) (mm, k int, bits []int, n int) {
	d := f.Data()
	bits = []int{}
	for i, x := range d[16:] {
		for j := 0; j < 8; j++ {
			if x>>uint(j)&1 == 1 {
				bits = append(bits, i*8+j)
			}
		}
	}
	return int(binary.LittleEndian.Uint64(d)), int(binary.LittleEndian.Uint64(d[8:])), bits, len(d)
}

// AtAll reads the whole container by position; a panic shows up as a -999.
func AtAll(size func() int, at func(int) int) (c []int) {
	c = []int{}
	defer func() {
		if recover() != nil {
			c = append(c, -999)
		}
	}()
	for i := 0; i < size(); i++ {
		c = append(c, at(i))
	}
	return c
}

// Inside copies v to the middle of a bigger array of marks: the slice it
// returns has neighbours on both sides, the later ones within its capacity.
// margins says whether they are no longer what they were.
func Inside[T any](v []T, mark T, isMark func(T) bool) (own []T, margins func() []int) {
	const m = 4
	all := make([]T, len(v)+2*m)
	for i := range all {
		all[i] = mark
	}
	own = all[m : m+len(v)]
	copy(own, v)
	return own, func() []int {
		bad := []int{}
		for i, x := range all {
			if (i < m || i >= m+len(v)) && !isMark(x) {
				bad = append(bad, -12345)
			}
		}
		return bad
	}
}

// InsideInts is Inside for integers.
func InsideInts(v []int) ([]int, func() []int) {
	return Inside(v, -777000, func(x int) bool { return x == -777000 })
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// step reads what an iterator is on until it is on nothing.
func step[T any](it iterator.ConstIterator[T], d func(T) int, next func()) []int {
	r := []int{}
	for ; it.IsValid() && len(r) < 20000; next() {
		r = append(r, d(it.Value()))
	}
	return r
}
