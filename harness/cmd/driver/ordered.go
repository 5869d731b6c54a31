package main

import (
	. "verif/harness/things"

	"encoding/hex"
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"

	"github.com/liyue201/gostl/ds/hamt"
	treemap "github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/rbtree"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/ds/skiplist"
	"github.com/liyue201/gostl/utils/iterator"
)

// pos is what the iterators of the ordered containers have in common.
type kvPos interface {
	IsValid() bool
	Key() int
	Value() int
}

type kvIt struct {
	valid func() bool
	key   func() int
	val   func() int
	next  func()
	prev  func()
	set   func(int)
}

type omap interface {
	Insert(k, v int)
	Clear()
	Size() int
	At(which string, k int) *kvIt // Find LowerBound UpperBound First Last Begin
	Walk(func(k, v int) bool)
}

// ---- adaptors to the real containers ----

type rbA struct {
	t   *rbtree.RbTree[int, int]
	mul int // keys are kept multiplied by this
}

func rbIt(it *rbtree.RbTreeIterator[int, int], mul int) *kvIt {
	return &kvIt{it.IsValid, func() int { return it.Key() / mul }, it.Value, func() { it.Next() }, func() { it.Prev() }, func(v int) { it.SetValue(v) }}
}

// rbNodeIt walks by nodes instead of by iterator.
func rbNodeIt(n *rbtree.Node[int, int], mul int) *kvIt {
	return &kvIt{func() bool { return n != nil }, func() int { return n.Key() / mul }, func() int { return n.Value() },
		func() { n = n.Next() }, func() { n = n.Prev() }, func(v int) { n.SetValue(v) }}
}
func (a rbA) Insert(k, v int) { a.t.Insert(k*a.mul, v) }
func (a rbA) Clear()          { a.t.Clear() }
func (a rbA) Size() int       { return a.t.Size() }
func (a rbA) At(w string, k int) *kvIt {
	switch w {
	case "Find":
		return rbIt(rbtree.NewIterator(a.t.FindNode(k*a.mul)), a.mul)
	case "LowerBound":
		return rbIt(rbtree.NewIterator(a.t.FindLowerBoundNode(k*a.mul)), a.mul)
	case "UpperBound":
		return rbIt(rbtree.NewIterator(a.t.FindUpperBoundNode(k*a.mul)), a.mul)
	case "Begin":
		return rbNodeIt(a.t.Begin(), a.mul)
	case "First":
		return rbIt(a.t.IterFirst(), a.mul)
	case "RBegin":
		return rbNodeIt(a.t.RBegin(), a.mul)
	}
	return rbIt(a.t.IterLast(), a.mul)
}
func (a rbA) Walk(f func(k, v int) bool) {
	a.t.Traversal(func(k, v int) bool { return f(k/a.mul, v) })
}

func mapIt(it *treemap.MapIterator[int, int]) *kvIt {
	return &kvIt{it.IsValid, it.Key, it.Value, func() { it.Next() }, func() { it.Prev() }, func(v int) { it.SetValue(v) }}
}

type mapA struct{ t *treemap.Map[int, int] }

func (a mapA) Insert(k, v int) { a.t.Insert(k, v) }
func (a mapA) Clear()          { a.t.Clear() }
func (a mapA) Size() int       { return a.t.Size() }
func (a mapA) At(w string, k int) *kvIt {
	switch w {
	case "Find":
		return mapIt(a.t.Find(k))
	case "LowerBound":
		return mapIt(a.t.LowerBound(k))
	case "UpperBound":
		return mapIt(a.t.UpperBound(k))
	case "Begin":
		return mapIt(a.t.Begin())
	case "First":
		return mapIt(a.t.First())
	}
	return mapIt(a.t.Last())
}
func (a mapA) Walk(f func(k, v int) bool) { a.t.Traversal(f) }

type mmapA struct{ t *treemap.MultiMap[int, int] }

func (a mmapA) Insert(k, v int) { a.t.Insert(k, v) }
func (a mmapA) Clear()          { a.t.Clear() }
func (a mmapA) Size() int       { return a.t.Size() }
func (a mmapA) At(w string, k int) *kvIt {
	switch w {
	case "Find":
		return mapIt(a.t.Find(k))
	case "LowerBound":
		return mapIt(a.t.LowerBound(k))
	case "UpperBound":
		return mapIt(a.t.UpperBound(k))
	case "Begin":
		return mapIt(a.t.Begin())
	case "First":
		return mapIt(a.t.First())
	}
	return mapIt(a.t.Last())
}
func (a mmapA) Walk(f func(k, v int) bool) { a.t.Traversal(f) }

func setIt(it *set.SetIterator[int]) *kvIt {
	return &kvIt{it.IsValid, it.Value, func() int { return 0 }, func() { it.Next() }, func() { it.Prev() }, nil}
}

type setA struct{ t *set.Set[int] }

func (a setA) Insert(k, v int) { a.t.Insert(k) }
func (a setA) Clear()          { a.t.Clear() }
func (a setA) Size() int       { return a.t.Size() }
func (a setA) At(w string, k int) *kvIt {
	switch w {
	case "Find":
		return setIt(a.t.Find(k))
	case "LowerBound":
		return setIt(a.t.LowerBound(k))
	case "UpperBound":
		return setIt(a.t.UpperBound(k))
	case "Begin":
		return setIt(a.t.Begin())
	case "First":
		return setIt(a.t.First())
	}
	return setIt(a.t.Last())
}
func (a setA) Walk(f func(k, v int) bool) { a.t.Traversal(func(k int) bool { return f(k, 0) }) }

type msetA struct{ t *set.MultiSet[int] }

func (a msetA) Insert(k, v int) { a.t.Insert(k) }
func (a msetA) Clear()          { a.t.Clear() }
func (a msetA) Size() int       { return a.t.Size() }
func (a msetA) At(w string, k int) *kvIt {
	switch w {
	case "Find":
		return setIt(a.t.Find(k))
	case "LowerBound":
		return setIt(a.t.LowerBound(k))
	case "UpperBound":
		return setIt(a.t.UpperBound(k))
	case "Begin":
		return setIt(a.t.Begin())
	case "First":
		return setIt(a.t.First())
	}
	return setIt(a.t.Last())
}
func (a msetA) Walk(f func(k, v int) bool) { a.t.Traversal(func(k int) bool { return f(k, 0) }) }

type slA struct{ t *skiplist.Skiplist[int, int] }

func (a slA) Insert(k, v int)            { a.t.Insert(k, v) }
func (a slA) Clear()                     {}
func (a slA) Size() int                  { return a.t.Len() }
func (a slA) At(string, int) *kvIt       { return nil }
func (a slA) Walk(f func(k, v int) bool) { a.t.Traversal(f) }

// ---- the machine ----

type orderedM struct {
	p       Params
	what    string // rbtree map multimap set multiset skiplist
	m       map[int]omap
	next    int
	cmps    map[int]bool // stored keys compared in the running call
	probe   int          // the key being looked up
	probing bool
	span    int
	ks      int
	n       int
	left    int // calls left in this episode
	phase   int
}

func (m *orderedM) Reset() {
	m.m = map[int]omap{}
	m.next = 0
	m.cmps = map[int]bool{}
	m.n, m.left, m.phase = 0, 0, 0
	m.probing = false
}
func (m *orderedM) multi() bool {
	return m.what == "rbtree" || m.what == "multimap" || m.what == "multiset"
}
func (m *orderedM) hasVal() bool  { return m.what != "set" && m.what != "multiset" }
func (m *orderedM) algebra() bool { return strings.HasPrefix(m.p.Profile, "algebra") }
func (m *orderedM) tens() bool    { return strings.HasSuffix(m.p.Profile, "tens") }
func (m *orderedM) balance() bool { return m.p.Profile == "balance" || m.runs() && m.what == "rbtree" }
func (m *orderedM) runs() bool    { return m.p.Profile == "runs" || m.huge() } // thousands of entries
func (m *orderedM) huge() bool    { return m.p.Profile == "huge" }             // tens of thousands
func (m *orderedM) Start(r *rand.Rand) []Op {
	if r == nil {
		m.span = 10
		k := 0
		if m.tens() {
			k = 2
		}
		s := []Op{{"New", 1, []int{k}}}
		if m.what == "set" {
			s = append(s, Op{"New", 2, []int{k}}, Op{"New", 3, []int{k}})
		}
		return s
	}
	m.span = []int{6, 12, 30, 90}[r.Intn(4)]
	if m.p.Profile == "long" {
		m.span = 400
	}
	k := r.Intn(4)
	if m.tens() {
		k = 2 + r.Intn(2)
	}
	if r.Intn(2) == 0 {
		k += 10
	}
	if m.p.Profile == "algebrabig" {
		k = r.Intn(2)
		return []Op{{"New", 1, []int{k}}, {"New", 2, []int{k + 10}}, {"New", 3, []int{k}}}
	}
	if m.runs() || m.balance() {
		return []Op{{"New", 1, []int{r.Intn(2) + 10*b2i(!m.balance())*r.Intn(2)}}}
	}
	if m.what == "set" {
		return []Op{{"New", 1, []int{k}}, {"New", 2, []int{k%10 + 10*r.Intn(2)}}, {"New", 3, []int{k}}}
	}
	return []Op{{"New", 1, []int{k}}, {"New", 2, []int{r.Intn(4)}}}
}
func (m *orderedM) Final() []Op {
	f := []Op{{"Obs", 1, nil}}
	if m.balance() && !m.runs() {
		f = append(f, Op{"Shape", 1, nil})
	}
	for o := 2; o <= len(m.m); o++ {
		f = append(f, Op{"Obs", o, nil})
	}
	if m.algebra() {
		for _, n := range []string{"Intersect", "Union", "Diff"} {
			f = append(f, Op{n, 1, []int{2, 3}}, Op{n, 2, []int{1, 3}}, Op{n, 1, []int{1, 3}})
		}
		return f
	}
	if m.p.Depth > 0 && m.what != "skiplist" {
		for k := 0; k <= 3; k++ {
			f = append(f, Op{"LowerBound", 1, []int{k}}, Op{"UpperBound", 1, []int{k}}, Op{"Find", 1, []int{k}})
		}
	}
	return f
}
func (m *orderedM) insName() string {
	if m.multi() {
		return "InsertMulti"
	}
	return "InsertUnique"
}
func (m *orderedM) vals(k int) []int {
	if !m.hasVal() {
		return []int{k, 0}
	}
	m.next++
	return []int{k, elem(m.next, 0)}
}
func (m *orderedM) eraseNames() []string {
	switch m.what {
	case "rbtree":
		return []string{"EraseFirst", "EraseAt"}
	case "map":
		return []string{"EraseFirst", "EraseAt"}
	case "multimap":
		return []string{"EraseAll"}
	case "set":
		return []string{"EraseFirst"}
	case "multiset":
		return []string{"EraseFirst", "EraseAll"}
	}
	return []string{"RemoveKey"}
}
func (m *orderedM) Alpha() []func() Op {
	var al []func() Op
	add := func(name string, a ...int) { al = append(al, func() Op { return Op{name, 1, a} }) }
	keys := 3
	if m.algebra() {
		for k := 1; k <= 4; k++ {
			kk := k
			if m.tens() {
				kk = k * 7
			}
			for o := 1; o <= 2; o++ {
				o := o
				al = append(al, func() Op { return Op{"InsertUnique", o, []int{kk, 0}} })
			}
		}
		return al
	}
	if m.p.Profile == "wide" {
		keys = 5
	}
	for k := 1; k <= keys; k++ {
		kk := k
		if m.tens() {
			kk = k * 7
		}
		m.next++
		v := m.next
		if !m.hasVal() {
			v = 0
		}
		add(m.insName(), kk, v)
		for _, e := range m.eraseNames() {
			if e == "EraseAt" {
				if m.p.Profile == "wide" || k > 2 {
					add(e, k-1)
				}
			} else {
				add(e, kk)
			}
		}
	}
	return al
}

// genAlgebra: operations on sets of thousands
func (m *orderedM) genAlgebra(r *rand.Rand) Op {
	o := 1 + r.Intn(3)
	if m.n <= 3 {
		o = m.n
	}
	x := m.m[o]
	n := x.Size()
	hi := r.Intn(2500)
	if n > 0 {
		a, b := x.At("First", 0).key(), x.At("Last", 0).key()
		hi = 1 + maxInt(a, b) + r.Intn(400)
	}
	switch k := r.Intn(10); {
	case n > 4000:
		return Op{"Clear", o, nil}
	case n < 200 || n < 2500 && k < 2:
		return Op{"InsertRun", o, []int{hi, 1 + r.Intn(3), 0, 200 + r.Intn(1500)}}
	case k < 3:
		i := r.Intn(n)
		return Op{"EraseSpan", o, []int{i, 1 + r.Intn(n-i), r.Intn(2)}}
	case k < 4:
		return Op{"EraseEven", o, nil}
	}
	return Op{[]string{"Intersect", "Union", "Diff"}[r.Intn(3)], o, []int{1 + r.Intn(3), 1 + r.Intn(3)}}
}

// genRun: the keys lie 16 apart, so that there is room between them
func (m *orderedM) genRun(r *rand.Rand) Op {
	x := m.m[1]
	n := x.Size()
	lo, hi := 0, 0
	if n > 0 {
		a, b := x.At("First", 0), x.At("Last", 0)
		if m.what == "skiplist" {
			ks := x.(slA).t.Keys()
			lo, hi = ks[0], ks[len(ks)-1]
		} else {
			lo, hi = a.key(), b.key()
		}
		if lo > hi {
			lo, hi = hi, lo
		}
	}
	lo, hi = lo-(lo%16+16)%16, hi-(hi%16+16)%16
	run := func(k, d, c int) Op {
		v := 0
		if m.hasVal() {
			v = m.next + 1
			m.next += c
		}
		return Op{"InsertRun", 1, []int{k, d, v, c}}
	}
	c := 1 + r.Intn(1+r.Intn(1200))
	i, j := 0, n // a span of entries
	if n > 0 {
		i = r.Intn(n)
		j = 1 + r.Intn(n)
		if r.Intn(2) == 0 {
			j = 1 + r.Intn(1+j/4)
		}
		switch r.Intn(3) {
		case 0:
			i = 0
		case 1:
			i = n - j
		}
		if i+j > n {
			j = n - i
		}
	}
	if m.n == 1 {
		c = 1000 + r.Intn(1500)
	}
	if m.huge() && m.n < 18 {
		if m.n == 1 {
			c = 66000 + r.Intn(9000)
		} else if n > 66000 && m.n == 12 { // leave a few
			i, j = r.Intn(30), n-60
		}
	}
	switch w := r.Intn(20); {
	case m.huge() && m.n > 1 && m.n < 12:
	case m.huge() && m.n == 12:
		return Op{"EraseSpan", 1, []int{i, j, r.Intn(2)}}
	case m.n == 1 && w < 10 || n == 0 || n < 3000 && w < 3:
		return run(hi+16, 16, c)
	case m.n == 1 || n < 3000 && w < 6:
		return run(lo-16, -16, c)
	case w < 8:
		return Op{"EraseSpan", 1, []int{i, j, r.Intn(2)}}
	case w < 9:
		return Op{"EraseEven", 1, nil}
	}
	k := lo + r.Intn(hi-lo+33) - 16
	if r.Intn(3) > 0 {
		k = lo + r.Intn((hi-lo)/16+1)*16
	}
	ops := map[string][]string{"rbtree": {"Find", "LowerBound", "UpperBound"}, "map": {"Find", "Get", "LowerBound", "UpperBound", "First", "Last", "Walk"},
		"multimap": {"Find", "Get", "LowerBound", "UpperBound", "First", "Last", "Walk"}, "set": {"Find", "Contains", "LowerBound", "UpperBound", "First", "Last", "Walk"},
		"multiset": {"Count", "Find", "Contains", "LowerBound", "UpperBound", "First", "Last"}, "skiplist": {"Get", "Keys", "Walk"}}[m.what]
	op := ops[r.Intn(len(ops))]
	if op == "Walk" {
		k = r.Intn(n + 2)
	}
	return Op{op, 1, []int{k}}
}

func (m *orderedM) Gen(r *rand.Rand) Op {
	m.n++
	if m.runs() {
		return m.genRun(r)
	}
	if m.balance() {
		n := m.m[1].Size()
		// episodes of a few dozen calls, each growing or shrinking the tree in one way
		if m.left == 0 {
			m.left = 5 + r.Intn(10+m.p.Len/8)
			m.phase = r.Intn(8)
		}
		m.left--
		ins := func(k int) Op {
			m.next++
			return Op{"InsertMulti", 1, []int{k, m.next}}
		}
		phase := m.phase
		if phase >= 6 { // hover around the present size
			phase = []int{2, 5}[r.Intn(2)]
		}
		if n == 0 && phase > 2 {
			phase = 2
		}
		switch {
		case r.Intn(12) == 0 && n < 700:
			return Op{"Shape", 1, nil}
		case r.Intn(8) == 0:
			return Op{[]string{"Find", "LowerBound", "UpperBound"}[r.Intn(3)], 1, []int{r.Intn(4*m.next + 8)}}
		case phase == 0:
			return ins(4 * (m.next + 1))
		case phase == 1:
			return ins(-4 * (m.next + 1))
		case phase == 2:
			return ins((r.Intn(1<<24)*8192 + m.next) % (1 << 30))
		case phase == 3:
			return Op{"EraseAt", 1, []int{0}}
		case phase == 4:
			return Op{"EraseAt", 1, []int{n - 1}}
		default:
			return Op{"EraseAt", 1, []int{r.Intn(n)}}
		}
	}
	if m.p.Profile == "algebrabig" {
		return m.genAlgebra(r)
	}
	if m.algebra() && r.Intn(4) == 0 {
		return Op{[]string{"Intersect", "Union", "Diff"}[r.Intn(3)], 1 + r.Intn(3), []int{1 + r.Intn(3), 1 + r.Intn(3)}}
	}
	o := 1 + r.Intn(len(m.m))
	n := m.m[o].Size()
	k := r.Intn(m.span+2) - 1
	lim := 40
	if m.p.Profile == "long" {
		lim = 150
		k = r.Intn(m.span)
	}
	if m.p.Profile == "same" { // hundreds of equal keys
		lim = 400
		k = r.Intn(3)
		if n < 500 && r.Intn(5) == 0 {
			c := 1 + r.Intn(300)
			m.next += c
			return Op{"InsertMultiN", o, []int{k, (m.next - c + 1) * b2i(m.hasVal()), c}}
		}
	}
	ins := 6
	if n > lim {
		ins = 1
	}
	if m.p.Profile == "long" && n < lim/2 {
		ins = 10
	}
	switch c := r.Intn(24); {
	case c < ins:
		return Op{m.insName(), o, m.vals(k)}
	case c < 11:
		es := m.eraseNames()
		e := es[r.Intn(len(es))]
		if e == "EraseAt" {
			return Op{e, o, []int{r.Intn(n + 1)}}
		}
		return Op{e, o, []int{k}}
	case c < 13:
		if m.what == "skiplist" {
			return Op{"Get", o, []int{k}}
		}
		return Op{[]string{"LowerBound", "UpperBound"}[r.Intn(2)], o, []int{k}}
	case c < 15:
		switch m.what {
		case "skiplist":
			return Op{[]string{"Get", "Keys"}[r.Intn(2)], o, []int{k}}
		case "set", "multiset":
			return Op{[]string{"Find", "Contains"}[r.Intn(2)], o, []int{k}}
		case "rbtree":
			return Op{[]string{"Find", "Get", "Compare"}[r.Intn(3)], o, []int{k, r.Intn(m.span)}}
		}
		return Op{[]string{"Find", "Get", "Contains"}[r.Intn(3)], o, []int{k}}
	case c < 16:
		if m.what == "skiplist" {
			return Op{"Get", o, []int{k}}
		}
		return Op{[]string{"First", "Last"}[r.Intn(2)], o, nil}
	case c < 17:
		if m.what == "skiplist" {
			return Op{"Get", o, []int{k}}
		}
		return Op{"StepFrom", o, []int{k, r.Intn(5) - 2}}
	case c < 18:
		return Op{"Walk", o, []int{r.Intn(6)}}
	case c < 19:
		if m.what == "skiplist" || !m.hasVal() || n == 0 {
			return Op{"Obs", o, nil}
		}
		m.next++
		return Op{"SetAt", o, []int{r.Intn(n), elem(m.next, 0)}}
	case c < 20:
		if m.what != "skiplist" && r.Intn(6) == 0 {
			return Op{"Clear", o, nil}
		}
		return Op{"Obs", o, nil}
	case c < 23:
		if m.what == "set" {
			return Op{[]string{"Intersect", "Union", "Diff"}[r.Intn(3)], o, []int{1 + r.Intn(3), 1 + r.Intn(3)}}
		}
		if m.what == "multiset" {
			return Op{"Count", o, []int{k}}
		}
	}
	return Op{m.insName(), o, m.vals(k)}
}

func (m *orderedM) cmp(kind int) func(a, b int) int {
	ord := func(k int) int {
		d := k / 10
		if k < 0 && k%10 != 0 {
			d--
		}
		switch kind % 10 {
		case 1:
			return -k
		case 2:
			return d
		case 3:
			return -d
		}
		return k
	}
	return func(a, b int) int {
		if m.probing {
			if a != m.probe {
				m.cmps[a] = true
			}
			if b != m.probe {
				m.cmps[b] = true
			}
		}
		switch x, y := ord(a), ord(b); {
		case x < y:
			return -1
		case x > y:
			return 1
		}
		return 0
	}
}

func (m *orderedM) erase(x omap, k int) {
	switch t := x.(type) {
	case rbA:
		t.t.Delete(t.t.FindNode(k * t.mul))
	case mapA:
		t.t.Erase(k)
	case mmapA:
		t.t.Erase(k)
	case setA:
		t.t.Erase(k)
	case msetA:
		t.t.Erase(k)
	case slA:
		t.t.Remove(k)
	}
}

func itR(it *kvIt) []int {
	if !it.valid() {
		return rNotFound
	}
	return []int{4, it.key(), it.val()}
}

func (m *orderedM) content(o omap, back bool) (c []any) {
	c = []any{}
	defer func() {
		if recover() != nil {
			c = append(c, []int{-999, -999})
		}
	}()
	if m.what == "skiplist" {
		o.Walk(func(k, v int) bool { c = append(c, []int{k, v}); return len(c) < 2*o.Size()+20 })
		return c
	}
	if back {
		for it := o.At("Last", 0); it.valid() && len(c) < 2*o.Size()+20; it.prev() {
			c = append(c, []int{it.key(), it.val()})
		}
		return c
	}
	for it := o.At("First", 0); it.valid() && len(c) < 2*o.Size()+20; it.next() {
		c = append(c, []int{it.key(), it.val()})
	}
	return c
}

func (m *orderedM) Do(op Op) (ev Ev) {
	a, o := op.A, op.O
	x := m.m[o]
	tgt := o
	m.cmps = map[int]bool{}
	if m.balance() && (op.Name == "Find" || op.Name == "LowerBound" || op.Name == "UpperBound") {
		m.probing, m.probe = true, 2*a[0]
		defer func() { m.probing = false }()
	}
	nth := func(i int) *kvIt { // iterator on the i-th entry
		it := x.At("First", 0)
		for ; i > 0; i-- {
			it.next()
		}
		return it
	}
	switch op.Name {
	case "New":
		c := m.cmp(a[0])
		safe := a[0] >= 10
		ev.R = do(func() {
			switch m.what {
			case "rbtree":
				x = rbA{rbtree.New[int, int](c), 1 + b2i(m.balance())}
			case "map":
				if safe {
					x = mapA{treemap.New[int, int](c, MapSafe)}
				} else {
					x = mapA{treemap.New[int, int](c)}
				}
			case "multimap":
				if safe {
					x = mmapA{treemap.NewMultiMap[int, int](c, MapSafe)}
				} else {
					x = mmapA{treemap.NewMultiMap[int, int](c)}
				}
			case "set":
				if safe {
					x = setA{set.New(c, SetSafe)}
				} else {
					x = setA{set.New(c)}
				}
			case "multiset":
				if safe {
					x = msetA{set.NewMultiSet(c, SetSafe)}
				} else {
					x = msetA{set.NewMultiSet(c)}
				}
			case "skiplist":
				opts := []skiplist.Option{}
				if safe {
					opts = append(opts, SkipSafe)
				}
				m.ks++
				if lv := []int{0, 1, 2, 3, 16, 64}[m.ks%6]; lv > 0 && !m.huge() {
					opts = append(opts, skiplist.WithMaxLevel(lv))
				}
				l := skiplist.New[int, int](c, opts...)
				// heights are drawn in the same order by every list made within a
				// second: draw some beforehand, so that they differ
				for i := m.ks * 7 % 23; i > 0; i-- {
					l.Insert(5, 0)
					l.Remove(5)
				}
				x = slA{l}
			}
		})
		m.m[o] = x
	case "Clear":
		ev.R = do(x.Clear)
	case "InsertMulti", "InsertUnique":
		if a[1] > m.next {
			m.next = a[1]
		}
		ev.R = do(func() { x.Insert(a[0], a[1]) })
	case "InsertMultiN":
		ev.R = do(func() {
			for i := 0; i < a[2]; i++ {
				x.Insert(a[0], (a[1]+i)*b2i(m.hasVal()))
			}
		})
	case "InsertRun":
		ev.R = do(func() {
			for i := 0; i < a[3]; i++ {
				x.Insert(a[0]+i*a[1], (a[2]+i)*b2i(m.hasVal()))
			}
		})
	case "EraseSpan", "EraseEven":
		c := m.content(x, false)
		ks := []int{}
		if op.Name == "EraseSpan" {
			for i := a[0]; i < a[0]+a[1] && i < len(c); i++ {
				ks = append(ks, c[i].([]int)[0])
			}
			if a[2] == 1 {
				sort.Sort(sort.Reverse(sort.IntSlice(ks)))
			}
		} else {
			for i := 1; i < len(c); i += 2 {
				ks = append(ks, c[i].([]int)[0])
			}
		}
		ev.R = do(func() {
			for _, k := range ks {
				m.erase(x, k)
			}
		})
	case "EraseFirst":
		ev.R = do(func() { m.erase(x, a[0]) })
	case "EraseAll":
		ev.R = do(func() {
			switch t := x.(type) {
			case mmapA:
				t.t.Erase(a[0])
			case msetA:
				t.t.EraseAll(a[0])
			}
		})
	case "EraseAt":
		ev.R = do(func() {
			switch t := x.(type) {
			case rbA:
				n := t.t.First()
				for i := 0; i < a[0] && n != nil; i++ {
					n = n.Next()
				}
				t.t.Delete(n)
			case mapA:
				it := t.t.First()
				for i := 0; i < a[0]; i++ {
					it.Next()
				}
				t.t.EraseIter(it)
			}
		})
	case "RemoveKey":
		ev.R = try(func() []int { return rBool(x.(slA).t.Remove(a[0])) })
	case "Get":
		ev.R = try(func() []int {
			var v int
			var err error
			switch t := x.(type) {
			case rbA:
				v, err = t.t.Find(a[0] * t.mul)
			case mapA:
				v, err = t.t.Get(a[0])
			case mmapA:
				v, err = t.t.Get(a[0])
			case slA:
				v, err = t.t.Get(a[0])
			}
			if err != nil {
				return rNotFound
			}
			return rVal(v)
		})
	case "Contains":
		ev.R = try(func() []int {
			switch t := x.(type) {
			case mapA:
				return rBool(t.t.Contains(a[0]))
			case mmapA:
				return rBool(t.t.Contains(a[0]))
			case setA:
				return rBool(t.t.Contains(a[0]))
			case msetA:
				return rBool(t.t.Contains(a[0]))
			}
			return nil
		})
	case "Count":
		ev.R = try(func() []int { return rVal(x.(msetA).t.Count(a[0])) })
	case "Find", "LowerBound", "UpperBound":
		ev.R = try(func() []int { return itR(x.At(op.Name, a[0])) })
		if m.balance() {
			m.probing = false
			ev.D = len(m.cmps)
		}
	case "First":
		ev.R = try(func() []int {
			b := itR(x.At("Begin", 0))
			f := itR(x.At("First", 0))
			if fmt.Sprint(b) != fmt.Sprint(f) {
				return rErr
			}
			return f
		})
	case "Last":
		ev.R = try(func() []int {
			b := itR(x.At("RBegin", 0))
			f := itR(x.At("Last", 0))
			if fmt.Sprint(b) != fmt.Sprint(f) {
				return rErr
			}
			return f
		})
	case "SetAt":
		ev.R = do(func() { nth(a[0]).set(a[1]) })
	case "StepFrom":
		ev.R = try(func() []int {
			it := x.At("Find", a[0])
			for i := 0; i < a[1]; i++ {
				it.next()
			}
			for i := 0; i > a[1]; i-- {
				it.prev()
			}
			return itR(it)
		})
	case "Compare":
		ev.R = try(func() []int { return rVal(x.(rbA).t.Compare(a[0]*x.(rbA).mul, a[1]*x.(rbA).mul)) })
	case "Walk":
		ev.R = try(func() []int {
			s := []int{}
			x.Walk(func(k, v int) bool { s = append(s, k); return len(s) != a[0] && len(s) < 2*x.Size()+20 })
			return rSeq(s)
		})
	case "Shape":
		ev.R = do(func() { ev.D = m.leaves(x.(rbA)) })
	case "Keys":
		ev.R = try(func() []int { return rSeq(x.(slA).t.Keys()) })
	case "Obs":
		ev.R = try(func() []int {
			n := x.Size()
			e := b2i(n == 0)
			switch t := x.(type) {
			case rbA:
				e = b2i(t.t.Empty())
			case setA:
				ev.S = t.t.String()
			case msetA:
				ev.S = t.t.String()
			}
			return []int{n, e}
		})
	case "Intersect", "Union", "Diff":
		tgt = a[1]
		s, t := x.(setA).t, m.m[a[0]].(setA).t
		before := [2]any{m.content(x, false), m.content(m.m[a[0]], false)}
		ev.R = do(func() {
			var z *set.Set[int]
			switch op.Name {
			case "Intersect":
				z = s.Intersect(t)
			case "Union":
				z = s.Union(t)
			default:
				z = s.Diff(t)
			}
			m.m[tgt] = setA{z}
		})
		if a[1] != o && a[1] != a[0] {
			before = [2]any{m.content(x, false), m.content(m.m[a[0]], false)}
			ev.C2 = before
		}
	default:
		fatal("ordered op", op.Name)
	}
	y := m.m[tgt]
	m.probing = false
	ev.F = y.Size()
	if t, ok := y.(rbA); ok {
		good, err := t.t.IsRbTree()
		ev.T = b2i(good && err == nil)
	}
	if m.runs() && m.n%4 == 0 && (!m.huge() || ev.F.(int) < 5000) || !m.runs() && (!m.balance() || m.n%16 == 0) {
		ev.C = m.content(y, false)
		if m.what != "skiplist" {
			ev.B = m.content(y, true)
		}
	}
	return ev
}

// leaves finds, for every gap between keys, how many keys a search that ends
// there is compared with.  (No answer if there are equal keys.)
func (m *orderedM) leaves(t rbA) []int {
	d := []int{}
	ks := []int{}
	for n := t.t.First(); n != nil && len(ks) <= t.t.Size(); n = n.Next() {
		ks = append(ks, n.Key())
	}
	down := 1
	for i := 1; i < len(ks); i++ {
		if ks[i] == ks[i-1] {
			return d
		}
		if ks[i] < ks[i-1] {
			down = -1
		}
	}
	look := func(k int) {
		m.probing, m.probe, m.cmps = true, k, map[int]bool{}
		t.t.FindLowerBoundNode(k)
		m.probing = false
		d = append(d, len(m.cmps))
	}
	for _, k := range ks {
		look(k - down)
	}
	if len(ks) > 0 {
		look(ks[len(ks)-1] + down)
	}
	return d
}

var _ iterator.ConstIterator[int] = (*treemap.MapIterator[int, int])(nil)

// ---- hamt ----

type hamtM struct {
	p    Params
	h    map[int]*hamt.Hamt[int]
	next int
	uni  []int // keys of this history
	n    int
	l    lender
}

var hamtKeys [][]byte
var hamtClass = map[string][]int{}
var hamtID = map[string]int{}

func initHamtKeys() {
	if hamtKeys != nil {
		return
	}
	add := func(class string, k []byte) {
		hamtKeys = append(hamtKeys, k)
		id := len(hamtKeys)
		hamtClass[class] = append(hamtClass[class], id)
		hamtID[string(k)] = id
	}
	for _, c := range CollKeys {
		b, err := hex.DecodeString(c.Hex)
		if err != nil {
			fatal(err)
		}
		class := c.Class
		if strings.HasPrefix(class, "low") {
			class = "low"
		}
		add(class, b)
	}
	for _, c := range PrefKeys { // further zero bytes, 64 at a time, leave the hash as it is
		b, err := hex.DecodeString(c)
		if err != nil {
			fatal(err)
		}
		for i := 0; i < 3; i++ {
			add("pref", append(append([]byte{}, b...), make([]byte, 64*i)...))
		}
	}
	add("plain", []byte{})
	for i := 0; i < 400; i++ {
		add("plain", []byte(fmt.Sprintf("key%d", i)))
	}
	for i := 0; i < 64; i++ {
		add("byte", []byte{byte(i)})
	}
	for _, c := range PartKeys {
		b, err := hex.DecodeString(c)
		if err != nil {
			fatal(err)
		}
		add("part", b)
	}
}

func (m *hamtM) Reset() {
	initHamtKeys()
	m.h, m.next, m.n, m.l = map[int]*hamt.Hamt[int]{}, 0, 0, lender{}
}
func (m *hamtM) Start(r *rand.Rand) []Op {
	if r == nil {
		m.uni = append(append([]int{}, hamtClass["full"][:3]...), hamtClass["mix"][0], hamtClass["mix"][1])
		if m.p.Profile == "low" {
			m.uni = append([]int{}, hamtClass["low"][:2]...)
			m.uni = append(m.uni, hamtClass["mix"][0], hamtClass["mix"][2], hamtClass["mix"][1])
		}
		if m.p.Profile == "trie" { // the keys of MC_HamtTrie
			m.uni = []int{1, 2, 3, 9, 10, 15, 16, 25, 26, 27, 28}
		}
		return []Op{{"New", 1, []int{0}}}
	}
	m.uni = nil
	if m.runs() {
		return []Op{{"New", 1, []int{r.Intn(2)}}}
	}
	pick := func(class string, n int) {
		c := hamtClass[class]
		for i := 0; i < n; i++ {
			m.uni = append(m.uni, c[r.Intn(len(c))])
		}
	}
	switch r.Intn(5) {
	case 4:
		m.uni = append(m.uni, hamtClass["part"]...)
		pick("plain", 4)
	case 0:
		pick("full", 6)
		pick("mix", 4)
		pick("plain", 2)
		pick("pref", 5)
	case 1:
		pick("low", 16)
		pick("mix", 2)
	case 2:
		pick("full", 3)
		pick("low", 4)
		pick("plain", 6)
		pick("byte", 6)
	default:
		n := 20
		if m.p.Profile == "long" {
			n = 140
		}
		pick("plain", n)
		pick("byte", n/2)
		pick("full", 4)
		pick("mix", 4)
		pick("low", 6)
		pick("pref", 3)
	}
	m.uni = append(m.uni, hamtClass["plain"][0]) // the empty key
	// distinct
	seen := map[int]bool{}
	u := m.uni[:0]
	for _, k := range m.uni {
		if !seen[k] {
			seen[k] = true
			u = append(u, k)
		}
	}
	m.uni = u
	return []Op{{"New", 1, []int{0}}, {"New", 2, []int{1}}}
}
func (m *hamtM) Final() []Op {
	f := []Op{{"Keys", 1, nil}, {"StringKeys", 1, nil}, {"Walk", 1, []int{2}}, {"Walk", 1, []int{1}}}
	if m.runs() {
		return append(f, Op{"EraseRun", 1, []int{runKeys, runSpan}}, f[0])
	}
	if m.h[2] != nil {
		f = append(f, Op{"Keys", 2, nil}, Op{"Walk", 2, []int{3}})
	}
	return f
}
func (m *hamtM) Alpha() []func() Op {
	var al []func() Op
	for _, k := range m.uni {
		m.next++
		k, v := k, m.next
		al = append(al, func() Op { return Op{"Insert", 1, []int{k, v}} }, func() Op { return Op{"Erase", 1, []int{k}} })
	}
	return al
}
func (m *hamtM) Gen(r *rand.Rand) Op {
	if m.huge() && m.n < 8 {
		m.n++
		n := 60000 + r.Intn(hugeSpan-60000)
		switch {
		case m.n == 1:
			return Op{"InsertRun", 1, []int{runKeys + r.Intn(hugeSpan-n+1), 1, n}}
		case m.n == 7:
			k := runSpan/2 + r.Intn(runSpan/2)
			return Op{"EraseRun", 1, []int{runKeys + k, hugeSpan - k}}
		case m.n == 8:
			m.next = 100000
			return Op{"Keys", 1, nil}
		}
		if m.n%2 == 0 {
			return Op{"Get", 1, []int{runKeys + r.Intn(hugeSpan)}}
		}
		return Op{"Erase", 1, []int{runKeys + r.Intn(hugeSpan)}}
	}
	if m.runs() { // thousands of keys
		m.n++
		k, n := runKeys+r.Intn(runSpan), 1+r.Intn(1+r.Intn(1500))
		if m.n == 1 {
			n = 2000
		}
		if k+n > runKeys+runSpan {
			n = runKeys + runSpan - k
		}
		switch c := r.Intn(16); {
		case m.n == 1 || c < 4:
			m.next += n
			return Op{"InsertRun", 1, []int{k, m.next - n + 1, n}}
		case c < 8:
			return Op{"EraseRun", 1, []int{k, n}}
		case c < 9:
			m.next++
			return Op{"Insert", 1, []int{k, m.next}}
		case c < 10:
			return Op{"Erase", 1, []int{k}}
		case c < 14:
			return Op{"Get", 1, []int{k}}
		}
		return Op{[]string{"Keys", "StringKeys", "Walk"}[r.Intn(3)], 1, []int{r.Intn(2000)}}
	}
	o := 1 + r.Intn(2)
	k := m.uni[r.Intn(len(m.uni))]
	grow := m.n/(20+len(m.uni))%2 == 0
	m.n++
	ins := 4
	if grow {
		ins = 9
	}
	switch c := r.Intn(20); {
	case c < ins:
		m.next++
		return Op{"Insert", o, []int{k, elem(m.next, 0)}}
	case c < 13:
		return Op{"Erase", o, []int{k}}
	case c < 16:
		return Op{"Get", o, []int{k}}
	case c < 17:
		return Op{[]string{"Keys", "StringKeys"}[r.Intn(2)], o, nil}
	default:
		return Op{"Walk", o, []int{r.Intn(6)}}
	}
}

const runKeys, runSpan, hugeSpan = 100000, 4000, 80000 // the numbers of the keys r0, r1, ...

func (m *hamtM) runs() bool { return m.p.Profile == "runs" || m.huge() }
func (m *hamtM) huge() bool { return m.p.Profile == "huge" }

func keyID(k []byte) int {
	if id := hamtID[string(k)]; id > 0 {
		return id
	}
	if len(k) > 1 && k[0] == 'r' {
		if i, err := strconv.Atoi(string(k[1:])); err == nil {
			return runKeys + i
		}
	}
	return 0
}

func (m *hamtM) key(i int) []byte {
	if i >= runKeys {
		return m.l.lend([]byte("r" + strconv.Itoa(i-runKeys)))
	}
	if k := hamtKeys[i-1]; len(k) > 0 || len(m.l.lent)%2 == 0 {
		return m.l.lend(k)
	}
	return nil
}
func (m *hamtM) Do(op Op) (ev Ev) {
	if ev = m.call(op); !m.l.kept() {
		ev.R = rLent
	}
	return ev
}
func (m *hamtM) call(op Op) (ev Ev) {
	a := op.A
	h := m.h[op.O]
	switch op.Name {
	case "New":
		ev.R = do(func() {
			if a[0] == 1 {
				h = hamt.New[int](HamtSafe)
			} else {
				h = hamt.New[int]()
			}
		})
		m.h[op.O] = h
	case "Insert":
		ev.R = do(func() { h.Insert(m.key(a[0]), a[1]) })
	case "InsertRun":
		ev.R = do(func() {
			for i := 0; i < a[2]; i++ {
				h.Insert(m.key(a[0]+i), a[1]+i)
			}
		})
	case "EraseRun":
		ev.R = try(func() []int {
			n := 0
			for i := 0; i < a[1]; i++ {
				n += b2i(h.Erase(m.key(a[0] + i)))
			}
			return rVal(n)
		})
	case "Erase":
		ev.R = try(func() []int { return rBool(h.Erase(m.key(a[0]))) })
	case "Get":
		ev.R = try(func() []int {
			v, err := h.Get(m.key(a[0]))
			if err != nil {
				return rNotFound
			}
			return rVal(v)
		})
	case "Keys":
		ev.R = do(func() {
			f := []int{}
			for _, k := range h.Keys() {
				f = append(f, keyID(k))
			}
			ev.F = f
		})
	case "StringKeys":
		ev.R = do(func() {
			f := []int{}
			for _, k := range h.StringKeys() {
				f = append(f, keyID([]byte(k)))
			}
			ev.F = f
		})
	case "Walk":
		ev.R = do(func() {
			f := []any{}
			h.Traversal(func(k hamt.Key, v int) bool {
				f = append(f, []int{keyID(k), v})
				return len(f) != a[0] && len(f) < 200000
			})
			ev.F = f
		})
	default:
		fatal("hamt op", op.Name)
	}
	if ev.F == nil && (op.Name == "Keys" || op.Name == "StringKeys" || op.Name == "Walk") {
		ev.F = []int{}
	}
	if op.Name == "Get" || op.Name == "New" {
		return ev
	}
	c, d := []any{}, []any{}
	if m.runs() && (m.n%4 != 0 || m.huge() && m.n < 8) {
		return ev
	}
	try(func() []int {
		h.Traversal(func(k hamt.Key, v int) bool { c = append(c, []int{keyID(k), v}); return len(c) < 200000 })
		return nil
	})
	ev.C = c
	if op.Name == "Erase" || len(m.uni) < 12 {
		ks := m.uni
		for k := 0; len(m.uni) == 0 && k < runSpan; k++ {
			ks = append(ks, runKeys+k)
		}
		for _, k := range ks {
			k := k
			try(func() []int {
				v, err := h.Get(m.key(k))
				if err != nil {
					v = -2
				}
				d = append(d, []int{k, v})
				return nil
			})
		}
		ev.D = d
	}
	return ev
}
