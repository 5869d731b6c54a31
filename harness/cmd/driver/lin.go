package main

import (
	. "verif/harness/things"

	"fmt"
	"math/rand"
	"strings"

	"github.com/liyue201/gostl/ds/array"
	"github.com/liyue201/gostl/ds/heap"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
	"github.com/liyue201/gostl/ds/priorityqueue"
	"github.com/liyue201/gostl/ds/queue"
	"github.com/liyue201/gostl/ds/slice"
	"github.com/liyue201/gostl/ds/stack"
)

// ---- arrays and slice wrappers ----

type arrayM struct {
	p    Params
	a    map[int]*array.Array[int]
	w    map[int]*slice.SliceWrapper[int]
	raw  map[int][]int  // the slice a wrapper shows
	out  []func() []int // what is around those slices and has changed
	next int
}

func (m *arrayM) inside(a []int) []int {
	d, margins := InsideInts(a)
	m.out = append(m.out, margins)
	return d
}

func (m *arrayM) Reset() {
	m.a, m.w, m.raw = map[int]*array.Array[int]{}, map[int]*slice.SliceWrapper[int]{}, map[int][]int{}
	m.next, m.out = 0, nil
}
func (m *arrayM) isArr() bool { return m.p.Profile != "wrap" }
func (m *arrayM) Start(r *rand.Rand) []Op {
	n := 3
	if r != nil {
		n = r.Intn(6)
		if m.p.Profile == "big" {
			n = r.Intn(1500)
		}
	}
	if m.isArr() {
		ops := []Op{{"New", 1, []int{n}}, {"New", 2, []int{n}}, {"New", 3, []int{0}}}
		if m.p.Profile == "big" {
			ops = append(ops, Op{"Fill", 1, []int{-1}}, Op{"Fill", 2, []int{-2}})
		}
		return ops
	}
	return []Op{{"NewSlice", 1, []int{1, 2, 3}}, {"Wrap", 2, []int{1}}, {"NewSlice", 3, []int{}}}
}
func (m *arrayM) Final() []Op { return []Op{{"Obs", 1, nil}, {"Obs", 2, nil}, {"Obs", 3, nil}} }
func (m *arrayM) val() int    { m.next++; return elem(m.next, 10) }
func (m *arrayM) size(o int) int {
	if m.isArr() {
		return m.a[o].Size()
	}
	return m.w[o].Len()
}
func (m *arrayM) Alpha() []func() Op {
	op := func(name string, o int, a ...int) func() Op { return func() Op { return Op{name, o, a} } }
	if m.isArr() {
		return []func() Op{op("Set", 1, 0, m.val()), op("Set", 2, 2, m.val()), op("Fill", 2, m.val()), op("SwapArray", 1, 2),
			op("SwapArray", 1, 3), op("NewFrom", 3, 1), op("New", 1, 2), op("Set", 1, 3, m.val())}
	}
	return []func() Op{op("Set", 1, 0, m.val()), op("Set", 2, 2, m.val()), op("SetRaw", 1, 0, m.val()), op("AttachOf", 3, 1),
		op("Attach", 1, m.val()), op("Set", 3, 0, m.val())}
}
func (m *arrayM) Gen(r *rand.Rand) Op {
	o := 1 + r.Intn(3)
	n := m.size(o)
	pos := r.Intn(n+3) - 1
	if r.Intn(3) > 0 && n > 0 {
		pos = r.Intn(n)
		if r.Intn(4) == 0 {
			pos = []int{0, n - 1}[r.Intn(2)]
		}
	}
	switch k := r.Intn(16); {
	case k < 5:
		return Op{"Set", o, []int{pos, m.val()}}
	case k < 7:
		return Op{"At", o, []int{pos}}
	case k < 9:
		return Op{"Obs", o, nil}
	}
	if m.isArr() {
		k := r.Intn(7)
		if m.p.Profile == "big" && k < 2 && r.Intn(3) > 0 {
			k = 6
		}
		switch k {
		case 0:
			if m.p.Profile == "big" {
				return Op{"New", o, []int{r.Intn(1500)}}
			}
			return Op{"New", o, []int{r.Intn(6)}}
		case 1:
			return Op{"NewFrom", o, []int{1 + r.Intn(3)}}
		case 2:
			return Op{"Fill", o, []int{m.val()}}
		case 3:
			return Op{"Front", o, nil}
		case 4:
			return Op{"Back", o, nil}
		default:
			return Op{"SwapArray", o, []int{1 + r.Intn(3)}}
		}
	}
	switch r.Intn(4) {
	case 0:
		s := []int{}
		for i := r.Intn(6); i > 0; i-- {
			s = append(s, m.val())
		}
		return Op{[]string{"NewSlice", "Attach"}[r.Intn(2)], o, s}
	case 1:
		return Op{[]string{"Wrap", "AttachOf"}[r.Intn(2)], o, []int{1 + r.Intn(3)}}
	default:
		if n == 0 {
			return Op{"At", o, []int{0}}
		}
		return Op{"SetRaw", o, []int{r.Intn(n), m.val()}}
	}
}
func (m *arrayM) Do(op Op) (ev Ev) {
	a := op.A
	ar, w := m.a[op.O], m.w[op.O]
	switch op.Name {
	case "New":
		ev.R = do(func() { m.a[op.O] = array.New[int](a[0]) })
	case "NewFrom":
		ev.R = do(func() { m.a[op.O] = array.NewFromArray(m.a[a[0]]) })
	case "Fill":
		ev.R = do(func() { ar.Fill(a[0]) })
	case "SwapArray":
		ev.R = do(func() { ar.SwapArray(m.a[a[0]]) })
	case "NewSlice":
		m.raw[op.O] = m.inside(a)
		ev.R = do(func() { m.w[op.O] = slice.NewSliceWrapper(m.raw[op.O]) })
	case "Wrap":
		m.raw[op.O] = m.raw[a[0]]
		ev.R = do(func() { m.w[op.O] = slice.NewSliceWrapper(m.raw[op.O]) })
	case "Attach":
		m.raw[op.O] = m.inside(a)
		ev.R = do(func() { w.Attach(m.raw[op.O]) })
	case "AttachOf":
		m.raw[op.O] = m.raw[a[0]]
		ev.R = do(func() { w.Attach(m.raw[op.O]) })
	case "SetRaw":
		m.raw[op.O][a[0]] = a[1]
		ev.R = rOK
	case "Set":
		ev.R = do(func() {
			if m.isArr() {
				ar.Set(a[0], a[1])
			} else {
				w.Set(a[0], a[1])
			}
		})
	case "At":
		ev.R = try(func() []int {
			if m.isArr() {
				return rVal(ar.At(a[0]))
			}
			return rVal(w.At(a[0]))
		})
	case "Front":
		ev.R = try(func() []int { return rVal(ar.Front()) })
	case "Back":
		ev.R = try(func() []int { return rVal(ar.Back()) })
	case "Obs":
		ev.R = try(func() []int {
			f, b := []int{}, []int{}
			if m.isArr() {
				for it := ar.Begin(); !it.Equal(ar.End()) && len(f) < 2*ar.Size()+20; it.Next() {
					f = append(f, it.Value())
				}
				for it := ar.Last(); it.IsValid() && len(b) < 2*ar.Size()+20; it.Prev() {
					b = append(b, it.Value())
				}
				ev.F, ev.B, ev.S = f, b, ar.String()
				if fmt.Sprint(ar.Data()) != fmt.Sprint(f) {
					ev.F = append([]int{}, ar.Data()...)
				}
				return []int{ar.Size(), b2i(ar.Empty())}
			}
			for it := w.Begin(); !it.Equal(w.End()) && len(f) < 2*w.Len()+20; it.Next() {
				f = append(f, it.Value())
			}
			for it := w.Last(); it.IsValid() && len(b) < 2*w.Len()+20; it.Prev() {
				b = append(b, it.Value())
			}
			ev.F, ev.B = f, b
			return []int{w.Len(), b2i(w.Len() == 0)}
		})
	default:
		fatal("array op", op.Name)
	}
	for _, margins := range m.out {
		if len(margins()) > 0 {
			ev.R = rLent
		}
	}
	c := []any{}
	for o := 1; o <= 3; o++ {
		if x := m.a[o]; x != nil {
			c = append(c, []any{o, AtAll(x.Size, x.At)})
		}
		if x := m.w[o]; x != nil {
			s := AtAll(x.Len, x.At)
			if fmt.Sprint(s) != fmt.Sprint(m.raw[o]) { // the wrapper must show the caller's slice
				s = append(s, -998)
			}
			c = append(c, []any{o, s})
		}
	}
	ev.C = c
	return ev
}

// ---- doubly linked list ----

type bidM struct {
	p    Params
	l    map[int]*bidlist.List[int]
	node []*bidlist.Node[int]
	id   map[*bidlist.Node[int]]int
	next int
}

func (m *bidM) Reset() {
	m.l, m.node, m.id, m.next = map[int]*bidlist.List[int]{}, nil, map[*bidlist.Node[int]]int{}, 0
}
func (m *bidM) Start(*rand.Rand) []Op { return []Op{{"New", 1, nil}, {"New", 2, nil}} }
func (m *bidM) Final() []Op           { return []Op{{"Obs", 1, nil}, {"Obs", 2, nil}} }
func (m *bidM) val() int              { m.next++; return elem(m.next, 100) }
func (m *bidM) ident(n *bidlist.Node[int]) int {
	if n == nil {
		return 0
	}
	if i, ok := m.id[n]; ok {
		return i
	}
	m.node = append(m.node, n)
	m.id[n] = len(m.node)
	return len(m.node)
}
func (m *bidM) Alpha() []func() Op {
	op := func(name string, o int, a ...int) func() Op { return func() Op { return Op{name, o, a} } }
	al := []func() Op{op("PushBack", 1, m.val()), op("PushFront", 1, m.val()), op("PopBack", 1), op("PopFront", 1),
		op("PushBackList", 1, 1), op("PushFrontList", 2, 1), op("Clear", 1), op("PushBack", 2, m.val())}
	if k := len(m.node); k > 0 {
		h := (k + 1) / 2
		al = append(al, op("Remove", 1, h), op("InsertAfter", 1, m.val(), k), op("InsertBefore", 1, m.val(), h),
			op("MoveToFront", 1, k), op("MoveToBack", 1, 1), op("MoveAfter", 1, 1, k), op("MoveAfter", 1, k, 1), op("MoveAfter", 1, h, k))
	}
	return al
}
func (m *bidM) Gen(r *rand.Rand) Op {
	o := 1 + r.Intn(2)
	lim := 20
	if m.p.Profile == "huge" {
		lim = 4000
		n := m.l[o].Len()
		switch k := r.Intn(10); {
		case k < 4 && n < 1500:
			c := 300 + r.Intn(1500)
			m.next += c
			return Op{[]string{"PushBackN", "PushFrontN"}[k%2], o, []int{elem(m.next, 100) - c + 1, c}}
		case k < 6 && n > 600:
			if q := 1 + r.Intn(2); m.l[q].Len()+n < 4000 {
				return Op{[]string{"PushBackList", "PushFrontList"}[k%2], o, []int{q}}
			}
			return Op{"Clear", o, nil}
		case k == 6:
			return Op{"Walk", o, []int{r.Intn(3) * r.Intn(n+1)}}
		}
	}
	if m.p.Profile == "long" {
		lim = 150
		if r.Intn(3) == 0 && m.l[o].Len() < lim {
			return Op{[]string{"PushBack", "PushFront", "PushBackList"}[r.Intn(3)], o, []int{2}}
		}
	}
	if k := len(m.node); k > 0 && r.Intn(3) > 0 {
		pick := func() int { // any node ever made, mostly a recent one or one of list o
			if r.Intn(3) == 0 {
				return 1 + r.Intn(k)
			}
			l := m.l[o]
			j := 0
			if l.Len() > 0 {
				j = r.Intn(l.Len())
			}
			n := l.FrontNode()
			for ; j > 0 && n != nil; j-- {
				n = n.Next()
			}
			if n == nil {
				return 1 + r.Intn(k)
			}
			return m.ident(n)
		}
		switch r.Intn(14) {
		case 0:
			return Op{"Remove", o, []int{pick()}}
		case 1, 2:
			return Op{"InsertAfter", o, []int{m.val(), pick()}}
		case 3, 4:
			return Op{"InsertBefore", o, []int{m.val(), pick()}}
		case 5:
			return Op{"MoveToFront", o, []int{pick()}}
		case 6:
			return Op{"MoveToBack", o, []int{pick()}}
		case 7, 8, 9:
			return Op{"MoveAfter", o, []int{pick(), pick()}}
		case 10:
			return Op{"GetVal", o, []int{pick()}}
		case 11:
			return Op{"SetVal", o, []int{pick(), m.val()}}
		case 12:
			return Op{"NodeNext", o, []int{pick()}}
		default:
			return Op{"NodePrev", o, []int{pick()}}
		}
	}
	switch r.Intn(15) {
	case 0, 1:
		return Op{"PushBack", o, []int{m.val()}}
	case 2, 3:
		return Op{"PushFront", o, []int{m.val()}}
	case 4:
		return Op{"PopBack", o, nil}
	case 5:
		return Op{"PopFront", o, nil}
	case 6:
		return Op{[]string{"Front", "Back"}[r.Intn(2)], o, nil}
	case 7:
		return Op{[]string{"FrontNode", "BackNode"}[r.Intn(2)], o, nil}
	case 8, 9:
		if m.l[1].Len() > lim || m.l[2].Len() > lim {
			return Op{"Clear", o, nil}
		}
		return Op{[]string{"PushBackList", "PushFrontList"}[r.Intn(2)], o, []int{1 + r.Intn(2)}}
	case 10:
		if r.Intn(3) == 0 {
			return Op{"Clear", o, nil}
		}
		return Op{"PushBack", o, []int{m.val()}}
	case 11:
		return Op{"Walk", o, []int{r.Intn(5)}}
	default:
		return Op{"Obs", o, nil}
	}
}
func (m *bidM) nodeR(n *bidlist.Node[int]) []int {
	if n == nil {
		return rNotFound
	}
	return rVal(m.ident(n))
}
func (m *bidM) Do(op Op) (ev Ev) {
	l, a := m.l[op.O], op.A
	nd := func(i int) *bidlist.Node[int] { return m.node[a[i]-1] }
	switch op.Name {
	case "New":
		m.l[op.O] = bidlist.New[int]()
		l = m.l[op.O]
		ev.R = rOK
	case "PushBack":
		ev.R = do(func() { l.PushBack(a[0]) })
	case "PushBackN":
		ev.R = do(func() {
			for i := 0; i < a[1]; i++ {
				l.PushBack(a[0] + i)
			}
		})
	case "PushFrontN":
		ev.R = do(func() {
			for i := a[1] - 1; i >= 0; i-- {
				l.PushFront(a[0] + i)
			}
		})
	case "PushFront":
		ev.R = do(func() { l.PushFront(a[0]) })
	case "PopBack":
		ev.R = try(func() []int { return rVal(l.PopBack()) })
	case "PopFront":
		ev.R = try(func() []int { return rVal(l.PopFront()) })
	case "Front":
		ev.R = try(func() []int { return rVal(l.Front()) })
	case "Back":
		ev.R = try(func() []int { return rVal(l.Back()) })
	case "FrontNode":
		ev.R = try(func() []int { return m.nodeR(l.FrontNode()) })
	case "BackNode":
		ev.R = try(func() []int { return m.nodeR(l.BackNode()) })
	case "InsertAfter":
		ev.R = try(func() []int { return m.nodeR(l.InsertAfter(a[0], nd(1))) })
	case "InsertBefore":
		ev.R = try(func() []int { return m.nodeR(l.InsertBefore(a[0], nd(1))) })
	case "Remove":
		ev.R = try(func() []int { return rVal(l.Remove(nd(0))) })
	case "MoveToFront":
		ev.R = do(func() { l.MoveToFront(nd(0)) })
	case "MoveToBack":
		ev.R = do(func() { l.MoveToBack(nd(0)) })
	case "MoveAfter":
		ev.R = do(func() { l.MoveAfter(nd(0), nd(1)) })
	case "PushBackList":
		ev.R = do(func() { l.PushBackList(m.l[a[0]]) })
	case "PushFrontList":
		ev.R = do(func() { l.PushFrontList(m.l[a[0]]) })
	case "Clear":
		ev.R = do(func() { l.Clear() })
	case "GetVal":
		ev.R = try(func() []int {
			it := bidlist.NewIterator(nd(0))
			if it.Value() != nd(0).Value {
				return rVal(-998)
			}
			return rVal(it.Value())
		})
	case "SetVal":
		ev.R = do(func() {
			if a[1]%2 == 0 {
				nd(0).Value = a[1]
			} else {
				bidlist.NewIterator(nd(0)).SetValue(a[1])
			}
		})
	case "NodeNext":
		ev.R = try(func() []int { return m.nodeR(nd(0).Next()) })
	case "NodePrev":
		ev.R = try(func() []int { return m.nodeR(nd(0).Prev()) })
	case "Walk":
		ev.R = try(func() []int {
			s := []int{}
			l.Traversal(func(v int) bool { s = append(s, v); return len(s) != a[0] && len(s) < 2*l.Len()+20 })
			return rSeq(s)
		})
	case "Obs":
		ev.R = try(func() []int {
			ev.S = l.String()
			n := l.Len()
			if l.Size() != n {
				n = -998
			}
			return []int{n, b2i(l.Empty())}
		})
	default:
		fatal("bidlist op", op.Name)
	}
	c, b, d := []any{}, []any{}, []any{}
	for o := 1; o <= 2; o++ {
		x := m.l[o]
		if x == nil {
			continue
		}
		f, g, v := []int{}, []int{}, []int{}
		try(func() []int {
			for it := bidlist.NewIterator(x.FrontNode()); it.IsValid() && len(f) < maxWalk; it.Next() {
				v = append(v, it.Value())
				f = append(f, 0)
			}
			f = f[:0]
			for n := x.FrontNode(); n != nil && len(f) < maxWalk; n = n.Next() {
				f = append(f, m.ident(n))
			}
			for n := x.BackNode(); n != nil && len(g) < maxWalk; n = n.Prev() {
				g = append(g, m.ident(n))
			}
			return nil
		})
		c, b, d = append(c, []any{o, f}), append(b, []any{o, g}), append(d, []any{o, v})
	}
	ev.C, ev.B, ev.D = c, b, d
	return ev
}

// ---- singly linked list ----

type simpleM struct {
	p    Params
	l    map[int]*simplelist.List[int]
	node []*simplelist.Node[int]
	id   map[*simplelist.Node[int]]int
	next int
}

func (m *simpleM) Reset() {
	m.l, m.node, m.id, m.next = map[int]*simplelist.List[int]{}, nil, map[*simplelist.Node[int]]int{}, 0
}
func (m *simpleM) Start(*rand.Rand) []Op { return []Op{{"New", 1, nil}, {"New", 2, nil}} }
func (m *simpleM) Final() []Op           { return []Op{{"Obs", 1, nil}, {"Obs", 2, nil}} }
func (m *simpleM) val() int              { m.next++; return elem(m.next, 100) }
func (m *simpleM) ident(n *simplelist.Node[int]) int {
	if n == nil {
		return 0
	}
	if i, ok := m.id[n]; ok {
		return i
	}
	m.node = append(m.node, n)
	m.id[n] = len(m.node)
	return len(m.node)
}
func (m *simpleM) ids(o int) []int {
	f := []int{}
	for n := m.l[o].FrontNode(); n != nil && len(f) < maxWalk; n = n.Next() {
		f = append(f, m.ident(n))
	}
	return f
}
func (m *simpleM) Alpha() []func() Op {
	op := func(name string, o int, a ...int) func() Op { return func() Op { return Op{name, o, a} } }
	al := []func() Op{op("PushBack", 1, m.val()), op("PushFront", 1, m.val()), op("PushBack", 2, m.val())}
	ids := m.ids(1)
	for i := range ids {
		if i > 0 && i != len(ids)-1 && i != len(ids)/2 {
			continue
		}
		p := 0
		if i > 0 {
			p = ids[i-1]
		}
		al = append(al, op("Remove", 1, p, ids[i]), op("MoveToFront", 1, p, ids[i]), op("MoveToBack", 1, p, ids[i]), op("InsertAfter", 1, m.val(), ids[i]))
	}
	return al
}
func (m *simpleM) Gen(r *rand.Rand) Op {
	o := 1 + r.Intn(2)
	if m.p.Profile == "long" && r.Intn(3) == 0 && m.l[o].Len() < 150 {
		return Op{[]string{"PushBack", "PushFront"}[r.Intn(2)], o, []int{m.val()}}
	}
	ids := m.ids(o)
	if k := r.Intn(8); m.p.Profile == "huge" && k < 5 {
		if k < 3 && len(ids) < 2500 {
			c := 300 + r.Intn(1500)
			m.next += c
			return Op{[]string{"PushBackN", "PushFrontN"}[k%2], o, []int{elem(m.next, 100) - c + 1, c}}
		}
		if k < 4 {
			return Op{"Walk", o, []int{r.Intn(3) * r.Intn(len(ids)+1)}}
		}
		return Op{"Obs", o, nil}
	}
	if k := len(ids); k > 0 && r.Intn(3) > 0 {
		i := r.Intn(k)
		switch r.Intn(4) {
		case 0:
			i = 0
		case 1:
			i = k - 1
		}
		p := 0
		if i > 0 {
			p = ids[i-1]
		}
		any := 1 + r.Intn(len(m.node))
		switch r.Intn(11) {
		case 0, 1:
			return Op{"Remove", o, []int{p, ids[i]}}
		case 2, 3:
			return Op{"MoveToFront", o, []int{p, ids[i]}}
		case 4:
			return Op{"MoveToFront", o, []int{ids[r.Intn(k)], ids[i]}}
		case 5, 6:
			return Op{"MoveToBack", o, []int{p, ids[i]}}
		case 7:
			return Op{"InsertAfter", o, []int{m.val(), ids[i]}}
		case 8:
			return Op{"InsertAfter", o, []int{m.val(), any}}
		case 9:
			return Op{"SetVal", o, []int{any, m.val()}}
		default:
			if r.Intn(2) == 0 {
				return Op{"NodeNext", o, []int{ids[i]}}
			}
			return Op{"GetVal", o, []int{any}}
		}
	}
	switch r.Intn(12) {
	case 0, 1, 2:
		return Op{"PushBack", o, []int{m.val()}}
	case 3, 4, 5:
		return Op{"PushFront", o, []int{m.val()}}
	case 6:
		return Op{[]string{"FrontNode", "BackNode"}[r.Intn(2)], o, nil}
	case 7:
		return Op{"Walk", o, []int{r.Intn(5)}}
	case 8:
		return Op{[]string{"Remove", "MoveToFront", "MoveToBack"}[r.Intn(3)], o, []int{0, 0}}
	default:
		return Op{"Obs", o, nil}
	}
}
func (m *simpleM) nodeR(n *simplelist.Node[int]) []int {
	if n == nil {
		return rNotFound
	}
	return rVal(m.ident(n))
}
func (m *simpleM) Do(op Op) (ev Ev) {
	l, a := m.l[op.O], op.A
	nd := func(i int) *simplelist.Node[int] {
		if a[i] == 0 {
			return nil
		}
		return m.node[a[i]-1]
	}
	switch op.Name {
	case "New":
		m.l[op.O] = simplelist.New[int]()
		l = m.l[op.O]
		ev.R = rOK
	case "PushBack":
		ev.R = do(func() { l.PushBack(a[0]) })
	case "PushBackN":
		ev.R = do(func() {
			for i := 0; i < a[1]; i++ {
				l.PushBack(a[0] + i)
			}
		})
	case "PushFrontN":
		ev.R = do(func() {
			for i := a[1] - 1; i >= 0; i-- {
				l.PushFront(a[0] + i)
			}
		})
	case "PushFront":
		ev.R = do(func() { l.PushFront(a[0]) })
	case "FrontNode":
		ev.R = try(func() []int { return m.nodeR(l.FrontNode()) })
	case "BackNode":
		ev.R = try(func() []int { return m.nodeR(l.BackNode()) })
	case "InsertAfter":
		ev.R = try(func() []int { return m.nodeR(l.InsertAfter(a[0], nd(1))) })
	case "Remove":
		ev.R = try(func() []int { return rVal(l.Remove(nd(0), nd(1))) })
	case "MoveToFront":
		ev.R = do(func() { l.MoveToFront(nd(0), nd(1)) })
	case "MoveToBack":
		ev.R = do(func() { l.MoveToBack(nd(0), nd(1)) })
	case "GetVal":
		ev.R = try(func() []int {
			it := simplelist.NewIterator(nd(0))
			if it.Value() != nd(0).Value {
				return rVal(-998)
			}
			return rVal(it.Value())
		})
	case "SetVal":
		ev.R = do(func() {
			if a[1]%2 == 0 {
				nd(0).Value = a[1]
			} else {
				simplelist.NewIterator(nd(0)).SetValue(a[1])
			}
		})
	case "NodeNext":
		ev.R = try(func() []int { return m.nodeR(nd(0).Next()) })
	case "Walk":
		ev.R = try(func() []int {
			s := []int{}
			l.Traversal(func(v int) bool { s = append(s, v); return len(s) != a[0] && len(s) < 2*l.Len()+20 })
			return rSeq(s)
		})
	case "Obs":
		ev.R = try(func() []int { ev.S = l.String(); return []int{l.Len()} })
	default:
		fatal("simplelist op", op.Name)
	}
	c, d := []any{}, []any{}
	for o := 1; o <= 2; o++ {
		x := m.l[o]
		if x == nil {
			continue
		}
		f, v := m.ids(o), []int{}
		for it := simplelist.NewIterator(x.FrontNode()); it.IsValid() && len(v) < maxWalk; it.Next() {
			v = append(v, it.Value())
		}
		c, d = append(c, []any{o, f}), append(d, []any{o, v})
	}
	ev.C, ev.D = c, d
	return ev
}

// ---- queue, stack, priority queue ----

// sliceContainer is a caller-supplied container.
type sliceContainer struct{ s []int }

func (c *sliceContainer) PushBack(v int)  { c.s = append(c.s, v) }
func (c *sliceContainer) PushFront(v int) { c.s = append([]int{v}, c.s...) }
func (c *sliceContainer) Front() int      { return c.s[0] }
func (c *sliceContainer) Back() int       { return c.s[len(c.s)-1] }
func (c *sliceContainer) PopFront() int   { v := c.s[0]; c.s = c.s[1:]; return v }
func (c *sliceContainer) PopBack() int    { v := c.s[len(c.s)-1]; c.s = c.s[:len(c.s)-1]; return v }
func (c *sliceContainer) Empty() bool     { return len(c.s) == 0 }
func (c *sliceContainer) Size() int       { return len(c.s) }
func (c *sliceContainer) String() string  { return fmt.Sprint(c.s) }
func (c *sliceContainer) Clear()          { c.s = nil }

type adaptM struct {
	p    Params // Comp-specific profile: queue, stack, pq, each optionally with suffix "-long"
	what string
	q    map[int]*queue.Queue[int]
	s    map[int]*stack.Stack[int]
	pq   map[int]*priorityqueue.PriorityQueue[int]
	c    map[int]*sliceContainer
	next int
	grow bool

	calls int
	look  bool
}

func (m *adaptM) Reset() {
	m.calls, m.look = 0, false
	m.q, m.s, m.pq = map[int]*queue.Queue[int]{}, map[int]*stack.Stack[int]{}, map[int]*priorityqueue.PriorityQueue[int]{}
	m.c, m.next = map[int]*sliceContainer{}, 0
}
func (m *adaptM) kinds() []int {
	if m.what == "pq" {
		return []int{0, 1, 2, 10, 11, 12}
	}
	return []int{0, 1, 2, 10, 11, 12}
}
func (m *adaptM) Start(r *rand.Rand) []Op {
	if r == nil {
		return []Op{{"New", 1, []int{0}}, {"New", 2, []int{11}}}
	}
	k := m.kinds()
	return []Op{{"New", 1, []int{k[r.Intn(len(k))]}}, {"New", 2, []int{k[r.Intn(len(k))]}}}
}
func (m *adaptM) Final() []Op {
	f := []Op{{"Obs", 1, nil}, {"Obs", 2, nil}}
	if m.p.Profile == "huge" || m.p.Profile == "large" {
		p := strings.ToUpper(m.what[:1]) + "PopN"
		return append(f, Op{p, 1, []int{m.size(1)}}, Op{p, 2, []int{m.size(2)}}, f[0], f[1])
	}
	if m.what == "pq" {
		f = append(f, Op{"PDrain", 1, nil}, Op{"PDrain", 2, nil})
	}
	return f
}
func (m *adaptM) val(r *rand.Rand) int {
	m.next++
	if m.what != "pq" {
		return elem(m.next, 0)
	}
	p := m.next * 7 % 5
	if r != nil {
		p = r.Intn(2 + 3*r.Intn(4))
	}
	return p*1000 + m.next
}
func (m *adaptM) size(o int) int {
	switch m.what {
	case "queue":
		return m.q[o].Size()
	case "stack":
		return m.s[o].Size()
	}
	return m.pq[o].Size()
}
func (m *adaptM) pops() []string {
	switch m.what {
	case "queue":
		return []string{"QPop", "QFront", "QBack"}
	case "stack":
		return []string{"SPop", "STop"}
	}
	return []string{"PPop", "PTop"}
}
func (m *adaptM) Alpha() []func() Op {
	op := func(name string, o int, a ...int) func() Op { return func() Op { return Op{name, o, a} } }
	al := []func() Op{}
	if m.what == "pq" {
		m.next++
		for p := 0; p < 3; p++ {
			al = append(al, op("Push", 1, p*1000+m.next))
		}
		al = append(al, op("Push", 2, m.next%3*1000+m.next))
	} else {
		al = append(al, op("Push", 1, m.val(nil)), op("Push", 2, m.val(nil)))
	}
	al = append(al, op(m.pops()[0], 1), op(m.pops()[0], 2), op("Clear", 1))
	return al
}

// genHuge: tens of thousands of entries, and as many calls on a few of them
func (m *adaptM) genHuge(r *rand.Rand) Op {
	m.calls++
	o, n := 1, m.size(1)
	if m.what == "pq" && m.calls%2 == 0 {
		o, n = 2, m.size(2)
	}
	many := func(c int) []int {
		v := m.next + 1
		m.next += c
		return []int{v, c}
	}
	p := strings.ToUpper(m.what[:1])
	switch {
	case m.calls < 3 && o == 1:
		return Op{"PushN", o, many(66000 + r.Intn(5000))}
	case n < 4 && o == 2:
		return Op{"Push", o, []int{m.val(r)}}
	case o == 2: // many equal ones come and go
		x := r.Intn(6)*1000 + 900
		return Op{"PTurn", o, []int{x, 50 + r.Intn(50), 1000 + r.Intn(5000) + 70000*b2i(m.calls == 10)}}
	}
	if m.look && o == 1 {
		m.look = false
		return Op{"Obs", o, nil}
	}
	switch k := r.Intn(8); {
	case k < 2 && m.what != "pq":
		return Op{p + "Turn", o, many(1 + r.Intn(66000))}
	case k < 5:
		if n > 1000 {
			left := r.Intn(n / 2)
			if r.Intn(2) == 0 {
				left = r.Intn(minInt(n/2, 12000))
			}
			m.look = left < 12000
			return Op{p + "PopN", o, []int{n - 1 - left}}
		}
		return Op{"PushN", o, many(66000 + r.Intn(5000))}
	case k < 6:
		return Op{m.pops()[0], o, nil}
	case k < 7:
		return Op{m.pops()[len(m.pops())-1], o, nil}
	}
	return Op{"Obs", o, nil}
}
func (m *adaptM) Gen(r *rand.Rand) Op {
	if m.p.Profile == "huge" {
		return m.genHuge(r)
	}
	o := 1 + r.Intn(2)
	n := m.size(o)
	lim := 24
	if m.p.Profile == "large" {
		lim = 5000
		if n < 1000 && r.Intn(2) == 0 {
			c := 300 + r.Intn(3000)
			if r.Intn(2) == 0 { // about to begin another level, or just after
				if x := 512<<r.Intn(3) - 8 + r.Intn(12) - n; x > 0 {
					c = x
				}
			}
			a := []int{}
			for i := 0; i < c; i++ {
				m.next++
				a = append(a, r.Intn(2000)*1000+m.next%1000)
			}
			return Op{"PushL", o, a}
		}
		if r.Intn(6) == 0 {
			return Op{"PPopN", o, []int{r.Intn(n + 1)}}
		}
		if r.Intn(3) == 0 {
			m.next++
			return Op{"Push", o, []int{r.Intn(2000)*1000 + m.next%1000}}
		}
	}
	if m.p.Profile == "long" {
		lim = 300
		o = 1
		n = m.size(1)
	}
	if n > lim {
		m.grow = false
	} else if n == 0 {
		m.grow = true
	}
	push := 3
	if m.grow {
		push = 8
	}
	switch k := r.Intn(16); {
	case k < push:
		return Op{"Push", o, []int{m.val(r)}}
	case k < 12:
		return Op{m.pops()[0], o, nil}
	case k < 14:
		p := m.pops()
		return Op{p[1+r.Intn(len(p)-1)], o, nil}
	case k < 15 && (m.p.Profile != "long" || r.Intn(20) == 0):
		if r.Intn(3) == 0 {
			ks := m.kinds()
			return Op{"New", o, []int{ks[r.Intn(len(ks))]}}
		}
		return Op{"Clear", o, nil}
	}
	return Op{"Obs", o, nil}
}

func pqCmp(kind int) func(a, b int) int {
	key := func(x int) int {
		switch kind % 10 {
		case 1:
			return -(x / 1000)
		case 2:
			return x / 1000 % 3
		}
		return x / 1000
	}
	return func(a, b int) int {
		switch ka, kb := key(a), key(b); {
		case ka < kb:
			return -1
		case ka > kb:
			return 1
		}
		return 0
	}
}

func (m *adaptM) push(o, x int) {
	switch m.what {
	case "queue":
		m.q[o].Push(x)
	case "stack":
		m.s[o].Push(x)
	case "pq":
		m.pq[o].Push(x)
	}
}
func (m *adaptM) pop(o int) int {
	switch m.what {
	case "queue":
		return m.q[o].Pop()
	case "stack":
		return m.s[o].Pop()
	}
	return m.pq[o].Pop()
}

func (m *adaptM) Do(op Op) (ev Ev) {
	a, o := op.A, op.O
	q, s, pq := m.q[o], m.s[o], m.pq[o]
	switch op.Name {
	case "New":
		delete(m.c, o)
		ev.R = do(func() {
			switch m.what {
			case "queue":
				opts := []queue.Option[int]{}
				if a[0]%10 == 1 {
					opts = append(opts, QueueList)
				}
				if a[0]%10 == 2 {
					m.c[o] = &sliceContainer{}
					opts = append(opts, queue.WithContainer[int](m.c[o]))
				}
				if a[0] >= 10 {
					opts = append(opts, QueueSafe)
				}
				m.q[o] = queue.New(opts...)
			case "stack":
				opts := []stack.Option[int]{}
				if a[0]%10 == 1 {
					opts = append(opts, StackList)
				}
				if a[0]%10 == 2 {
					m.c[o] = &sliceContainer{}
					opts = append(opts, stack.WithContainer[int](m.c[o]))
				}
				if a[0] >= 10 {
					opts = append(opts, StackSafe)
				}
				m.s[o] = stack.New(opts...)
			case "pq":
				if a[0] >= 10 {
					m.pq[o] = priorityqueue.New(pqCmp(a[0]), PQSafe)
				} else {
					m.pq[o] = priorityqueue.New(pqCmp(a[0]))
				}
			}
		})
	case "Push":
		ev.R = do(func() { m.push(o, a[0]) })
	case "PushL":
		ev.R = do(func() {
			for _, x := range a {
				m.push(o, x)
			}
		})
	case "Clear":
		ev.R = do(func() {
			switch m.what {
			case "queue":
				q.Clear()
			case "stack":
				s.Clear()
			case "pq":
				pq.Clear()
			}
		})
	case "PushN":
		ev.R = do(func() {
			for i := 0; i < a[1]; i++ {
				m.push(o, a[0]+i)
			}
		})
	case "QPopN", "SPopN", "PPopN":
		ev.R = try(func() []int {
			out := []int{}
			for i := 0; i < a[0]; i++ {
				out = append(out, m.pop(o))
			}
			ev.B = runs(out)
			return rOK
		})
	case "QTurn", "STurn", "PTurn":
		ev.R = try(func() []int {
			out := []int{}
			n, d := a[len(a)-1], 1<<30
			if op.Name == "PTurn" {
				d = a[1]
			}
			for i := 0; i < n; i++ {
				m.push(o, a[0]+i%d)
				out = append(out, m.pop(o))
			}
			ev.B = runs(out)
			return rOK
		})
	case "QPop":
		ev.R = try(func() []int { return rVal(q.Pop()) })
	case "QFront":
		ev.R = try(func() []int { return rVal(q.Front()) })
	case "QBack":
		ev.R = try(func() []int { return rVal(q.Back()) })
	case "SPop":
		ev.R = try(func() []int { return rVal(s.Pop()) })
	case "STop":
		ev.R = try(func() []int { return rVal(s.Top()) })
	case "PPop":
		ev.R = try(func() []int { return rVal(pq.Pop()) })
	case "PTop":
		ev.R = try(func() []int { return rVal(pq.Top()) })
	case "PDrain":
		ev.R = try(func() []int {
			out := []int{}
			for n := pq.Size(); !pq.Empty() && len(out) < 2*n+20; {
				out = append(out, pq.Pop())
			}
			return rSeq(out)
		})
	case "Obs":
		ev.R = try(func() []int {
			switch m.what {
			case "queue":
				return []int{q.Size(), b2i(q.Empty())}
			case "stack":
				return []int{s.Size(), b2i(s.Empty())}
			}
			return []int{pq.Size(), b2i(pq.Empty())}
		})
	default:
		fatal("adaptor op", op.Name)
	}
	n := m.size(o)
	ev.C = n
	if m.what != "pq" && n < 30 {
		if m.what == "queue" {
			ev.S = m.q[o].String()
		} else {
			ev.S = m.s[o].String()
		}
		if c := m.c[o]; c != nil {
			ev.F = append([]int{}, c.s...)
		}
	}
	if m.what != "pq" && n >= 300 && n < 12000 && op.Name == "Obs" { // (its cost grows with the square)
		s := ""
		if m.what == "queue" {
			s = m.q[o].String()
		} else {
			s = m.s[o].String()
		}
		x := ParseInts(s)
		if fmt.Sprint(x) != s {
			x = append(x, -998)
		}
		ev.T = runs(x)
	}
	return ev
}

// ---- heap functions ----

type userHeap struct {
	s    []int
	less int
}

func (h *userHeap) Len() int           { return len(h.s) }
func (h *userHeap) Less(i, j int) bool { h.less++; return h.s[i]/1000 < h.s[j]/1000 }
func (h *userHeap) Swap(i, j int)      { h.s[i], h.s[j] = h.s[j], h.s[i] }
func (h *userHeap) Push(x int)         { h.s = append(h.s, x) }
func (h *userHeap) Pop() int           { x := h.s[len(h.s)-1]; h.s = h.s[:len(h.s)-1]; return x }

type heapM struct {
	p     Params
	h     map[int]*userHeap
	next  int
	dirty bool
}

func (m *heapM) Reset()                      { m.h, m.next, m.dirty = map[int]*userHeap{}, 0, false }
func (m *heapM) Start(r *rand.Rand) []Op     { return []Op{{"New", 1, []int{0}}} }
func (m *heapM) Final() []Op                 { return nil }
func (m *heapM) val(r *rand.Rand, k int) int { m.next++; return r.Intn(k)*1000 + m.next%1000 }
func (m *heapM) Alpha() []func() Op {
	op := func(name string, o int, a ...int) func() Op { return func() Op { return Op{name, o, a} } }
	m.next++
	n := len(m.h[1].s)
	al := []func() Op{}
	for p := 0; p < 4; p++ {
		al = append(al, op("Push", 1, p*1000+m.next))
	}
	if n > 0 {
		al = append(al, op("Pop", 1), op("Remove", 1, n/2), op("Remove", 1, n-1), op("Fix", 1, n/2, 3000+m.next), op("Fix", 1, n/2, m.next))
	}
	return al
}
func (m *heapM) Gen(r *rand.Rand) Op {
	n := len(m.h[1].s)
	lim, keys := 20, 3+r.Intn(10)
	size := r.Intn(lim + 1)
	if m.p.Profile == "big" {
		lim, keys = 260, 1000
		size = r.Intn(lim + 1)
	}
	if m.p.Profile == "huge" {
		lim, keys = 5000, 200000
		size = 300 + r.Intn(4000)
		if r.Intn(2) == 0 { // about to begin another level, or just after
			size = 512<<r.Intn(4) - 8 + r.Intn(12)
		}
	}
	if r.Intn(40) == 0 || m.p.Profile != "" && n == 0 {
		s := []int{}
		for i := size; i > 0; i-- {
			s = append(s, m.val(r, keys))
		}
		m.dirty = true
		return Op{"New", 1, s}
	}
	if m.dirty {
		m.dirty = false
		return Op{"HInit", 1, nil}
	}
	if n == 0 {
		return Op{"Push", 1, []int{m.val(r, keys)}}
	}
	if m.p.Profile == "huge" && r.Intn(4) > 0 { // many calls
		if n < lim && r.Intn(2) == 0 {
			s := []int{}
			for i := 1 + r.Intn(60); i > 0; i-- {
				s = append(s, m.val(r, keys))
			}
			return Op{"PushL", 1, s}
		}
		return Op{"PopN", 1, []int{1 + r.Intn(minInt(n, 60))}}
	}
	switch k := r.Intn(12); {
	case k < 5 && n < lim:
		return Op{"Push", 1, []int{m.val(r, keys)}}
	case k < 8:
		return Op{"Pop", 1, nil}
	case k < 10:
		return Op{"Remove", 1, []int{r.Intn(n)}}
	}
	return Op{"Fix", 1, []int{r.Intn(n), m.val(r, keys)}}
}
func (m *heapM) Do(op Op) (ev Ev) {
	a := op.A
	h := m.h[op.O]
	if h != nil {
		h.less = 0
	}
	switch op.Name {
	case "New":
		h = &userHeap{s: append([]int{}, a...)}
		if len(a) == 1 && a[0] == 0 {
			h.s = []int{}
		}
		m.h[op.O] = h
		ev.R = rOK
	case "HInit":
		ev.R = do(func() { heap.Init[int](h) })
	case "Push":
		ev.R = do(func() { heap.Push[int](h, a[0]) })
	case "PushL":
		ev.R = do(func() {
			for _, x := range a {
				heap.Push[int](h, x)
			}
		})
	case "PopN":
		ev.R = try(func() []int {
			s := []int{}
			for i := 0; i < a[0]; i++ {
				s = append(s, heap.Pop[int](h))
			}
			return rSeq(s)
		})
	case "Pop":
		ev.R = try(func() []int { return rVal(heap.Pop[int](h)) })
	case "Remove":
		ev.R = try(func() []int { return rVal(heap.Remove[int](h, a[0])) })
	case "Fix":
		h.s[a[0]] = a[1]
		ev.R = do(func() { heap.Fix[int](h, a[0]) })
	}
	ev.C = append([]int{}, h.s...)
	ev.D = h.less
	return ev
}
