package main

import (
	. "verif/harness/things"

	"fmt"
	"math/rand"

	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/vector"
)

func newMachine(comp string, p Params) Machine {
	switch comp {
	case "deque":
		return &dequeM{p: p}
	case "vector":
		return &vectorM{p: p}
	case "array":
		return &arrayM{p: p}
	case "bidlist":
		return &bidM{p: p}
	case "simplelist":
		return &simpleM{p: p}
	case "queue", "stack", "pq":
		return &adaptM{p: p, what: comp}
	case "rbtree", "map", "multimap", "set", "multiset", "skiplist":
		return &orderedM{p: p, what: comp}
	case "hamt":
		return &hamtM{p: p}
	case "heap":
		return &heapM{p: p}
	case "bitmap":
		return &bitmapM{p: p}
	case "bloom":
		if p.Profile == "fixed" {
			return &bloomFixedM{bloomM: bloomM{p: p}}
		}
		return &bloomM{p: p}
	case "ketama":
		return &ketamaM{p: p}
	case "frame":
		return &frameM{p: p}
	case "walk":
		return &walkM{p: p}
	case "algo":
		return &algoM{p: p}
	case "iter":
		return &iterM{p: p}
	case "cmp":
		return &cmpM{p: p}
	case "elem":
		return &elemM{p: p}
	case "hash":
		return &hashM{p: p}
	}
	fatal("unknown component", comp)
	return nil
}

const maxWalk = 20000 // bound on iterator walks over a broken container

type posIter interface {
	IsValid() bool
	Value() int
}

// ---- deque ----

type dequeM struct {
	p    Params
	q    map[int]*deque.Deque[int]
	next int
	n    int
	left int // calls left in this episode
	mode int
	then []Op // calls to make next
}

func (m *dequeM) Reset() { *m = dequeM{p: m.p, q: map[int]*deque.Deque[int]{}} }
func (m *dequeM) Start(r *rand.Rand) []Op {
	return []Op{{"New", 1, nil}, {"New", 2, nil}}
}
func (m *dequeM) val() int { m.next++; return elem(m.next, 0) }
func (m *dequeM) Final() []Op {
	return []Op{{"Obs", 1, nil}, {"Obs", 2, nil}}
}

func (m *dequeM) Alpha() []func() Op {
	q := m.q[1]
	op := func(name string, a ...func() int) func() Op {
		return func() Op {
			args := []int{}
			for _, f := range a {
				args = append(args, f())
			}
			return Op{name, 1, args}
		}
	}
	c := func(x int) func() int { return func() int { return x } }
	n := q.Size()
	return []func() Op{
		op("PushBack", m.val), op("PushFront", m.val), op("PopBack"), op("PopFront"),
		op("Insert", c(n/2), m.val), op("Insert", c(1), m.val), op("EraseAt", c(n/2)), op("EraseAt", c(n-1)),
		op("EraseRange", c(n/3), c(n-n/3)), op("Set", c(n/2), m.val), op("Clear"),
	}
}

func (m *dequeM) Gen(r *rand.Rand) Op {
	if len(m.then) > 0 {
		op := m.then[0]
		m.then = m.then[1:]
		return op
	}
	o := 1 + r.Intn(2)
	q := m.q[o]
	n := q.Size()
	pos := func() int { // mostly in range, biased to the ends and to segment boundaries
		switch r.Intn(8) {
		case 0:
			return -1 - r.Intn(2)
		case 1:
			return n + r.Intn(3)
		case 2:
			return r.Intn(3)
		case 3:
			return n - 1 - r.Intn(3)
		case 4:
			return r.Intn(n/128+1)*128 + r.Intn(5) - 2
		}
		return r.Intn(n + 1)
	}
	if m.big() && n > 128 && r.Intn(16) == 0 { // full segments: the calls at their edges
		m.then = m.edges(r, o, n)
		return m.Gen(r)
	}
	if m.p.Profile == "ring" && r.Intn(3) > 0 {
		return m.ringOp(r, o, n)
	}
	big := m.big()
	if m.p.Profile == "huge" && (n < 3000 || r.Intn(5) == 0) {
		o, n = 1, m.q[1].Size()
		b := 20000 + r.Intn(50000)
		if n == 0 {
			b += 70000
		}
		v := m.next + 1
		if n > 150000 || n > b && r.Intn(3) > 0 {
			left := r.Intn(n)
			if r.Intn(2) == 0 {
				left = r.Intn(minInt(n, 12000))
				m.then = []Op{{"Obs", o, nil}}
			}
			return Op{[]string{"PopBackN", "PopFrontN"}[r.Intn(2)], o, []int{n - left}}
		}
		m.next += b
		return Op{[]string{"PushBackN", "PushFrontN"}[r.Intn(2)], o, []int{v, b}}
	}
	if big && r.Intn(6) == 0 {
		switch k := r.Intn(8); {
		case k < 2 || k < 5 && n < 700:
			b := 1 + r.Intn(200)
			if r.Intn(3) == 0 {
				b = 128
			}
			if n > 1500 {
				b = 1
			}
			v := m.next + 1
			m.next += b
			return Op{[]string{"PushBackN", "PushFrontN"}[r.Intn(2)], o, []int{v, b}}
		case k < 7:
			b := 1 + r.Intn(150)
			if r.Intn(6) == 0 {
				b = n
			}
			if b > n {
				b = n
			}
			return Op{[]string{"PopBackN", "PopFrontN"}[r.Intn(2)], o, []int{b}}
		default:
			i := r.Intn(n + 1)
			j := i + r.Intn(n-i+1)
			return Op{"EraseRange", o, []int{i, j}}
		}
	}
	switch r.Intn(20) {
	case 0, 1:
		return Op{"PushBack", o, []int{m.val()}}
	case 2, 3:
		return Op{"PushFront", o, []int{m.val()}}
	case 4:
		return Op{"PopBack", o, nil}
	case 5:
		return Op{"PopFront", o, nil}
	case 6, 7, 8, 9:
		return Op{"Insert", o, []int{pos(), m.val()}}
	case 10, 11, 12:
		return Op{"EraseAt", o, []int{pos()}}
	case 13:
		i := pos()
		return Op{"EraseRange", o, []int{i, i + r.Intn(6) - 1}}
	case 14, 15:
		return Op{"Set", o, []int{pos(), m.val()}}
	case 16:
		return Op{"At", o, []int{pos()}}
	case 17:
		return Op{[]string{"Front", "Back"}[r.Intn(2)], o, nil}
	case 18:
		if !big && r.Intn(4) == 0 || r.Intn(60) == 0 {
			return Op{"Clear", o, nil}
		}
		return Op{"At", o, []int{pos()}}
	default:
		return Op{"Obs", o, nil}
	}
}

// edges trims the deque to a multiple of a segment's size (the elements of its
// first segment are full when it was only pushed at the back) and works there.
func (m *dequeM) edges(r *rand.Rand, o, n int) []Op {
	ops := []Op{}
	name := []string{"PopBackN", "PopFrontN"}[r.Intn(2)]
	if n%128 > 0 {
		ops = append(ops, Op{name, o, []int{n % 128}})
		n -= n % 128
	}
	if r.Intn(2) == 0 {
		ops = append(ops, Op{"PopBackN", o, []int{n - 128}})
		n = 128
	}
	ops = append(ops, Op{"Obs", o, nil})
	ps := []int{0, 127, 128, n - 1, n - 128, n / 2}
	for i := 0; i < 4; i++ {
		p := ps[r.Intn(len(ps))]
		switch r.Intn(6) {
		case 0, 1, 2:
			ops = append(ops, Op{"Set", o, []int{p, m.val()}})
		case 3:
			ops = append(ops, Op{"At", o, []int{p}}, Op{[]string{"Front", "Back"}[r.Intn(2)], o, nil})
		case 4:
			ops = append(ops, Op{"Insert", o, []int{p, m.val()}})
		default:
			ops = append(ops, Op{"EraseAt", o, []int{p}})
		}
	}
	return append(ops, Op{"Obs", o, nil})
}

// ringOp pushes or pops about a segment's worth, in episodes that grow the
// deque, shrink it, or move it along its ring of segments.
func (m *dequeM) ringOp(r *rand.Rand, o, n int) Op {
	if m.left == 0 {
		m.left = 4 + r.Intn(24)
		m.mode = r.Intn(6)
	}
	m.left--
	b := []int{128, 128, 128, 127, 129, 256, 64, 1 + r.Intn(300)}[r.Intn(8)]
	grow, front := false, false
	switch m.mode {
	case 0, 1: // grow at one end
		grow, front = r.Intn(8) > 0, m.mode == 1
	case 2, 3: // shrink at one end
		grow, front = r.Intn(8) == 0, m.mode == 3
	case 4: // move forward: push at the back, pop at the front
		front = r.Intn(2) == 0
		grow = !front
	case 5:
		front = r.Intn(2) == 0
		grow = front
	}
	if n > 2600 {
		grow = false
	}
	if grow {
		v := m.next + 1
		m.next += b
		return Op{[]string{"PushBackN", "PushFrontN"}[b2i(front)], o, []int{v, b}}
	}
	if b > n {
		b = n
	}
	return Op{[]string{"PopBackN", "PopFrontN"}[b2i(front)], o, []int{b}}
}

func (m *dequeM) Do(op Op) (ev Ev) {
	q := m.q[op.O]
	a := op.A
	switch op.Name {
	case "New":
		m.q[op.O] = deque.New[int]()
		ev.R = rOK
		q = m.q[op.O]
	case "PushBack":
		ev.R = do(func() { q.PushBack(a[0]) })
	case "PushFront":
		ev.R = do(func() { q.PushFront(a[0]) })
	case "PushBackN":
		ev.R = do(func() {
			for i := 0; i < a[1]; i++ {
				q.PushBack(a[0] + i)
			}
		})
	case "PushFrontN":
		ev.R = do(func() {
			for i := 0; i < a[1]; i++ {
				q.PushFront(a[0] + i)
			}
		})
	case "PopBack":
		ev.R = try(func() []int { return rVal(q.PopBack()) })
	case "PopFront":
		ev.R = try(func() []int { return rVal(q.PopFront()) })
	case "PopBackN", "PopFrontN":
		ev.R = try(func() []int {
			s := []int{}
			for i := 0; i < a[0]; i++ {
				if op.Name == "PopBackN" {
					s = append(s, q.PopBack())
				} else {
					s = append(s, q.PopFront())
				}
			}
			return rSeq(s)
		})
	case "Insert":
		ev.R = do(func() { q.Insert(a[0], a[1]) })
	case "InsertN":
		ev.R = do(func() {
			for i := 0; i < a[2]; i++ {
				q.Insert(a[0], a[1]+i)
			}
		})
	case "EraseAtN":
		ev.R = do(func() {
			for i := 0; i < a[1]; i++ {
				q.EraseAt(a[0])
			}
		})
	case "EraseAt":
		ev.R = do(func() { q.EraseAt(a[0]) })
	case "EraseRange":
		ev.R = do(func() { q.EraseRange(a[0], a[1]) })
	case "Clear":
		ev.R = do(func() { q.Clear() })
	case "Set":
		ev.R = try(func() []int {
			if q.Set(a[0], a[1]) != nil {
				return rErr
			}
			return rOK
		})
	case "At":
		ev.R = try(func() []int { return rVal(q.At(a[0])) })
	case "Front":
		ev.R = try(func() []int { return rVal(q.Front()) })
	case "Back":
		ev.R = try(func() []int { return rVal(q.Back()) })
	case "Obs":
		ev.R = try(func() []int {
			f, b := []int{}, []int{}
			for it := q.Begin(); it.IsValid() && len(f) < 2*q.Size()+20; it.Next() {
				f = append(f, it.Value())
			}
			for it := q.Last(); it.IsValid() && len(b) < 2*q.Size()+20; it.Prev() {
				b = append(b, it.Value())
			}
			if m.big() {
				ev.F, ev.B = runs(f), runs(b)
			} else {
				ev.F, ev.B = f, b
			}
			if q.Size() < 40 {
				ev.S = q.String()
			} else if q.Size() < 12000 { // (its cost grows with the square)
				s := q.String()
				x := ParseInts(s)
				if fmt.Sprint(x) != s {
					x = append(x, -998)
				}
				ev.T = runs(x)
			}
			return []int{q.Size(), b2i(q.Empty())}
		})
	default:
		fatal("deque op", op.Name)
	}
	m.n++
	if m.big() {
		ev.D = runs(AtAll(q.Size, q.At))
	} else {
		ev.C = AtAll(q.Size, q.At)
	}
	return ev
}

// runs writes a sequence as stretches <<first, length, step>>, step 1 or -1.
func runs(s []int) []int {
	out := []int{}
	for i := 0; i < len(s); {
		n, step := 1, 1
		if i+1 < len(s) && (s[i+1] == s[i]+1 || s[i+1] == s[i]-1) {
			step = s[i+1] - s[i]
			for i+n < len(s) && s[i+n] == s[i+n-1]+step {
				n++
			}
		}
		out = append(out, s[i], n, step)
		i += n
	}
	return out
}

func (m *dequeM) big() bool {
	return m.p.Profile == "big" || m.p.Profile == "ring" || m.p.Profile == "huge"
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ---- vector ----

type vectorM struct {
	p    Params
	v    map[int]*vector.Vector[int]
	next int
	then []Op // calls to make next
}

func (m *vectorM) Reset() { m.v, m.next, m.then = map[int]*vector.Vector[int]{}, 0, nil }
func (m *vectorM) Start(r *rand.Rand) []Op {
	c := 0
	if r != nil {
		c = r.Intn(5)
	}
	return []Op{{"New", 1, []int{0}}, {"New", 2, []int{c}}, {"NewFrom", 3, []int{2}}}
}
func (m *vectorM) val() int { m.next++; return elem(m.next, 0) }
func (m *vectorM) Final() []Op {
	return []Op{{"Obs", 1, nil}, {"Obs", 2, nil}, {"Obs", 3, nil}}
}

func (m *vectorM) Alpha() []func() Op {
	n := m.v[1].Size()
	op := func(name string, o int, a ...int) func() Op { return func() Op { return Op{name, o, a} } }
	return []func() Op{
		op("PushBack", 1, m.next+1), op("PopBack", 1), op("InsertAt", 1, n/2, m.next+1), op("InsertAt", 1, 0, m.next+1),
		op("EraseAt", 1, n/2), op("EraseIndexRange", 1, n/3, n-n/3), op("SetAt", 1, n-1, m.next+1), op("Resize", 1, n/2),
		op("Clear", 1), op("NewFrom", 2, 1), op("NewFrom", 1, 2), op("Reserve", 1, n+2), op("ShrinkToFit", 1), op("PushBack", 2, m.next+1),
	}
}

func (m *vectorM) Gen(r *rand.Rand) Op {
	if len(m.then) > 0 {
		op := m.then[0]
		m.then = m.then[1:]
		return op
	}
	o := 1 + r.Intn(3)
	n := m.v[o].Size()
	pos := func() int {
		switch r.Intn(6) {
		case 0:
			return -1 - r.Intn(2)
		case 1:
			return n + r.Intn(3)
		}
		return r.Intn(n + 1)
	}
	wide := 6 // how far erased ranges reach
	if m.p.Profile == "big" {
		if n < 1500 && r.Intn(5) == 0 {
			k := 1 + r.Intn(300)
			if r.Intn(4) == 0 {
				k = 1000 + r.Intn(2000)
			}
			m.next += k
			return Op{"PushMany", o, []int{m.next - k + 1, k}}
		}
		if r.Intn(3) == 0 {
			wide += n / 2
		}
		if r.Intn(12) == 0 { // little to spare
			m.then = []Op{{"Reserve", o, []int{n + []int{r.Intn(20), r.Intn(2*n + 1)}[r.Intn(2)]}}, {"ShrinkToFit", o, nil}}
			if r.Intn(3) == 0 && n > 0 {
				m.then = []Op{{"PopBack", o, nil}, {"ShrinkToFit", o, nil}}
			} else if r.Intn(2) == 0 && n > 0 { // a copy of a vector that is full
				p := o%3 + 1
				m.then = []Op{{"NewFrom", p, []int{o}}, {"SetAt", p, []int{r.Intn(n), m.val()}}, {"SetAt", o, []int{r.Intn(n), m.val()}},
					{"PushBack", p, []int{m.val()}}, {"Obs", o, nil}, {"Obs", p, nil}}
			}
			return Op{"ShrinkToFit", o, nil}
		}
	}
	switch r.Intn(26) {
	case 0, 1, 2, 3, 4:
		return Op{"PushBack", o, []int{m.val()}}
	case 5, 6:
		return Op{"PopBack", o, nil}
	case 7, 8, 9:
		return Op{"InsertAt", o, []int{pos(), m.val()}}
	case 10:
		return Op{"Insert", o, []int{pos(), m.val()}}
	case 11, 12:
		return Op{"EraseAt", o, []int{pos()}}
	case 13:
		return Op{"Erase", o, []int{pos()}}
	case 14:
		i := pos()
		return Op{"EraseIndexRange", o, []int{i, i + r.Intn(wide) - 1}}
	case 15:
		i := pos()
		return Op{"EraseRange", o, []int{i, i + r.Intn(wide) - 1}}
	case 16:
		return Op{"SetAt", o, []int{pos(), m.val()}}
	case 17:
		return Op{"At", o, []int{pos()}}
	case 18:
		return Op{[]string{"Front", "Back"}[r.Intn(2)], o, nil}
	case 19:
		return Op{"Resize", o, []int{pos()}}
	case 20:
		if r.Intn(2) == 0 {
			m.then = []Op{{"ShrinkToFit", o, nil}}
			return Op{"Reserve", o, []int{n + r.Intn(20)}}
		}
		return Op{"Reserve", o, []int{r.Intn(2*n + 4)}}
	case 21:
		return Op{"ShrinkToFit", o, nil}
	case 22:
		return Op{"NewFrom", o, []int{1 + r.Intn(3)}}
	case 23:
		if r.Intn(3) == 0 {
			return Op{"Clear", o, nil}
		}
		return Op{"New", o, []int{r.Intn(6)}}
	default:
		return Op{"Obs", o, nil}
	}
}

func (m *vectorM) Do(op Op) (ev Ev) {
	v := m.v[op.O]
	a := op.A
	switch op.Name {
	case "PushBack", "InsertAt", "Insert", "SetAt":
		if x := a[len(a)-1]; x > m.next {
			m.next = x
		}
	}
	switch op.Name {
	case "New":
		if a[0] == 0 {
			v = vector.New[int]()
		} else {
			v = vector.New[int](vector.WithCapacity(a[0]))
		}
		m.v[op.O] = v
		ev.R = rOK
	case "NewFrom":
		ev.R = do(func() { v = vector.NewFromVector(m.v[a[0]]) })
		m.v[op.O] = v
	case "PushBack":
		ev.R = do(func() { v.PushBack(a[0]) })
	case "PushMany":
		ev.R = do(func() {
			for i := 0; i < a[1]; i++ {
				v.PushBack(a[0] + i)
			}
		})
	case "PopBack":
		ev.R = try(func() []int { return rVal(v.PopBack()) })
	case "InsertAt":
		ev.R = do(func() { v.InsertAt(a[0], a[1]) })
	case "Insert":
		ev.R = try(func() []int { return rVal(v.Insert(v.IterAt(a[0]), a[1]).Position()) })
	case "EraseAt":
		ev.R = do(func() { v.EraseAt(a[0]) })
	case "Erase":
		ev.R = try(func() []int { return rVal(v.Erase(v.IterAt(a[0])).Position()) })
	case "EraseIndexRange":
		ev.R = do(func() { v.EraseIndexRange(a[0], a[1]) })
	case "EraseRange":
		ev.R = try(func() []int { return rVal(v.EraseRange(v.IterAt(a[0]), v.IterAt(a[1])).Position()) })
	case "SetAt":
		ev.R = do(func() { v.SetAt(a[0], a[1]) })
	case "At":
		ev.R = try(func() []int { return rVal(v.At(a[0])) })
	case "Front":
		ev.R = try(func() []int { return rVal(v.Front()) })
	case "Back":
		ev.R = try(func() []int { return rVal(v.Back()) })
	case "Resize":
		ev.R = do(func() { v.Resize(a[0]) })
	case "Reserve":
		ev.R = do(func() { v.Reserve(a[0]) })
	case "ShrinkToFit":
		ev.R = do(func() { v.ShrinkToFit() })
	case "Clear":
		ev.R = do(func() { v.Clear() })
	case "Obs":
		ev.R = try(func() []int {
			f, b := []int{}, []int{}
			for it := v.Begin(); !it.Equal(v.End()) && len(f) < 2*v.Size()+20; it.Next() {
				f = append(f, it.Value())
			}
			for it := v.Last(); it.IsValid() && len(b) < 2*v.Size()+20; it.Prev() {
				b = append(b, it.Value())
			}
			ev.F, ev.B, ev.S = f, b, v.String()
			if fmt.Sprint(v.Data()) != fmt.Sprint(f) {
				ev.F = append([]int{}, v.Data()...)
			}
			return []int{v.Size(), b2i(v.Empty())}
		})
	default:
		fatal("vector op", op.Name)
	}
	ev.C = AtAll(v.Size, v.At)
	ev.D = v.Capacity()
	return ev
}
