package main

import (
	. "verif/harness/things"

	"math/rand"
)

// ---- independence of instances; failing calls ----

type frameM struct {
	p    Params
	t    map[int]*Thing
	h    map[int]*Hook
	kind string
	n    int
	next int

	third int // the kind of the third object
}

func (m *frameM) Reset() { m.t, m.h, m.next = map[int]*Thing{}, map[int]*Hook{}, 0 }
func (m *frameM) Start(r *rand.Rand) []Op {
	k := m.n % (2 * len(ThingKinds))
	m.n++
	m.third = k
	if r.Intn(2) == 0 { // often one of another kind
		m.third = r.Intn(2 * len(ThingKinds))
	}
	return []Op{{"New", 1, []int{k}}, {"New", 2, []int{k}}, {"New", 3, []int{m.third}}}
}
func (m *frameM) Final() []Op        { return []Op{{"Read", 1, []int{0}}, {"Read", 2, []int{0}}} }
func (m *frameM) Alpha() []func() Op { return nil }
func (m *frameM) Gen(r *rand.Rand) Op {
	o := 1 + r.Intn(3)
	mut := 6
	if m.p.Profile == "fail" {
		mut = 3
	}
	x := r.Intn(10)
	switch {
	case x < mut:
		return Op{"Mut", o, []int{r.Intn(1 << 20), r.Intn(60)}}
	case x < 7:
		if m.p.Profile == "fail" {
			return Op{"Bad", o, []int{r.Intn(64)}}
		}
		if r.Intn(3) == 0 {
			k := (m.n - 1) % (2 * len(ThingKinds))
			if o == 3 {
				k = m.third
			}
			return Op{"New", o, []int{k}}
		}
		if r.Intn(2) == 0 { // a call on another object from within one on this
			q := 1 + (o+r.Intn(2))%3
			return Op{"Nest", o, []int{q, r.Intn(1 << 20), r.Intn(60), r.Intn(2), r.Intn(3)}}
		}
		return Op{"Copy", o, []int{1 + r.Intn(3)}}
	case x == 7 && m.p.Profile == "fail":
		return Op{[]string{"PanicVisit", "PanicCmp"}[r.Intn(2)], o, []int{r.Intn(4), r.Intn(60)}}
	}
	return Op{"Read", o, []int{r.Intn(64)}}
}
func (m *frameM) Do(op Op) (ev Ev) {
	a := op.A
	t := m.t[op.O]
	size := func() int { return len(t.Dump()) }
	switch op.Name {
	case "New":
		ev.R = do(func() {
			m.h[op.O] = &Hook{}
			m.t[op.O] = MkThing(ThingKinds[a[0]%len(ThingKinds)], a[0] >= len(ThingKinds), m.h[op.O])
		})
	case "Mut":
		ev.R = do(func() { t.Mut(a[0], a[1]) })
	case "Copy":
		if m.t[a[0]].Cp == nil || a[0] == op.O {
			ev.Op = "Read"
			ev.R = do(func() { t.Read(a[0], size()) })
		} else {
			ev.R = do(func() {
				m.t[op.O] = m.t[a[0]].Cp()
				m.h[op.O] = m.h[a[0]]
			})
		}
	case "Nest":
		n, q, h := 0, m.t[a[0]], m.h[op.O]
		inside := func() {
			if n++; n == a[4]+1 {
				q.Mut(a[1], a[2])
			}
		}
		if n := size(); a[3] == 1 && (t.Ord == 1 || t.Ord == 3) {
			h.F = inside
			ev.R = do(func() { t.Read(a[1], n) })
			h.F = nil
		} else if t.Walk != nil {
			ev.R = do(func() { t.Walk(func(int) bool { inside(); return true }) })
		} else {
			ev.R = rOK
		}
	case "Read":
		ev.R = do(func() { t.Read(a[0], size()) })
	case "Bad": // whether it panics is the business of the component's specification
		n := size()
		do(func() { t.Bad(a[0], n) })
		ev.R = rOK
	case "PanicVisit":
		ev.R = rOK
		if t.Walk != nil {
			n := 0
			do(func() {
				t.Walk(func(int) bool {
					n++
					if n > a[0] {
						panic("visitor")
					}
					return true
				})
			})
		}
	case "PanicCmp": // the comparator gives up during a modification
		ev.Op = "Mut"
		ev.R = rOK
		n := 0
		h := m.h[op.O]
		h.F = func() {
			n++
			if n > a[0] {
				panic("comparator")
			}
		}
		if t.Ord == 1 || t.Ord == 3 {
			do(func() { t.Read(0, a[1]) })
			do(func() { t.Put(a[1]) })
		}
		h.F = nil
	default:
		fatal("frame op", op.Name)
	}
	c := [][]int{}
	for o := 1; o <= 3; o++ {
		if m.t[o] != nil {
			x := m.t[o]
			var d []int
			if r := do(func() { d = x.Dump() }); len(r) == 1 && r[0] == -1 {
				d = []int{-12345, m.next}
				m.next++
			}
			c = append(c, d)
		}
	}
	ev.C = c
	return ev
}

// ---- traversal ----

type walkM struct {
	p Params
	i int
}

func (m *walkM) Reset()                { m.i = 0 }
func (m *walkM) Start(*rand.Rand) []Op { return nil }
func (m *walkM) Final() []Op           { return nil }
func (m *walkM) Alpha() []func() Op {
	al := []func() Op{}
	for k := 0; k < 2*len(WalkKinds); k++ {
		for n := 0; n <= 5; n++ {
			for stop := 0; stop <= n+1; stop++ {
				for _, mod := range []int{11, 2} {
					vals := []int{stop}
					for i := 0; i < n; i++ {
						vals = append(vals, (i*7+3)%mod*10)
					}
					op := Op{"Walk", k, vals}
					al = append(al, func() Op { return op })
				}
			}
		}
	}
	return al
}
func (m *walkM) Gen(r *rand.Rand) Op {
	n := r.Intn(60)
	if r.Intn(10) == 0 {
		n = r.Intn(400)
	}
	if m.p.Profile == "big" {
		n = 300 + r.Intn(1000<<r.Intn(3))
	}
	a := []int{r.Intn(n + 2)}
	if m.p.Profile == "big" {
		a[0] *= r.Intn(2)
	} else if r.Intn(2) == 0 {
		a[0] = 1 + r.Intn(5)
	}
	f := 4 + r.Intn(2)*6
	for _, x := range r.Perm(3 * n)[:n] {
		a = append(a, x*f)
	}
	if r.Intn(3) == 0 { // some several times
		for i := range a[1:] {
			a[1+i] = a[1+i] / 12 * 12
		}
	}
	return Op{"Walk", r.Intn(2 * len(WalkKinds)), a}
}

// Walk: o is the kind of container, a[0] the visit at which to stop (0: never).
func (m *walkM) Do(op Op) (ev Ev) {
	t := MkThing(WalkKinds[op.O%len(WalkKinds)], op.O >= len(WalkKinds), &Hook{})
	vals := op.A[1:]
	for _, x := range vals {
		t.Put(x)
	}
	seen := []int{}
	ev.R = do(func() {
		t.Walk(func(x int) bool {
			seen = append(seen, x)
			return len(seen) != op.A[0] && len(seen) < maxWalk
		})
	})
	ev.F = seen
	// the container still works
	ev.B = t.Dump()
	t.Put(1)
	ev.D = len(t.Dump())
	ev.C = t.Ord
	return ev
}
