package main

import (
	. "verif/harness/things"

	"fmt"
	"math/rand"
	"strconv"
	"strings"
)

// ---- elements of any type ----

// elemM makes the same calls on a container of integers and on one of elements
// of another type.
type elemM struct {
	p    Params
	t, u *Thing
	show func(x int) string // an element, formatted
	n    int
}

type elemType struct {
	name string
	mk   func(kind string, safe bool, h *Hook) *Thing
	show func(x int) string
}

func elemOf[T any](name string, e func(int) T, d func(T) int) elemType {
	return elemType{name, func(kind string, safe bool, h *Hook) *Thing { return Make(kind, safe, h, e, d) },
		func(x int) string { return fmt.Sprintf("%v", e(x)) }}
}

const notElem = -999999 // what an element that was never put in stands for

type eName int // has a string form of its own

func (n eName) String() string { return "<" + strconv.Itoa(int(n)) + ">" }

type eBig struct { // cannot be compared, not even as an interface value
	pad [5]int
	s   []int
}

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		return notElem
	}
	return n
}

func elemTypes() []elemType {
	ptr := map[int]*int{}
	return []elemType{
		elemOf("string", func(x int) string { // of no length, for one of them
			if x == 0 {
				return ""
			}
			return strconv.Itoa(x)
		}, func(s string) int {
			if s == "" {
				return 0
			}
			return atoi(s)
		}),
		elemOf("float64", func(x int) float64 { return float64(x) + 0.25 }, func(f float64) int { return int((f - 0.25)) }),
		elemOf("Stringer", func(x int) eName { return eName(x + 1) }, func(n eName) int { return int(n) - 1 }),
		elemOf("struct", func(x int) eBig { return eBig{[5]int{x, x, x, x, x}, []int{x}} }, func(b eBig) int {
			if len(b.s) != 1 || b.s[0] != b.pad[4] {
				return notElem
			}
			return b.s[0]
		}),
		elemOf("pointer", func(x int) *int {
			if ptr[x] == nil {
				ptr[x] = new(int)
				*ptr[x] = x
			}
			return ptr[x]
		}, func(p *int) int {
			if p == nil || ptr[*p] != p {
				return notElem
			}
			return *p
		}),
		elemOf("any", func(x int) any {
			switch {
			case x == 0:
				return nil
			case x%3 == 0:
				return strconv.Itoa(x)
			case x%3 == 1:
				return []int{x}
			}
			return x
		}, func(a any) int {
			switch y := a.(type) {
			case nil:
				return 0
			case string:
				return atoi(y)
			case []int:
				return y[0]
			case int:
				return y
			}
			return notElem
		}),
		elemOf("int16", func(x int) int16 { return int16(x) }, func(x int16) int { return int(x) }),
		elemOf("slice", func(x int) []int { // as if there were none, for some
			if x == 7 {
				return nil
			}
			return []int{x, x}
		}, func(s []int) int {
			switch len(s) {
			case 0:
				return 7
			case 2:
				return s[0]
			}
			return notElem
		}),
	}
}

func (m *elemM) kinds() []string {
	if m.p.Profile == "" {
		return PlainKinds
	}
	return strings.Split(m.p.Profile, ",")
}
func (m *elemM) Reset() { m.t, m.u = nil, nil }
func (m *elemM) Start(r *rand.Rand) []Op {
	n := m.n
	m.n++
	ks, ts := len(m.kinds()), len(elemTypes())
	return []Op{{"New", 1, []int{n % ks, n / ks % ts, r.Intn(2)}}}
}
func (m *elemM) Final() []Op        { return []Op{{"Read", 1, []int{0}}} }
func (m *elemM) Alpha() []func() Op { return nil }
func (m *elemM) Gen(r *rand.Rand) Op {
	switch x := r.Intn(10); {
	case x < 8:
		return Op{"Mut", 1, []int{r.Intn(1 << 20), r.Intn(60)}}
	case x == 8:
		return Op{"Bad", 1, []int{r.Intn(64)}}
	}
	return Op{"Read", 1, []int{r.Intn(64)}}
}
func (m *elemM) Do(op Op) (ev Ev) {
	a := op.A
	both := func(f func(t *Thing)) []int { // the calls must agree on whether they panic
		r := do(func() { f(m.t) })
		if s := do(func() { f(m.u) }); fmt.Sprint(s) != fmt.Sprint(r) {
			return append(r, s...)
		}
		return rOK
	}
	switch op.Name {
	case "New":
		ev.R = do(func() {
			ty := elemTypes()[a[1]]
			k := m.kinds()[a[0]]
			m.t, m.u, m.show = MkThing(k, a[2] == 1, &Hook{}), ty.mk(k, a[2] == 1, &Hook{}), ty.show
		})
	case "Mut":
		ev.R = both(func(t *Thing) { t.Mut(a[0], a[1]) })
	case "Bad":
		n := len(m.t.Dump())
		ev.R = both(func(t *Thing) { t.Bad(a[0], n) })
	case "Read":
		n := len(m.t.Dump())
		ev.R = both(func(t *Thing) { t.Read(a[0], n) })
	default:
		fatal("elem op", op.Name)
	}
	i := 0
	if len(a) > 0 {
		i = a[len(a)-1] % 12
	}
	look := func(t *Thing) (c, o []int) {
		c, o = []int{}, []int{}
		do(func() { c = append(c, t.Dump()...) })
		do(func() { o = append(append(o, t.Got), t.Obs(i)...) })
		return
	}
	c, f := look(m.t)
	d, g := look(m.u)
	str := true
	if m.u.Str != nil {
		s := []string{}
		for _, x := range d {
			s = append(s, m.show(x))
		}
		do(func() { str = m.u.Str() == "["+strings.Join(s, " ")+"]" })
	}
	ev.C, ev.F, ev.D, ev.B, ev.S = c, f, d, g, b2i(str)
	return ev
}
