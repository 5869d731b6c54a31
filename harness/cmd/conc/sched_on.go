//go:build verifsched

package main

import (
	"encoding/json"
	"math/rand"
	"os"

	"github.com/liyue201/gostl/utils/vsched"
)

func init() { isAbort = vsched.IsAbort }

var coarse bool // as in vsched.Sched
var acqs int    // the most lock operations of one call of the last run

// runOne runs a program under the decisions of choose and returns its history.
func runOne(k *kind, p *Prog, lockEvents bool, u any, choose func(r []int, cur int) int) []ev {
	noteProg(p)
	p.Sched = p.Sched[:0]
	vsched.ResetLocks()
	r := &rec{}
	r.add(ev{Op: "Start", S: k.spec, C: u})
	x := k.mk()
	for _, o := range p.Init {
		r.call(0, x, o)
	}
	hold(x, p)
	c := &vsched.Sched{MaxSteps: 400000, Coarse: coarse}
	p.Coarse = coarse
	c.Choose = func(run []int, cur int) int {
		n := choose(run, cur)
		p.Sched = append(p.Sched, n)
		return n
	}
	if lockEvents {
		c.Log = func(kind string, t, lock int) { r.add(ev{Op: kind, O: t + 1, A: []int{lock}}) }
	}
	var fs []func()
	for i, ops := range p.Threads {
		i, ops := i, ops
		fs = append(fs, func() {
			for _, o := range ops {
				vsched.StartCall()
				r.call(i+1, x, o)
			}
		})
	}
	c.Run(fs)
	acqs = c.Acqs
	switch {
	case c.Deadlock:
		r.add(ev{Op: "Deadlock"})
	case c.Stuck:
		r.add(ev{Op: "NoProgress"})
	case vsched.Held():
		r.add(ev{Op: "LockHeld"})
	default:
		for _, o := range k.fin {
			r.call(0, x, o)
		}
	}
	return r.h
}

type dec struct {
	alts []int
	i    int
}

// explore runs p under every schedule with at most bound preemptions, up to limit.
func explore(k *kind, p *Prog, bound, limit int, lockEvents bool, u any, t *tree) int {
	return exploreBy(p, bound, limit, t, func(choose func(r []int, cur int) int) []ev {
		return runOne(k, p, lockEvents, u, choose)
	})
}

func exploreBy(p *Prog, bound, limit int, t *tree, run func(choose func(r []int, cur int) int) []ev) int {
	var stack []dec
	n := 0
	for n < limit {
		pos, used := 0, 0
		h := run(func(r []int, cur int) int {
			if pos == len(stack) {
				var alts []int
				if cur >= 0 {
					alts = append(alts, cur)
					if used < bound {
						for _, x := range r {
							if x != cur {
								alts = append(alts, x)
							}
						}
					}
				} else {
					alts = append(alts, r...)
				}
				stack = append(stack, dec{alts: alts})
			}
			d := stack[pos]
			pos++
			x := d.alts[d.i]
			if cur >= 0 && x != cur {
				used++
			}
			return x
		})
		n++
		t.add(h, p)
		stack = stack[:pos]
		for len(stack) > 0 && stack[len(stack)-1].i+1 == len(stack[len(stack)-1].alts) {
			stack = stack[:len(stack)-1]
		}
		if len(stack) == 0 {
			break
		}
		stack[len(stack)-1].i++
	}
	return n
}

func schedMode(k *kind, comp string, seed int64, bound, limit, progs int, lockEvents bool, only string, t *tree, sh, of int) int {
	var u any
	if k.univ != nil {
		u = k.univ()
	}
	if only != "" {
		b, err := os.ReadFile(only)
		if err != nil {
			fatal(err)
		}
		var p Prog
		if err := json.Unmarshal(b, &p); err != nil {
			fatal(err)
		}
		s := append([]int{}, p.Sched...)
		i := 0
		coarse = p.Coarse
		t.add(runOne(k, &p, lockEvents, u, func(r []int, cur int) int {
			x := r[0]
			if i < len(s) {
				for _, y := range r {
					if y == s[i] {
						x = y
					}
				}
			}
			i++
			return x
		}), &p)
		return 1
	}
	n := 0
	for i, p := range pairs(k, comp) {
		if i%of == sh {
			n += explore(k, p, bound, limit, lockEvents, u, t)
		}
	}
	coarse = true
	for i, ts := range k.more {
		if i%of == sh {
			n += explore(k, &Prog{Comp: comp, Init: k.inits[i%len(k.inits)], Threads: ts}, bound, limit/30, lockEvents, u, t)
		}
	}
	coarse = false
	n += triples(k, comp, seed, progs, lockEvents, u, t, sh, of)
	n += larges(k, comp, seed, progs/5, lockEvents, u, t, sh, of)
	for i := 0; i < progs; i++ {
		if i%of != sh {
			continue
		}
		r := rand.New(rand.NewSource(seed*1000003 + int64(i)))
		p := randProg(k, comp, r)
		for j := 0; j < 6; j++ {
			den := []int{2, 4, 10, 25}[r.Intn(4)]
			h := runOne(k, p, lockEvents, u, func(run []int, cur int) int {
				if cur >= 0 && r.Intn(den) != 0 {
					return cur
				}
				return run[r.Intn(len(run))]
			})
			n++
			t.add(h, p)
		}
	}
	return n
}

// larges runs a call against two others that may concern both ends of a large
// container, switching mostly where they lock.
func larges(k *kind, comp string, seed int64, progs int, lockEvents bool, u any, t *tree, sh, of int) (n int) {
	if k.large == nil {
		return
	}
	defer func() { coarse = false }()
	n = chunks(k, comp, seed, 600, lockEvents, u, t, sh, of)
	for i := 0; i < progs; i++ {
		if i%of != sh {
			continue
		}
		r := rand.New(rand.NewSource(seed*1000003 + 500000 + int64(i)))
		ts := [][]Op{{k.ops[r.Intn(len(k.ops))]}, {k.ops[r.Intn(len(k.ops))], k.far[r.Intn(len(k.far))]}}
		if r.Intn(2) == 0 {
			ts[1][0], ts[1][1] = ts[1][1], ts[1][0]
		}
		p := &Prog{Comp: comp, Init: k.large, Threads: ts}
		if !admissible(ts, p.Init) {
			continue
		}
		coarse = true
		n += explore(k, p, 2, 25, lockEvents, u, t)
		coarse = false
		for j := 0; j < 3; j++ {
			h := runOne(k, p, lockEvents, u, func(run []int, cur int) int {
				if cur >= 0 && r.Intn(25) != 0 {
					return cur
				}
				return run[r.Intn(len(run))]
			})
			n++
			t.add(h, p)
		}
	}
	return
}

// chunks runs the calls that lock more often the more there is in the container
// against two calls of another thread, one at each end.
func chunks(k *kind, comp string, seed int64, limit int, lockEvents bool, u any, t *tree, sh, of int) (n int) {
	coarse = true
	locks := func(init []Op, o Op) int {
		if ts := [][]Op{{o}, {}}; admissible(ts, init) {
			runOne(k, &Prog{Comp: comp, Init: init, Threads: ts}, false, u, func(r []int, cur int) int { return r[0] })
			return acqs
		}
		return 0
	}
	var ps []*Prog
	for _, a := range k.ops {
		small := 0
		for _, in := range k.inits {
			if l := locks(in, a); l > small {
				small = l
			}
		}
		if locks(k.large, a) <= small {
			continue
		}
		for _, b := range k.near {
			for _, c := range k.far {
				for _, two := range [][]Op{{b, c}, {c, b}} {
					if ts := [][]Op{{a}, two}; admissible(ts, k.large) {
						ps = append(ps, &Prog{Comp: comp, Init: k.large, Threads: ts})
					}
				}
			}
		}
	}
	rand.New(rand.NewSource(seed)).Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
	for i, p := range ps {
		if i%of == sh && i < limit {
			n += explore(k, p, 2, 60, lockEvents, u, t)
		}
	}
	return
}

// triples runs two calls of one thread against a call of another that locks
// more than once, switching between them at these points only but often.
func triples(k *kind, comp string, seed int64, limit int, lockEvents bool, u any, t *tree, sh, of int) int {
	coarse = true
	defer func() { coarse = false }()
	var ps []*Prog
	for _, in := range k.inits {
		for _, a := range k.ops {
			p := &Prog{Comp: comp, Init: in, Threads: [][]Op{{a}, {}}}
			if !admissible(p.Threads, in) {
				continue
			}
			runOne(k, p, false, u, func(r []int, cur int) int { return r[0] })
			if acqs < 2 {
				continue
			}
			for _, b := range k.ops {
				for _, c := range k.ops {
					if ts := [][]Op{{a}, {b, c}}; admissible(ts, in) {
						ps = append(ps, &Prog{Comp: comp, Init: in, Threads: ts})
					}
				}
			}
		}
	}
	rand.New(rand.NewSource(seed)).Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
	n := 0
	for i, p := range ps {
		if i%of == sh && i < limit*3 {
			n += explore(k, p, 3, 60, lockEvents, u, t)
		}
	}
	return n
}

// ---- threads on objects of their own ----

func aloneOne(p *Prog, w [][][]int, choose func(r []int, cur int) int) []ev {
	noteProg(p)
	p.Sched = p.Sched[:0]
	vsched.ResetLocks()
	r := &rec{}
	r.add(aloneStart(p, w))
	c := &vsched.Sched{MaxSteps: 100000}
	c.Choose = func(run []int, cur int) int {
		n := choose(run, cur)
		p.Sched = append(p.Sched, n)
		return n
	}
	var fs []func()
	for i, k := range aloneKinds(p.Comp) {
		i, x := i, own(k)
		for _, o := range aloneInit(p, i) {
			call(x, o)
		}
		fs = append(fs, func() {
			for _, o := range p.Threads[i] {
				r.call(i+1, x, o)
			}
		})
	}
	c.Run(fs)
	switch {
	case c.Deadlock:
		r.add(ev{Op: "Deadlock"})
	case c.Stuck:
		r.add(ev{Op: "NoProgress"})
	}
	return r.h
}

func aloneSched(comp string, seed int64, bound, limit, progs int, only string, t *tree) int {
	if only != "" {
		b, err := os.ReadFile(only)
		if err != nil {
			fatal(err)
		}
		var p Prog
		if err := json.Unmarshal(b, &p); err != nil {
			fatal(err)
		}
		s := append([]int{}, p.Sched...)
		i := 0
		t.add(aloneOne(&p, aloneResults(&p), func(r []int, cur int) int {
			x := r[0]
			if i < len(s) {
				for _, y := range r {
					if y == s[i] {
						x = y
					}
				}
			}
			i++
			return x
		}), &p)
		return 1
	}
	n := 0
	for ci, comp := range aloneComps(comp) {
		r := rand.New(rand.NewSource(seed*1000003 + int64(ci)))
		for i := 0; i < progs; i++ {
			p := aloneProg(comp, r, 10, 2)
			w := aloneResults(p)
			n += exploreBy(p, bound, limit, t, func(choose func(r []int, cur int) int) []ev { return aloneOne(p, w, choose) })
			q := aloneProg(comp, r, 40, 8)
			w = aloneResults(q)
			for j := 0; j < 20; j++ {
				den := []int{2, 4, 10, 25}[r.Intn(4)]
				h := aloneOne(q, w, func(run []int, cur int) int {
					if cur >= 0 && r.Intn(den) != 0 {
						return cur
					}
					return run[r.Intn(len(run))]
				})
				n++
				t.add(h, q)
			}
		}
	}
	return n
}
