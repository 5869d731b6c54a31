package main

import (
	"fmt"
	"math/rand"
	"strings"

	"verif/harness/things"
)

// Threads that work on objects of their own: every thread must get what it
// would get alone.  A component "alone:K1,K2" is a thing of kind K1 for thread
// 1 and one of kind K2 for thread 2.

const alonePrefix = "alone:"

func aloneKinds(comp string) []string {
	return strings.Split(strings.TrimPrefix(comp, alonePrefix), ",")
}

// aloneComps lists the pairs of kinds to run for "alone:*" (every kind with
// itself and with the next one), or the one that was asked for.
func aloneComps(comp string) (r []string) {
	if comp != alonePrefix+"*" {
		return []string{comp}
	}
	ks := things.ThingKinds
	for i, k := range ks {
		r = append(r, alonePrefix+k+","+k, alonePrefix+k+","+ks[(i+1)%len(ks)])
	}
	return
}

// own makes calls on one thing.
func own(kind string) target {
	t := things.MkThing(kind, false, &things.Hook{})
	return fn(func(o Op) []int {
		switch o.Name {
		case "Mut":
			t.Mut(o.A[0], o.A[1])
			return rOK
		case "Read":
			t.Read(o.A[0], len(t.Dump()))
			return rOK
		case "Bad":
			t.Bad(o.A[0], len(t.Dump()))
			return rOK
		case "Dump":
			return append([]int{3}, t.Dump()...)
		case "Copy":
			if t.Cp != nil {
				t = t.Cp()
			}
			return rOK
		}
		panic(fatalError(o.Name))
	})
}

// aloneResults is what the calls of a program give when nothing else runs.
func aloneResults(p *Prog) [][][]int {
	w := make([][][]int, len(p.Threads))
	for i, k := range aloneKinds(p.Comp) {
		x := own(k)
		for _, o := range aloneInit(p, i) {
			call(x, o)
		}
		for _, o := range p.Threads[i] {
			w[i] = append(w[i], clampR(call(x, o)))
		}
	}
	return w
}

// aloneInit is the part of the prefix that is about object i.
func aloneInit(p *Prog, i int) (r []Op) {
	for _, o := range p.Init {
		if o.A[0] == i {
			r = append(r, Op{o.Name, o.A[1:]})
		}
	}
	return
}

func aloneStart(p *Prog, w [][][]int) ev {
	return ev{Op: "Start", S: fmt.Sprint(p.Comp, p.Init, p.Threads), C: w}
}

func aloneProg(comp string, r *rand.Rand, init, calls int) *Prog {
	p := &Prog{Comp: comp}
	one := func(last bool) Op {
		switch x := r.Intn(10); {
		case last:
			return op("Dump")
		case x < 7:
			return op("Mut", r.Intn(1<<20), r.Intn(60))
		case x == 7:
			return op("Read", r.Intn(64))
		case x == 8 && r.Intn(2) == 0:
			return op("Bad", r.Intn(64))
		case x == 9 && r.Intn(3) == 0:
			return op("Copy")
		}
		return op("Dump")
	}
	for i := range aloneKinds(comp) {
		for n := r.Intn(init + 1); n > 0; n-- {
			p.Init = append(p.Init, op("Mut", i, r.Intn(1<<20), r.Intn(60)))
		}
		var t []Op
		n := 1 + r.Intn(calls)
		for j := 0; j < n; j++ {
			t = append(t, one(false))
		}
		p.Threads = append(p.Threads, append(t, one(true)))
	}
	return p
}

func aloneNatively(comp string, seed int64, reps int, t *tree, logSize func() int64) int {
	r := rand.New(rand.NewSource(seed))
	at := logSize()
	n := 0
	for i := 0; i < reps; i++ {
		p := aloneProg(comp, r, 40, 30)
		w := aloneResults(p)
		noteProg(p)
		got := make([][][]int, len(p.Threads))
		var fs []func()
		for i, k := range aloneKinds(comp) {
			i, k := i, k
			fs = append(fs, func() {
				x := own(k)
				for _, o := range aloneInit(p, i) {
					call(x, o)
				}
				for _, o := range p.Threads[i] {
					got[i] = append(got[i], clampR(call(x, o)))
				}
			})
		}
		together(fs)
		n++
		h := []ev{aloneStart(p, w)}
		for i := range got {
			for j, x := range got[i] {
				o := p.Threads[i][j]
				h = append(h, ev{Op: "Call", O: i + 1, S: o.Name, A: o.A}, ev{Op: "Ret", O: i + 1, S: o.Name, R: x})
			}
		}
		if s := logSize(); s != at {
			at = s
			h = append(h, ev{Op: "Race"})
		}
		t.add(h, p)
	}
	return n
}
