// Command conc runs concurrent programs on the goroutine-safe containers and
// records the calls and returns it saw.  With the scheduling overlay it
// decides every interleaving itself (-mode sched); built with the race
// detector it runs pairs of calls in parallel (-mode race).
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Prog is a concurrent program with, after a run, the decisions that were made.
type Prog struct {
	Comp    string `json:"comp"`
	Init    []Op   `json:"init"`
	Threads [][]Op `json:"threads"`
	Sched   []int  `json:"sched"`
	Coarse  bool   `json:"coarse,omitempty"` // decisions at fewer points
}

type ev struct {
	K  []int  `json:"k"`
	Op string `json:"op"`
	O  int    `json:"o"`
	S  string `json:"s,omitempty"`
	A  []int  `json:"a"`
	R  []int  `json:"r"`
	C  any    `json:"c,omitempty"`
	D  any    `json:"d,omitempty"` // the program, for reports; not read by the specification
}

// ---- the tree of histories ----

type tree struct {
	nodes []ev
	index map[string]int
	keep  map[int]*Prog // program that first reached a node
	hists int
}

func newTree() *tree {
	return &tree{nodes: []ev{{K: []int{}, Op: "root", A: []int{}, R: []int{}}}, index: map[string]int{}, keep: map[int]*Prog{}}
}

// add records one history; it returns whether it is new.
func (t *tree) add(h []ev, p *Prog) bool {
	at := 1
	fresh := false
	var c *Prog
	for _, e := range h {
		k := fmt.Sprint(at, "|", e.Op, e.O, e.S, e.A, e.R)
		id, ok := t.index[k]
		if !ok {
			fresh = true
			e.K = []int{}
			if e.A == nil {
				e.A = []int{}
			}
			if e.R == nil {
				e.R = []int{}
			}
			t.nodes = append(t.nodes, e)
			id = len(t.nodes)
			t.index[k] = id
			t.nodes[at-1].K = append(t.nodes[at-1].K, id)
			if c == nil {
				q := *p
				q.Sched = append([]int{}, p.Sched...)
				c = &q
			}
			t.keep[id] = c
		}
		at = id
	}
	if fresh {
		t.hists++
	}
	return fresh
}

func (t *tree) write(path string, lock bool) {
	f, err := os.Create(path)
	if err != nil {
		fatal(err)
	}
	w := bufio.NewWriterSize(f, 1<<20)
	for i := range t.nodes {
		b, _ := json.Marshal(&t.nodes[i])
		w.Write(b)
		w.WriteByte('\n')
	}
	w.Flush()
	f.Close()
	// the programs behind the nodes
	g, err := os.Create(path + ".prog")
	if err != nil {
		fatal(err)
	}
	w = bufio.NewWriterSize(g, 1<<20)
	var last *Prog
	var b []byte
	for i := range t.nodes { // an empty line: as the one before
		b = nil
		if p := t.keep[i+1]; p != last || i == 0 {
			b, _ = json.Marshal(p)
			last = p
		}
		w.Write(b)
		w.WriteByte('\n')
	}
	w.Flush()
	g.Close()
}

// ---- one run ----

type rec struct {
	h []ev
}

func (r *rec) add(e ev) { r.h = append(r.h, e) }

var isAbort func(any) bool = func(any) bool { return false }

func call(t target, o Op) (r []int) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(fatalError); ok || isAbort(x) {
				panic(x)
			}
			r = rPanic
			if s := fmt.Sprint(x); strings.Contains(s, "lock is held") || strings.Contains(s, "unlocked") {
				r = []int{-9}
			}
		}
	}()
	return t.do(o)
}

func clampR(r []int) []int {
	for i, x := range r {
		if x > 1<<30 || x < -1<<30 {
			r[i] = 1 << 30
		}
	}
	return r
}

func (r *rec) call(tid int, t target, o Op) {
	r.add(ev{Op: "Call", O: tid, S: o.Name, A: o.A})
	x := call(t, o)
	r.add(ev{Op: "Ret", O: tid, S: o.Name, R: clampR(append([]int{}, x...))})
}

func fatal(a ...any) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(4)
}

var (
	syncFile string
	curStart atomic.Int64
	curProg  atomic.Pointer[Prog]
)

func noteProg(p *Prog) {
	curProg.Store(p)
	curStart.Store(time.Now().UnixNano())
	if syncFile != "" {
		b, _ := json.Marshal(p)
		os.WriteFile(syncFile, b, 0o644)
	}
}

func watchdog(hang string) {
	for {
		time.Sleep(time.Second)
		s := curStart.Load()
		if s != 0 && time.Now().UnixNano()-s > 40e9 {
			if hang != "" {
				b, _ := json.Marshal(curProg.Load())
				os.WriteFile(hang, b, 0o644)
			}
			buf := make([]byte, 1<<16)
			os.Stderr.Write(buf[:runtime.Stack(buf, true)])
			os.Exit(3)
		}
	}
}

// conflicting tells whether a program uses an iterator that another call may invalidate.
func admissible(ts [][]Op, init []Op) bool {
	hold, bad, uses := false, 0, 0
	for _, o := range init {
		if o.Name == "Insert" && o.A[0] == 2 {
			hold = true
		}
	}
	for _, t := range ts {
		for _, o := range t {
			switch o.Name {
			case "EraseIter":
				uses++
			case "Erase", "Clear":
				bad++
			}
		}
	}
	return uses == 0 || hold && uses == 1 && bad == 0
}

func randProg(k *kind, comp string, r *rand.Rand) *Prog {
	for {
		p := &Prog{Comp: comp, Init: k.inits[r.Intn(len(k.inits))]}
		n := 2 + r.Intn(2)
		for i := 0; i < n; i++ {
			var t []Op
			for j := 1 + r.Intn(4-n+1); j > 0; j-- {
				t = append(t, k.ops[r.Intn(len(k.ops))])
			}
			p.Threads = append(p.Threads, t)
		}
		// make the values written distinguishable
		v := 100
		for _, t := range p.Threads {
			for j, o := range t {
				if len(o.A) > 0 && (o.Name == "Insert" && len(o.A) == 2 && k.spec != "setalg" || o.Name == "Push") {
					v++
					a := append([]int{}, o.A...)
					if k.spec == "pq" {
						a[0] = a[0]/1000*1000 + v
					} else {
						a[len(a)-1] = v
					}
					t[j] = Op{o.Name, a}
				}
			}
		}
		if admissible(p.Threads, p.Init) {
			return p
		}
	}
}

func pairs(k *kind, comp string) (ps []*Prog) {
	for _, in := range k.inits {
		for i, a := range k.ops {
			for j := i; j < len(k.ops); j++ {
				b := k.ops[j]
				ts := [][]Op{{a}, {b}}
				if admissible(ts, in) {
					ps = append(ps, &Prog{Comp: comp, Init: in, Threads: ts})
				}
			}
		}
	}
	return
}

// ---- race mode ----

// together runs the functions in parallel.
func together(fs []func()) {
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for _, f := range fs {
		wg.Add(1)
		go func(f func()) {
			defer wg.Done()
			<-gate
			f()
		}(f)
	}
	close(gate)
	wg.Wait()
}

// raceReports is the size of what the race detector has reported.
func raceReports(logGlob string) func() int64 {
	return func() (n int64) {
		fs, _ := filepath.Glob(logGlob + ".*")
		for _, f := range fs {
			if st, err := os.Stat(f); err == nil {
				n += st.Size()
			}
		}
		return
	}
}

func raceMode(k *kind, comp string, seed int64, reps int, t *tree, logGlob string) int {
	size := raceReports(logGlob)
	at := size()
	n := 0
	r := rand.New(rand.NewSource(seed))
	start := ev{Op: "Start", S: k.spec}
	if k.univ != nil {
		start.C = k.univ()
	}
	run := func(p *Prog, spin int) bool {
		noteProg(p)
		x := k.mk()
		for _, o := range p.Init {
			call(x, o)
		}
		hold(x, p)
		var fs []func()
		for i, th := range p.Threads {
			i, th := i, th
			fs = append(fs, func() {
				for j := 0; j < spin*i; j++ {
					runtime.Gosched()
				}
				for _, o := range th {
					call(x, o)
				}
			})
		}
		together(fs)
		n++
		s := size()
		bad := s != at
		at = s
		return bad
	}
	emit := func(p *Prog, bad bool) {
		names := ""
		for _, th := range p.Threads {
			for _, o := range th {
				names += o.Name + fmt.Sprint(o.A) + " "
			}
			names += "| "
		}
		res := rOK
		if bad {
			res = []int{-7}
		}
		t.add([]ev{start, {Op: "Pair", S: fmt.Sprint(p.Init, names), R: res}}, p)
	}
	for _, p := range pairs(k, comp) {
		bad := false
		for i := 0; i < reps && !bad; i++ {
			q := p
			if i%2 == 1 {
				q = &Prog{Comp: comp, Init: p.Init, Threads: [][]Op{p.Threads[1], p.Threads[0]}}
			}
			if i%4 >= 2 && p.Threads[0][0].Name != "EraseIter" && p.Threads[1][0].Name != "EraseIter" {
				q = &Prog{Comp: comp, Init: q.Init, Threads: [][]Op{append(q.Threads[0], q.Threads[0]...), append(q.Threads[1], q.Threads[1]...)}}
			}
			bad = run(q, i%3)
		}
		emit(p, bad)
	}
	for i := 0; i < reps*20; i++ {
		p := randProg(k, comp, r)
		emit(p, run(p, i%3))
	}
	return n
}

func hold(x target, p *Prog) {
	for _, t := range p.Threads {
		for _, o := range t {
			if o.Name == "EraseIter" {
				x.do(Op{"Hold", o.A})
			}
		}
	}
}

func main() {
	comp := flag.String("comp", "", "component")
	mode := flag.String("mode", "sched", "sched or race")
	seed := flag.Int64("seed", 1, "seed")
	bound := flag.Int("bound", 1, "preemptions in systematic exploration")
	limit := flag.Int("limit", 3000, "schedules per pair")
	progs := flag.Int("progs", 100, "random programs")
	reps := flag.Int("reps", 10, "runs of a pair (race)")
	locks := flag.Bool("locks", false, "record lock events")
	only := flag.String("only", "", "replay the program in this file")
	out := flag.String("out", "", "trace file")
	raceLog := flag.String("racelog", "", "prefix of the race detector's log")
	hang := flag.String("hang", "", "where to leave the program that hangs")
	shard := flag.String("shard", "0/1", "part of the pairs to run")
	flag.StringVar(&syncFile, "sync", "", "note each program here before running it")
	flag.Parse()
	debug.SetMaxStack(64 << 20)
	debug.SetMemoryLimit(4 << 30)
	go watchdog(*hang)
	k := newKind(*comp)
	alone := strings.HasPrefix(*comp, alonePrefix)
	if k == nil && !alone {
		fatal("no component", *comp)
	}
	t := newTree()
	runs := 0
	t0 := time.Now()
	if alone && *mode == "race" {
		for i, c := range aloneComps(*comp) {
			runs += aloneNatively(c, *seed+int64(i), *reps, t, raceReports(*raceLog))
		}
	} else if alone {
		runs = aloneSched(*comp, *seed, *bound, *limit, *progs, *only, t)
	} else if *mode == "race" {
		runs = raceMode(k, *comp, *seed, *reps, t, *raceLog)
	} else {
		var sh, of int
		fmt.Sscanf(*shard, "%d/%d", &sh, &of)
		runs = schedMode(k, *comp, *seed, *bound, *limit, *progs, *locks, *only, t, sh, of)
	}
	curStart.Store(0) // no call is running
	t.write(*out, *locks)
	b, _ := json.Marshal(map[string]any{"runs": runs, "histories": t.hists, "events": len(t.nodes) - 1, "wall": time.Since(t0).Seconds()})
	fmt.Println(string(b))
}
