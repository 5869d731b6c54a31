package main

import (
	"encoding/json"
	"math/bits"
	"math/rand"
	"runtime"
	"sort"
	"strconv"
	"time"
)

// ---- choosing histories: what is new about a call ----

type feature struct {
	op    string
	slot  uint32
	class uint8
	kind  string
}

// touched[op][slot] counts the calls of this name by how they touched a slot
// of the coverage map; kinds counts the calls by the kinds of their outcomes.
var (
	touched = map[string]*[1 << 16][8]uint16{}
	kinds   = map[string]int{}
	news    []feature // what the last call was the first to have

	hunting bool
)

func covNote(ev *Ev) {
	if !hunting {
		return
	}
	news = news[:0]
	s := touched[ev.Op]
	if s == nil {
		s = new([1 << 16][8]uint16)
		touched[ev.Op] = s
	}
	for _, slot := range covTouched() {
		c := uint8(bits.TrailingZeros8(covClass(slot)))
		if s[slot][c] == 0 {
			news = append(news, feature{op: ev.Op, slot: slot, class: c})
		}
		if s[slot][c] < 1<<15 {
			s[slot][c]++
		}
	}
	for _, k := range outcome(ev) {
		k = ev.Op + k
		if kinds[k] == 0 {
			news = append(news, feature{kind: k})
		}
		kinds[k]++
	}
}

func (f feature) count() int {
	if f.kind != "" {
		return kinds[f.kind]
	}
	return int(touched[f.op][f.slot][f.class])
}

// A suspector can tell that an event is worth being looked at; it does not
// decide anything.
type suspector interface{ Suspect(ev *Ev) bool }

// A single's calls have nothing to do with each other.
type single interface{ Single() }

func (m *algoM) Single() {}
func (m *walkM) Single() {}
func (m *cmpM) Single()  {}

type found struct {
	evs  []Ev
	news []feature
	odd  bool
}

// A line tells how a history is made: calls chosen with one source of random
// numbers after the other.
type line []stretch

type stretch struct {
	seed  int64
	calls int
}

// cut is the line of the history's first n calls.
func (l line) cut(n int) (out line) {
	for _, s := range l {
		if n < s.calls {
			return append(out, stretch{s.seed, n})
		}
		out = append(out, s)
		n -= s.calls
	}
	return
}

// Hunt makes more histories than can be judged and returns those in which a
// call goes through the library in a way, or has an outcome of a kind, that no
// call before had. Half of them continue the beginning of such a history.
func Hunt(m Machine, p Params, n, maxEvents int, secs float64) (made int, fs []found) {
	const after = 12 // calls recorded after the new one
	sus, _ := m.(suspector)
	_, alone := m.(single)
	t0 := time.Now()
	held := 0
	var mem runtime.MemStats
	var corpus []line
	var sizes []int
	choose := rand.New(rand.NewSource(p.Seed*7368787 + 1))
	for i := 0; i < n && time.Since(t0).Seconds() < secs && held < 20*maxEvents; i++ {
		if i%16 == 15 {
			if runtime.ReadMemStats(&mem); mem.HeapAlloc > 1<<30 {
				break
			}
		}
		seed := p.Seed*1000003 + 1000000007 + int64(i)
		l := line{{seed, p.Len}}
		if i%2 == 1 && len(corpus) > 0 {
			at := choose.Intn(len(corpus))
			if len(sizes) > 20 && choose.Intn(2) == 0 { // one of the newest
				at = len(corpus) - 1 - choose.Intn(20)
			}
			if sizes[at] < 2*p.Len {
				l = append(append(line{}, corpus[at]...), stretch{seed, 1 + choose.Intn(p.Len)})
			}
		}
		m.Reset()
		curHist = curHist[:0]
		featReset()
		h := found{}
		keep, calls := 0, 0
		run := func(op Op) {
			ev := runOp(m, op)
			if alone {
				h = found{}
			}
			h.evs = append(h.evs, ev)
			odd := ev.Op == "Broken" || sus != nil && sus.Suspect(&ev)
			h.odd = h.odd || odd
			if odd || len(news) > 0 {
				keep = len(h.evs) + after
				h.news = append(h.news, news...)
				if alone {
					held++
					fs = append(fs, h)
					return
				}
				if len(news) > 0 && calls > 0 {
					corpus = append(corpus, l.cut(calls))
					sizes = append(sizes, calls)
				}
			}
		}
		r := rand.New(rand.NewSource(l[0].seed))
		for _, op := range m.Start(r) {
			run(op)
		}
		for k, s := range l {
			if k > 0 {
				r = rand.New(rand.NewSource(s.seed))
			}
			for j := 0; j < s.calls; j++ {
				calls++
				run(genOp(m, r))
			}
		}
		calls = 0
		for _, op := range m.Final() {
			run(op)
		}
		made++
		if keep > 0 && !alone {
			if keep < len(h.evs) {
				h.evs = append([]Ev{}, h.evs[:keep]...)
			}
			held += len(h.evs)
			fs = append(fs, h)
		}
	}
	return
}

// Chosen orders the histories, the rarest first: by turns those with rare
// outcomes and those that go rare ways.
func Chosen(fs []found) []found {
	by := func(outcomes bool) []int {
		rare := make([]int, len(fs))
		ix := make([]int, len(fs))
		for i, h := range fs {
			ix[i] = i
			rare[i] = 1 << 30
			for _, f := range h.news {
				if c := f.count(); (f.kind != "") == outcomes && c < rare[i] {
					rare[i] = c
				}
			}
			if h.odd {
				rare[i] = -1
			}
		}
		sort.SliceStable(ix, func(a, b int) bool { return rare[ix[a]] < rare[ix[b]] })
		return ix
	}
	a, b := by(true), by(false)
	var out []found
	taken := make([]bool, len(fs))
	for i := range a {
		for _, x := range []int{a[i], b[i]} {
			if !taken[x] {
				taken[x] = true
				out = append(out, fs[x])
			}
		}
	}
	return out
}

// WriteFound writes the histories, some to a file, until there are maxEvents,
// and returns the files.
func WriteFound(fs []found, t0 *Tracer, path string, maxEvents int) (files []string, kept, events int) {
	const fileEvents, fileBytes, allBytes = 1500, 1500000, 40000000
	t := NewTracer()
	size, all := 0, 0
	flush := func() {
		if len(t.nodes) > 1 {
			f := path + ".h" + strconv.Itoa(len(files))
			if err := t.Write(f); err != nil {
				fatal(err)
			}
			files = append(files, f)
		}
		for op, n := range t.ops {
			t0.ops[op] += n
		}
		t, size = NewTracer(), 0
	}
	for _, h := range fs {
		n := 0
		for i := range h.evs {
			b, _ := json.Marshal(&h.evs[i])
			n += len(b)
		}
		if all+n > allBytes || events+len(h.evs) > maxEvents {
			continue
		}
		if size+n > fileBytes || len(t.nodes)+len(h.evs) > fileEvents {
			flush()
		}
		size += n
		all += n
		events += len(h.evs)
		kept++
		at := 1
		for _, ev := range h.evs {
			at = t.add(at, ev)
		}
	}
	flush()
	return
}
