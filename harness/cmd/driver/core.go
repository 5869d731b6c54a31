// Package main is the conformance driver: it exercises the public API of the
// real library and records what it did and saw as trees of events, which TLC
// checks against the TLA+ specifications in /verif/specs.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Ev is one recorded call. r encodes the result as a tuple of integers.
type Ev struct {
	K  []int  `json:"k"`            // successor events in the tree
	Op string `json:"op"`           // specification action
	O  int    `json:"o"`            // object
	A  []int  `json:"a"`            // arguments
	R  []int  `json:"r"`            // result
	C  any    `json:"c,omitempty"`  // content of object o after the call
	F  any    `json:"f,omitempty"`  // further observations, per component
	B  any    `json:"b,omitempty"`  //
	S  any    `json:"s,omitempty"`  //
	D  any    `json:"d,omitempty"`  //
	T  any    `json:"t,omitempty"`  //
	C2 any    `json:"c2,omitempty"` // content of a second object (SwapArray, copies)
}

// Op is a call to make.
type Op struct {
	Name string
	O    int
	A    []int
}

// result encodings, mirrored in Results.tla
var (
	rOK       = []int{0}
	rPanic    = []int{-1}
	rNotFound = []int{-2}
	rErr      = []int{-3}
)

func rVal(x int) []int { return []int{1, x} }
func rBool(b bool) []int {
	if b {
		return []int{2, 1}
	}
	return []int{2, 0}
}
func rSeq(s []int) []int { return append([]int{3}, s...) }

// try runs f and maps a panic to rPanic.
func try(f func() []int) (r []int) {
	defer func() {
		if x := recover(); x != nil {
			r = rPanic
		}
	}()
	return f()
}

func do(f func()) []int { return try(func() []int { f(); return rOK }) }

// elem is the n-th element put in: mostly n+base, sometimes zero or negative.
func elem(n, base int) int {
	switch {
	case n%9 == 8:
		return 0
	case n%13 == 12:
		return -n
	}
	return n + base
}

// Machine drives one component.
type Machine interface {
	Reset()                  // drop every object
	Gen(r *rand.Rand) Op     // a random next call
	Alpha() []func() Op      // the calls of exhaustive exploration
	Do(op Op) Ev             // make the call and record it
	Final() []Op             // observations made at the end of each history
	Start(r *rand.Rand) []Op // calls every history starts with
}

type Params struct {
	Profile string
	Seed    int64
	Traces  int // random histories
	Len     int // calls per random history
	Depth   int // exhaustive depth
}

type Tracer struct {
	nodes []Ev
	hist  []Op
	ops   map[string]int
}

func NewTracer() *Tracer {
	return &Tracer{nodes: []Ev{{K: []int{}, Op: "root", A: []int{}, R: []int{}}}, ops: map[string]int{}}
}

// add appends ev as a child of parent (ids are 1-based) and returns its id.
func (t *Tracer) add(parent int, ev Ev) int {
	ev.K = []int{}
	if ev.A == nil {
		ev.A = []int{}
	}
	if ev.R == nil {
		ev.R = []int{}
	}
	t.nodes = append(t.nodes, ev)
	id := len(t.nodes)
	t.nodes[parent-1].K = append(t.nodes[parent-1].K, id)
	t.ops[ev.Op]++
	return id
}

func (t *Tracer) Write(path string) error {
	f, err := os.Create(path)
	if err != nil {
		return err
	}
	w := bufio.NewWriterSize(f, 1<<20)
	for i := range t.nodes {
		b, err := json.Marshal(&t.nodes[i])
		if err != nil {
			return err
		}
		w.Write(clamp(b))
		w.WriteByte('\n')
	}
	if err := w.Flush(); err != nil {
		return err
	}
	return f.Close()
}

// clamp replaces integers TLC cannot represent (garbage a broken container may
// report) by the largest one it can.
func clamp(b []byte) []byte {
	run := 0
	for i := 0; i <= len(b); i++ {
		if i < len(b) && b[i] >= '0' && b[i] <= '9' {
			run++
			continue
		}
		if run > 9 && string(b[i-run:i]) > "2147483646" || run > 10 {
			return append(append(append([]byte{}, b[:i-run]...), "2147483646"...), clamp(b[i:])...)
		}
		run = 0
	}
	return b
}

// ---- watchdog: a call that does not return is recorded as a hang ----

var (
	opStart  atomic.Int64 // unix nanos of the running call, 0 if none
	curHist  []Op
	syncLog  *os.File // set when each call must be logged before it runs
	hangFile string
	hangSecs = 25.0
)

func watchdog() {
	for {
		time.Sleep(500 * time.Millisecond)
		s := opStart.Load()
		if s != 0 && float64(time.Now().UnixNano()-s)/1e9 > hangSecs {
			writeHist("hang")
			os.Exit(3)
		}
	}
}

func writeHist(kind string) {
	b, _ := json.Marshal(map[string]any{"kind": kind, "history": curHist})
	if hangFile != "" {
		os.WriteFile(hangFile, b, 0o644)
	}
}

// doOp makes the call; a panic outside the call itself, while observing the
// container, becomes an event no specification allows.
func doOp(m Machine, op Op) (ev Ev) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(fatalError); ok {
				panic(x)
			}
			ev = Ev{Op: "Broken", O: op.O, A: op.A, S: op.Name + ": " + fmt.Sprint(x)}
		}
	}()
	return m.Do(op)
}

// genOp chooses the next call; a container that cannot even be looked at
// shows in the call made instead.
func genOp(m Machine, r *rand.Rand) (op Op) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(fatalError); ok {
				panic(x)
			}
			op = Op{Name: "Broken"}
		}
	}()
	return m.Gen(r)
}

type fatalError string

func runOp(m Machine, op Op) Ev {
	curHist = append(curHist, op)
	if syncLog != nil {
		b, _ := json.Marshal(curHist)
		syncLog.Truncate(0)
		syncLog.WriteAt(b, 0)
	}
	opStart.Store(time.Now().UnixNano())
	covReset()
	ev := Ev{Op: "Broken"}
	if op.Name != "Broken" {
		ev = doOp(m, op)
	}
	opStart.Store(0)
	if ev.Op == "" {
		ev.Op = op.Name
	}
	if ev.O == 0 {
		ev.O = op.O
	}
	if ev.A == nil {
		ev.A = op.A
	}
	covNote(&ev)
	return ev
}

// RandomHistories records p.Traces independent histories.
func RandomHistories(m Machine, t *Tracer, p Params) int {
	n := 0
	for i := 0; i < p.Traces; i++ {
		r := rand.New(rand.NewSource(p.Seed*1000003 + int64(i)))
		m.Reset()
		curHist = curHist[:0]
		featReset()
		at := 1
		for _, op := range m.Start(r) {
			at = t.add(at, runOp(m, op))
		}
		for j := 0; j < p.Len; j++ {
			at = t.add(at, runOp(m, genOp(m, r)))
		}
		for _, op := range m.Final() {
			at = t.add(at, runOp(m, op))
		}
		n++
	}
	return n
}

// Exhaustive records every history over m.Alpha() up to depth as one tree.
func Exhaustive(m Machine, t *Tracer, depth int) int {
	leaves := 0
	var path []int // choices
	var rec func(node int)
	replay := func() []func() Op {
		m.Reset()
		curHist = curHist[:0]
		for _, op := range m.Start(nil) {
			runOp(m, op)
		}
		for _, c := range path {
			runOp(m, m.Alpha()[c]())
		}
		return m.Alpha()
	}
	rec = func(node int) {
		if len(path) == depth {
			leaves++
			replay()
			for _, op := range m.Final() {
				node = t.add(node, runOp(m, op))
			}
			return
		}
		n := len(m.Alpha())
		for c := 0; c < n; c++ {
			al := replay()
			if c >= len(al) {
				break
			}
			op := al[c]()
			id := t.add(node, runOp(m, op))
			path = append(path, c)
			rec(id)
			path = path[:len(path)-1]
		}
	}
	m.Reset()
	curHist = curHist[:0]
	at := 1
	for _, op := range m.Start(nil) {
		at = t.add(at, runOp(m, op))
	}
	rec(at)
	return leaves
}

// treeNode is a call of a tree printed by a design model.
type treeNode struct {
	op   Op
	kids []int
}

// ReadTree reads lines "parent op object args..."; parents are 1-based lines.
func ReadTree(path string) []treeNode {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal(err)
	}
	ns := []treeNode{{}}
	for _, line := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		f := strings.Fields(line)
		nums := []int{}
		for i, x := range f {
			if i == 1 {
				continue
			}
			n, err := strconv.Atoi(x)
			if err != nil {
				fatal(err)
			}
			nums = append(nums, n)
		}
		ns = append(ns, treeNode{op: Op{f[1], nums[1], nums[2:]}})
		ns[nums[0]].kids = append(ns[nums[0]].kids, len(ns)-1)
	}
	return ns
}

// FollowTree makes the calls of the tree, every path from a fresh start.
func FollowTree(m Machine, t *Tracer, ns []treeNode) int {
	leaves := 0
	var path []int
	ids := map[int]int{} // call -> event
	var rec func(n int)
	rec = func(n int) {
		if len(ns[n].kids) > 0 {
			for _, k := range ns[n].kids {
				path = append(path, k)
				rec(k)
				path = path[:len(path)-1]
			}
			return
		}
		leaves++
		m.Reset()
		curHist = curHist[:0]
		at, first := 1, ids[0] == 0
		if first {
			ids[0] = at
		}
		for _, op := range m.Start(nil) {
			ev := runOp(m, op)
			if first {
				at = t.add(at, ev)
				ids[0] = at
			}
		}
		at = ids[0]
		for _, k := range path {
			ev := runOp(m, ns[k].op)
			if ids[k] == 0 {
				ids[k] = t.add(at, ev)
			}
			at = ids[k]
		}
	}
	rec(0)
	return leaves
}

func fatal(a ...any) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(4)
}

// A lender hands out copies of what a call is given, each inside a bigger
// backing array: what lies behind its length is the caller's, and so is what
// it holds. kept tells whether all that was lent lately is as it was.
type lender struct{ lent, was [][]byte }

func (l *lender) lend(b []byte) []byte {
	const more = 24
	buf := make([]byte, 0, len(b)+more)
	buf = append(buf, b...)
	all := buf[:cap(buf)]
	for i := len(b); i < len(all); i++ {
		all[i] = 0xa5
	}
	if len(l.lent) >= 128 {
		l.lent, l.was = append([][]byte{}, l.lent[64:]...), append([][]byte{}, l.was[64:]...)
	}
	l.lent, l.was = append(l.lent, all), append(l.was, append([]byte{}, all...))
	return buf
}

func (l *lender) kept() bool {
	for i, b := range l.lent {
		if !bytes.Equal(b, l.was[i]) {
			return false
		}
	}
	return true
}

// rLent is the result of a call after which what was lent is not as it was.
var rLent = []int{-9}
