// Package vsched is a cooperative scheduler.  It is compiled into the library
// through a build overlay: every statement of the library is preceded by
// Yield, and the library's locks are the ones below.  One goroutine runs at a
// time; which one is decided at each Yield.
package vsched

import (
	"fmt"
	"sync"
)

// the rest of package sync, for the code whose import is redirected here
type (
	Locker    = sync.Locker
	WaitGroup = sync.WaitGroup
	Pool      = sync.Pool
	Map       = sync.Map
)

type abort struct{}

// IsAbort tells whether x was thrown to unwind a thread of an abandoned run.
func IsAbort(x any) bool { _, ok := x.(abort); return ok }

type thread struct {
	id   int
	wake chan struct{}
	wait func() bool // nil: runnable
	done bool
	acqs int // lock operations of the current call
}

// Sched runs one set of threads to completion.
type Sched struct {
	// Choose picks one of the runnable threads; cur is the running thread or
	// -1 when it cannot go on.
	Choose   func(runnable []int, cur int) int
	Log      func(kind string, t, lock int) // lock events
	MaxSteps int
	// Coarse leaves only some points at which another thread may be chosen:
	// the start of a call, every lock operation of a call but the first, and
	// where the running thread cannot go on.
	Coarse bool
	Acqs   int // the most lock operations of one call

	Deadlock bool
	Stuck    bool // step limit reached
	steps    int
	threads  []*thread
	cur      int
	aborting bool
	fin      chan struct{}
	buf      []int
}

var s *Sched // the active scheduler

// Run runs the functions as threads 0, 1, ...
func (c *Sched) Run(fs []func()) {
	c.fin = make(chan struct{})
	for i, f := range fs {
		t := &thread{id: i, wake: make(chan struct{})}
		c.threads = append(c.threads, t)
		f := f
		go func() {
			<-t.wake
			defer c.finish(t)
			defer func() {
				if x := recover(); x != nil && !IsAbort(x) {
					panic(x)
				}
			}()
			if c.aborting {
				return
			}
			f()
		}()
	}
	s = c
	c.cur = -1
	n := c.pick()
	c.cur = n
	c.threads[n].wake <- struct{}{}
	<-c.fin
	s = nil
}

func (c *Sched) runnable() []int {
	r := c.buf[:0]
	for _, t := range c.threads {
		if !t.done && (t.wait == nil || t.wait()) {
			r = append(r, t.id)
		}
	}
	c.buf = r
	return r
}

// pick returns the next thread, -1 when none can run.
func (c *Sched) pick() int {
	r := c.runnable()
	if len(r) == 0 {
		return -1
	}
	cur := -1
	for _, x := range r {
		if x == c.cur {
			cur = x
		}
	}
	if len(r) == 1 {
		return r[0]
	}
	return c.Choose(r, cur)
}

func (c *Sched) finish(t *thread) {
	t.done = true
	n := -1
	if c.aborting {
		for _, u := range c.threads {
			if !u.done {
				n = u.id
			}
		}
	} else {
		c.cur = -1
		n = c.pick()
		if n < 0 {
			for _, u := range c.threads {
				if !u.done {
					c.Deadlock = true
					c.aborting = true
					n = u.id
				}
			}
		}
	}
	if n < 0 {
		close(c.fin)
		return
	}
	c.cur = n
	c.threads[n].wake <- struct{}{}
}

func (c *Sched) switchTo(n int) {
	me := c.threads[c.cur]
	if n == me.id {
		return
	}
	c.cur = n
	c.threads[n].wake <- struct{}{}
	<-me.wake
	if c.aborting {
		panic(abort{})
	}
}

// StartCall is the point before a call.
func StartCall() {
	if c := s; c != nil && !c.aborting {
		c.threads[c.cur].acqs = 0
		yield(true)
	}
}

func beforeLock() {
	if c := s; c != nil && !c.aborting {
		t := c.threads[c.cur]
		t.acqs++
		if t.acqs > c.Acqs {
			c.Acqs = t.acqs
		}
		yield(t.acqs > 1)
	}
}

// Yield is a point where another thread may be scheduled.
func Yield() { yield(false) }

func yield(coarse bool) {
	c := s
	if c == nil || c.aborting {
		return
	}
	c.steps++
	if c.steps > c.MaxSteps {
		c.Stuck = true
		c.aborting = true
		panic(abort{})
	}
	if c.Coarse && !coarse {
		return
	}
	c.switchTo(c.pick())
}

// block suspends the running thread until ok() holds.
func block(what string, ok func() bool) {
	c := s
	if c == nil {
		panic("lock is held after all calls have ended: " + what)
	}
	if c.aborting {
		return
	}
	me := c.threads[c.cur]
	me.wait = ok
	for !ok() {
		n := c.pick()
		if n < 0 {
			c.Deadlock = true
			c.aborting = true
			panic(abort{})
		}
		c.switchTo(n)
	}
	me.wait = nil
}

func log(kind string, lock int) {
	if s != nil && s.Log != nil && !s.aborting {
		s.Log(kind, s.cur, lock)
	}
}

// ---- locks ----

// RWMutex follows sync.RWMutex: a waiting writer keeps new readers out, and
// the readers that waited for a writer go before the next writer.
type RWMutex struct {
	id      int
	writer  bool
	readers int
	waiting int     // writers
	queue   []*bool // readers waiting
}

var (
	locks  []*RWMutex // those used since ResetLocks
	misuse bool
)

// ResetLocks forgets the locks used so far.
func ResetLocks() { locks = locks[:0]; misuse = false }

// Held tells whether a lock used since ResetLocks is still held.
func Held() bool {
	for _, l := range locks {
		if l.writer || l.readers > 0 {
			return true
		}
	}
	return false
}

// Used returns the number of locks used since ResetLocks.
func Used() int { return len(locks) }

func (m *RWMutex) reg() {
	for _, l := range locks {
		if l == m {
			return
		}
	}
	locks = append(locks, m)
	m.id = len(locks)
}

func inert() bool { return s != nil && s.aborting }

func (m *RWMutex) Lock() {
	if inert() {
		return
	}
	m.reg()
	beforeLock()
	if m.writer || m.readers > 0 {
		log("WaitW", m.id)
		m.waiting++
		block("Lock", func() bool { return !m.writer && m.readers == 0 })
		m.waiting--
	}
	m.writer = true
	log("AcqW", m.id)
	Yield()
}

func (m *RWMutex) Unlock() {
	if inert() {
		return
	}
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	log("RelW", m.id)
	for _, g := range m.queue {
		*g = true
		m.readers++
	}
	m.queue = nil
	Yield()
}

func (m *RWMutex) RLock() {
	if inert() {
		return
	}
	m.reg()
	beforeLock()
	if m.writer || m.waiting > 0 {
		log("WaitR", m.id)
		if m.writer {
			g := false
			m.queue = append(m.queue, &g)
			block("RLock", func() bool { return g })
		} else {
			// behind a writer that waits for the present readers
			g := false
			m.queue = append(m.queue, &g)
			block("RLock", func() bool { return g })
		}
	} else {
		m.readers++
	}
	log("AcqR", m.id)
	Yield()
}

func (m *RWMutex) RUnlock() {
	if inert() {
		return
	}
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	log("RelR", m.id)
	Yield()
}

func (m *RWMutex) TryLock() bool {
	m.reg()
	beforeLock()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	log("AcqW", m.id)
	return true
}

func (m *RWMutex) TryRLock() bool {
	m.reg()
	beforeLock()
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	log("AcqR", m.id)
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Mutex is the exclusive lock.
type Mutex struct{ m RWMutex }

func (m *Mutex) Lock()         { m.m.Lock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }
func (m *Mutex) TryLock() bool { return m.m.TryLock() }

// Cond on the locks above.
type Cond struct {
	L   Locker
	gen int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	g := c.gen
	c.L.Unlock()
	block("Wait", func() bool { return c.gen != g })
	c.L.Lock()
}
func (c *Cond) Signal()    { c.gen++ }
func (c *Cond) Broadcast() { c.gen++ }

// Once runs a function once; others wait for it under the scheduler.
type Once struct{ running, done bool }

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	if o.running {
		block("Once", func() bool { return o.done })
		return
	}
	o.running = true
	defer func() { o.done = true }()
	f()
}

func OnceFunc(f func()) func() { var o Once; return func() { o.Do(f) } }
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

var _ = fmt.Sprint
