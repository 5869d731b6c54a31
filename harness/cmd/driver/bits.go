package main

import (
	. "verif/harness/things"

	"bytes"
	"crypto/sha512"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"slices"
	"sort"

	"github.com/liyue201/gostl/algorithm/hash"
	"github.com/liyue201/gostl/ds/bitmap"
	bloom "github.com/liyue201/gostl/ds/bloomfilter"
	"github.com/liyue201/gostl/ds/ketama"
)

// ---- bitmap ----

type bitmapM struct {
	p     Params
	b     map[int]*bitmap.Bitmap
	shift uint // wide: position 64*i+j (j<56) stands for bit i<<shift + j
}

func (m *bitmapM) wide() bool { return m.shift > 0 }
func (m *bitmapM) real(p int) uint64 {
	if !m.wide() || p < 0 {
		return uint64(p)
	}
	return uint64(p/64)<<m.shift + uint64(p%64)
}

// seen is the inverse; positions in the gaps, which no call names, become 64*i+63.
func (m *bitmapM) seen(n uint64) int {
	if !m.wide() {
		return int(n)
	}
	lo := n & (1<<m.shift - 1)
	if lo > 63 {
		lo = 63
	}
	return int(n>>m.shift)*64 + int(lo)
}

func (m *bitmapM) Reset() { m.b = map[int]*bitmap.Bitmap{} }
func (m *bitmapM) Start(r *rand.Rand) []Op {
	m.shift = 0
	switch m.p.Profile {
	case "wide":
		m.shift = []uint{8, 12, 16, 20}[r.Intn(4)]
		return []Op{{"Scale", 0, []int{int(m.shift)}}, {"New", 1, []int{m.wideSize(r)}}, {"New", 2, []int{0}}}
	case "huge":
		m.shift = 29
		return []Op{{"Scale", 0, []int{29}}, {"New", 1, []int{64*8 + r.Intn(40)}}, {"Set", 1, []int{3}}, {"Set", 1, []int{64 * 8}}}
	}
	if r == nil {
		return []Op{{"New", 1, []int{12}}}
	}
	return []Op{{"New", 1, []int{r.Intn(40)}}, {"New", 2, []int{r.Intn(9) * 8}}}
}
func (m *bitmapM) Final() []Op { return []Op{{"IsSet", 1, []int{0}}} }
func (m *bitmapM) Alpha() []func() Op {
	op := func(name string, a ...int) func() Op { return func() Op { return Op{name, 1, a} } }
	return []func() Op{op("Set", 0), op("Set", 7), op("Set", 9), op("Unset", 7), op("Unset", 9), op("Resize", 5),
		op("Resize", 17), op("Clear"), op("Set", 16), op("Set", -1)}
}

// wideSize: a few stretches, and within the last one up to 56 bits.
func (m *bitmapM) wideSize(r *rand.Rand) int {
	return r.Intn(8)*64 + []int{0, 0, 7, 8, 9, 55, 56, r.Intn(56)}[r.Intn(8)]
}

func (m *bitmapM) widePos(r *rand.Rand, n int) int {
	p := []int{0, 7, 8, 31, 32, 55, r.Intn(56)}[r.Intn(7)]
	switch r.Intn(6) {
	case 0:
		return n/64*64 + p
	case 1:
		if n%64 > 0 {
			return n - 1 - r.Intn(n%64)
		}
		return n
	}
	return r.Intn(n/64+2)*64 + p
}

func (m *bitmapM) Gen(r *rand.Rand) Op {
	if m.wide() {
		o := 1
		if m.p.Profile == "wide" {
			o += r.Intn(2)
		}
		n := m.seen(m.b[o].Size())
		switch c := r.Intn(20); {
		case c < 9:
			return Op{"Set", o, []int{m.widePos(r, n)}}
		case c < 13:
			return Op{"Unset", o, []int{m.widePos(r, n)}}
		case c < 15:
			return Op{"IsSet", o, []int{m.widePos(r, n)}}
		case c < 18 && m.p.Profile == "wide":
			if r.Intn(2) == 0 && n%64 <= 48 {
				return Op{"Resize", o, []int{n/64*64 + r.Intn(57)}}
			}
			return Op{"Resize", o, []int{m.wideSize(r)}}
		case c < 17:
			return Op{"Resize", o, []int{64*(7+r.Intn(2)) + r.Intn(57)}}
		case c == 18 && r.Intn(6) == 0:
			return Op{"Clear", o, nil}
		}
		return Op{"Set", o, []int{m.widePos(r, n)}}
	}
	o := 1 + r.Intn(2)
	n := int(m.b[o].Size())
	pos := 0
	switch r.Intn(8) {
	case 0:
		pos = n + r.Intn(20)
	case 1:
		pos = -1 - r.Intn(100)
	default:
		if n > 0 {
			pos = r.Intn(n)
		}
	}
	lim := 90
	if m.p.Profile == "long" {
		lim = 1200
	}
	switch r.Intn(20) {
	case 0, 1, 2, 3, 4, 5, 6, 7, 8:
		return Op{"Set", o, []int{pos}}
	case 9, 10, 11, 12:
		return Op{"Unset", o, []int{pos}}
	case 13, 14:
		return Op{"IsSet", o, []int{pos}}
	case 15, 16, 17:
		if r.Intn(3) == 0 {
			return Op{"Resize", o, []int{n + r.Intn(9) - 4 + b2i(n < 5)*4}}
		}
		return Op{"Resize", o, []int{r.Intn(lim)}}
	case 18:
		if r.Intn(3) > 0 {
			return Op{"Set", o, []int{pos}}
		}
		return Op{"Clear", o, nil}
	}
	if r.Intn(2) == 0 {
		return Op{"New", o, []int{r.Intn(lim)}}
	}
	d := []int{}
	for i := r.Intn(6); i > 0; i-- {
		d = append(d, r.Intn(256))
	}
	return Op{"FromData", o, d}
}
func (m *bitmapM) Do(op Op) (ev Ev) {
	a := op.A
	b := m.b[op.O]
	switch op.Name {
	case "Scale":
		m.shift = uint(a[0])
		ev.R = rOK
		return ev
	case "New":
		ev.R = do(func() { m.b[op.O] = bitmap.New(m.real(a[0])) })
	case "FromData":
		d := []byte{}
		for _, x := range a {
			d = append(d, byte(x))
		}
		ev.R = do(func() { m.b[op.O] = bitmap.NewFromData(d) })
	case "Set":
		ev.R = try(func() []int { return rBool(b.Set(m.real(a[0]))) })
	case "Unset":
		ev.R = try(func() []int { return rBool(b.Unset(m.real(a[0]))) })
	case "IsSet":
		ev.R = try(func() []int { return rBool(b.IsSet(m.real(a[0]))) })
	case "Resize":
		ev.R = do(func() { b.Resize(m.real(a[0])) })
	case "Clear":
		ev.R = do(func() { b.Clear() })
	default:
		fatal("bitmap op", op.Name)
	}
	b = m.b[op.O]
	c, d := []int{}, []int{}
	if m.wide() {
		ev.C, ev.B, ev.D = m.look(b)
		return ev
	}
	n := int(b.Size())
	if n > 1<<16 {
		n = 1 << 16
	}
	for i := 0; i < n+9; i++ {
		if x := try(func() []int { return rBool(b.IsSet(uint64(i))) }); len(x) != 2 || x[1] == 1 {
			c = append(c, i)
		}
	}
	for _, x := range b.Data() {
		d = append(d, int(x))
	}
	ev.C, ev.B, ev.D = c, d, n
	return ev
}

// look observes a wide bitmap: the bits near the stretches' beginnings and some
// in the gaps, which must be off; and the data, of each stretch the first 56
// bits and the gap as a whole.
func (m *bitmapM) look(b *bitmap.Bitmap) (c, d []int, n int) {
	c, d = []int{}, []int{}
	n = m.seen(b.Size())
	is := func(p uint64) bool {
		x := try(func() []int { return rBool(b.IsSet(p)) })
		return len(x) != 2 || x[1] == 1
	}
	for i := 0; i <= n/64+2; i++ {
		base := uint64(i) << m.shift
		for j := uint64(0); j < 56; j++ {
			if is(base + j) {
				c = append(c, i*64+int(j))
			}
		}
		for _, j := range []uint64{56, 64, 100, 1<<(m.shift-1) - 1, 1 << (m.shift - 1), 1<<m.shift - 8, 1<<m.shift - 1} {
			if is(base + j) {
				c = append(c, i*64+63)
			}
		}
	}
	data := b.Data()
	step := 1 << (m.shift - 3)
	for at := 0; at < len(data); at += step {
		blk := data[at:]
		if len(blk) > step {
			blk = blk[:step]
		}
		for j := 0; j < len(blk) && j < 7; j++ {
			d = append(d, int(blk[j]))
		}
		if len(blk) > 7 {
			x := byte(0)
			for j, k := 7, 1; j < len(blk); j += k {
				x |= blk[j]
				if j > 1<<16 {
					k = 4093
				}
			}
			d = append(d, int(x))
		}
	}
	return c, d, n
}

// ---- bloom filter ----

func bloomKey(i int) string {
	switch i {
	case 0:
		return ""
	case 1:
		return "\x00"
	case 2:
		return "日本語"
	case 3:
		return string(bytes.Repeat([]byte("x"), 1000))
	}
	return fmt.Sprintf("key-%d", i)
}

// bloomElem is one of many elements of a kind, the kind and the salt given by
// v: words, eight bytes, strings that differ only far behind, in bytes that are
// no text, in capitals, in blanks at the end, or behind a zero byte.
func bloomElem(set string, v, i int) string {
	plain := fmt.Sprintf("%s-%d-%d", set, v, i)
	spell := func(syms ...string) string { // plain, in other signs
		s := ""
		for _, c := range []byte(plain) {
			for d := 1; d < 256; d *= len(syms) {
				s += syms[int(c)/d%len(syms)]
			}
		}
		return s
	}
	switch v % 8 {
	case 1:
		n := uint64(v)<<32 | uint64(i)<<1
		if set == "in" {
			n++
		}
		return string(binary.BigEndian.AppendUint64(nil, n))
	case 2:
		return string(bytes.Repeat([]byte("p"), 50<<(v/8%4))) + plain
	case 3:
		return spell("\x80", "\xbf", "\xc1", "\xff")
	case 4:
		return spell("a", "A")
	case 5:
		return "k" + spell(" ", "\t", "\n", "\r")
	case 6:
		return "k\x00" + plain
	}
	return plain
}

type bloomM struct {
	p     Params
	f     map[int]*bloom.BloomFilter
	mk    map[int][2]int
	known map[[3]int]bool
	pend  []Op
	safe  bool
	small bool
}

func (m *bloomM) opts() []bloom.Option {
	if m.safe {
		return []bloom.Option{BloomSafe}
	}
	return nil
}

func (m *bloomM) Reset() {
	m.f, m.mk, m.known, m.pend = map[int]*bloom.BloomFilter{}, map[int][2]int{}, map[[3]int]bool{}, nil
	m.safe = false
}
func (m *bloomM) learnAll(mm, k int) []Op {
	s := []Op{}
	for _, x := range m.universe() {
		s = append(s, Op{"Learn", 0, []int{mm, k, x}})
		m.known[[3]int{mm, k, x}] = true
	}
	return s
}
func (m *bloomM) universe() []int {
	if m.small {
		return []int{0, 4, 5}
	}
	return []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
}
func (m *bloomM) Start(r *rand.Rand) []Op {
	m.small = r == nil
	if r == nil {
		return append(m.learnAll(13, 3), Op{"New", 1, []int{13, 3}}, Op{"New", 2, []int{13, 3}})
	}
	m.safe = r.Intn(2) == 0
	mm, k := []int{1, 7, 8, 20, 64, 100, 500, 70000}[r.Intn(8)], 1+r.Intn(8)
	if r.Intn(8) == 0 { // large
		mm = 1<<(16+r.Intn(7)) + r.Intn(3)*r.Intn(1000)
	}
	if r.Intn(6) == 0 {
		k = []int{255, 256, 257, 300}[r.Intn(4)]
	}
	return append(m.learnAll(mm, k), Op{"New", 1, []int{mm, k}}, Op{"New", 2, []int{mm, k}})
}
func (m *bloomM) Final() []Op {
	s := []Op{}
	for _, x := range m.universe() {
		s = append(s, Op{"Contains", 1, []int{x}}, Op{"Contains", 2, []int{x}})
	}
	return s
}
func (m *bloomM) Alpha() []func() Op {
	op := func(name string, o int, a ...int) func() Op { return func() Op { return Op{name, o, a} } }
	return []func() Op{op("Add", 1, 0), op("Add", 1, 4), op("Add", 2, 5), op("FromData", 2, 1), op("FromData", 1, 2), op("New", 1, 13, 3)}
}
func (m *bloomM) Gen(r *rand.Rand) Op {
	if len(m.pend) > 0 {
		op := m.pend[0]
		m.pend = m.pend[1:]
		return op
	}
	o := 1 + r.Intn(2)
	x := r.Intn(10)
	mk := m.mk[o]
	switch c := r.Intn(20); {
	case c < 7:
		return Op{"Add", o, []int{x}}
	case c < 14:
		return Op{"Contains", o, []int{x}}
	case c < 16:
		return Op{"FromData", 3 - o, []int{o}}
	case c < 17:
		return Op{"Learn", 0, []int{mk[0], mk[1], x}}
	case c < 18:
		if r.Intn(3) > 0 {
			return Op{"Add", o, []int{x}}
		}
		mm, k := []int{1, 9, 16, 40, 129, 1000}[r.Intn(6)], 1+r.Intn(8)
		m.pend = m.learnAll(mm, k)
		m.pend = append(m.pend, Op{"New", o, []int{mm, k}})
		op := m.pend[0]
		m.pend = m.pend[1:]
		return op
	}
	return Op{"Add", o, []int{x}}
}
func (m *bloomM) Do(op Op) (ev Ev) {
	a := op.A
	f := m.f[op.O]
	ev.F = []int{}
	switch op.Name {
	case "Learn", "Golden":
		ev.R = try(func() []int {
			f := bloom.New(uint64(a[0]), uint64(a[1]), m.opts()...)
			f.Add(bloomKey(a[2]))
			_, _, bits, _ := BloomBits(f)
			ev.F = bits
			return rOK
		})
		return ev
	case "Rate": // false positives of a filter made for n entries and a rate
		ev.R = try(func() []int {
			n, num, den, q := a[0], a[1], a[2], a[3]
			f := bloom.NewWithEstimates(uint64(n), float64(num)/float64(den), m.opts()...)
			for i := 0; i < n; i++ {
				f.Add(bloomElem("in", a[4], i))
			}
			fp, fn := 0, 0
			g := bloom.NewFromData(f.Data(), m.opts()...)
			for i := 0; i < n; i++ {
				if x := bloomElem("in", a[4], i); !f.Contains(x) || !g.Contains(x) {
					fn++
				}
			}
			for i := 0; i < q; i++ {
				if f.Contains(bloomElem("out", a[4], i)) {
					fp++
				}
			}
			mm, k, _, _ := BloomBits(f)
			em, ek := bloom.EstimateParameters(uint64(n), float64(num)/float64(den))
			ev.F = []int{fp, fn, b2i(uint64(mm) == em && uint64(k) == ek), mm, k}
			return rOK
		})
		return ev
	case "Estimate": // the rate that n = a[0] * 10^a[1] entries have with the estimated parameters
		ev.R = try(func() []int {
			n, p := float64(a[0])*math.Pow10(a[1]), float64(a[2])/float64(a[3])/math.Pow10(a[4])
			mm, k := bloom.EstimateParameters(uint64(n), p)
			got := math.Pow(1-math.Exp(-float64(k)*n/float64(mm)), float64(k)) / p
			ev.F = []int{int(math.Min(1e9, 1000*got)), b2i(mm > 0 && k > 0)}
			return rOK
		})
		return ev
	case "New":
		m.mk[op.O] = [2]int{a[0], a[1]}
		ev.R = do(func() { m.f[op.O] = bloom.New(uint64(a[0]), uint64(a[1]), m.opts()...) })
	case "FromData":
		m.mk[op.O] = m.mk[a[0]]
		ev.R = do(func() { m.f[op.O] = bloom.NewFromData(m.f[a[0]].Data(), m.opts()...) })
	case "Add":
		ev.R = do(func() { f.Add(bloomKey(a[0])) })
	case "Contains":
		ev.R = try(func() []int { return rBool(f.Contains(bloomKey(a[0]))) })
	default:
		fatal("bloom op", op.Name)
	}
	mm, k, bits, n := BloomBits(m.f[op.O])
	ev.C, ev.D, ev.B = []int{mm, k}, n, bits
	return ev
}

// bloomFixedM checks fixed cases: golden filters and error rates.
type bloomFixedM struct {
	bloomM
	i int
}

func (m *bloomFixedM) Reset()                  { m.bloomM.Reset(); m.i = 0 }
func (m *bloomFixedM) Start(r *rand.Rand) []Op { m.safe = r != nil && r.Intn(2) == 0; return nil }
func (m *bloomFixedM) Final() []Op             { return nil }
func (m *bloomFixedM) Gen(r *rand.Rand) Op {
	m.i++
	switch {
	case m.i <= 10:
		return Op{"Golden", 0, []int{997, 8, m.i - 1}}
	case m.i <= 14:
		return Op{"Golden", 0, []int{[]int{1, 8, 64, 100}[m.i-11], 3, 5}}
	}
	if r.Intn(2) == 0 {
		return Op{"Estimate", 0, []int{1 + r.Intn(999), r.Intn(11), 1 + r.Intn(49), 50, r.Intn(10)}}
	}
	ns := []int{100, 200, 500, 1000, 3000}
	if r.Intn(40) == 0 {
		ns = []int{10000, 20000, 40000, 65536, 100000}
	}
	den := []int{2, 10, 20, 50, 100, 200}
	return Op{"Rate", 0, []int{ns[r.Intn(5)], 1, den[r.Intn(6)], 4000, r.Intn(1 << 20)}}
}

// ---- consistent hashing ring ----

// name of node i; odd names are such as a user's configuration may hold.
func (m *ketamaM) name(i int) string {
	if m.odd {
		s := []string{"", "a", "aa", "A", " ", "\x00", "a ", "日本", "0", "00", "node-1", ketamaSalt, string(bytes.Repeat([]byte("n"), 300))}
		return s[(i+m.seed)%len(s)]
	}
	return fmt.Sprintf("10.0.0.%d:80", i)
}

const ketamaSalt = "ni9fkh72hgh1g"

func sha64(s string, i int) uint64 {
	h := sha512.Sum512([]byte(s))
	return binary.BigEndian.Uint64(h[8*i:])
}

type ketamaM struct {
	p        Params
	k        map[int]*ketama.Ketama
	in       map[int]map[int]bool
	keys     []string
	replicas int
	safe     bool
	odd      bool
	nodes    int
	seed     int
}

func (m *ketamaM) Reset() {
	m.k, m.in = map[int]*ketama.Ketama{}, map[int]map[int]bool{}
}
func (m *ketamaM) Start(r *rand.Rand) []Op {
	m.replicas, m.safe, m.odd, m.nodes, m.seed = 2, false, false, 4, 0
	if m.p.Profile == "pref" {
		m.replicas = 0
	}
	if r != nil {
		m.replicas = 1 + r.Intn(8)
		if m.p.Profile == "pref" {
			m.replicas = []int{0, 0, 9, 16, 40}[r.Intn(5)] // 0: the default
		}
		m.safe = r.Intn(2) == 0
		m.nodes = 4 + r.Intn(8)
		m.seed = r.Intn(1 << 20)
		if m.p.Profile == "many" {
			m.replicas = 8 - r.Intn(3)
			m.nodes = 30 + r.Intn(200)
		}
	}
	odd := 0
	if r != nil {
		odd = b2i(r.Intn(4) == 0 && m.p.Profile != "many")
	}
	return []Op{{"Univ", 0, []int{m.replicas, m.nodes, m.seed, odd}}, {"New", 1, nil}, {"New", 2, nil}}
}
func (m *ketamaM) Final() []Op { return []Op{{"Empty", 1, nil}, {"Empty", 2, nil}} }
func (m *ketamaM) Alpha() []func() Op {
	op := func(name string, a ...int) func() Op { return func() Op { return Op{name, 1, a} } }
	return []func() Op{op("Add", 1), op("Add", 2, 3), op("Add", 4, 1), op("Remove", 1), op("Remove", 2), op("Remove", 3, 4), op("Empty")}
}
func (m *ketamaM) Gen(r *rand.Rand) Op {
	o := 1 + r.Intn(2)
	some := func() []int {
		s := []int{}
		if m.p.Profile == "many" {
			for _, i := range r.Perm(m.nodes)[:1+r.Intn(1+r.Intn(m.nodes-1))] {
				s = append(s, 1+i)
			}
			return s
		}
		for i := []int{0, 1, 1, 1, 1, 2, 3}[r.Intn(7)]; i > 0; i-- {
			s = append(s, 1+r.Intn(m.nodes))
		}
		return s
	}
	c := r.Intn(9)
	if m.p.Profile == "many" {
		o = 1 + r.Intn(6)/5
		if len(m.in[o]) < m.nodes/3 {
			c = 0
		}
		if m.in[o] == nil {
			m.in[o] = map[int]bool{}
		}
	}
	switch c {
	case 0, 1, 2, 3:
		s := some()
		for _, x := range s {
			if m.in[o] != nil {
				m.in[o][x] = true
			}
		}
		return Op{"Add", o, s}
	case 4, 5, 6, 7:
		s := some()
		for _, x := range s {
			delete(m.in[o], x)
		}
		return Op{"Remove", o, s}
	}
	if r.Intn(4) == 0 {
		delete(m.in, o)
		return Op{"New", o, nil}
	}
	return Op{"Empty", o, nil}
}
func (m *ketamaM) mk() *ketama.Ketama {
	o := []ketama.Option{}
	if m.replicas > 0 {
		o = append(o, ketama.WithReplicas(m.replicas))
	}
	if m.safe {
		o = append(o, RingSafe)
	}
	return ketama.New(o...)
}
func (m *ketamaM) num(node string) int {
	for i := 1; i <= m.nodes; i++ {
		if m.name(i) == node {
			return i
		}
	}
	return -9
}
func (m *ketamaM) get(k *ketama.Ketama, key string) []int {
	return try(func() []int {
		n, ok := k.Get(key)
		if !ok {
			if n != "" {
				return []int{-8}
			}
			return rNotFound
		}
		return rVal(m.num(n))
	})
}
func (m *ketamaM) univ() (pts [][]int, ks []int) {
	// keys: node names (exact hits on the ring), keys before the first and
	// after the last point, and arbitrary ones
	type pt struct {
		h    uint64
		node int
	}
	var all []uint64
	var points [][]uint64
	for i := 1; i <= m.nodes; i++ {
		var ps []uint64
		for j := 0; j < m.replicas && j < 8; j++ {
			ps = append(ps, sha64(ketamaSalt+m.name(i), j))
		}
		points = append(points, ps)
		all = append(all, ps...)
	}
	m.keys = nil
	for i := 1; i <= m.nodes && i <= 4; i++ {
		m.keys = append(m.keys, m.name(i))
	}
	lo, hi := ^uint64(0), uint64(0)
	for _, h := range all {
		if h < lo {
			lo = h
		}
		if h > hi {
			hi = h
		}
	}
	if len(all) > 0 {
		nlo, nhi := 0, 0
		for i := 0; i < 3000 && (nlo < 1 || nhi < 2); i++ {
			s := fmt.Sprintf("edge-%d", i)
			h := sha64(ketamaSalt+s, 0)
			if h < lo && nlo < 1 {
				nlo++
				m.keys = append(m.keys, s)
			}
			if h > hi && nhi < 2 {
				nhi++
				m.keys = append(m.keys, s)
			}
		}
	}
	m.keys = append(m.keys, "")
	for i := 0; i < 5 && !m.odd; i++ { // next to a point, on either side
		n, j := 1+(i+m.seed)%minInt(m.nodes, len(nearKeys)-1), (m.seed>>4+i)%8
		if j >= len(points[n-1]) && len(points[n-1]) > 0 {
			j %= len(points[n-1])
		}
		m.keys = append(m.keys, nearKeys[n][j][0], nearKeys[n][j][1])
	}
	for i := 0; len(m.keys) < 24; i++ {
		m.keys = append(m.keys, fmt.Sprintf("user-%d-%d", m.seed, i))
	}
	var kh []uint64
	for _, k := range m.keys {
		kh = append(kh, sha64(ketamaSalt+k, 0))
	}
	all = append(all, kh...)
	sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
	rank := map[uint64]int{}
	for _, h := range all {
		if _, ok := rank[h]; !ok {
			rank[h] = len(rank) + 1
		}
	}
	for _, ps := range points {
		rs := []int{}
		for _, h := range ps {
			rs = append(rs, rank[h])
		}
		pts = append(pts, rs)
	}
	for _, h := range kh {
		ks = append(ks, rank[h])
	}
	return
}
func (m *ketamaM) Do(op Op) (ev Ev) {
	a := op.A
	k := m.k[op.O]
	switch op.Name {
	case "Univ":
		m.replicas, m.nodes, m.seed, m.odd = a[0], a[1], a[2], len(a) > 3 && a[3] == 1
		pts, ks := m.univ()
		ev.R = rOK
		if m.p.Profile != "pref" {
			ev.F, ev.B = pts, ks
			return ev
		}
		// the order in which nodes take over a key as its owners are removed
		pref := [][]int{}
		for _, key := range m.keys {
			k := m.mk()
			for i := 1; i <= m.nodes; i++ {
				k.Add(m.name(i))
			}
			ord := []int{}
			for i := 1; i <= m.nodes+1; i++ {
				n, ok := k.Get(key)
				if !ok {
					break
				}
				ord = append(ord, m.num(n))
				k.Remove(n)
			}
			pref = append(pref, ord)
		}
		ev.S = pref
		return ev
	case "New":
		ev.R = do(func() { m.k[op.O] = m.mk() })
	case "Add":
		ns := []string{}
		for _, x := range a {
			ns = append(ns, m.name(x))
		}
		ev.R = do(func() { k.Add(ns...) })
	case "Remove":
		ns := []string{}
		for _, x := range a {
			ns = append(ns, m.name(x))
		}
		ev.R = do(func() { k.Remove(ns...) })
	case "Empty":
		ev.R = try(func() []int { return rBool(k.Empty()) })
	default:
		fatal("ketama op", op.Name)
	}
	c := [][]int{}
	for _, key := range m.keys {
		c = append(c, m.get(m.k[op.O], key))
	}
	ev.C = c
	ev.D = b2i(m.k[op.O].Empty())
	return ev
}

// ---- hash expansion ----

type hashM struct {
	p    Params
	ids  map[uint64]int
	kept []hashKept // results of earlier calls: the caller's own
	n    int
	l    lender
}

type hashKept struct {
	ints, wantInts []uint64
	sum, wantSum   []byte
}

func (m *hashM) Reset()                  { *m = hashM{p: m.p, ids: map[uint64]int{}} }
func (m *hashM) Start(r *rand.Rand) []Op { return nil }
func (m *hashM) Final() []Op             { return nil }
func (m *hashM) Alpha() []func() Op {
	al := []func() Op{}
	for _, s := range []int{0, 1, 4} {
		for _, n := range []int{0, 1, 7, 8, 9, 16, 17} {
			op := Op{"Gen", 0, []int{s, n}}
			al = append(al, func() Op { return op })
		}
	}
	return al
}
func (m *hashM) Gen(r *rand.Rand) Op {
	n := r.Intn(8) + 1
	if r.Intn(3) == 0 {
		n = r.Intn(40)
	}
	return Op{"Gen", 0, []int{r.Intn(20), n}}
}
func hashKey(i int) string { // also long ones, differing only at the end
	if i >= 14 { // or behind a zero byte, in bytes that are no text, in capitals, in a blank
		return []string{"key\x00a", "key\x00b", "key\x80", "key\xff", "KEY-4", "key-4 "}[i-14]
	}
	if i >= 8 {
		return string(bytes.Repeat([]byte("y"), []int{127, 128, 1023, 1024, 1025, 5000}[i-8])) + "end"
	}
	return bloomKey(i)
}
func (m *hashM) id(h uint64) int {
	if _, ok := m.ids[h]; !ok {
		m.ids[h] = len(m.ids) + 1
	}
	return m.ids[h]
}
func (m *hashM) Do(op Op) (ev Ev) {
	orig := []byte(hashKey(op.A[0]))
	seed := m.l.lend(orig)
	f, b := []int{}, []int{}
	var ints []uint64
	ev.R = do(func() {
		ints = hash.GenHashInts(seed, op.A[1])
		for _, h := range ints {
			f = append(f, m.id(h))
		}
	})
	want := sha512.Sum512(orig)
	for i := 0; i < 8; i++ {
		b = append(b, m.id(binary.BigEndian.Uint64(want[8*i:])))
	}
	sum := hash.Hash512(m.l.lend(orig))
	same := m.l.kept() && bytes.Equal(sum, want[:])
	for _, k := range m.kept { // no later call touches what an earlier one gave
		same = same && slices.Equal(k.ints, k.wantInts) && bytes.Equal(k.sum, k.wantSum)
	}
	m.n++
	if m.n%3 == 0 { // what was given is the caller's, to write to as well
		for i := range ints {
			ints[i] = ^ints[i]
		}
		for i := range sum {
			sum[i] ^= 0x5a
		}
	}
	m.kept = append(m.kept, hashKept{ints, append([]uint64{}, ints...), sum, append([]byte{}, sum...)})
	ev.F, ev.B, ev.D = f, b, b2i(same)
	return ev
}
