package main

import (
	"encoding/hex"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"verif/harness/things"

	bloomfilter "github.com/liyue201/gostl/ds/bloomfilter"
	"github.com/liyue201/gostl/ds/hamt"
	"github.com/liyue201/gostl/ds/ketama"
	treemap "github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/priorityqueue"
	"github.com/liyue201/gostl/ds/queue"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/ds/skiplist"
	"github.com/liyue201/gostl/ds/stack"
)

// Op is one call.
type Op struct {
	Name string
	A    []int
}

func op(n string, a ...int) Op {
	if a == nil {
		a = []int{}
	}
	return Op{n, a}
}

// kind describes a component: its calls and the states concurrency starts from.
type kind struct {
	spec  string // kind in ConcObj.tla
	mk    func() target
	ops   []Op   // calls for pairs
	inits [][]Op // sequential prefixes
	fin   []Op   // observations after all threads ended
	univ  func() any
	more  [][][]Op // further programs: what their threads call
	large []Op     // a prefix that makes it large
	near  []Op     // calls that change its one end
	far   []Op     // calls that concern its other end
}

func many(n int, f func(i int) Op) (os []Op) {
	for i := 1; i <= n; i++ {
		os = append(os, f(i))
	}
	return
}

// enlarge says how the kind is made large.
func enlarge(k *kind) {
	const n = 150
	switch k.spec {
	case "map", "multimap", "skiplist":
		k.large = many(n, func(i int) Op { return op("Insert", i, i*10) })
		k.far = []Op{op("Insert", n+3, 7), op("Insert", n-1, 7), op("Get", n-1), op("Get", n/2)}
		k.near = []Op{op("Insert", 1, 8), op("Erase", 1)}
		if k.spec == "skiplist" {
			k.near[1].Name = "Remove"
			k.far = append(k.far, op("Remove", n-1), op("Remove", n/2))
		} else {
			k.far = append(k.far, op("Erase", n-1), op("Erase", n/2), op("Contains", n-1))
		}
	case "set", "multiset":
		k.large = many(n, func(i int) Op { return op("Insert", i) })
		k.far = []Op{op("Insert", n+3), op("Erase", n-1), op("Erase", n/2), op("Contains", n-1), op("Insert", n/2)}
		k.near = []Op{op("Insert", -1), op("Erase", 1)}
	case "setalg":
		k.near = []Op{op("Insert", 1, 3), op("Erase", 1, 2), op("Insert", 2, 2), op("Erase", 2, 3)}
		k.large = many(120, func(i int) Op { return op("Insert", 1+i%2, i/3+i%3*20) })
		k.far = []Op{op("Insert", 1, 90), op("Insert", 2, 90), op("Erase", 1, 70), op("Erase", 2, 70), op("Insert", 1, 33), op("Erase", 2, 34)}
	case "pq":
		k.large = many(n, func(i int) Op { return op("Push", i%7*1000+i) })
		k.near = []Op{op("Pop"), op("Push", 1)}
		k.far = []Op{op("Push", 6900), op("Push", 901)}
	case "queue", "stack":
		k.large = many(2*n, func(i int) Op { return op("Push", i) })
		k.near = []Op{op("Pop")}
		k.far = []Op{op("Push", 901), op("Push", 902)}
	case "hamt":
		for i := len(hkeys); i < n; i++ {
			hkeys = append(hkeys, []byte(fmt.Sprint("key ", i)))
		}
		k.large = many(n, func(i int) Op { return op("Insert", i, i*10) })
		k.near = []Op{op("Insert", 1, 8), op("Remove", 1), op("Insert", 40, 8), op("Remove", 40)}
		k.far = []Op{op("Insert", n-1, 7), op("Remove", n-1), op("Remove", n/2), op("Get", n-1), op("Insert", n/2, 8)}
	}
}

// setQuads are calls over two sets in both directions while both sets are changed.
func setQuads() (ps [][][]Op) {
	w := []string{"Insert", "Erase", "Clear"}
	i := 0
	for _, a := range []string{"Intersect", "Union", "Diff"} {
		for _, b := range []string{"Intersect", "Union", "Diff"} {
			change := func(s int) []Op {
				i++
				if n := w[(i/3)%3]; n != "Clear" {
					return []Op{op(n, s, i%3+1)}
				}
				return []Op{op("Clear", s)}
			}
			ps = append(ps, [][]Op{{op(a, 1, 2)}, {op(b, 2, 1)}, change(1), change(2)})
		}
	}
	return
}

type target interface{ do(o Op) []int }

type fn func(o Op) []int

func (f fn) do(o Op) []int { return f(o) }

var (
	rOK       = []int{0}
	rPanic    = []int{-1}
	rNotFound = []int{-2}
)

func rVal(x int) []int { return []int{1, x} }
func rBool(b bool) []int {
	if b {
		return []int{2, 1}
	}
	return []int{2, 0}
}
func rSeq(s []int) []int { return append([]int{3}, s...) }
func rErr(v int, err error) []int {
	if err != nil {
		return rNotFound
	}
	return rVal(v)
}

func cmpInt(a, b int) int {
	if a < b {
		return -1
	}
	if a > b {
		return 1
	}
	return 0
}

// rStr parses "[1 2 3]".
func rStr(s string) []int {
	r := []int{3}
	s = strings.TrimSuffix(strings.TrimPrefix(s, "["), "]")
	for _, w := range strings.FieldsFunc(s, func(c rune) bool { return c == ' ' || c == ',' }) {
		n, err := strconv.Atoi(w)
		if err != nil {
			return []int{-8}
		}
		r = append(r, n)
	}
	return r
}

type kvLike interface {
	Insert(k, v int)
	Get(k int) (int, error)
	Erase(k int)
	Find(k int) *treemap.MapIterator[int, int]
	LowerBound(k int) *treemap.MapIterator[int, int]
	UpperBound(k int) *treemap.MapIterator[int, int]
	Begin() *treemap.MapIterator[int, int]
	First() *treemap.MapIterator[int, int]
	Last() *treemap.MapIterator[int, int]
	Clear()
	Contains(k int) bool
	Size() int
}

func kvWalk(n int, trav func(func(k, v int) bool)) []int {
	r := []int{3}
	c := 0
	trav(func(k, v int) bool {
		r = append(r, k, v)
		c++
		return c != n && c < 1000
	})
	return r
}

func walk(n int, trav func(func(k int) bool)) []int {
	r := []int{3}
	c := 0
	trav(func(k int) bool {
		r = append(r, k)
		c++
		return c != n && c < 1000
	})
	return r
}

func kvDo(m kvLike, trav func(func(k, v int) bool)) func(o Op) []int {
	return func(o Op) []int {
		a := o.A
		switch o.Name {
		case "Insert":
			m.Insert(a[0], a[1])
			return rOK
		case "Get":
			return rErr(m.Get(a[0]))
		case "Erase":
			m.Erase(a[0])
			return rOK
		case "Find":
			return rBool(m.Find(a[0]).IsValid())
		case "LowerBound":
			return rBool(m.LowerBound(a[0]).IsValid())
		case "UpperBound":
			return rBool(m.UpperBound(a[0]).IsValid())
		case "Begin":
			return rBool(m.Begin().IsValid())
		case "First":
			return rBool(m.First().IsValid())
		case "Last":
			return rBool(m.Last().IsValid())
		case "Clear":
			m.Clear()
			return rOK
		case "Contains":
			return rBool(m.Contains(a[0]))
		case "Size":
			return rVal(m.Size())
		case "Traversal":
			return kvWalk(a[0], trav)
		}
		panic(fatalError(o.Name))
	}
}

type setLike interface {
	Insert(k int)
	Erase(k int)
	Find(k int) *set.SetIterator[int]
	LowerBound(k int) *set.SetIterator[int]
	UpperBound(k int) *set.SetIterator[int]
	Begin() *set.SetIterator[int]
	First() *set.SetIterator[int]
	Last() *set.SetIterator[int]
	Clear()
	Contains(k int) bool
	Size() int
	String() string
}

func setDo(m setLike, trav func(func(k int) bool)) func(o Op) []int {
	return func(o Op) []int {
		a := o.A
		switch o.Name {
		case "Insert":
			m.Insert(a[0])
			return rOK
		case "Erase":
			m.Erase(a[0])
			return rOK
		case "Find":
			return rBool(m.Find(a[0]).IsValid())
		case "LowerBound":
			return rBool(m.LowerBound(a[0]).IsValid())
		case "UpperBound":
			return rBool(m.UpperBound(a[0]).IsValid())
		case "Begin":
			return rBool(m.Begin().IsValid())
		case "First":
			return rBool(m.First().IsValid())
		case "Last":
			return rBool(m.Last().IsValid())
		case "Clear":
			m.Clear()
			return rOK
		case "Contains":
			return rBool(m.Contains(a[0]))
		case "Size":
			return rVal(m.Size())
		case "String":
			return rStr(m.String())
		case "Traversal":
			return walk(a[0], trav)
		}
		panic(fatalError(o.Name))
	}
}

type fatalError string

var hkeys [][]byte

func init() {
	for _, h := range []string{
		"dc759ae1560455000062d3864c54246d0000e23f9210c3deba0000", // a pair with equal hashes
		"dc759ae1560455000062d3864c54246d0000ea02e36f234ea2009b",
		"127a0300000000000000", // a pair that agrees in the low 18 bits
		"12f903000000000000af",
		"6b", "",
	} {
		b, err := hex.DecodeString(h)
		if err != nil {
			panic(err)
		}
		hkeys = append(hkeys, b)
	}
}

func hid(b []byte) int {
	for i, k := range hkeys {
		if string(k) == string(b) {
			return i + 1
		}
	}
	return 99
}

// strings no filter of the others contains
var bloomU []string

const bloomM, bloomK = 4096, 4

func initBloom() {
	for i := 0; len(bloomU) < 4 && i < 1000; i++ {
		s := fmt.Sprintf("w%d", i)
		f := bloomfilter.New(bloomM, bloomK)
		ok := true
		for _, x := range bloomU {
			g := bloomfilter.New(bloomM, bloomK)
			g.Add(s)
			f.Add(x)
			ok = ok && !g.Contains(x)
		}
		if ok && !f.Contains(s) {
			bloomU = append(bloomU, s)
		}
	}
}

func bitsOf(data []byte) []int {
	r := []int{}
	for i, x := range data[16:] {
		for j := 0; j < 8; j++ {
			if x>>uint(j)&1 == 1 {
				r = append(r, i*8+j)
			}
		}
	}
	return r
}

// bloomUniv: every word's bits.
func bloomUniv() any {
	u := [][]int{}
	for _, x := range bloomU {
		f := bloomfilter.New(bloomM, bloomK)
		f.Add(x)
		u = append(u, bitsOf(f.Data()))
	}
	return u
}

const rings = 3 // nodes of the ring universe
const ringKeys = 4

func node(i int) string { return fmt.Sprintf("node-%d", i) }
func key(i int) string  { return fmt.Sprintf("key-%d", i) }
func nodeID(s string) int {
	for i := 1; i <= rings; i++ {
		if node(i) == s {
			return i
		}
	}
	return 99
}

// ringUniv: every key's order of preference over the nodes.
func ringUniv() any {
	var u [][]int
	for k := 1; k <= ringKeys; k++ {
		r := ketama.New(ketama.WithReplicas(3))
		for i := 1; i <= rings; i++ {
			r.Add(node(i))
		}
		p := []int{}
		for i := 0; i < rings; i++ {
			n, _ := r.Get(key(k))
			p = append(p, nodeID(n))
			r.Remove(n)
		}
		u = append(u, p)
	}
	return u
}

func newKind(name string) *kind {
	k := baseKind(name)
	if k != nil {
		enlarge(k)
	}
	return k
}

func baseKind(name string) *kind {
	base, arg := name, ""
	if i := strings.IndexByte(name, ':'); i >= 0 {
		base, arg = name[:i], name[i+1:]
	}
	_ = arg
	kvInits := [][]Op{
		{},
		{op("Insert", 2, 20)},
		{op("Insert", 2, 20), op("Insert", 1, 10), op("Insert", 3, 30), op("Insert", 4, 40)},
	}
	kvOps := []Op{
		op("Insert", 1, 11), op("Insert", 2, 22), op("Insert", 5, 55), op("Get", 2), op("Erase", 2), op("Erase", 1),
		op("Find", 2), op("LowerBound", 2), op("UpperBound", 2), op("Begin"), op("First"), op("Last"),
		op("Clear"), op("Contains", 2), op("Size"), op("Traversal", 0), op("Traversal", 1),
	}
	setInits := [][]Op{
		{},
		{op("Insert", 2)},
		{op("Insert", 2), op("Insert", 1), op("Insert", 3), op("Insert", 2)},
	}
	setOps := []Op{
		op("Insert", 1), op("Insert", 2), op("Insert", 5), op("Erase", 2), op("Erase", 1),
		op("Find", 2), op("LowerBound", 2), op("UpperBound", 2), op("Begin"), op("First"), op("Last"),
		op("Clear"), op("Contains", 2), op("Size"), op("Traversal", 0), op("Traversal", 1), op("String"),
	}
	switch base {
	case "map":
		return &kind{spec: "map", inits: kvInits, ops: append(kvOps, op("EraseIter", 2)), fin: []Op{op("Traversal", 0), op("Size")},
			mk: func() target {
				m := treemap.New[int, int](cmpInt, things.MapSafe)
				var held *treemap.MapIterator[int, int]
				f := kvDo(m, func(v func(k, v int) bool) { m.Traversal(v) })
				return fn(func(o Op) []int {
					if o.Name == "EraseIter" {
						m.EraseIter(held)
						return rOK
					}
					if o.Name == "Hold" {
						held = m.Find(o.A[0])
						return nil
					}
					return f(o)
				})
			}}
	case "multimap":
		return &kind{spec: "multimap", inits: append(kvInits, []Op{op("Insert", 2, 20), op("Insert", 2, 21), op("Insert", 1, 10), op("Insert", 2, 23)}),
			ops: kvOps, fin: []Op{op("Traversal", 0), op("Size")},
			mk: func() target {
				m := treemap.NewMultiMap[int, int](cmpInt, things.MapSafe)
				return fn(kvDo(m, func(v func(k, v int) bool) { m.Traversal(v) }))
			}}
	case "set":
		return &kind{spec: "set", inits: setInits, ops: setOps, fin: []Op{op("Traversal", 0), op("Size")},
			mk: func() target {
				m := set.New(cmpInt, things.SetSafe)
				return fn(setDo(m, func(v func(k int) bool) { m.Traversal(v) }))
			}}
	case "multiset":
		return &kind{spec: "multiset", inits: setInits, ops: append(setOps, op("Count", 2), op("EraseAll", 2)),
			fin: []Op{op("Traversal", 0), op("Size")},
			mk: func() target {
				m := set.NewMultiSet(cmpInt, things.SetSafe)
				f := setDo(m, func(v func(k int) bool) { m.Traversal(v) })
				return fn(func(o Op) []int {
					switch o.Name {
					case "Count":
						return rVal(m.Count(o.A[0]))
					case "EraseAll":
						m.EraseAll(o.A[0])
						return rOK
					}
					return f(o)
				})
			}}
	case "setalg":
		return &kind{spec: "setalg", more: setQuads(),
			inits: [][]Op{
				{op("Insert", 1, 1), op("Insert", 1, 2), op("Insert", 2, 2), op("Insert", 2, 3)},
				{op("Insert", 1, 1), op("Insert", 1, 4), op("Insert", 2, 2)},
			},
			ops: []Op{
				op("Intersect", 1, 2), op("Intersect", 2, 1), op("Union", 1, 2), op("Union", 2, 1), op("Diff", 1, 2), op("Diff", 2, 1),
				op("Intersect", 1, 1), op("Union", 2, 2), op("Diff", 1, 1),
				op("Insert", 1, 3), op("Insert", 2, 1), op("Erase", 1, 2), op("Erase", 2, 2), op("Clear", 1), op("Clear", 2),
			},
			fin: []Op{op("Traversal", 1, 0), op("Traversal", 2, 0)},
			mk: func() target {
				ss := []*set.Set[int]{nil, set.New(cmpInt, things.SetSafe), set.New(cmpInt, things.SetSafe)}
				content := func(s *set.Set[int]) []int { return walk(0, func(v func(k int) bool) { s.Traversal(v) }) }
				return fn(func(o Op) []int {
					s := ss[o.A[0]]
					switch o.Name {
					case "Intersect":
						return content(s.Intersect(ss[o.A[1]]))
					case "Union":
						return content(s.Union(ss[o.A[1]]))
					case "Diff":
						return content(s.Diff(ss[o.A[1]]))
					}
					return setDo(s, func(v func(k int) bool) { s.Traversal(v) })(Op{o.Name, o.A[1:]})
				})
			}}
	case "pq":
		return &kind{spec: "pq",
			inits: [][]Op{{}, {op("Push", 2001)}, {op("Push", 2001), op("Push", 1001), op("Push", 2002), op("Push", 3001)}},
			ops:   []Op{op("Push", 1002), op("Push", 2003), op("Push", 5001), op("Pop"), op("Top"), op("Size"), op("Empty"), op("Clear")},
			fin:   []Op{op("Size"), op("Pop"), op("Pop"), op("Pop"), op("Pop"), op("Pop"), op("Pop")},
			mk: func() target {
				q := priorityqueue.New(func(a, b int) int { return cmpInt(a/1000, b/1000) }, things.PQSafe)
				return fn(func(o Op) []int {
					switch o.Name {
					case "Push":
						q.Push(o.A[0])
						return rOK
					case "Pop":
						return rVal(q.Pop())
					case "Top":
						return rVal(q.Top())
					case "Size":
						return rVal(q.Size())
					case "Empty":
						return rBool(q.Empty())
					case "Clear":
						q.Clear()
						return rOK
					}
					panic(fatalError(o.Name))
				})
			}}
	case "queue":
		return &kind{spec: "queue",
			inits: [][]Op{{}, {op("Push", 1)}, {op("Push", 1), op("Push", 2), op("Push", 3)}},
			ops:   []Op{op("Push", 7), op("Push", 8), op("Pop"), op("Front"), op("Back"), op("Size"), op("Empty"), op("Clear"), op("String")},
			fin:   []Op{op("String"), op("Size"), op("Pop")},
			mk: func() target {
				opts := []queue.Option[int]{things.QueueSafe}
				if arg == "list" {
					opts = append(opts, things.QueueList)
				}
				q := queue.New(opts...)
				return fn(func(o Op) []int {
					switch o.Name {
					case "Push":
						q.Push(o.A[0])
						return rOK
					case "Pop":
						return rVal(q.Pop())
					case "Front":
						return rVal(q.Front())
					case "Back":
						return rVal(q.Back())
					case "Size":
						return rVal(q.Size())
					case "Empty":
						return rBool(q.Empty())
					case "String":
						return rStr(q.String())
					case "Clear":
						q.Clear()
						return rOK
					}
					panic(fatalError(o.Name))
				})
			}}
	case "stack":
		return &kind{spec: "stack",
			inits: [][]Op{{}, {op("Push", 1)}, {op("Push", 1), op("Push", 2), op("Push", 3)}},
			ops:   []Op{op("Push", 7), op("Push", 8), op("Pop"), op("Top"), op("Size"), op("Empty"), op("Clear"), op("String")},
			fin:   []Op{op("String"), op("Size"), op("Pop")},
			mk: func() target {
				opts := []stack.Option[int]{things.StackSafe}
				if arg == "list" {
					opts = append(opts, things.StackList)
				}
				q := stack.New(opts...)
				return fn(func(o Op) []int {
					switch o.Name {
					case "Push":
						q.Push(o.A[0])
						return rOK
					case "Pop":
						return rVal(q.Pop())
					case "Top":
						return rVal(q.Top())
					case "Size":
						return rVal(q.Size())
					case "Empty":
						return rBool(q.Empty())
					case "String":
						return rStr(q.String())
					case "Clear":
						q.Clear()
						return rOK
					}
					panic(fatalError(o.Name))
				})
			}}
	case "skiplist":
		return &kind{spec: "skiplist", inits: kvInits,
			ops: []Op{op("Insert", 1, 11), op("Insert", 2, 22), op("Insert", 5, 55), op("Get", 2), op("Get", 4), op("Remove", 2), op("Remove", 4),
				op("Size"), op("Keys"), op("Traversal", 0), op("Traversal", 1)},
			fin: []Op{op("Traversal", 0), op("Size")},
			mk: func() target {
				m := skiplist.New[int, int](cmpInt, things.SkipSafe, skiplist.WithMaxLevel(4))
				return fn(func(o Op) []int {
					a := o.A
					switch o.Name {
					case "Insert":
						m.Insert(a[0], a[1])
						return rOK
					case "Get":
						return rErr(m.Get(a[0]))
					case "Remove":
						return rBool(m.Remove(a[0]))
					case "Size":
						return rVal(m.Len())
					case "Keys":
						return rSeq(m.Keys())
					case "Traversal":
						return kvWalk(a[0], func(v func(k, v int) bool) { m.Traversal(v) })
					}
					panic(fatalError(o.Name))
				})
			}}
	case "hamt":
		return &kind{spec: "hamt",
			inits: [][]Op{{}, {op("Insert", 1, 10)}, {op("Insert", 1, 10), op("Insert", 2, 20), op("Insert", 3, 30), op("Insert", 5, 50)}},
			ops: []Op{op("Insert", 1, 11), op("Insert", 2, 22), op("Insert", 4, 44), op("Get", 1), op("Get", 3), op("Remove", 1), op("Remove", 3),
				op("Keys"), op("StringKeys"), op("Traversal", 0)},
			fin: []Op{op("Traversal", 0), op("Keys")},
			mk: func() target {
				m := hamt.New[int](things.HamtSafe)
				return fn(func(o Op) []int {
					a := o.A
					switch o.Name {
					case "Insert":
						m.Insert(append([]byte{}, hkeys[a[0]-1]...), a[1])
						return rOK
					case "Get":
						return rErr(m.Get(hkeys[a[0]-1]))
					case "Remove":
						return rBool(m.Erase(hkeys[a[0]-1]))
					case "Keys":
						r := []int{}
						for _, k := range m.Keys() {
							r = append(r, hid(k))
						}
						sort.Ints(r)
						return rSeq(r)
					case "StringKeys":
						r := []int{}
						for _, k := range m.StringKeys() {
							r = append(r, hid([]byte(k)))
						}
						sort.Ints(r)
						return rSeq(r)
					case "Traversal":
						es := [][2]int{}
						m.Traversal(func(k hamt.Key, v int) bool {
							es = append(es, [2]int{hid(k), v})
							return len(es) < 1000
						})
						sort.Slice(es, func(i, j int) bool { return es[i][0] < es[j][0] })
						r := []int{3}
						for _, e := range es {
							r = append(r, e[0], e[1])
						}
						return r
					}
					panic(fatalError(o.Name))
				})
			}}
	case "bloom":
		initBloom()
		return &kind{spec: "bloom", univ: bloomUniv,
			inits: [][]Op{{}, {op("Add", 1)}, {op("Add", 1), op("Add", 3)}},
			ops:   []Op{op("Add", 1), op("Add", 2), op("Add", 4), op("Contains", 1), op("Contains", 2), op("Contains", 3), op("Data")},
			fin:   []Op{op("Data"), op("Contains", 1), op("Contains", 2), op("Contains", 3), op("Contains", 4)},
			mk: func() target {
				f := bloomfilter.New(bloomM, bloomK, things.BloomSafe)
				return fn(func(o Op) []int {
					switch o.Name {
					case "Add":
						f.Add(bloomU[o.A[0]-1])
						return rOK
					case "Contains":
						return rBool(f.Contains(bloomU[o.A[0]-1]))
					case "Data":
						d := f.Data()
						g := bloomfilter.NewFromData(d)
						for _, x := range bloomU {
							g.Contains(x)
						}
						return rSeq(bitsOf(d))
					}
					panic(fatalError(o.Name))
				})
			}}
	case "ketama":
		return &kind{spec: "ketama", univ: ringUniv,
			inits: [][]Op{{}, {op("Add", 1)}, {op("Add", 1, 2, 3)}},
			ops: []Op{op("Add", 1), op("Add", 2, 3), op("Remove", 1), op("Remove", 2, 3), op("Remove", 1, 2, 3), op("Get", 1), op("Get", 2),
				op("Get", 3), op("Empty")},
			fin: []Op{op("Empty"), op("Get", 1), op("Get", 2), op("Get", 3), op("Get", 4)},
			mk: func() target {
				k := ketama.New(ketama.WithReplicas(3), things.RingSafe)
				return fn(func(o Op) []int {
					switch o.Name {
					case "Add", "Remove":
						ns := []string{}
						for _, i := range o.A {
							ns = append(ns, node(i))
						}
						if o.Name == "Add" {
							k.Add(ns...)
						} else {
							k.Remove(ns...)
						}
						return rOK
					case "Get":
						n, ok := k.Get(key(o.A[0]))
						if !ok {
							return rNotFound
						}
						return rVal(nodeID(n))
					case "Empty":
						return rBool(k.Empty())
					}
					panic(fatalError(o.Name))
				})
			}}
	}
	return nil
}
