// Package vcov notes which parts of the library a call goes through. It is
// built into the library by an overlay (see cmd/covinstr) and only tells which
// histories are worth keeping: it decides nothing.
package vcov

const size = 1 << 16

var (
	count   [size]uint8
	Touched []uint32
	prev    uint32
)

func touch(slot uint32) {
	slot &= size - 1
	if count[slot] == 0 {
		Touched = append(Touched, slot)
	}
	if count[slot] < 255 {
		count[slot]++
	}
}

// Hit is called at the start of every block.
func Hit(id uint32) {
	touch(id ^ prev)
	prev = id >> 1
}

// Reset forgets what has been noted.
func Reset() {
	for _, s := range Touched {
		count[s] = 0
	}
	Touched = Touched[:0]
	prev = 0
}

// Class is how often the slot was touched, roughly.
func Class(slot uint32) uint8 {
	switch c := count[slot]; {
	case c <= 3:
		return 1 << (c - 1)
	case c < 8:
		return 8
	case c < 16:
		return 16
	case c < 32:
		return 32
	case c < 128:
		return 64
	}
	return 128
}

type number interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr | ~float32 | ~float64
}

func near[T number](id uint32, a, b T) {
	c := uint32(0)
	switch {
	case a == b:
	case a < b && b-a == 1:
		c = 1
	case a > b && a-b == 1:
		c = 2
	case a < b:
		c = 3
	default:
		c = 4
	}
	touch(id + c*7919)
}

// Lt and the others compare, and note how far the two are apart.
func Lt[T number](id uint32, a, b T) bool { near(id, a, b); return a < b }
func Le[T number](id uint32, a, b T) bool { near(id, a, b); return a <= b }
func Gt[T number](id uint32, a, b T) bool { near(id, a, b); return a > b }
func Ge[T number](id uint32, a, b T) bool { near(id, a, b); return a >= b }
func Eq[T number](id uint32, a, b T) bool { near(id, a, b); return a == b }
func Ne[T number](id uint32, a, b T) bool { near(id, a, b); return a != b }
