package things

import (
	bloom "github.com/liyue201/gostl/ds/bloomfilter"
	"github.com/liyue201/gostl/ds/hamt"
	"github.com/liyue201/gostl/ds/ketama"
	treemap "github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/priorityqueue"
	"github.com/liyue201/gostl/ds/queue"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/ds/skiplist"
	"github.com/liyue201/gostl/ds/stack"
)

// One option value makes many instances, and each has its own lock and its own
// container.
var (
	QueueList = queue.WithListContainer[int]()
	QueueSafe = queue.WithGoroutineSafe[int]()
	StackList = stack.WithListContainer[int]()
	StackSafe = stack.WithGoroutineSafe[int]()
	PQSafe    = priorityqueue.WithGoroutineSafe()
	MapSafe   = treemap.WithGoroutineSafe()
	SetSafe   = set.WithGoroutineSafe()
	SkipSafe  = skiplist.WithGoroutineSafe()
	HamtSafe  = hamt.WithGoroutineSafe()
	BloomSafe = bloom.WithGoroutineSafe()
	RingSafe  = ketama.WithGoroutineSafe()
)

func queueList[T any]() queue.Option[T] { return one(QueueList, queue.WithListContainer[T]) }
func queueSafe[T any]() queue.Option[T] { return one(QueueSafe, queue.WithGoroutineSafe[T]) }
func stackList[T any]() stack.Option[T] { return one(StackList, stack.WithListContainer[T]) }
func stackSafe[T any]() stack.Option[T] { return one(StackSafe, stack.WithGoroutineSafe[T]) }

// one is x where it has the right type.
func one[O any](x any, mk func() O) O {
	if o, ok := x.(O); ok {
		return o
	}
	return mk()
}
