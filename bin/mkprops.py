#!/usr/bin/env python3
"""Writes ../properties.jsonl."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text),
             why_tests_cant=why,
             anchors=dict(files=files.split(),
                          state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                          mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=list(observe), hook_needed=None))
    assert len(title) <= 80, title
    P.append(d)


H = 'every finite history of calls with every argument, including empty containers, out-of-range positions and sizes that cross internal capacity boundaries'
p('C01', 'Deque behaves as a sequence',
  'After any sequence of pushes and pops at both ends, positional inserts, erasures, overwrites and clears, a deque holds exactly the elements of the corresponding mathematical sequence in order: size, emptiness, indexed reads, front, back, string form and iteration in both directions all agree with it. Positional calls outside the sequence change nothing (or panic when they must return an element), and overwriting an invalid position reports an error.',
  'histories inputs', H,
  'The tests run a few fixed sequences; an error needs a particular combination of size, internal segment fill, ring wrap-around and operation.',
  'ds/deque/deque.go ds/deque/segment.go ds/deque/pool.go ds/deque/iterator.go',
  [('segment ring: expand/shrink, moves between segments on insert', 'ds/deque/deque.go:66-150,339-385'), ('circular segment', 'ds/deque/segment.go'), ('segment recycling pool', 'ds/deque/pool.go')],
  [('segs/begin/end/size', 'ring of fixed-size circular segments', 'ds/deque/deque.go:18-26')],
  ['Deque public methods', 'DequeIterator'])
p('C02', 'Vector behaves as a growable sequence',
  'After any sequence of pushes, pops, positional and iterator inserts and erasures, range erasures, overwrites, resizes, reserves and shrinks, a vector holds exactly the elements of the corresponding mathematical sequence; capacity is never below size, reserving never shrinks it and shrink-to-fit makes it equal to size. Reserving and shrinking never change the elements, and invalid positions change nothing (or panic when an element must be returned).',
  'histories inputs', H,
  'The tests use short fixed histories, so aliasing between the backing array and a reallocated one, and boundary positions, go unobserved.',
  'ds/vector/vector.go ds/vector/iterator.go',
  [('insertion and erasure by shifting the backing slice', 'ds/vector/vector.go:60-160'), ('Reserve/ShrinkToFit/Resize reallocate', 'ds/vector/vector.go:160-210')],
  [('data', 'backing slice', 'ds/vector/vector.go')], ['Vector public methods', 'VectorIterator'])
p('C03', 'Fixed arrays and slice wrappers keep size and element identity',
  'A fixed array and a wrapper over a slice have a size that never changes through element operations; reading a position returns the last value stored there, filling sets every position, swapping two arrays exchanges their contents exactly, and begin, end, first, last and indexed iterators address the corresponding positions. A write through the wrapper is visible in the wrapped slice and vice versa, and out-of-range access panics without changing anything.',
  'histories inputs', H, 'The tests cover one array and one slice of fixed content.',
  'ds/array/array.go ds/array/iterator.go ds/slice/slice_wrapper.go ds/slice/iterator.go',
  [('bounds handling and element copy', 'ds/array/array.go'), ('the wrapper shares the slice', 'ds/slice/slice_wrapper.go')],
  [], ['Array and SliceWrapper public methods', 'their iterators'])
p('C04', 'Doubly linked list keeps order, links and node ownership',
  'After any sequence of pushes, pops, inserts before or after a node, removals, moves, list appends and clears over several lists, each list contains exactly the expected nodes in the expected order, forward and backward traversal are mirror images, and its length equals the number of nodes. A node belongs to at most one list: operations given a node of another list or a removed node leave every list unchanged, and a removed node has no neighbours.',
  'histories inputs', 'every history over several lists and every handle ever returned, including stale and foreign handles',
  'Pointer surgery fails only for particular relative positions (adjacent, first, last, foreign, removed); tests try a couple.',
  'ds/list/bidlist/list.go ds/list/bidlist/iterator.go',
  [('link and unlink', 'ds/list/bidlist/list.go:100-220'), ('ownership check n.list == l', 'ds/list/bidlist/list.go')],
  [('head/len, node.prev/next/list', 'circular chain and owner', 'ds/list/bidlist/list.go')], ['List and Node public methods', 'ListIterator'])
p('C05', 'Singly linked list keeps order, length and tail',
  'After any sequence of front and back pushes, inserts after a node, moves and removals given the correct predecessor, a singly linked list contains exactly the expected nodes in order, its length equals their number, and its front and back are the first and last of them. An insert after a node of another list changes nothing.',
  'histories inputs', 'every history over several lists and node handles used with their true predecessors',
  'The tail pointer goes stale only in particular histories (removing or moving the last node); tests try a couple.',
  'ds/list/simplelist/simplelist.go ds/list/simplelist/iterator.go',
  [('head/tail maintenance', 'ds/list/simplelist/simplelist.go')], [('head,tail,len', 'chain', 'ds/list/simplelist/simplelist.go')], ['List public methods'])
p('C06', 'Queue is first in, first out',
  'Whatever its backing container and locking option, a queue returns elements in exactly the order they were pushed, each exactly once; front and back show the oldest and newest element, size counts those not yet popped, and clearing empties it. Reading or popping an empty queue panics and leaves it usable.',
  'histories configurations', H + '; each backing container', 'Tests push and pop a handful of elements once.',
  'ds/queue/queue.go ds/deque/deque.go ds/list/bidlist/list.go', [('delegation to the container', 'ds/queue/queue.go')], [], ['Queue public methods'])
p('C07', 'Stack is last in, first out',
  'Whatever its backing container and locking option, a stack returns elements in exactly the reverse of the order they were pushed, each exactly once; top shows the newest element, size counts those not yet popped, and clearing empties it. Reading or popping an empty stack panics and leaves it usable.',
  'histories configurations', H + '; each backing container', 'Tests push and pop a handful of elements once.',
  'ds/stack/stack.go ds/deque/deque.go ds/list/bidlist/list.go', [('delegation to the container', 'ds/stack/stack.go')], [], ['Stack public methods'])
p('C08', 'Priority queue serves the best element, equal ones in arrival order',
  'Popping a priority queue always removes and returns an element no other contained element precedes under its comparator, and among elements comparing equal the one pushed first; top shows that element without removing it. Every pushed element is returned exactly once unless cleared, size counts the rest, and popping or reading an empty queue panics and leaves it usable.',
  'histories inputs', 'every interleaving of pushes and pops, every multiset of priorities including ties, every comparator',
  'Sift errors and tie order show only for particular heap shapes; tests use one fixed list.',
  'ds/priorityqueue/priority_queue.go', [('sift up / sift down and sequence numbers', 'ds/priorityqueue/priority_queue.go')], [], ['PriorityQueue public methods'])
p('C09', 'Heap functions preserve the heap order and the elements',
  'Starting from any collection, initialising makes it a heap, and pushing, popping, removing at an index and fixing after a value change keep it one: no element is smaller than its parent. The multiset of elements changes only by the element pushed, popped, removed or altered, and popping returns a minimum.',
  'histories inputs', 'every initial content and every history of pushes, pops, removals and fixes at every index',
  'No tests exist for this package; a wrong bound shows only for particular shapes and indices.',
  'ds/heap/heap.go', [('up, down, Fix, Remove, Init', 'ds/heap/heap.go:40-111')], [], ['heap package functions over a Container'])
p('C10', 'Red-black tree is an ordered multimap',
  'After any sequence of insertions, deletions by node and clears, walking a red-black tree from either end yields exactly the inserted and not deleted entries in comparator order, equal keys in insertion order, and size counts them. Find returns the first entry with an equal key, lower bound the first entry not less than the key, upper bound the first entry greater than it, or nothing if there is none; successor and predecessor are inverse, and a visitor stops exactly when it says so.',
  'histories inputs', 'every history, key distribution and comparator, including duplicates and comparators coarser than equality',
  'Rebalancing cases depend on shape and colour; tests use a fixed or random list without an ordered-duplicates oracle.',
  'ds/rbtree/rbtree.go ds/rbtree/node.go ds/rbtree/iterator.go',
  [('insert, delete, rotations', 'ds/rbtree/rbtree.go'), ('successor/predecessor', 'ds/rbtree/node.go'), ('bound searches', 'ds/rbtree/rbtree.go')],
  [('root, size, node colour and links', 'binary search tree', 'ds/rbtree/rbtree.go')], ['RbTree and Node public methods', 'RbTreeIterator'])
p('C11', 'Red-black tree stays balanced',
  'After any sequence of insertions and deletions a search in a red-black tree of n entries visits at most 2*log2(n+1) of them, and the tree reports itself to be a valid red-black tree. Ordered input, reverse input and one-sided deletion do not degrade it.',
  'histories inputs', 'every history of insertions and deletions at every size',
  'A broken fix-up keeps answers correct and only loses balance, which no functional test notices.',
  'ds/rbtree/rbtree.go', [('insert and delete fix-up, rotations', 'ds/rbtree/rbtree.go')], [('colours', 'red/black', 'ds/rbtree/node.go')], ['comparator calls during Find and bounds', 'IsRbTree'])
p('C12', 'Map keeps one value per key in key order',
  'After any history of inserts, erasures by key or iterator and clears, a map holds one entry per distinct key under its comparator with the most recently inserted or iterator-set value; lookups, containment, bounds, size, first and last, iteration in both directions and traversal agree with that sorted mapping. Erasing or getting an absent key changes nothing and getting reports not found.',
  'histories inputs configurations', 'every history, every comparator, with and without locking', 'Tests insert a few ascending keys.',
  'ds/map/map.go ds/map/iterator.go ds/rbtree/rbtree.go', [('overwrite if found else insert', 'ds/map/map.go')], [], ['Map public methods', 'MapIterator'])
p('C13', 'MultiMap keeps every entry, grouped and in insertion order per key',
  'After any history, a multimap holds every inserted entry whose key was not erased since, sorted by key with equal keys in insertion order; erasing a key removes all its entries and nothing else. Get and find return the first entry of the key, bounds delimit exactly its entries, and size, iteration in both directions and traversal agree.',
  'histories inputs configurations', 'every history, every comparator, with and without locking', 'Tests insert a few keys once.',
  'ds/map/multimap.go ds/map/iterator.go ds/rbtree/rbtree.go', [('insert always, erase all equal', 'ds/map/multimap.go')], [], ['MultiMap public methods', 'MapIterator'])
p('C14', 'Set keeps distinct elements in order',
  'After any history of inserts, erasures and clears, a set holds each inserted and not erased element once under its comparator; membership, find, bounds, size, first and last, string form, iteration in both directions and traversal agree with that sorted set. Inserting a present element and erasing an absent one change nothing observable.',
  'histories inputs configurations', 'every history, every comparator, with and without locking', 'Tests insert a few elements.',
  'ds/set/set.go ds/set/iterator.go ds/rbtree/rbtree.go', [('insert if absent', 'ds/set/set.go')], [], ['Set public methods', 'SetIterator'])
p('C15', 'Set intersection, union and difference are exact',
  'For any two sets with the same comparator, including the same set twice and empty sets, intersection, union and difference return a set with exactly the elements in both, in either, or in the first but not the second. The operands are not changed and later changes to operands or result do not affect one another.',
  'inputs histories', 'every pair of sets, including identical, disjoint, nested, interleaved and empty ones', 'Tests use one pair.',
  'ds/set/set.go', [('merge walk over both trees', 'ds/set/set.go:185-285')], [], ['Set.Intersect, Union, Diff'])
p('C16', 'MultiSet keeps every occurrence',
  'After any history a multiset holds every inserted element as many times as it was inserted and not erased; erasing removes one occurrence, erasing all removes every occurrence of that element, and nothing else. Count, membership, find (the first occurrence), bounds, size, iteration in both directions and traversal agree with that sorted multiset.',
  'histories inputs configurations', 'every history, every comparator, with and without locking', 'Tests insert a few elements.',
  'ds/set/multiset.go ds/set/iterator.go ds/rbtree/rbtree.go', [('insert always, erase one or all', 'ds/set/multiset.go')], [], ['MultiSet public methods', 'SetIterator'])
p('C17', 'Skip list is an ordered map',
  'Whatever levels its nodes are given and whatever its maximum level, after any history of inserts, updates and removals a skip list holds one entry per distinct key with the latest value; get, removal result, length, key listing and traversal agree with that mapping in comparator order. Getting an absent key reports not found and removing one reports false and changes nothing.',
  'histories inputs configurations', 'every history, every random level assignment, every maximum level, every comparator',
  'Level assignment is random, so a broken upper-level link is met by chance.',
  'ds/skiplist/skiplist.go', [('findPrevNodes, insert and unlink on every level', 'ds/skiplist/skiplist.go')], [('next[] per level', 'towers', 'ds/skiplist/skiplist.go')], ['Skiplist public methods'])
p('C18', 'Hash trie is a map for every key set',
  'After any history of inserts, updates and erasures a hash array mapped trie holds one entry per distinct byte-string key with the latest value; get, erase result, key listings and traversal (in some order, each entry once) agree with it. This holds for keys whose hashes share prefixes of any length and for keys whose hashes are equal.',
  'histories inputs', 'every key set including shared hash prefixes at every depth and complete hash collisions', 'Tests use random keys, which never collide deep in the trie.',
  'ds/hamt/hamt.go', [('bitmap-compressed nodes, split and collapse', 'ds/hamt/hamt.go'), ('collision handling', 'ds/hamt/hamt.go')], [], ['Hamt public methods'])
p('C19', 'Bitmap stores each bit independently',
  'Every position below the size reads as set exactly if it was set and not unset, cleared or cut off since; setting or unsetting a position outside returns false and changes nothing, and growing adds unset positions while keeping the rest. The exported data and a bitmap rebuilt from it hold the same bits.',
  'histories inputs', 'every size, every position including byte boundaries and beyond the end, every history of resizes', 'Tests use one size.',
  'ds/bitmap/bitmap.go', [('byte/bit addressing and rounding of sizes', 'ds/bitmap/bitmap.go')], [], ['Bitmap public methods'])
p('C20', 'Bloom filter never forgets, and stays within its error rate',
  'An element added to a bloom filter is always reported as contained, by the filter and by one rebuilt from its exported data, whatever else was added. An element never added is reported as contained only if all its bit positions were set by others, the positions of an element depend only on the element and the parameters, and filters sized by an estimate keep to their false-positive rate.',
  'histories inputs configurations', 'every set of elements, every size and hash count, every history; export and import at any point', 'Tests add a few elements and ask for them.',
  'ds/bloomfilter/bloom.go ds/bitmap/bitmap.go algorithm/hash/hash.go', [('k positions per element', 'ds/bloomfilter/bloom.go'), ('export/import format', 'ds/bloomfilter/bloom.go')], [], ['BloomFilter public methods'])
p('C21', 'Consistent hashing depends only on the present nodes',
  'The node a key is sent to depends only on the key and the set of nodes present, not on the order or history of additions and removals; adding a node moves keys only to it and removing one moves only its keys. A key is always sent to a present node, an empty ring reports that it has none, and adding a present or removing an absent node changes nothing.',
  'histories inputs configurations', 'every history of additions and removals, every key, every replica count', 'Tests check that some node is returned.',
  'ds/ketama/ketama.go', [('virtual nodes, sorted ring, binary search', 'ds/ketama/ketama.go')], [('ring', 'sorted hashes and owners', 'ds/ketama/ketama.go')], ['Ketama public methods'])
p('C22', 'Sorting sorts, and stable sorting is stable',
  'For any range of any random-access container and any comparator, sorting leaves the range ordered and a permutation of what it was, and elements outside the range untouched; stable sorting also keeps elements that compare equal in their original order. Empty and one-element ranges are left alone and sorting always terminates.',
  'inputs', 'every content, length and sub-range, including many equal elements, sorted, reversed and adversarial patterns', 'Tests sort a few random lists.',
  'algorithm/sort/sort.go algorithm/sort/stable_sort.go', [('quick sort with median pivot', 'algorithm/sort/sort.go'), ('merge sort with scratch space', 'algorithm/sort/stable_sort.go')], [], ['Sort', 'Stable'])
p('C23', 'Binary searches return exact bounds',
  'On any sorted range, binary search tells whether an equal element is present, lower bound returns the first position whose element is not less than the value and upper bound the first position whose element is greater, or the end of the range. The range is not changed.',
  'inputs', 'every sorted content with duplicates, every sub-range, every probe below, between, equal to and above the elements', 'Tests probe one list.',
  'algorithm/sort/search.go', [('bisection', 'algorithm/sort/search.go')], [], ['BinarySearch', 'LowerBound', 'UpperBound'])
p('C24', 'Next permutation steps through all permutations in order',
  'Next permutation turns a range into the lexicographically next arrangement of its elements under the comparator and returns true, or returns false and leaves the range unchanged when it is the last one. Repeated from sorted order it visits every distinct arrangement exactly once, also with equal elements.',
  'inputs', 'every content including duplicates, every sub-range, every comparator', 'Tests step through one three-element list.',
  'algorithm/sort/next_permutation.go', [('pivot, successor swap, suffix reversal', 'algorithm/sort/next_permutation.go')], [], ['NextPermutation'])
p('C25', 'Nth element is placed as by sorting, and partitions the range',
  'After selecting position n of a range, that position holds the element a sort would put there, no element before it is greater and no element after it is smaller, and the range is a permutation of what it was. Elements outside the range are untouched.',
  'inputs', 'every content, every n, every sub-range and comparator', 'Tests check one list.',
  'algorithm/sort/nth_element.go', [('quickselect', 'algorithm/sort/nth_element.go')], [], ['NthElement'])
p('C26', 'Range algorithms compute what their names say',
  'Counting, conditional counting, finding, conditional finding, minimum and maximum (the first of equal ones), and the all-of, any-of and none-of tests agree with their definitions on every range, including empty ranges, and change nothing; swapping exchanges two values and reversing reverses exactly the range. Searches return the first match or the end of the range.',
  'inputs', 'every content and sub-range of every kind of container, every predicate', 'There are no tests for these functions.',
  'algorithm/const_op.go algorithm/op.go', [('linear scans', 'algorithm/const_op.go'), ('reverse by converging iterators', 'algorithm/op.go')], [], ['algorithm package functions'])
p('C27', 'Iterators address positions consistently across containers',
  'For every container, moving an iterator forward or backward visits the neighbouring element and returns the iterator itself, validity is exactly being on an element, clones move independently, and iterators compare equal exactly when on the same position. Reading and writing through an iterator concern exactly the element it is on, and random-access iterators report and accept positions consistently.',
  'histories inputs', 'every sequence of iterator movements, clones, comparisons, reads and writes over every container kind and size, including past both ends',
  'Tests walk from begin to end once per container.',
  'ds/array/iterator.go ds/deque/iterator.go ds/vector/iterator.go ds/slice/iterator.go ds/list/bidlist/iterator.go ds/list/simplelist/iterator.go ds/rbtree/iterator.go ds/map/iterator.go ds/set/iterator.go utils/iterator/iterator.go',
  [('index or node held by the iterator', 'ds/*/iterator.go')], [], ['all iterator types'])
p('C28', 'Comparators are total orders matching the natural order',
  'Every provided comparator returns -1, 0 or 1 according to the natural order of its type (complex numbers by real then imaginary part), is antisymmetric, transitive and total, and the reversing combinator inverts it. A pair keeps the two values it was given, and equals another exactly when both values are equal.',
  'inputs', 'every pair and triple of values of each type, including extremes and negative zero', 'There are no tests over value pairs.',
  'utils/comparator/comparator.go ds/pair/pair.go', [('three-way comparison per type', 'utils/comparator/comparator.go')], [], ['comparator functions', 'Pair'])
p('C29', 'Traversal visits each element once, in order, and stops on request',
  'Every container that offers traversal calls the visitor once per element in the container order (any fixed order for the hash trie) and makes no further call after the visitor returns false. Traversal leaves the container unchanged and usable, also when stopped early.',
  'inputs configurations', 'every container, content and stopping point, with and without locking', 'Tests never stop a traversal.',
  'ds/array/array.go ds/list/bidlist/list.go ds/list/simplelist/simplelist.go ds/rbtree/rbtree.go ds/map/map.go ds/map/multimap.go ds/set/set.go ds/set/multiset.go ds/skiplist/skiplist.go ds/hamt/hamt.go',
  [('loop while the visitor returns true', 'Traversal methods')], [], ['Traversal methods', 'visitor call count'])
p('C30', 'Separate instances are independent',
  'An operation on one container never changes what another container of the same or another kind shows, including copies made from it, lists appended to another and slices passed in or returned as documented copies. Creating, filling and clearing many instances leaves each as its own history says.',
  'histories', 'every interleaved history over many instances of every kind', 'Tests use one instance at a time.',
  'ds/deque/pool.go ds/deque/deque.go ds/vector/vector.go ds/array/array.go ds/list/bidlist/list.go ds/set/set.go ds/hamt/hamt.go ds/bloomfilter/bloom.go',
  [('no shared mutable state; copies on construction', 'constructors and copy functions')], [], ['all containers'])
p('C31', 'Failed operations change nothing and leave containers usable',
  'A call that panics, reports an error or does not find its target leaves every container as it was, and all later operations on that container work, including with locking enabled. No lock stays held after a failed call.',
  'histories fault_sequences', 'every state and every failing call: empty pops, out-of-range positions, absent keys, panicking comparators excluded', 'Tests seldom fail an operation and never continue afterwards.',
  'ds/deque/deque.go ds/vector/vector.go ds/array/array.go ds/queue/queue.go ds/stack/stack.go ds/priorityqueue/priority_queue.go ds/map/map.go ds/set/set.go ds/skiplist/skiplist.go ds/hamt/hamt.go ds/list/bidlist/list.go',
  [('checks before mutation, deferred unlock', 'public methods')], [], ['all containers'])
S = 'every interleaving of concurrent calls from several goroutines on one locked instance'
W = 'There are no concurrent tests; a missing, wrong-mode or too-short critical section shows only under particular schedules.'
p('C32', 'Goroutine-safe Map and MultiMap are linearizable',
  'With the goroutine-safe option, every concurrent history of insert, erase, get, contains, size, clear and traversal calls on a map or multimap is equivalent to some sequential order of those calls that respects real time, and no data race occurs.',
  'schedules histories', S, W, 'ds/map/map.go ds/map/multimap.go utils/sync/locker.go', [('lock around every method', 'ds/map/map.go, ds/map/multimap.go'), ('option selects the locker', 'ds/map/map.go')], [], ['concurrent calls'])
p('C33', 'Goroutine-safe Set and MultiSet are linearizable',
  'With the goroutine-safe option, every concurrent history of insert, erase, contains, count, size, clear and traversal calls on a set or multiset is equivalent to some sequential order respecting real time, and no data race occurs. Set algebra on concurrently changing sets races with nothing and combines a state of each operand from within the call.',
  'schedules histories', S, W, 'ds/set/set.go ds/set/multiset.go utils/sync/locker.go', [('lock around every method', 'ds/set/set.go, ds/set/multiset.go'), ('snapshot of the other operand', 'ds/set/set.go')], [], ['concurrent calls'])
p('C34', 'Goroutine-safe PriorityQueue is linearizable',
  'With the goroutine-safe option, every concurrent history of push, pop, top, size and emptiness calls on a priority queue is equivalent to some sequential order respecting real time: no element is lost or returned twice, and no data race occurs.',
  'schedules histories', S, W, 'ds/priorityqueue/priority_queue.go utils/sync/locker.go', [('lock around every method', 'ds/priorityqueue/priority_queue.go')], [], ['concurrent calls'])
p('C35', 'Goroutine-safe Queue and Stack are linearizable',
  'With the goroutine-safe option, every concurrent history of push, pop, peek, size, clear and string calls on a queue or stack, on either backing container, is equivalent to some sequential order respecting real time: no element is lost or returned twice, and no data race occurs.',
  'schedules histories configurations', S, W, 'ds/queue/queue.go ds/stack/stack.go utils/sync/locker.go', [('lock around every method', 'ds/queue/queue.go, ds/stack/stack.go')], [], ['concurrent calls'])
p('C36', 'Goroutine-safe Skiplist is linearizable',
  'With the goroutine-safe option, every concurrent history of insert, get, remove, length, key listing and traversal calls on a skip list is equivalent to some sequential order respecting real time, and no data race occurs.',
  'schedules histories', S, W, 'ds/skiplist/skiplist.go utils/sync/locker.go', [('lock around every method', 'ds/skiplist/skiplist.go')], [], ['concurrent calls'])
p('C37', 'Goroutine-safe Hamt is linearizable',
  'With the goroutine-safe option, every concurrent history of insert, get, erase, key and string listing and traversal calls on a hash trie is equivalent to some sequential order respecting real time, and no data race occurs.',
  'schedules histories', S, W, 'ds/hamt/hamt.go utils/sync/locker.go', [('lock around every method', 'ds/hamt/hamt.go')], [], ['concurrent calls'])
p('C38', 'Goroutine-safe BloomFilter and Ketama are linearizable',
  'With the goroutine-safe option, every concurrent history of add, contains and export calls on a bloom filter, and of add, remove, get and emptiness calls on a hash ring, is equivalent to some sequential order respecting real time, and no data race occurs.',
  'schedules histories', S, W, 'ds/bloomfilter/bloom.go ds/ketama/ketama.go utils/sync/locker.go', [('lock around every method', 'ds/bloomfilter/bloom.go, ds/ketama/ketama.go')], [], ['concurrent calls'])
p('C39', 'Goroutine-safe containers never deadlock',
  'In every schedule of concurrent calls on goroutine-safe containers, including set algebra over the same sets in opposite directions, calls that panic and traversals stopped early, every call returns once the others can make progress, and afterwards no lock is held.',
  'schedules histories', 'every interleaving, including writers waiting between two readers of the same goroutine', W,
  'utils/sync/locker.go ds/map/map.go ds/map/multimap.go ds/set/set.go ds/set/multiset.go ds/priorityqueue/priority_queue.go ds/queue/queue.go ds/stack/stack.go ds/skiplist/skiplist.go ds/hamt/hamt.go ds/bloomfilter/bloom.go ds/ketama/ketama.go',
  [('lock and deferred unlock; never two locks at once', 'locked methods')], [('lock state', 'reader count, writer, waiting writer', 'utils/sync/locker.go')], ['concurrent calls'])
p('C40', 'Hash expansion is deterministic, prefix-consistent and non-repeating',
  'Expanding a byte string into n hash values gives exactly n values that depend only on the string, the first m of them are those of an expansion into m, and the values are pairwise different. The hash of a byte string is the same 64 bytes every time, without modifying the input.',
  'inputs', 'every byte string and count', 'Nothing tests it directly.',
  'algorithm/hash/hash.go', [('repeated hashing of the digest', 'algorithm/hash/hash.go:10-28')], [], ['GenHashInts', 'Hash512'])

if __name__ == '__main__':
    f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(f, 'w') as o:
        for d in P:
            o.write(json.dumps(d) + '\n')
