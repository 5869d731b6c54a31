"""What each property's check runs.  Sizes are (exhaustive depth, random
histories, calls per random history)."""

ASSUME = [
    'TLC, the Go toolchain and the conformance driver (harness/cmd/driver) are correct',
    'user-supplied comparators are consistent total preorders returning -1, 0 or 1',
]


def T(comp, profile, spec, q, t=None, **kw):
    return dict(comp=comp, profile=profile, spec=spec, q=q, t=t or (q[0], q[1] * 4, q[2]), **kw)


def MC(mc, **kw):
    return dict(mc=mc, **kw)


def LIN(comp, model=None, **kw):
    """Concurrent programs on comp; the design model of its locking, and the
    designs the model must refute."""
    out = [dict(conc=comp, **kw)]
    if model:
        c = dict(Kind=model, Style='locked', Calls=2, NT=2)
        inv = ['Explained', 'AtRest']
        out += [MC('MC_Conc', consts=c, inv=inv),
                MC('MC_Conc', consts=dict(c, Style='unlocked'), inv=inv, expect='violation'),
                MC('MC_Conc', tier='thorough', consts=dict(c, Style='readlock'), inv=inv, expect='violation'),
                MC('MC_Conc', tier='thorough', consts=dict(c, Style='early'), inv=inv, expect='violation'),
                MC('MC_Conc', tier='thorough', consts=dict(c, NT=3, Calls=1), inv=inv, workers=4),
                MC('MC_Conc', tier='thorough', consts=dict(c, NT=2, Calls=3), inv=inv, workers=4, heap='6g')]
    return out


def LOCKS(n, style, calls=1, expect=None, props=True, **kw):
    return MC('MC_Locks', consts=dict(T='={%s}' % ', '.join(map(str, range(n))), L='={1, 2}', Style=style, Calls=calls),
              inv=['Exclusive', 'NoDeadlock', 'NothingHeld'], props=['Returns'] if props else [], expect=expect, **kw)


def RBTREE(flavor, profile, q, t, refute=()):
    """The red-black tree design under a container's calls; its transitions are
    replayed into the container.  q, t: (MaxN, Keys)."""
    inv = ['RedBlack', 'Pointers', 'Balanced', 'InOrderSorted', 'Lookups']

    def c(n, k, v='none', e=True):
        return dict(MaxN=n, Keys=k, Flavor=flavor, Variant=v, Emits=e)
    out = [MC('MC_RbTree', tier=tier, consts=c(*size), inv=inv, props=['Refines'], view=['view'], emit=['Emit'],
              replay=(flavor, profile, 'Ordered'), heap='4g') for tier, size in (('quick', q), ('thorough', t))]
    return out + [MC('MC_RbTree', consts=c(min(q[0], 6), q[1], v, False), inv=inv, props=['Refines'], view=['view'],
                     expect='violation') for v in refute]


def DEQUE(tier, n, cap, limit):
    """The deque's ring of segments; a value of the model is 128/cap real ones."""
    return [MC('MC_DequeSegs', tier=tier, consts=dict(MaxN=n, MaxSlots=16, Cap=cap, Unit=128 // cap, Variant='none', Emits=True),
               inv=['WellFormed'], props=['Refines'], view=['view'], emit=['Emit'], replay=('deque', 'ring', 'Deque'),
               limit=limit)]


def TRIE(tier, keys, limit):
    return [MC('MC_HamtTrie', tier=tier, consts=dict(Univ='={%s}' % ', '.join(map(str, keys)), Variant='none', Emits=True),
               inv=['WellPlaced', 'IsCompact', 'Lookups', 'NoDoubles'], props=['Refines'], view=['view'], emit=['Emit'],
               replay=('hamt', 'trie', 'Hamt'), limit=limit)]


def DESIGN(mod, replay, inv, quick, thorough, refute=(), base=None, limits=(6000, 30000), props=('Refines',)):
    """A design model: checked, its transitions replayed into the code, and the
    variants it must refute.  quick, thorough: lists of constants."""
    base = base or {}
    out = []
    for tier, cs, lim in (('quick', quick, limits[0]), ('thorough', thorough, limits[1])):
        out += [MC(mod, tier=tier, consts=dict(base, Variant='none', Emits=True, **c), inv=inv, props=list(props), view=['view'],
                   emit=['Emit'], replay=replay, limit=lim, heap='4g') for c in cs]
    return out + [MC(mod, consts=dict(base, Variant=v, Emits=False, **c), inv=inv, props=list(props), view=['view'], expect='violation')
                  for v, c in refute]


def SORT(profile, algs, quick, thorough, refute):
    """The algorithms step by step, on every small array; every call repeated on
    the real code.  quick, thorough: (MaxN, MaxSub, Keys)."""
    def c(alg, size, v='none', e=True):
        return dict(Alg=alg, MaxN=size[0], MaxSub=size[1], Keys=size[2], Variant=v, Emits=e)
    inv = ['Right', 'InRange', 'Why', 'Goes']
    out = [MC('MC_SortSteps', tier=tier, consts=c(alg, size), inv=inv, props=['Ends'], emit=['Emit'],
              replay=('algo', profile, 'Algo'), limit=lim)
           for tier, size, lim in (('quick', quick, 6000), ('thorough', thorough, 40000)) for alg in algs]
    return out + [MC('MC_SortSteps', consts=c(alg, (5, 2, 3), v, False), inv=inv, props=['Ends'], expect='violation')
                  for alg, v in refute]


def BITS(univ):
    return dict(Univ='={%s}' % ', '.join(map(str, univ)), Sizes='={0, 1, 7, 8, 9, 16, 17, 24, 32}' if max(univ) > 18 else '={0, 8, 9, 16}')


def MERGE(univ, tens):
    return dict(Univ='={%s}' % ', '.join(map(str, univ)), Tens=tens)


CONC = dict(technique='TLA+ linearizability monitor, TLC on schedules of the real code',
            note='Every schedule with a bounded number of preemptions (at statement and lock granularity) of all pairs of '
                 'calls from several states, plus seeded random programs; the recorded histories are judged by TLC. Native '
                 'parallel runs under the race detector complement them. Bounded exploration.')
CONCURRENT = ['map', 'multimap', 'set', 'multiset', 'setalg', 'pq', 'queue', 'queue:list', 'stack', 'stack:list',
              'skiplist', 'hamt', 'bloom', 'ketama']

CHECKS = {
    'C01': dict(title='Deque', jobs=[
        T('deque', '', 'Deque', (4, 60, 120), (4, 300, 300)),
        T('deque', 'big', 'Deque', (0, 16, 60), (0, 60, 120)),
        T('deque', 'huge', 'Deque', (0, 2, 40), (0, 8, 80)),
        T('deque', 'ring', 'Deque', (0, 16, 120), (0, 60, 240)),
        *DEQUE('quick', 12, 2, 4000), *DEQUE('thorough', 18, 2, 20000), *DEQUE('thorough', 16, 4, 20000),
        *[MC('MC_DequeSegs', consts=dict(MaxN=8, MaxSlots=16, Cap=2, Unit=64, Variant=v, Emits=False),
             inv=['WellFormed'], props=['Refines'], view=['view'], expect='violation') for v in ('nowrap', 'keepempty')],
    ]),
    'C02': dict(title='Vector', jobs=[
        T('vector', '', 'Vector', (3, 100, 120), (4, 300, 300)),
        T('vector', 'big', 'Vector', (0, 8, 60), (0, 40, 120)),
        *DESIGN('MC_VecArr', ('vector', '', 'Vector'), ['Sound'], [dict(MaxN=3, Vals=2, MaxCap=4)], [dict(MaxN=5, Vals=2, MaxCap=8)],
                [(v, dict(MaxN=3, Vals=2, MaxCap=4)) for v in ('overwrite', 'grow', 'nomove', 'slack')]),
    ]),
    'C03': dict(title='Array and slice wrapper', jobs=[
        T('array', '', 'Array', (4, 80, 80), (4, 300, 200)),
        T('array', 'big', 'Array', (0, 6, 30), (0, 30, 60)),
        T('array', 'wrap', 'Array', (4, 80, 80), (5, 300, 200)),
    ]),
    'C04': dict(title='Doubly linked list', jobs=[
        T('bidlist', '', 'BidList', (3, 80, 80), (4, 300, 150)),
        T('bidlist', 'long', 'BidList', (0, 4, 250), (0, 20, 400)),
        T('bidlist', 'huge', 'BidList', (0, 3, 40), (0, 12, 60)),
        *[MC('MC_BidPtr', tier=tier, consts=dict(MaxN=n, Variant='none', Emits=True), inv=['WellFormed'], props=['Refines'],
             view=['view'], emit=['Emit'], replay=('bidlist', '', 'BidList'), limit=lim)
          for tier, n, lim in (('quick', 4, 8000), ('thorough', 5, 60000))],
        *[MC('MC_BidPtr', consts=dict(MaxN=3, Variant=v, Emits=False), inv=['WellFormed'], props=['Refines'],
             view=['view'], expect='violation') for v in ('corner', 'keepowner', 'stalehead')],
    ]),
    'C05': dict(title='Singly linked list', jobs=[
        T('simplelist', '', 'SimpleList', (5, 100, 80), (5, 400, 150)),
        T('simplelist', 'long', 'SimpleList', (0, 4, 250), (0, 20, 400)),
        T('simplelist', 'huge', 'SimpleList', (0, 3, 40), (0, 12, 60)),
        *DESIGN('MC_SimplePtr', ('simplelist', '', 'SimpleList'), ['Sound'], [dict(MaxN=4)], [dict(MaxN=5)],
                [('keeptail', dict(MaxN=3)), ('noinserttail', dict(MaxN=3)), ('anypre', dict(MaxN=3))]),
    ]),
    'C06': dict(title='Queue', jobs=[
        T('queue', '', 'Adaptors', (5, 100, 100), (6, 300, 300)),
        T('queue', 'long', 'Adaptors', (0, 6, 600), (0, 20, 1500)),
        T('queue', 'huge', 'Adaptors', (0, 4, 24), (0, 20, 40)),
    ]),
    'C07': dict(title='Stack', jobs=[
        T('stack', '', 'Adaptors', (5, 100, 100), (6, 300, 300)),
        T('stack', 'long', 'Adaptors', (0, 6, 600), (0, 20, 1500)),
        T('stack', 'huge', 'Adaptors', (0, 4, 24), (0, 20, 40)),
    ]),
    'C08': dict(title='PriorityQueue', jobs=[
        T('pq', '', 'Adaptors', (4, 150, 60), (5, 500, 100)),
        T('pq', 'long', 'Adaptors', (0, 10, 300), (0, 40, 600)),
        T('pq', 'huge', 'Adaptors', (0, 2, 24), (0, 12, 40)),
        T('pq', 'large', 'Adaptors', (0, 4, 40), (0, 16, 60)),
        *DESIGN('MC_HeapArr', ('pq', '', 'Adaptors'), ['HeapOrder'], [dict(MaxN=5, Keys=3), dict(MaxN=7, Keys=1)],
                [dict(MaxN=6, Keys=3), dict(MaxN=7, Keys=2)],
                [('downall', dict(MaxN=5, Keys=2)), ('unstable', dict(MaxN=5, Keys=2))], dict(MaxInit=0, Kind='pq')),
    ]),
    'C09': dict(title='Heap package', jobs=[
        T('heap', '', 'HeapPkg', (4, 150, 60), (5, 500, 100)),
        T('heap', 'big', 'HeapPkg', (0, 4, 40), (0, 20, 60)),
        T('heap', 'huge', 'HeapPkg', (0, 6, 30), (0, 16, 60)),
        *DESIGN('MC_HeapArr', ('heap', '', 'HeapPkg'), ['HeapOrder'], [dict(MaxN=7, Keys=3, MaxInit=5), dict(MaxN=11, Keys=2, MaxInit=7)],
                [dict(MaxN=8, Keys=4, MaxInit=6), dict(MaxN=13, Keys=2, MaxInit=9)],
                [('noup', dict(MaxN=6, Keys=3, MaxInit=3)), ('downall', dict(MaxN=6, Keys=3, MaxInit=3))], dict(Kind='heap')),
    ]),
    'C10': dict(title='Red-black tree as ordered multimap', jobs=[
        T('rbtree', '', 'Ordered', (3, 100, 80), (4, 300, 150)),
        T('rbtree', 'tens', 'Ordered', (3, 60, 80), (4, 300, 150)),
        T('rbtree', 'same', 'Ordered', (0, 3, 40), (0, 12, 80)),
        T('rbtree', 'long', 'Ordered', (0, 10, 300), (0, 40, 600)),
        T('rbtree', 'huge', 'Ordered', (0, 1, 20), (0, 6, 40)),
        *RBTREE('rbtree', '', (6, 3), (8, 4), ['leftfirst', 'anynode']),
    ]),
    'C11': dict(title='Red-black tree balance', jobs=[
        T('rbtree', 'balance', 'Ordered', (3, 200, 120), (4, 400, 300)),
        T('rbtree', 'balance', 'Ordered', (0, 6, 600), (0, 30, 1200)),
        T('rbtree', 'runs', 'Ordered', (0, 4, 50), (0, 20, 100)),
        T('rbtree', 'huge', 'Ordered', (0, 1, 20), (0, 6, 40)),
        *RBTREE('rbtree', 'balance', (10, 0), (13, 0), ['nofixup']),
    ]),
    'C12': dict(title='Map', jobs=[
        T('map', '', 'Ordered', (4, 100, 80), (4, 400, 150)),
        T('map', 'tens', 'Ordered', (0, 60, 80), (0, 300, 150)),
        T('map', 'runs', 'Ordered', (0, 2, 50), (0, 12, 100)),
        T('map', 'long', 'Ordered', (0, 6, 300), (0, 30, 600)),
        T('map', 'huge', 'Ordered', (0, 1, 20), (0, 6, 40)),
        *RBTREE('map', '', (6, 6), (8, 8)),
    ]),
    'C13': dict(title='MultiMap', jobs=[
        T('multimap', '', 'Ordered', (4, 100, 80), (4, 400, 150)),
        T('multimap', 'tens', 'Ordered', (0, 60, 80), (0, 300, 150)),
        T('multimap', 'runs', 'Ordered', (0, 2, 50), (0, 12, 100)),
        T('multimap', 'same', 'Ordered', (0, 3, 40), (0, 12, 80)),
        T('multimap', 'long', 'Ordered', (0, 6, 300), (0, 30, 600)),
        T('multimap', 'huge', 'Ordered', (0, 1, 20), (0, 6, 40)),
        *RBTREE('multimap', '', (6, 3), (8, 4)),
    ]),
    'C14': dict(title='Set', jobs=[
        T('set', '', 'Ordered', (4, 100, 80), (4, 400, 150)),
        T('set', 'tens', 'Ordered', (0, 60, 80), (0, 300, 150)),
        T('set', 'runs', 'Ordered', (0, 2, 50), (0, 12, 100)),
        T('set', 'long', 'Ordered', (0, 6, 300), (0, 30, 600)),
        T('set', 'huge', 'Ordered', (0, 1, 20), (0, 6, 40)),
        *RBTREE('set', '', (6, 6), (8, 8)),
    ]),
    'C15': dict(title='Set algebra', jobs=[
        T('set', 'algebra', 'Ordered', (3, 100, 80), (4, 400, 150)),
        T('set', 'algebratens', 'Ordered', (0, 100, 80), (0, 400, 150)),
        T('set', 'algebrabig', 'Ordered', (0, 3, 24), (0, 16, 40)),
        *DESIGN('MC_SetMerge', ('set', 'algebra', 'Ordered'), ['Right'], [MERGE([1, 2, 3, 4, 5], False)], [MERGE(range(1, 7), False)],
                [(v, MERGE([1, 2, 3], False)) for v in ('tail', 'restart', 'skip')], props=['Ends', 'Refines']),
        *DESIGN('MC_SetMerge', ('set', 'algebratens', 'Ordered'), ['Right'], [MERGE([7, 11, 14, 21, 25], True)],
                [MERGE([7, 11, 14, 21, 25, 33], True)], [('right', MERGE([7, 11, 14], True))], props=['Ends', 'Refines']),
    ]),
    'C16': dict(title='MultiSet', jobs=[
        T('multiset', '', 'Ordered', (3, 100, 80), (4, 300, 150)),
        T('multiset', 'tens', 'Ordered', (0, 60, 80), (0, 300, 150)),
        T('multiset', 'runs', 'Ordered', (0, 2, 50), (0, 12, 100)),
        T('multiset', 'same', 'Ordered', (0, 3, 40), (0, 12, 80)),
        T('multiset', 'long', 'Ordered', (0, 6, 300), (0, 30, 600)),
        T('multiset', 'huge', 'Ordered', (0, 1, 20), (0, 6, 40)),
        *RBTREE('multiset', '', (6, 3), (8, 4)),
    ]),
    'C17': dict(title='Skiplist', jobs=[
        T('skiplist', '', 'Ordered', (5, 150, 80), (5, 400, 200), random_inside=True),
        T('skiplist', 'tens', 'Ordered', (0, 60, 80), (0, 300, 150), random_inside=True),
        T('skiplist', 'runs', 'Ordered', (0, 2, 50), (0, 12, 100), random_inside=True),
        T('skiplist', 'long', 'Ordered', (0, 6, 300), (0, 30, 600), random_inside=True),
        T('skiplist', 'huge', 'Ordered', (0, 1, 20), (0, 6, 40), random_inside=True),
        *DESIGN('MC_SkipPtr', ('skiplist', '', 'Ordered'), ['Sound'], [dict(MaxK=4, Levels=2)], [dict(MaxK=4, Levels=3), dict(MaxK=5, Levels=2)],
                [('low', dict(MaxK=3, Levels=2)), ('heads', dict(MaxK=3, Levels=2)), ('above', dict(MaxK=3, Levels=2))]),
    ]),
    'C18': dict(title='Hamt', jobs=[
        T('hamt', '', 'Hamt', (3, 100, 80), (4, 400, 200)),
        T('hamt', 'low', 'Hamt', (3, 100, 80), (4, 400, 200)),
        T('hamt', 'runs', 'Hamt', (0, 2, 50), (0, 12, 100)),
        T('hamt', 'long', 'Hamt', (0, 8, 300), (0, 40, 600)),
        T('hamt', 'huge', 'Hamt', (0, 2, 14), (0, 8, 30)),
        *TRIE('quick', [1, 2, 3, 10, 25, 26, 27], 6000), *TRIE('quick', [9, 10, 15, 16, 25, 26, 1], 4000),
        *TRIE('thorough', [1, 2, 3, 9, 10, 25, 26, 27], 20000), *TRIE('thorough', [9, 10, 15, 16, 25, 26, 27, 28, 1], 20000),
        *[MC('MC_HamtTrie', consts=dict(Univ='={1, 2, 3, 25, 26, 27}', Variant=v, Emits=False),
             inv=['WellPlaced', 'Lookups'], props=['Refines'], view=['view'], expect='violation')
          for v in ('lose', 'collapse', 'chain')],
    ]),
    'C19': dict(title='Bitmap', jobs=[
        T('bitmap', '', 'Bitmap', (4, 40, 120), (4, 200, 200)),
        T('bitmap', 'long', 'Bitmap', (0, 5, 150), (0, 20, 300)),
        T('bitmap', 'wide', 'Bitmap', (0, 16, 100), (0, 80, 150)),
        T('bitmap', 'huge', 'Bitmap', (0, 1, 24), (0, 2, 60)),
        *DESIGN('MC_BitBytes', ('bitmap', '', 'Bitmap'), ['Sound'], [BITS([0, 1, 7, 8, 15, 16, 23, 24])],
                [BITS([0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16]), BITS([0, 7, 8, 9, 15, 16, 23, 24, 30, 31, 32])],
                [(v, BITS([0, 1, 7, 8, 15, 16, 23, 24])) for v in ('toggle', 'edge', 'keep', 'floor', 'mod7')]),
    ]),
    'C20': dict(title='Bloom filter', jobs=[
        T('bloom', '', 'Bloom', (4, 20, 100), (4, 100, 200)),
        T('bloom', 'fixed', 'Bloom', (0, 20, 60), (0, 60, 100), rounds=2),
    ]),
    'C21': dict(title='Consistent hash ring', jobs=[
        T('ketama', '', 'Ring', (4, 20, 60), (4, 100, 100)),
        T('ketama', 'pref', 'Ring', (4, 10, 60), (4, 60, 100)),
        T('ketama', 'many', 'Ring', (0, 3, 30), (0, 16, 60)),
        *DESIGN('MC_KetamaRing', ('ketama', '', 'Ring'), ['Holds', 'Sends'], [dict(Nodes=4, Points=4, Reps=1)],
                [dict(Nodes=4, Points=5, Reps=2)],
                [(v, dict(Nodes=2, Points=4, Reps=2)) for v in ('nowrap', 'after', 'first', 'others')]),
        *DESIGN('MC_KetamaRing', ('ketama', 'pref', 'Ring'), ['Holds', 'Sends'], [dict(Nodes=3, Points=5, Reps=2)],
                [dict(Nodes=3, Points=7, Reps=2)]),
    ]),
    'C22': dict(title='Sort and Stable', jobs=[
        T('algo', 'sort', 'Algo', (1, 200, 20), (1, 1000, 30), hunt=2),
        T('algo', 'sortbig', 'Algo', (0, 4, 8), (0, 20, 20)),
        *SORT('sort', ['sort', 'stable'], (6, 4, 3), (7, 5, 3),
              [('sort', 'median'), ('sort', 'overstep'), ('stable', 'strict'), ('stable', 'short')]),
    ]),
    'C23': dict(title='Binary search', jobs=[
        T('algo', 'search', 'Algo', (1, 100, 20), (1, 600, 30), hunt=2),
        T('algo', 'searchbig', 'Algo', (0, 4, 8), (0, 20, 20)),
        *SORT('search', ['bsearch', 'lower', 'upper'], (6, 5, 3), (9, 6, 4), [('upper', 'equal'), ('upper', 'mid')]),
    ]),
    'C24': dict(title='NextPermutation', jobs=[
        T('algo', 'perm', 'Algo', (1, 100, 20), (1, 600, 30), hunt=2),
        T('algo', 'permbig', 'Algo', (0, 4, 8), (0, 20, 20)),
        *SORT('perm', ['perm'], (6, 4, 3), (7, 5, 4), [('perm', 'ties')]),
    ]),
    'C25': dict(title='NthElement', jobs=[
        T('algo', 'nth', 'Algo', (1, 200, 20), (1, 1000, 30), hunt=2),
        T('algo', 'nthbig', 'Algo', (0, 4, 8), (0, 20, 20)),
        *SORT('nth', ['nth'], (5, 4, 3), (7, 5, 3), [('nth', 'median'), ('nth', 'left')]),
    ]),
    'C26': dict(title='Range algorithms', jobs=[
        T('algo', 'ops', 'Algo', (1, 200, 20), (1, 1000, 30), hunt=2),
        T('algo', 'opsbig', 'Algo', (0, 10, 12), (0, 30, 30)),
    ]),
    'C27': dict(title='Iterator protocol', jobs=[
        T('iter', '', 'Iter', (0, 400, 100), (0, 1500, 150)),
        T('iter', 'big', 'Iter', (0, 33, 80), (0, 110, 150)),
    ] + [T('iter', k, 'Iter', (4, 0, 0), (4, 0, 0), rounds=1) for k in 'abcdefghijk']),
    'C28': dict(title='Comparators', jobs=[
        T('cmp', '', 'Order', (1, 10, 100), (1, 60, 200)),
    ]),
    'C29': dict(title='Traversal', jobs=[
        T('walk', '', 'Walk', (1, 30, 30), (1, 200, 60)),
        T('walk', 'big', 'Walk', (0, 8, 8), (0, 40, 20)),
    ]),
    'C30': dict(title='Independence of instances', jobs=[
        T('frame', '', 'Frame', (0, 176, 60), (0, 600, 150)),
        dict(conc='alone:*'),
    ]),
    'C31': dict(title='Failed operations', jobs=[
        T('frame', 'fail', 'Frame', (0, 176, 60), (0, 600, 150)),
    ]),
    'C32': dict(CONC, title='Map and MultiMap, concurrently', jobs=LIN('map', 'map') + LIN('multimap', 'multimap')),
    'C33': dict(CONC, title='Set and MultiSet, concurrently', jobs=LIN('set') + LIN('multiset', 'multiset') + LIN('setalg', 'setalg')),
    'C34': dict(CONC, title='PriorityQueue, concurrently', jobs=LIN('pq', 'pq', progs=600)),
    'C35': dict(CONC, title='Queue and Stack, concurrently', jobs=LIN('queue', 'queue') + LIN('queue:list') +
                LIN('stack', 'stack') + LIN('stack:list')),
    'C36': dict(CONC, title='Skiplist, concurrently', jobs=LIN('skiplist', 'skiplist', progs=600)),
    'C37': dict(CONC, title='Hamt, concurrently', jobs=LIN('hamt', 'hamt', progs=600)),
    'C38': dict(CONC, title='BloomFilter and Ketama, concurrently', jobs=LIN('bloom', 'bloom') + LIN('ketama', 'ketama')),
    'C39': dict(CONC, title='Locks', technique='TLA+ specification of calls and locks, TLC on schedules of the real code',
                jobs=[dict(conc=c, locks=True) for c in CONCURRENT] + [
                    LOCKS(3, 'single'), LOCKS(3, 'again', expect='violation', props=False),
                    LOCKS(4, 'nested', expect='violation', props=False),
                    LOCKS(3, 'kept', expect='violation'),
                    LOCKS(4, 'single', props=False, tier='thorough', workers=4),
                    LOCKS(3, 'single', calls=2, tier='thorough', workers=4)]),
    'C40': dict(title='Hash expansion', jobs=[
        T('hash', '', 'HashInts', (2, 10, 20), (2, 40, 40), cfg='T_HashInts.cfg',
          known={'period8': {'KNOWN': 'period8'}}),
    ]),
}

# elements of other types: the containers of each property
for _id, _kinds in {
        'C01': 'deque', 'C02': 'vector', 'C03': 'array,slice', 'C04': 'bidlist', 'C05': 'simplelist', 'C06': 'queue,queuelist',
        'C07': 'stack,stacklist', 'C08': 'pq', 'C09': 'heap', 'C10': 'rbtree', 'C12': 'map', 'C13': 'multimap', 'C14': 'set',
        'C16': 'multiset', 'C17': 'skiplist', 'C18': 'hamt', 'C22': 'sorting'}.items():
    CHECKS[_id]['jobs'].append(T('elem', _kinds, 'Elem', (0, 32, 60), (0, 160, 200)))
