"""C02: removals from interval graphs take out exactly the matching edges, from every query."""
from itertools import permutations, combinations
from vlib.alpha import *
from vlib.drive import Pair, op
from vlib.suites import EdgeSuite, NodeSuite, Many, cached
from vlib import chat, scale

CLASSES = ('IntervalGraph', 'IntervalDiGraph')
BOUNDS = {
    'quick': 'every set of <=3 of 15 edges x every one of ~80 removals; every set of <=3 of 8 edges x every ordered '
             'pair of ~33 removals; every history of <=4 of 16 operations; 7-interval families x all 5040 insertion '
             'orders x every single removal; 6-interval families x all 720 orders x every ordered triple of removals; '
             'then every windowed and unwindowed edge query; 6 shapes x 8 insertion orders x 8 removal orders of 31 and 1400 edges',
    'thorough': 'as quick, histories of <=5 operations, ordered triples of removals from 7-interval families, up to 4000 edges',
}
BOUNDS['quick'] += '; every triple of 20 changes of a graph somewhere in its life, checked after each change'
POOL = interval_edges([(0, 1), (1, 0), (1, 2), (0, 0)], (0, 1, 2, 3))
POOL15 = [e for e in POOL if (e[2], e[3]) in ((0, 0), (0, 2), (1, 2), (1, 3))][:15]
POOL8 = [(0, 1, 0, 2), (1, 0, 0, 2), (0, 1, 1, 3), (0, 0, 1, 2), (1, 2, 0, 2), (0, 1, 2, 2), (2, 0, 1, 1), (1, 2, 2, 3)]
WIN = [(None, None), (None, 1), (1, None), (2, 2), (0, 1), (1, 2), (0.5, 2.5), (3, 4), (0, 0)]


def removals():
    out = []
    for (u, v) in ((0, 1), (1, 0), (0, 0), (1, 2)):
        for (b, e) in WIN:
            out.append(op('remove_edge', u, v, b, e) if b == 0 or len(out) % 4 == 3 else op('remove_edge', u, v, **kwin(b, e)))
    for (u, v) in ((0, 1), (1, 0), (0, 0), (2, 1), (1, 2)):
        for (b, e) in ((0, 2), (1, 2), (2, 2), (1, 3), (0, 3)):
            out.append(op('remove_edge', u, v, b, e, False) if len(out) % 2 else op('remove_edge', u, v, begin=b, end=e, overlapping=False))
    for n in (0, 1, 2):
        for (b, e) in WIN:
            out.append(op('remove_node', n, b, e) if len(out) % 3 == 1 else op('remove_node', n, **kwin(b, e)))
    out += [op('remove_edge', 0, 9), op('remove_edge', 9, 0), op('remove_edge', 2, 0), op('remove_node', 9)]
    return out


def kwin(b, e):
    kw = {}
    if b is not None:
        kw['begin'] = b
    if e is not None:
        kw['end'] = e
    return kw


REM = removals()
REM2 = [r for i, r in enumerate(REM) if i % 3 == 0 or i > len(REM) - 6]
HIST = [op('add_edge', *e) for e in POOL8[:6]] + [
    op('remove_edge', 0, 1), op('remove_edge', 1, 0, begin=1, end=2),
    op('remove_edge', 0, 1, begin=0, end=2, overlapping=False),
    op('remove_edge', 0, 0), op('remove_node', 0), op('remove_node', 0, begin=0, end=1),
    op('remove_node', 1, begin=2, end=2), op('remove_node', 1, end=1), op('add_node', 2),
    op('remove_edge', 0, 1, begin=2)]

FAMILIES7 = [
    [(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 6), (6, 7)],
    [(0, 7), (1, 2), (2, 3), (3, 3), (4, 6), (5, 6), (6, 7)],
    [(0, 1), (0, 2), (0, 5), (3, 3), (3, 4), (3, 7), (6, 6)],
]
FAMILIES6 = [
    [(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 6)],
    [(0, 7), (1, 2), (2, 3), (3, 3), (4, 6), (5, 6)],
    [(0, 1), (0, 2), (0, 5), (3, 3), (3, 4), (3, 7)],
    [(0, 0), (1, 6), (1, 2), (2, 2), (2, 7), (3, 4)],
]
CYCLE = [(0, 1), (1, 2), (2, 0), (1, 0), (0, 0), (2, 1), (0, 2), (1, 1)]


def subsets(pool, k):
    out = []
    for i in range(1, k + 1):
        out += list(combinations(range(len(pool)), i))
    return out


def items(tier):
    out = []
    for cls in CLASSES:
        for r in range(len(REM)):
            out.append(('one', cls, r))
        for r in range(len(REM2)):
            out.append(('two', cls, r))
        for a in range(len(HIST)):
            for b in range(len(HIST)):
                out.append(('hist', cls, a, b, 4 if tier == 'quick' else 5))
    for f in range(3):
        for a in range(7):
            for b in range(7):
                if a != b:
                    out.append(('tree1', CLASSES[(f + a) % 2], f, a, b, 3 if tier == 'thorough' else 1))
    for f in range(4):
        for a in range(6):
            for b in range(6):
                if a != b:
                    out.append(('tree3', CLASSES[(f + a) % 2], f, a, b))
    for cls in CLASSES:
        out += chat.items(cls, 3 if tier == 'quick' else 4)
    k = 0
    for n in scale.sizes(tier):
        for s in scale.SHAPES:
            for o in scale.ORDERS:
                for r in scale.ORDERS:
                    k += 1
                    out.append(('scale', CLASSES[k % 2], s, o, r, n))
    return out


def suite(cls, pool, times):
    return (EdgeSuite(cls, pool, [(None, None), (0, None), (1, None), (None, 1), (0, 1), (1, 0), (Many([0, 2]), None)],
                      [(0, 1), (1, 2)], windows(times), exact=[(0, 1, 0, 2), (0, 1, 2, 2)]),
            NodeSuite(cls, pool, [0, 1], [(None, None), (0, 1), (1, 2), (2, 2)]))


def verify(p, s):
    s[0].check(p)
    s[1].check(p)
    p.R.state(p.m.canon_edges())


def scaled(item, R):
    _, cls, shape, order, removing, n = item
    pool = scale.interval_pool(shape, n)
    first = [pool[i] for i in scale.ORDERS[order](n)]
    half = n // 2
    p = Pair(R, cls)

    def look():
        for (b, e) in scale.probes(n):
            present = p.m.select(None, None, b, e)
            p.expect_edges(present, 'edges', **kwin(b, e))
            p.expect_edges(set(x for x in present if x[0] == 3 or (x[1] == 3 and not p.m.directed)), 'edges', 3, **kwin(b, e))
        if p.m.edges:
            p.expect((min(e[2] for e in p.m.edges), max(e[3] for e in p.m.edges)), 'interval')
        p.expect(sorted(set(e[2] for e in p.m.edges)), 'unique_begin_timestamps')
        R.state((item, len(p.m.edges)))
    with scale.shallow(p):
        for e in first[:half]:
            p.do(op('add_edge', *e))
        for e in first[:half:2]:
            p.do(op('remove_edge', *e, overlapping=False))
        look()
        for e in first[half:]:
            p.do(op('add_edge', *e))
        look()
        rest = [pool[i] for i in scale.ORDERS[removing](n) if pool[i] in p.m.edges or pool[i] not in first[:half:2]]
        for e in rest[:len(rest) // 2]:
            p.do(op('remove_edge', *e, overlapping=False))
        look()
        for e in rest[len(rest) // 2:-2]:
            p.do(op('remove_edge', *e, overlapping=False))
        look()
    R.trace()


def run(item, R):
    fam, cls = item[:2]
    if fam == 'chat':
        s = cached((fam, cls), lambda: suite(cls, chat.pool(cls), [-2, 0, 1, 2, 3, 5]))
        for p in chat.walk(item, R):
            verify(p, s)
    elif fam == 'one':
        s = cached(('one', cls), lambda: suite(cls, POOL15, [0, 0.5, 1, 2, 3]))
        for sub in [()] + subsets(POOL15, 3):
            p = Pair(R, cls, [op('add_edge', *POOL15[i]) for i in sub] + [REM[item[2]]])
            verify(p, s)
            R.trace(p)
    elif fam == 'two':
        s = cached(('two', cls), lambda: suite(cls, POOL8, [0, 1, 2, 3]))
        for sub in subsets(POOL8, 3):
            for r in REM2:
                p = Pair(R, cls, [op('add_edge', *POOL8[i]) for i in sub] + [REM2[item[2]], r])
                verify(p, s)
                R.trace(p)
    elif fam == 'hist':
        s = cached(('hist', cls), lambda: suite(cls, POOL8, [0, 1, 2, 3]))

        def extend(ops, depth):
            p = Pair(R, cls, ops)
            verify(p, s)
            R.trace(p)
            if depth:
                for o in HIST:
                    extend(ops + [o], depth - 1)
        extend([HIST[item[2]], HIST[item[3]]], item[4] - 2)
    elif fam == 'scale':
        scaled(item, R)
    else:
        ivs = FAMILIES7[item[2]] if fam == 'tree1' else FAMILIES6[item[2]]
        pool = [CYCLE[i % 8] + iv for i, iv in enumerate(ivs)]
        s = cached((fam, cls, item[2]), lambda: EdgeSuite(cls, pool, [(None, None)], [],
                                                          windows([0, 1, 2, 2.5, 3, 4, 5, 6, 7] if fam == 'tree1'
                                                                  else [0, 1, 2.5, 3, 4, 6])))
        rest = [i for i in range(len(ivs)) if i not in item[3:5]]
        n = item[5] if fam == 'tree1' else 3
        removal = [op('remove_edge', *e, overlapping=False) for e in pool]
        for perm in permutations(rest):
            adds = [op('add_edge', *pool[i]) for i in list(item[3:5]) + list(perm)]
            for seq in permutations(range(len(ivs)), n):
                p = Pair(R, cls, adds + [removal[i] for i in seq])
                s.check(p)
                R.state(p.m.canon_edges())
                R.trace(p)
