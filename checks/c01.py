"""C01: time-respecting edge queries of IntervalGraph / IntervalDiGraph."""
from itertools import permutations, product
from vlib.alpha import *
from vlib.drive import Pair, op
from vlib.suites import EdgeSuite, Many
from vlib import chat, scale

CLASSES = ('IntervalGraph', 'IntervalDiGraph')
BOUNDS = {
    'quick': 'all ordered sequences of <=2 edges over 3 nodes (9 endpoint pairs) x 10 intervals; all ordered '
             'sequences of <=5 of the 10 intervals over 4 times; all 5040 insertion orders of 3 seven-interval '
             'families; all ordered pairs over 12 other node/time alphabets; every window over the event times, '
             'midpoints and outside values x 20 endpoint arguments; 6 shapes x 8 insertion orders of 31 and 1400 edges; every triple of 20 changes of a graph somewhere in its life, checked after each change',
    'thorough': 'as quick, with sequences of <=3 edges of a reduced pool, <=6 intervals, 8-interval families, up to 4000 edges',
}

FAMILIES7 = [
    [(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 6), (6, 7)],
    [(0, 7), (1, 2), (2, 3), (3, 3), (4, 6), (5, 6), (6, 7)],
    [(0, 1), (0, 2), (0, 5), (3, 3), (3, 4), (3, 7), (6, 6)],
]
CYCLE = [(0, 1), (1, 2), (2, 0), (1, 0), (0, 0), (2, 1), (0, 2), (1, 1)]


def forms_for(n):
    a, b, c, z = n
    return [(None, None), (a, None), (b, None), (None, a), (None, b), (a, b), (b, a), (a, a), (z, None), (None, z),
            (a, z), (Many([a, b]), None), (None, Many([a, c])), (Many([a, b]), Many([b, c])), (Many([a, z]), None),
            (Many([b]), a), (Many([]), None), (a, Many([])), (Many([a, a, b]), Many([b, b])), (Many((a, c)), None), (None, Many({b, c})),
            (Many([a, b, c, z]), b)]


def items(tier):
    out = []
    for cls in CLASSES:
        for first in range(90):
            out.append(('pairs', cls, first))
    for (nk, tk) in NAMINGS:
        for cls in CLASSES:
            out.append(('naming', cls, nk, tk))
    for cls in CLASSES:
        for a in range(10):
            for b in range(10):
                if a != b:
                    out.append(('orders', cls, a, b, 5 if tier == 'quick' else 6))
        for f in range(3):
            for a, b in permutations(range(7), 2):
                out.append(('tree', cls, f, a, b))
    for cls in CLASSES:
        out += scale.scale_items(cls, tier)
        out += chat.items(cls, 3 if tier == 'quick' else 4)
    if tier == 'thorough':
        for cls in CLASSES:
            for a in range(30):
                for b in range(30):
                    out.append(('triples', cls, a, b))
    return out


_suites = {}


def suite(key, make):
    if key not in _suites:
        _suites[key] = make()
    return _suites[key]


def run(item, R):
    fam, cls = item[:2]
    if fam == 'chat':
        s = suite((fam, cls), lambda: EdgeSuite(
            cls, chat.pool(cls), forms_for((0, 1, 2, 8)), [(0, 1), (1, 0), (0, 0), (7, 8), (0, 9)], chat.WINS,
            exact=[(0, 1, 0, 2), (1, 0, 0, 2), (7, 8, -2, 5)]))
        for p in chat.walk(item, R):
            s.check(p)
            R.state(p.m.canon_edges())
    elif fam == 'pairs':
        n = NODES['int']
        pairs = list(product(n[:3], n[:3]))
        pool = interval_edges(pairs, TIMES['int'])
        s = suite((fam, cls), lambda: EdgeSuite(
            cls, pool, forms_for(n), [(0, 1), (1, 0), (0, 0), (1, 2), (0, 9), (9, 0)],
            windows([-1, 0, 0.5, 1, 2, 2.5, 3, 4]), exact=[(0, 1, l, h) for l in (0, 1, 2) for h in (0, 1, 2, 2.5)]))
        a = pool[item[2]]
        for b in [None] + pool:
            if b == a:
                continue
            p = Pair(R, cls, [op('add_edge', *e) for e in (a, b) if e is not None])
            s.check(p)
            R.state(p.m.canon_edges())
            R.trace(p)
    elif fam == 'triples':
        n = NODES['int']
        pool = interval_edges([(0, 1), (1, 0), (0, 2)], TIMES['int'])
        s = suite((fam, cls), lambda: EdgeSuite(cls, pool, forms_for(n), [(0, 1), (1, 0)],
                                                windows([-1, 0, 0.5, 1, 2, 3, 4])))
        a, b = pool[item[2]], pool[item[3]]
        for c in pool:
            p = Pair(R, cls, [op('add_edge', *e) for e in (a, b, c)])
            s.check(p)
            R.state(p.m.canon_edges())
            R.trace(p)
    elif fam == 'naming':
        n, t = NODES[item[2]], TIMES[item[3]]
        pairs = [(n[0], n[1]), (n[1], n[2]), (n[1], n[0]), (n[2], n[2])]
        pool = interval_edges(pairs, t)
        s = suite(item, lambda: EdgeSuite(
            cls, pool, forms_for(n), [(n[0], n[1]), (n[1], n[0]), (n[2], n[2]), (n[0], n[3])], windows(bounds(t)),
            exact=[(n[0], n[1], l, h) for l in t for h in t if l <= h]))
        small = pool[::2]
        for a in small:
            for b in small:
                p = Pair(R, cls, [op('add_nodes_from', list(n[:3])), op('add_edge', *a), op('add_edge', *b)])
                s.check(p)
                R.state(p.m.canon_edges())
                R.trace(p)
    elif fam == 'orders':
        ivs = intervals(TIMES['int'])
        pool = [CYCLE[i % 8] + iv for i, iv in enumerate(ivs)]
        s = suite((fam, cls), lambda: EdgeSuite(cls, pool, [(None, None), (0, None)], [(0, 1)],
                                                windows([-1, 0, 0.5, 1, 2, 2.5, 3, 4])))
        allwin = [q for q in s.queries if q[0] == 'edges' and 'u' not in q[2] and q[1][:1] in ((), (None,))]
        a, b, depth = item[2:]

        def extend(seq):
            p = Pair(R, cls, [op('add_edge', *pool[i]) for i in seq])
            s.check(p, None if len(seq) < 4 else allwin)
            R.state(p.m.canon_edges())
            R.trace(p)
            if len(seq) < depth:
                for i in range(len(pool)):
                    if i not in seq:
                        extend(seq + [i])
        extend([a, b])
    elif fam == 'scale':
        shape, order, n = item[2:]
        pool = scale.interval_pool(shape, n)
        pool = [pool[i] for i in scale.ORDERS[order](n)]
        p = Pair(R, cls)
        half = n // 2
        with scale.shallow(p):
            for part in (pool[:half], pool[half:]):
                for e in part:
                    p.do(op('add_edge', *e))
                for (b, e) in scale.probes(n):
                    kw = dict(([('begin', b)] if b is not None else []) + ([('end', e)] if e is not None else []))
                    present = p.m.select(None, None, b, e)
                    p.expect_edges(present, 'edges', **kw)
                    p.expect_edges(set(x for x in present if p.m.joins(x, 0, 1)), 'edges', 0, 1, **kw)
                    p.expect_edges(set(x for x in present if x[0] == 3 or (x[1] == 3 and not p.m.directed)), 'edges', 3, **kw)
                    p.expect(any(p.m.joins(x, 4, 6) for x in present), 'has_edge', 4, 6, **kw)
                R.state((item, len(p.m.edges)))
        R.trace()
    elif fam == 'tree':
        ivs = FAMILIES7[item[2]]
        pool = [CYCLE[i % 8] + iv for i, iv in enumerate(ivs)]
        s = suite((fam, cls, item[2]), lambda: EdgeSuite(cls, pool, [(None, None)], [],
                                                         windows([-1, 0, 1, 2, 2.5, 3, 4, 5, 6, 7, 8])))
        rest = [i for i in range(7) if i not in item[3:]]
        for k, perm in enumerate(permutations(rest)):
            p = Pair(R, cls)
            for i in list(item[3:]) + list(perm):
                p.do(op('add_edge', *pool[i]))
                if k % 8 == 0:
                    s.check(p)      # also while the tree grows: queries between insertions
                    R.state(p.m.canon_edges())
            s.check(p)
            R.state(p.m.canon_edges())
            R.trace(p)
