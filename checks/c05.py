"""C05: removals from impulse graphs take out exactly the matching edges, from every query."""
from itertools import combinations
from vlib.alpha import *
from vlib.drive import Pair, op
from vlib.suites import EdgeSuite, NodeSuite, Many, cached
from vlib import chat, scale

CLASSES = ('ImpulseGraph', 'ImpulseDiGraph')
BOUNDS = {
    'quick': 'every set of <=4 of 10 edges x every one of ~100 removals (windows x inclusivities); every set of <=3 of '
             '7 edges x every ordered pair of ~35 removals; every history of <=4 of 16 operations; then every edge and '
             'node query; 8 insertion orders x 8 removal orders of 31 and 1400 edges',
    'thorough': 'as quick, histories of <=5 operations, up to 4000 edges',
}
BOUNDS['quick'] += '; every triple of 20 changes of a graph somewhere in its life, checked after each change'
POOL = [(0, 1, 0), (0, 1, 1), (1, 0, 2), (0, 1, 3), (1, 2, 0), (2, 1, 1), (1, 2, 2), (0, 0, 1), (0, 0, 3), (2, 0, 2)]
WIN = [(None, None), (None, 1), (1, None), (1, 1), (0, 2), (1, 3), (0.5, 0.5), (2, 2)]


def kwin(b, e, inc=None):
    kw = {}
    if b is not None:
        kw['begin'] = b
    if e is not None:
        kw['end'] = e
    if inc is not None:
        kw['inclusive'] = inc
    return kw


def removals():
    out = []
    for (b, e) in WIN:
        for inc in (None, (True, True), (False, True), (False, False)):
            if b is None and e is None and inc is not None:
                continue
            if b is not None and b == e and inc == (False, True):
                continue
            for (u, v) in ((0, 1), (1, 0), (0, 0)):
                out.append(op('remove_edge', u, v, b, e, inc) if inc and len(out) % 2 else op('remove_edge', u, v, **kwin(b, e, inc)))
            for n in (0, 1):
                out.append(op('remove_node', n, b, e, inc) if inc and len(out) % 2 else op('remove_node', n, **kwin(b, e, inc)))
    return out + [op('remove_edge', 0, 9), op('remove_edge', 2, 1), op('remove_node', 2), op('remove_node', 9)]


REM = removals()
REM2 = [r for i, r in enumerate(REM) if i % 4 == 0 or i > len(REM) - 5]
HIST = [op('add_edge', *e) for e in POOL[:8:1]] + [
    op('remove_edge', 0, 1), op('remove_edge', 1, 0, begin=1, end=2), op('remove_edge', 0, 1, begin=2, end=2),
    op('remove_node', 0), op('remove_node', 1, begin=1), op('remove_node', 1, end=2), op('add_node', 2),
    op('remove_edge', 0, 0)]


def items(tier):
    out = []
    for cls in CLASSES:
        for r in range(len(REM)):
            out.append(('one', cls, r))
        for r in range(len(REM2)):
            out.append(('two', cls, r))
        for a in range(len(HIST)):
            for b in range(len(HIST)):
                out.append(('hist', cls, a, b, 4 if tier == 'quick' else 5))
        out += chat.items(cls, 3 if tier == 'quick' else 4)
        for n in scale.sizes(tier):
            for o in scale.ORDERS:
                for r in scale.ORDERS:
                    out.append(('scale', cls, o, r, n))
    return out


def scaled(item, R):
    _, cls, order, removing, n = item
    pool = scale.impulse_pool(n)
    first = [pool[i] for i in scale.ORDERS[order](n)]
    p = Pair(R, cls)

    def look():
        for (b, e) in scale.probes(n):
            for inc in (None, (False, True)):
                args = (b, e) + ((inc,) if inc else ())
                present = p.m.select(None, None, *args)
                p.expect_edges(present, 'edges', **kwin(b, e, inc))
                p.expect_edges(set(x for x in present if x[0] == 3 or (x[1] == 3 and not p.m.directed)), 'edges', 3,
                               **kwin(b, e, inc))
                p.expect(any(p.m.joins(x, 4, 6) for x in present), 'has_edge', 4, 6, **kwin(b, e, inc))
        if p.m.edges:
            p.expect((min(e[2] for e in p.m.edges), max(e[2] for e in p.m.edges)), 'interval')
        R.state((item, len(p.m.edges)))
    half = n // 2
    for e in first[:half]:
        p.do(op('add_edge', *e))
    for e in first[:half:2]:
        p.do(op('remove_edge', e[0], e[1], begin=e[2], end=e[2]))
    look()
    for e in first[half:]:
        p.do(op('add_edge', *e))
    look()
    rest = [pool[i] for i in scale.ORDERS[removing](n)]
    for e in rest[:len(rest) // 2]:
        p.do(op('remove_edge', e[0], e[1], begin=e[2], end=e[2]))
    look()
    for e in rest[len(rest) // 2:-2]:
        p.do(op('remove_edge', e[0], e[1], begin=e[2], end=e[2]))
    look()
    R.trace()


def run(item, R):
    fam, cls = item[:2]
    if fam == 'scale':
        return scaled(item, R)
    if fam == 'chat':
        es = cached((fam, cls), lambda: EdgeSuite(cls, chat.pool(cls), [(None, None), (0, None), (None, 1), (0, 1), (1, 0)],
                                                  [(0, 1), (1, 2), (7, 8)], chat.WINS, inclusives=[None, (True, True)]))
        ns = cached((fam, 'ns', cls), lambda: NodeSuite(cls, chat.pool(cls), chat.NODES, chat.WINS))
        for p in chat.walk(item, R):
            es.check(p)
            ns.check(p)
            R.state(p.m.canon_edges())
        return
    es = cached(('es', cls), lambda: EdgeSuite(cls, POOL, [(None, None), (0, None), (None, 1), (0, 1), (1, 0)],
                                               [(0, 1), (1, 2)], windows([0, 1, 2, 3]),
                                               inclusives=[None, (True, True)]))
    ns = cached(('ns', cls), lambda: NodeSuite(cls, POOL, [0, 1], [(None, None), (0, 1), (2, 2)]))

    def verify(ops):
        p = Pair(R, cls, ops)
        es.check(p)
        ns.check(p)
        R.state(p.m.canon_edges())
        R.trace(p)
    if fam == 'one':
        for k in range(5):
            for sub in combinations(POOL, k):
                verify([op('add_edge', *e) for e in sub] + [REM[item[2]]])
    elif fam == 'two':
        for k in range(1, 4):
            for sub in combinations(POOL[1:8], k):
                for r in REM2:
                    verify([op('add_edge', *e) for e in sub] + [REM2[item[2]], r])
    else:
        def extend(ops, depth):
            verify(ops)
            if depth:
                for o in HIST:
                    extend(ops + [o], depth - 1)
        extend([HIST[item[2]], HIST[item[3]]], item[4] - 2)
