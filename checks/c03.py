"""C03: which nodes a temporal graph has, in general and in a window (all four temporal classes)."""
from itertools import combinations, product
from vlib.alpha import *
from vlib import chat, medium
from vlib.drive import Pair, op, KIND
from vlib.suites import NodeSuite, cached

BOUNDS = {
    'quick': 'every ordered sequence of <=2 edges over 9 endpoint pairs x 10 intervals (4 instants), with and without '
             'isolated nodes; every history of <=4 of 15 operations (adds, removals, windowed removals); 12 other '
             'node/time alphabets; graphs of 14..1100 edges of every shape, end point pattern and order; every window over event times, midpoints, outside values, every inclusivity',
    'thorough': 'as quick, histories of <=5 operations and sequences of <=3 edges of a reduced pool',
}
BOUNDS['quick'] += '; every triple of 20 changes of a graph somewhere in its life, checked after each change'
ASSUMPTIONS = ['node queries of interval graphs with begin > end are not asked']


def items(tier):
    out = []
    for cls in KIND:
        for first in range(18):
            out.append(('pairs', cls, first))
    for cls in KIND:
        for (nk, tk) in NAMINGS:
            out.append(('naming', cls, nk, tk))
    for cls in KIND:
        for a in range(15):
            for b in range(15):
                out.append(('hist', cls, a, b, 4 if tier == 'quick' else 5))
    for cls in KIND:
        out += medium.standard(cls, tier)
        out += chat.items(cls, 3 if tier == 'quick' else 4)
    return out


def pool_for(cls, pairs, times):
    return (interval_edges if KIND[cls][0] == 'interval' else impulse_edges)(pairs, times)


def history_ops(cls):
    iv = KIND[cls][0] == 'interval'

    def edge(u, v, l, h):
        return op('add_edge', *((u, v, l, h) if iv else (u, v, l)))
    return [edge(0, 1, 0, 2), edge(1, 2, 1, 2), edge(0, 0, 2, 3), edge(2, 0, 1, 3), edge(0, 1, 2, 2),
            op('add_node', 0), op('add_nodes_from', [1, (3, {'k': 1})]),
            op('remove_node', 0), op('remove_node', 1, begin=1, end=2), op('remove_node', 2, end=2),
            op('remove_node', 0, begin=2, end=2), op('remove_edge', 0, 1), op('remove_edge', 1, 2, begin=1),
            op('remove_edge', 0, 0), op('remove_node', 3)]


def run(item, R):
    fam, cls = item[:2]
    iv = KIND[cls][0] == 'interval'
    inclusives = (None,) if iv else (None, (True, True), (False, True), (False, False))
    if fam == 'medium':
        s = cached(item[:4] + item[5:], lambda: NodeSuite(cls, medium.edges(item), [0, 1, 3, 99], medium.wins(item), medium.inclusives(cls)))
        p = Pair(R, cls, medium.ops(item))
        s.check(p)
        R.state(p.m.canon_edges())
        R.trace(p)
    elif fam == 'chat':
        s = cached((fam, cls), lambda: NodeSuite(cls, chat.pool(cls), chat.NODES, chat.WINS, inclusives[:3]))
        for p in chat.walk(item, R):
            s.check(p)
            R.state(p.m.canon_edges())
    elif fam == 'pairs':
        n = NODES['int']
        pairs = list(product(n[:3], n[:3]))
        pool = pool_for(cls, pairs, TIMES['int'])
        s = cached((fam, cls), lambda: NodeSuite(cls, pool, n, windows([-1, 0, 0.5, 1, 2, 2.5, 3, 4]), inclusives))
        for i in range(item[2], len(pool), 18):
            for b in [None] + pool:
                for extra in ([], [op('add_node', 9)]):
                    p = Pair(R, cls, extra + [op('add_edge', *e) for e in (pool[i], b) if e is not None])
                    s.check(p)
                    R.state(p.m.canon_edges())
                    R.trace(p)
                    if i % 3 or (b is not None and pool.index(b) % 2):
                        break
    elif fam == 'naming':
        n, t = NODES[item[2]], TIMES[item[3]]
        pairs = [(n[0], n[1]), (n[1], n[2]), (n[2], n[2])]
        pool = pool_for(cls, pairs, [x for x in t if iv or abs(x) != INF])
        s = cached(item, lambda: NodeSuite(cls, pool, n, windows(bounds(t)), inclusives))
        for a in pool:
            for b in pool[::2]:
                p = Pair(R, cls, [op('add_node', n[3]), op('add_edge', *a), op('add_edge', *b)])
                s.check(p)
                R.state(p.m.canon_edges())
                R.trace(p)
    else:
        ops = history_ops(cls)
        pool = [o[1] for o in ops if o[0] == 'add_edge']
        s = cached((fam, cls), lambda: NodeSuite(cls, pool, [0, 1, 3], windows([0, 1, 2, 3]), inclusives[:2]))

        def extend(seq, depth):
            p = Pair(R, cls, seq)
            s.check(p)
            R.state(p.m.canon_edges())
            R.trace(p)
            if depth:
                for o in ops:
                    extend(seq + [o], depth - 1)
        extend([ops[item[2]], ops[item[3]]], item[4] - 2)
