"""C04: time-respecting edge queries of ImpulseGraph / ImpulseDiGraph with every window inclusivity."""
from itertools import product
from vlib.alpha import *
from vlib import chat, medium
from vlib.drive import Pair, op
from vlib.suites import EdgeSuite, Many, cached
from checks.c01 import forms_for

CLASSES = ('ImpulseGraph', 'ImpulseDiGraph')
BOUNDS = {
    'quick': 'all ordered sequences of <=2 of 45 edges (9 endpoint pairs x 5 times) and of <=3 (thorough: 4) of 15; '
             '12 other node/time alphabets; every window over times, midpoints and outside values x the 4 '
             'inclusivities and the default x 16 endpoint arguments, between insertions and after them; graphs of 14..1100 edges of every shape, '
             'end point pattern and order',
}
BOUNDS['quick'] += '; every triple of 20 changes of a graph somewhere in its life, checked after each change'
BOUNDS['thorough'] = BOUNDS['quick']


def items(tier):
    out = []
    for cls in CLASSES:
        for first in range(45):
            out.append(('pairs', cls, first))
        for (nk, tk) in NAMINGS:
            if tk != 'open':
                out.append(('naming', cls, nk, tk))
        for a in range(15):
            for b in range(15):
                if a != b:
                    out.append(('seq', cls, a, b, 3 if tier == 'quick' else 4))
    for cls in CLASSES:
        out += medium.standard(cls, tier)
        out += chat.items(cls, 3 if tier == 'quick' else 4)
    return out


def run(item, R):
    fam, cls = item[:2]
    if fam == 'medium':
        s = cached(item[:4] + item[5:], lambda: EdgeSuite(cls, medium.edges(item), [(None, None), (0, None), (None, 1), (1, 0), (Many([0, 1, 4]), None), (2, Many((1, 3)))],
                                                          [(0, 1), (1, 0), (2, 2), (3, 4)], medium.wins(item), inclusives=medium.inclusives(cls)))
        p = Pair(R, cls, medium.ops(item))
        s.check(p)
        R.state(p.m.canon_edges())
        R.trace(p)
    elif fam == 'chat':
        s = cached((fam, cls), lambda: EdgeSuite(cls, chat.pool(cls), forms_for((0, 1, 2, 8)), [(0, 1), (1, 0), (0, 0), (7, 8), (0, 9)],
                                                 chat.WINS, inclusives=[None] + INCLUSIVE[1:]))
        for p in chat.walk(item, R):
            s.check(p)
            R.state(p.m.canon_edges())
    elif fam == 'pairs':
        n, t = NODES['int'], (0, 1, 2, 3, 5)
        pool = impulse_edges(list(product(n[:3], n[:3])), t)
        s = cached((fam, cls), lambda: EdgeSuite(cls, pool, forms_for(n), [(0, 1), (1, 0), (0, 0), (0, 9)],
                                                 windows([-1, 0, 0.5, 1, 2, 3, 4, 5, 6]),
                                                 inclusives=[None] + INCLUSIVE[1:]))
        a = pool[item[2]]
        for b in [None] + pool:
            p = Pair(R, cls, [op('add_edge', *e) for e in (a, b) if e is not None])
            s.check(p)
            R.state(p.m.canon_edges())
            R.trace(p)
    elif fam == 'naming':
        n, t = NODES[item[2]], TIMES[item[3]]
        pool = impulse_edges([(n[0], n[1]), (n[1], n[2]), (n[1], n[0]), (n[2], n[2])], t)
        s = cached(item, lambda: EdgeSuite(cls, pool, forms_for(n), [(n[0], n[1]), (n[2], n[2]), (n[0], n[3])],
                                           windows(bounds(t)), inclusives=[None] + INCLUSIVE))
        for a in pool:
            for b in pool[::3]:
                p = Pair(R, cls, [op('add_nodes_from', list(n[:3])), op('add_edge', *a), op('add_edge', *b)])
                s.check(p)
                R.state(p.m.canon_edges())
                R.trace(p)
    else:
        pool = impulse_edges([(0, 1), (1, 2), (1, 0)], (0, 1, 2, 3, 4))
        s = cached((fam, cls), lambda: EdgeSuite(cls, pool, [(None, None), (0, None), (None, 1), (1, 0)], [(0, 1)],
                                                 windows([-1, 0, 1, 1.5, 2, 4]), inclusives=INCLUSIVE))

        def extend(seq):
            p = Pair(R, cls)
            for i in seq[:-1]:
                p.do(op('add_edge', *pool[i]))
            if len(seq) == 3:
                s.check(p)          # a query between two insertions
            p.do(op('add_edge', *pool[seq[-1]]))
            s.check(p)
            R.state(p.m.canon_edges())
            R.trace(p)
            if len(seq) < item[4]:
                for i in range(len(pool)):
                    if i not in seq:
                        extend(seq + [i])
        extend([item[2], item[3]])
