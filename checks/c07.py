"""C07: the extent of a graph and its distinct timestamps follow its edges through every history."""
from itertools import combinations, permutations
from vlib.alpha import *
from vlib import chat, medium
from vlib.drive import Pair, op, KIND
from checks.c02 import FAMILIES6, FAMILIES7, CYCLE

BOUNDS = {
    'quick': 'every history of <=5 of 13 operations (adds, exact/windowed removals, node removals); every insertion '
             'order of 6-interval families x every ordered quadruple of removals; every set of <=3 of 14 intervals and '
             'every window x inclusivity of the timestamp queries; other time alphabets; graphs of 14..1100 edges of every shape, '
             'end point pattern and order, before and after half of it is removed',
    'thorough': 'as quick, histories of <=6 operations',
}
BOUNDS['quick'] += '; every triple of 20 changes of a graph somewhere in its life, checked after each change'
ASSUMPTIONS = ['the extent of an interval graph without edges is not asked']
TS = ('unique_timestamps', 'unique_begin_timestamps', 'unique_end_timestamps')


def ops_for(cls):
    if KIND[cls][0] == 'interval':
        return [op('add_edge', 0, 1, 0, 2), op('add_edge', 1, 2, 1, 3), op('add_edge', 0, 1, 1, 2),
                op('add_edge', 2, 0, 0, 3), op('add_edge', 1, 1, 3, 3), op('add_edge', 0, 2, 2, 2),
                op('add_edge', 0, 2, -1, 1),
                op('remove_edge', 0, 1), op('remove_edge', 1, 2, begin=1, end=3, overlapping=False),
                op('remove_node', 0), op('remove_node', 1, begin=3), op('remove_node', 2, end=1),
                op('remove_edge', 0, 2)]
    return [op('add_edge', 0, 1, 0), op('add_edge', 1, 2, 1), op('add_edge', 0, 1, 2), op('add_edge', 2, 0, 0),
            op('add_edge', 1, 1, 3), op('add_edge', 0, 2, -1), op('add_edge', 2, 1, 3),
            op('remove_edge', 0, 1), op('remove_edge', 1, 2, begin=1, end=1), op('remove_node', 0),
            op('remove_node', 1, begin=3), op('remove_node', 2, end=1), op('remove_edge', 0, 2)]


def items(tier):
    out = []
    for cls in KIND:
        for a in range(13):
            for b in range(13):
                out.append(('hist', cls, a, b, 5 if tier == 'quick' else 6))
    for cls in ('IntervalGraph', 'IntervalDiGraph'):
        for c in range(10):
            out.append(('stamps', cls, c))
        for t in TIMES:
            out.append(('times', cls, t))
    for f in range(4):
        for a in range(6):
            for b in range(6):
                if a != b:
                    out.append(('tree', ('IntervalGraph', 'IntervalDiGraph')[(f + a) % 2], f, a, b))
    for cls in KIND:
        out += medium.standard(cls, tier)
        out += chat.items(cls, 3 if tier == 'quick' else 4)
    return out


def extent(p):
    m = p.m
    if m.edges:
        if m.kind == 'interval':
            want = (min(e[2] for e in m.edges), max(e[3] for e in m.edges))
        else:
            want = (min(e[2] for e in m.edges), max(e[2] for e in m.edges))
        got = p.ask('interval')
        if tuple(got) != want:
            p.wrong(want, got)
        p.R.outcome(want)
    elif m.kind == 'impulse':
        try:
            got = p.ask('interval')
        except IndexError:
            return
        p.wrong('IndexError', got)


def stamps(p, wins, incs):
    m = p.m
    for which in TS:
        ends = {'unique_timestamps': (2, 3), 'unique_begin_timestamps': (2,), 'unique_end_timestamps': (3,)}[which]
        times = sorted(set(e[i] for e in m.edges for i in ends))
        for (b, e) in wins:
            for inc in incs:
                kw = {}
                if b is not None:
                    kw['begin'] = b
                if e is not None:
                    kw['end'] = e
                i = inc or (True, True)
                if (b is None and not i[0]) or (e is None and not i[1]):
                    continue    # an exclusive bound that was not given
                if inc is not None:
                    kw['inclusive'] = inc
                want = [t for t in times
                        if (b is None or t > b or (t == b and i[0])) and (e is None or t < e or (t == e and i[1]))]
                got = p.ask(which, **kw)
                if list(got) != want:
                    p.wrong(want, got)


def run(item, R):
    fam, cls = item[:2]
    if fam == 'medium':
        p = Pair(R, cls, medium.ops(item))
        iv = KIND[cls][0] == 'interval'
        es = medium.edges(item)
        for part in ((), es[:len(es) // 3], es[:len(es) // 3:-1]):
            for e in part:
                p.do(op('remove_edge', *e, overlapping=False) if iv else op('remove_edge', *(e + e[2:])))
                extent(p)
            extent(p)
            if iv:
                stamps(p, medium.wins(item), [None, (False, True), (True, False)])
            R.state(p.m.canon_edges())
        R.trace(p)
    elif fam == 'chat':
        for p in chat.walk(item, R):
            extent(p)
            if p.m.kind == 'interval':
                stamps(p, chat.WINS, [None, (False, True), (True, False)])
            R.state(p.m.canon_edges())
    elif fam == 'hist':
        ops = ops_for(cls)

        def extend(seq, depth):
            p = Pair(R, cls, seq)
            extent(p)
            if p.m.kind == 'interval':
                stamps(p, [(None, None), (0, 2)], [None])
            R.state(p.m.canon_edges())
            R.trace(p)
            if depth:
                for o in ops:
                    extend(seq + [o], depth - 1)
        extend([ops[item[2]], ops[item[3]]], item[4] - 2)
    elif fam == 'stamps':
        pool = [(i % 3, (i + 1) % 3) + iv for i, iv in enumerate(intervals((-1, 0, 1, 2)) + intervals((0, 3))[1:2])]
        sets = [s for k in range(4) for s in combinations(pool, k)]
        for s in sets[item[2]::10]:
            p = Pair(R, cls, [op('add_node', 0)] + [op('add_edge', *e) for e in s])
            stamps(p, windows([-2, -1, -0.5, 0, 1, 2, 3]), [None] + INCLUSIVE)
            extent(p)
            R.state(p.m.canon_edges())
            R.trace(p)
    elif fam == 'times':
        t = TIMES[item[2]]
        pool = [(i % 3, (i + 1) % 3) + iv for i, iv in enumerate(intervals(t))]
        for k in (1, 2, 3):
            for s in combinations(pool, k):
                p = Pair(R, cls, [op('add_edge', *e) for e in s])
                stamps(p, windows(bounds(t)), [None, (False, True), (True, False)])
                extent(p)
                p.do(op('remove_edge', *s[0], overlapping=False))
                stamps(p, [(None, None)], [None])
                extent(p)
                R.state(p.m.canon_edges())
                R.trace(p)
    else:
        pool = [CYCLE[i % 8] + iv for i, iv in enumerate(FAMILIES6[item[2]])]
        rest = [i for i in range(6) if i not in item[3:5]]
        for perm in permutations(rest):
            adds = [op('add_edge', *pool[i]) for i in list(item[3:5]) + list(perm)]
            for k in (2, 4):
                for seq in permutations(range(6), k):
                    p = Pair(R, cls, adds)
                    for i in seq:
                        p.do(op('remove_edge', *pool[i], overlapping=False))
                    extent(p)
                    stamps(p, [(None, None)], [None])
                    R.state(p.m.canon_edges())
                    R.trace(p)
