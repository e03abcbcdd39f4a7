"""C06: degrees, mean degrees and degree changes over time (all four temporal classes)."""
from itertools import combinations, permutations
from vlib.alpha import *
from vlib import chat, medium
from vlib.drive import Pair, op, KIND
from vlib.core import call_src

BOUNDS = {
    'quick': 'every set of <=2 of 40 (impulse: 20) edges and of <=5 of 11 edges, plus an isolated node, also after one '
             'removal; every window over times and midpoints, every inclusivity; degree, in_degree, out_degree of '
             'each node, mean over the window, and the list of changes; 12 other node/time alphabets; graphs of 14..1100 edges of '
             'every shape, end point pattern and order',
    'thorough': 'as quick with sets of <=6 of 11 edges',
}
BOUNDS['quick'] += '; every triple of 20 changes of a graph somewhere in its life, checked after each change'
ASSUMPTIONS = ['mean degree is not asked where no node is present']
PAIRS = [(0, 1), (1, 0), (1, 2), (0, 0)]
IV11 = [(0, 1, 0, 2), (0, 1, 1, 3), (1, 0, 0, 3), (1, 2, 0, 1), (1, 2, 2, 2), (0, 0, 1, 2), (0, 2, 1, 2), (0, 1, 0, 0),
        (2, 0, 2, 3), (0, 1, 3, 3), (1, 1, 0, 3)]
IM11 = [(0, 1, 0), (0, 1, 1), (1, 0, 2), (1, 2, 0), (1, 2, 2), (0, 0, 1), (0, 2, 1), (0, 1, 3), (2, 0, 2), (1, 1, 3),
        (2, 1, 1)]


def items(tier):
    out = []
    for cls in KIND:
        for c in range(16):
            out.append(('two', cls, c))
        for c in range(24):
            out.append(('four', cls, c, 5 if tier == 'quick' else 6))
        for (nk, tk) in NAMINGS:
            if tk != 'open':
                out.append(('naming', cls, nk, tk))
    for cls in KIND:
        out += medium.standard(cls, tier)
        out += chat.items(cls, 3 if tier == 'quick' else 4)
    return out


def kwin(b, e, inc):
    kw = {}
    if b is not None:
        kw['begin'] = b
    if e is not None:
        kw['end'] = e
    if inc is not None:
        kw['inclusive'] = inc
    return kw


def incident(m, n, which, b, e, inc):
    """Multiset of n's edges: an edge counts once per end in a directed graph's total degree."""
    args = (b, e) + ((inc,) if inc is not None else ())
    out = []
    if which in ('degree', 'out_degree'):
        out += list(m.select(n, None, *args))
    if m.directed and which in ('degree', 'in_degree'):
        out += list(m.select(None, n, *args))
    return out


def check(p, nodes, wins, incs):
    R, m, g = p.R, p.m, p.g
    methods = ('degree', 'in_degree', 'out_degree') if m.directed else ('degree',)
    if m.kind == 'interval':
        lo, hi = min([e[2] for e in m.edges] or [INF]), max([e[3] for e in m.edges] or [-INF])
    total = 0
    for inc in incs:
        for (b, e) in wins:
            kw = kwin(b, e, inc)
            args = (b, e) + ((inc,) if inc is not None else ())
            present = m.window_nodes(*args)
            for which in methods:
                counts = {}
                for n in nodes:
                    counts[n] = len(incident(m, n, which, b, e, inc))
                    total += counts[n]
                    if n == nodes[0]:      # the documented order of arguments
                        p.expect(counts[n], which, n, b, e, False, *args[2:])
                    p.expect(counts[n], which, n, **kw)
                if present:
                    want = sum(counts[n] if n in counts else len(incident(m, n, which, b, e, inc))
                               for n in present) / len(present)
                    got = p.ask(which, **kw)
                    if abs(got - want) > 1e-9:
                        p.wrong(want, got)
                for n in nodes:
                    if m.kind == 'interval':
                        check_interval_changes(p, n, which, b, e, lo, hi, kw)
                    else:
                        want = {}
                        for x in incident(m, n, which, b, e, inc):
                            want[x[2]] = want.get(x[2], 0) + 1
                        got = p.ask(which, n, delta=True, **kw)
                        if (got if m.directed else sorted(got)) != sorted(want.items()):
                            p.wrong(sorted(want.items()), got)
    R.state(m.canon_edges())
    R.outcome((p.cls, total))
    R.trace(p)


def check_interval_changes(p, n, which, b, e, lo, hi, kw):
    m = p.m
    b2, e2 = lo if b is None else b, hi if e is None else e
    edges = incident(m, n, which, b2, e2, None) if b2 <= e2 else []      # else the window lies outside the graph
    times = sorted([x[2] for x in edges if x[2] >= b2] + [x[3] for x in edges if x[3] < e2])
    got = p.ask(which, n, delta=True, **kw)
    if [t for t, _ in got] != times:
        p.wrong('changes at %s' % times, got, 'wrong change times from %s' % call_src('g', *p.q))
    last = dict(got)        # the last entry of each time
    # an end outside [begin, end) is not a change of this window
    want = {t: sum(1 for x in edges if x[2] <= t and not (x[3] <= t and x[3] < e2)) for t in times}
    if last != want:
        p.wrong('degree after each change %s' % want, got)


def run(item, R):
    fam, cls = item[:2]
    iv = KIND[cls][0] == 'interval'
    incs = (None,) if iv else (None,) + tuple(INCLUSIVE[1:])
    if fam == 'medium':
        bs = medium.bounds(item)
        check(Pair(R, cls, medium.ops(item)), [0, 1, 5, 99], windows(bs[1:] if item[5] < 20 else bs[1::2]), incs[:2])
    elif fam == 'chat':
        for p in chat.walk(item, R):
            check(p, [0, 1, 7], [(None, None), (None, 1), (1, None), (0, 2), (1, 1)], incs[:2])
    elif fam == 'two':
        pool = interval_edges(PAIRS, (0, 1, 2, 3)) if iv else impulse_edges(PAIRS, (0, 1, 2, 3))
        sets = [s for k in (1, 2) for s in combinations(pool, k)]
        for s in sets[item[2]::16]:
            p = Pair(R, cls, [op('add_node', 7)] + [op('add_edge', *e) for e in s])
            check(p, [0, 1, 7], windows([-1, 0, 0.5, 1, 2, 3, 4]), incs)
    elif fam == 'four':
        pool = IV11 if iv else IM11
        sets = [s for k in range(item[3] + 1) for s in combinations(pool, k)]
        for s in sets[item[2]::24]:
            ops = [op('add_edge', *e) for e in s] + [op('add_node', 3)]
            check(Pair(R, cls, ops), [0, 1], windows([0, 1, 2, 3]), incs[:2])
            if len(s) > 2:
                ops += [op('remove_edge', 0, 1, begin=1, end=2), op('remove_node', 2)]
                check(Pair(R, cls, ops), [0], windows([0, 1, 2]), incs[:2])
    else:
        n, t = NODES[item[2]], TIMES[item[3]]
        pairs = [(n[0], n[1]), (n[1], n[2]), (n[2], n[2])]
        pool = interval_edges(pairs, t) if iv else impulse_edges(pairs, t)
        for s in combinations(pool[::2] if iv else pool, 2):
            p = Pair(R, cls, [op('add_nodes_from', list(n))] + [op('add_edge', *e) for e in s])
            check(p, n, windows(bounds(t)) if len(pool) < 15 else windows(t), incs[:1])
