"""C09: slicing into snapshots covers the whole extent with equal, adjacent windows."""
from itertools import combinations, product
from vlib.alpha import *
from vlib.drive import Pair, op, KIND
from vlib.static import mismatch
from vlib import chat, medium
from checks.c08 import IV, IM, SETUP

BOUNDS = {
    'quick': 'every set of 1..5 of 11 attributed edges, also after a removal; 2..7 snapshots and 8 int/float lengths; '
             'data options; shifted/negative/float times; extents whose snapshot length is not representable; regular graphs of 14..1100 edges, 2..100 snapshots',
    'thorough': 'as quick with sets of <=7 edges and regular graphs of 90 edges',
}
BOUNDS['quick'] += '; every triple of 20 changes of a graph somewhere in its life, checked after each change'
ASSUMPTIONS = ['the graph has a positive extent',
               'the exact content is compared where the window bounds are exact or away from event times; otherwise '
               'only that every impulse is in exactly one snapshot and every edge in at least one']
TIMEMAPS = {'id': lambda t: t, 'neg': lambda t: t - 5, 'half': lambda t: t / 2.0 - 0.25, 'far': lambda t: 4 * t + 1000}


def items(tier):
    out = []
    for cls in KIND:
        for c in range(12):
            for tm in TIMEMAPS:
                out.append(('sets', cls, c, tm, 5 if tier == 'quick' else 7))
        for c in range(8):
            out.append(('rounding', cls, c))
        out += [('rest', cls, L) for L in (1, 3, 4000, 10 ** 6, 0.5, 2.5, 1024.0)]
        out += medium.standard(cls, tier)
        out += chat.items(cls, 3 if tier == 'quick' else 4)
    return out


def check_slices(p, number=None, length=None, multi=True, ed=True, td=False, nd=False, exact=True, ret=False):
    m = p.m
    at = 3 if m.kind == 'interval' else 2
    lo, hi = min(e[2] for e in m.edges), max(e[at] for e in m.edges)
    tkey = 'edge_interval_data' if m.kind == 'interval' else 'edge_timestamp_data'
    kw = {'multigraph': multi, 'edge_data': ed, 'node_data': nd, tkey: td}
    if ed ^ multi ^ (ret and number is not None):     # what is not asked for need not be named
        kw = {x: y for x, y in kw.items() if y}
    if number is not None:
        kw['number_of_snapshots'] = n = number
        L = (hi - lo) / number
    else:
        kw['length_of_snapshots'] = L = length
        n = int(-((lo - hi) // length))
    if ret:
        kw['return_length'] = True
    if ret and multi:       # the documented order of arguments
        got = p.ask('to_snapshots', kw.get('number_of_snapshots', False), kw.get('length_of_snapshots', False), multi, ed, td, nd, True)
    else:
        got = p.ask('to_snapshots', **kw)
    if ret:
        got, l = got
        if l != L:
            p.wrong(('length', L), ('length', l))
    if type(got) is not list or len(got) != n:
        p.wrong('%d snapshots' % n, got)
    if exact:
        for i in range(n):
            b, e = lo + L * i, lo + L * (i + 1)
            if m.kind == 'interval':
                edges = [x for x in m.edges if m.present(x, b, e) or (i == n - 1 and b <= x[2] <= hi)]
            else:
                edges = [x for x in m.edges if b <= x[2] and (x[2] < e or i == n - 1)]
            bad = mismatch(m, got[i], edges, multi, ed, td, nd)
            if bad:
                p.wrong(('snapshot %d' % i,) + bad[:1], bad[1])
    else:       # identify edges by their data and count in how many snapshots each is
        for x in m.edges:
            k = sum(1 for S in got for _, _, d in S.edges(data=True) if d.get('id') == m.edges[x]['id'])
            if k < 1 or (m.kind == 'impulse' and k != 1):
                p.wrong('edge %r in %s' % (x, 'one snapshot' if m.kind == 'impulse' else 'some snapshot'), k)
        last = got[-1]
        at_end = [m.edges[x]['id'] for x in m.edges if x[at] == hi]
        ids = [d['id'] for _, _, d in last.edges(data=True)]
        if not set(at_end) <= set(ids):
            p.wrong('the last snapshot holds the edges at the end of the graph %s' % at_end, ids)
    p.R.outcome((n, tuple(S.number_of_edges() for S in got)))


def run(item, R):
    fam, cls = item[:2]
    iv = KIND[cls][0] == 'interval'
    if fam == 'sets':
        f = TIMEMAPS[item[3]]
        pool = [(e[:2] + tuple(f(t) for t in e[2:]), a) for e, a in (IV if iv else IM)]
        unit = f(1) - f(0)
        sets = [s for k in range(1, item[4] + 1) for s in combinations(pool, k)]
        for i, s in enumerate(sets[item[2]::12]):
            ops = SETUP + [op('add_edge', *e, **a) for e, a in s]
            variants = [ops]
            if len(s) == 3:
                variants.append(ops + [op('remove_edge', s[0][0][0], s[0][0][1])])
            for v in variants:
                p = Pair(R, cls, v)
                m = p.m
                if not m.edges:
                    continue
                at = 3 if iv else 2
                span = max(e[at] for e in m.edges) - min(e[2] for e in m.edges)
                if span <= 0:
                    continue
                for n in (2, 3, 4, 5, 7):
                    # inexact only when the division rounds and a bound may meet an event
                    exact = (span / n * n == span) and (span / n) * 1024 == int((span / n) * 1024) or \
                        all(((x - min(e[2] for e in m.edges)) * n / span) != int((x - min(e[2] for e in m.edges)) * n / span)
                            or x in (min(e[2] for e in m.edges), max(e[at] for e in m.edges))
                            for e in m.edges for x in e[2:])
                    if not exact:
                        continue
                    check_slices(p, number=n, multi=True, ret=(n == 3))
                    check_slices(p, number=n, multi=False, ed=bool(n % 2), td=not n % 2, nd=n == 4)
                for L in (unit, unit / 2, unit * 1.5, unit * 2, unit / 4, unit * 0.75):
                    for LL in ([L] if L != int(L) else [int(L), float(L)]):
                        if -(-span // LL) >= 2:
                            check_slices(p, length=LL, multi=True, td=True, nd=True, ret=LL == unit)
                R.state(m.canon())
                R.trace(p)
    elif fam == 'rest':
        # extents that exceed a multiple of the length by little or by nearly everything (all sums exact)
        L = item[2]
        for lo in (0, -5, 100, -L):
            for k in (1, 2, 3, 7):
                for r in ([0] + [x for x in (1, L - 1, L // 2) if 0 < x < L] if type(L) is int else [0, L / 1024, L / 2, L - L / 1024]):
                    hi = lo + k * L + r
                    ts = sorted(set([lo, hi, lo + L, lo + k * L, lo + L // 2 if type(L) is int else lo + L / 2] +
                                    [lo + i * L for i in range(k)]))
                    if iv:
                        es = [(i % 3, (i + 1) % 3, a, b) for i, (a, b) in enumerate(zip(ts, ts[1:]))] + [(0, 2, hi, hi), (1, 2, lo, lo)]
                    else:
                        es = [(i % 3, (i + 1) % 3, t) for i, t in enumerate(ts)]
                    p = Pair(R, cls, [op('add_edge', *e, id=i) for i, e in enumerate(es)])
                    for LL in (L, float(L)):
                        if hi - lo > L:
                            check_slices(p, length=LL, ret=True)
                            check_slices(p, length=LL, multi=False, td=True)
                    for n in (2, 4, 8):
                        if type(L) is int and (hi - lo) % n == 0:
                            check_slices(p, number=n, ret=True)
                    R.state(p.m.canon())
                    R.trace(p)
    elif fam == 'chat':
        for p in chat.walk(item, R):
            es = p.m.edges
            span = max(e[3 if iv else 2] for e in es) - min(e[2] for e in es) if es else 0
            if span > 0:
                check_slices(p, number=4, td=True, nd=True)
                check_slices(p, number=2, multi=False, ed=False, ret=True)
                if span > 1:
                    check_slices(p, length=1, nd=True)
                    check_slices(p, length=1.0, multi=False, td=True, ed=True)
            R.state(p.m.canon())
    elif fam == 'medium':
        p = Pair(R, cls, medium.ops(item))
        m = p.m
        at = 3 if iv else 2
        lo, hi = min(e[2] for e in m.edges), max(e[at] for e in m.edges)
        span = hi - lo
        if span <= 0:
            return
        for n in (2, 4, 5, 8, 16, 32, 64, 100):
            # all bounds exact: the times are multiples of 1/2
            if (span / n) * 1024 == int((span / n) * 1024):
                check_slices(p, number=n, multi=n % 5 == 0, td=n == 8, nd=n == 16, ret=n == 32)
        for L in (1, 2, 1.0, 2.5, 0.75, 3, 7, span // 2 or 1, max(span - 1, 1)):
            if -(-span // L) >= 2:
                check_slices(p, length=L, multi=L != 2, td=L == 3, nd=L == 7, ret=L == 0.75)
        R.state(m.canon())
        R.trace(p)
    else:
        # extents and counts for which begin + length * i rounds
        for n in (3, 6, 7, 9, 10, 11, 13, 19, 23, 29, 49):
            for (lo, hi) in ((0, 1), (0, 0.7), (0.1, 0.8), (-0.3, 0.6), (1, 2.1), (100, 101), (0, 10), (-7, 0.1))[item[2]:item[2] + 1]:
                ts = [lo, lo + (hi - lo) / 3, lo + (hi - lo) * 0.5, lo + (hi - lo) / n, lo + 2 * (hi - lo) / n, hi]
                es = [(i % 3, (i + 1) % 3, t) for i, t in enumerate(ts)]
                if iv:
                    es = [(u, v, t, t2) for (u, v, t) in es[:-1] for t2 in (t, hi)] + [(0, 0, hi, hi)]
                p = Pair(R, cls, [op('add_edge', *e, id=i) for i, e in enumerate(es)])
                for e in p.m.edges:
                    p.m.edges[e].setdefault('id', -1)
                check_slices(p, number=n, exact=False)
                R.state(p.m.canon())
                R.trace(p)
