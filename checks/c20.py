"""C20: temporal motif counts are exactly the ordered edge sequences that match the motif within delta."""
import random
from itertools import combinations, product
import dynetworkx as dnx
from vlib import chat
from vlib.alpha import *
from vlib.drive import Pair, op

BOUNDS = {
    'quick': 'every set of <=4 of 14 edges over 3 nodes/4 times and of <=5 of 8 edges over 5 nodes x 14 motifs x 4 '
             'deltas; every connected motif of <=3 edges (with self-loops, <=4 nodes) on 6 dense graphs; every '
             'outcome of every random choice of the enumeration on 3-node graphs, every outcome with <=2 deviations '
             'on 4-node graphs; string, tuple, frozenset, mixed and negative node names, float and huge time alphabets; 8 graphs of 40 and 110 edges x the 14 motifs',
    'thorough': 'as quick with sets of <=5 of 14 / <=6 of 10 edges, motifs of <=4 edges',
}
BOUNDS['quick'] += '; every pair of 20 changes of a graph somewhere in its life, checked after each change'
ASSUMPTIONS = ['the motif is connected', 'the edges of an occurrence have strictly increasing times']
M14 = [((1, 2),), ((1, 1),), ((1, 2), (1, 2)), ((1, 2), (2, 1)), ((1, 2), (2, 3)), ((1, 2), (3, 2)), ((1, 2), (1, 3)),
       ((1, 2), (2, 2)), ((1, 2), (2, 3), (3, 1)), ((1, 2), (2, 3), (2, 3)), ((1, 2), (1, 2), (2, 1)),
       ((1, 2), (3, 4), (2, 3)), ((1, 1), (1, 1)), ((3, 1), (1, 2), (2, 1))]
POOL14 = [(0, 1, 0), (0, 1, 1), (1, 0, 2), (1, 2, 1), (1, 2, 2), (2, 0, 3), (0, 0, 1), (2, 1, 0), (0, 1, 3), (0, 2, 2),
          (1, 1, 2), (2, 0, 0), (1, 0, 1), (0, 0, 3)]
POOL10 = [(0, 1, 0), (1, 2, 1), (2, 3, 2), (3, 1, 3), (1, 4, 2), (4, 0, 4), (0, 2, 1), (2, 3, 0), (3, 4, 2), (4, 4, 1)]
DENSE = [[0, 1, 2, 3, 4, 5, 8, 9], list(range(14)), [0, 3, 5, 6, 8, 10, 13], [1, 2, 4, 7, 9, 11, 12],
         [0, 1, 8, 2, 12], [6, 13, 10, 0, 3]]


def canonical_motifs(n_edges, max_nodes=4):
    """Connected motifs whose node labels are numbered by first appearance."""
    out = []

    def extend(seq, used):
        if len(seq) == n_edges:
            comp = {1}
            for _ in seq:
                for a, b in seq:
                    if a in comp or b in comp:
                        comp |= {a, b}
            if len(comp) == used:
                out.append(tuple(seq))
            return
        for a in range(1, min(used + 1, max_nodes) + 1):
            ua = max(used, a)
            for b in range(1, min(ua + 1, max_nodes) + 1):
                extend(seq + [(a, b)], max(ua, b))
    extend([], 0)
    return out


def occurrences(edges, motif, delta):
    """Brute force: every sequence of edges in time order that maps the motif's nodes one to one."""
    order = sorted(edges, key=lambda e: e[2])
    found = {}

    def step(k, i, seq, mapping, key):
        if k == len(motif):
            found[key] = found.get(key, 0) + 1
            return
        a, b = motif[k]
        for j in range(i, len(order)):
            u, v, t = order[j]
            if seq and not seq[-1] < t:
                continue
            if seq and seq[0] + delta < t:
                break
            m = dict(mapping)
            if m.setdefault(a, u) != u or m.setdefault(b, v) != v or len(set(m.values())) < len(m):
                continue
            step(k + 1, j + 1, seq + [t], m, key + (u, v))
    step(0, 0, [], {}, ())
    return found


class Schedule(object):
    """Stands in for random.choice: follows a prefix of choices, then takes the first option."""
    def __init__(self, prefix=()):
        self.prefix, self.widths = prefix, []

    def __call__(self, options):
        i = len(self.widths)
        self.widths.append(len(options))
        return options[self.prefix[i] if i < len(self.prefix) else 0]


class Ctx(object):
    def __init__(self, p, motif, delta, sched):
        self.p, self.motif, self.delta, self.sched = p, motif, delta, sched

    def script(self):
        self.p.q = None
        return self.p.script() + ['# choices made by random.choice: %r' % (self.sched.prefix,),
                                  'result = dnx.count_temporal_motif(g, %r, %r)' % (self.motif, self.delta)]


def examine(p, motif, delta, sched):
    R, m = p.R, p.m
    R.ctx = Ctx(p, motif, delta, sched)
    R.transitions += 1
    real = random.choice
    random.choice = sched
    try:
        got = dnx.count_temporal_motif(p.g, motif, delta)
    finally:
        random.choice = real
    want = occurrences(m.edges, motif, delta)
    total, counts, frame = got
    if counts != want:
        R.fail('wrong occurrences', want, counts)
    if total != sum(want.values()):
        R.fail('wrong total', sum(want.values()), total)
    labels = []
    for a, b in motif:
        for x in (a, b):
            if x not in labels:
                labels.append(x)
    if list(frame.columns) != labels or set(frame.index) != set(n for k in want for n in k) or \
            len(frame.index) != len(set(frame.index)):
        R.fail('wrong positions table', (labels, want), frame.to_dict())
    flat = [x for e in motif for x in e]
    table = {(n, x): 0 for n in frame.index for x in labels}
    for k, c in want.items():
        for x in labels:
            table[(k[flat.index(x)], x)] += c
    values = frame.values
    for i, n in enumerate(frame.index):
        for j, x in enumerate(labels):
            if values[i][j] != table[(n, x)]:
                R.fail('wrong count of node %r at position %r' % (n, x), table[(n, x)], values[i][j])
    R.outcome((motif, delta, total, len(want)))


def schedules(p, motif, delta, deviations):
    """Every resolution of the algorithm's random choices (with at most so many non-default ones)."""
    stack = [()]
    while stack:
        prefix = stack.pop()
        s = Schedule(prefix)
        examine(p, motif, delta, s)
        p.R.trace(p)
        used = sum(1 for c in prefix if c)
        if used >= deviations:
            continue
        for i in range(len(prefix), len(s.widths)):
            for c in range(1, s.widths[i]):
                stack.append(prefix + (0,) * (i - len(prefix)) + (c,))


def build(R, edges, extra=()):
    p = Pair(R, 'ImpulseDiGraph', [op('add_edge', *e) for e in edges] + list(extra))
    R.state(p.m.canon_edges())
    return p


def unchanged(p):
    if set(p.g.edges()) != set(p.m.edges) or set(p.g.nodes()) != set(p.m.nodes):
        p.wrong(p.m.canon_edges(), (p.g.edges(), list(p.g.nodes())), 'counting changed the graph')


def items(tier):
    deep = tier == 'thorough'
    out = [('sets', 'a', c, 5 if deep else 4) for c in range(32)]
    out += [('sets', 'b', c, 6 if deep else 5) for c in range(16)]
    out += [('motifs', d, c, 4 if deep else 3) for d in range(len(DENSE)) for c in range(8)]
    out += [('choices', c, 6 if deep else 5) for c in range(16)]
    out += [('choices4', c, 3 if deep else 2) for c in range(8)]
    out += [('naming', n, t) for n in NAMES for t in ('neg', 'float', 'big', 'mixed', 'open')]
    out += [('long', k, n, j) for k in (2, 3, 4, 6) for n in ((40, 110) if not deep else (40, 110, 400))
            for j in range(7) if k * n < 600 or deep]
    out += [('types',)] + chat.items('ImpulseDiGraph', 3 if deep else 2)
    return out


NAMES = {'str': ('', 'a', 'ab'), 'tuples': ((), (0,), (0, 1)), 'float': (-1, 0.0, 2), 'bool': (False, True, 2), 'types': ('a', 0, (0, 1)),
         'loaded': (10, '9', 'x'), 'sets': (frozenset({2}), frozenset({0, 1}), frozenset({0})), 'nested': ((1, 'a'), ('a', 1), 1)}


def run(item, R):
    fam = item[0]
    if fam == 'chat':
        for p in chat.walk(item, R):
            for motif in M14:
                for delta in (0, 1, 2):
                    examine(p, motif, delta, Schedule())
            R.ctx = p
            unchanged(p)
            R.state(p.m.canon_edges())
    elif fam == 'sets':
        pool = POOL14 if item[1] == 'a' else POOL10[:8 if item[3] == 5 else 10]
        sets = [s for k in range(item[3] + 1) for s in combinations(pool, k)]
        step = 32 if item[1] == 'a' else 16
        for i, s in enumerate(sets[item[2]::step]):
            p = build(R, s if i % 2 else s[::-1], [op('add_node', 8)])
            for j, motif in enumerate(M14):
                for delta in ((0, 1, 2, 3) if len(s) < 4 else (0, 1, 3) if j % 2 else (2,)):
                    examine(p, motif, delta, Schedule())
            unchanged(p)
            R.trace(p)
    elif fam == 'motifs':
        p = build(R, [POOL14[i] for i in DENSE[item[1]]] + ([(2, 3, 1), (3, 0, 2)] if item[1] % 2 else []))
        motifs = [m for k in range(1, item[3] + 1) for m in canonical_motifs(k)]
        for i, motif in enumerate(motifs[item[2]::8]):
            for delta in (1, 3) if i % 2 else (2,):
                examine(p, motif, delta, Schedule())
        unchanged(p)
        R.trace(p)
    elif fam == 'choices':
        sets = [s for s in combinations(POOL14[:10], item[2])]
        for s in sets[item[1]::16]:
            p = build(R, s)
            for motif in (M14[3], M14[4], M14[8]):
                schedules(p, motif, 2, 99)
    elif fam == 'choices4':
        sets = [s for s in combinations(POOL10, 6)]
        for s in sets[item[1]::48]:
            p = build(R, s)
            for motif in (M14[4], M14[11], ((1, 2), (1, 3), (2, 4))):
                schedules(p, motif, 3, item[2])
    elif fam == 'long':
        _, k, n, j = item
        edges = [((i * i + i // 3) % k, (i * 3 + i // 5) % k, (i // 2) * 0.5 if j % 2 else i - i % 3) for i in range(n)]
        p = build(R, edges)
        for motif in M14[2 * j:2 * j + 2]:
            for delta in (0, 1.5, 4):
                examine(p, motif, delta, Schedule())
        unchanged(p)
        R.trace(p)
    elif fam == 'naming':
        n, t = NAMES[item[1]], TIMES[item[2]]
        pairs = [(n[0], n[1]), (n[1], n[2]), (n[1], n[0]), (n[2], n[2])]
        pool = impulse_edges(pairs, t)
        for i, s in enumerate(combinations(pool, 3)):
            p = build(R, s)
            a, b, c = ('', 'x', 0) if i % 2 else (n[2], n[0], n[1])
            for motif in (((a, b),), ((a, b), (b, c)), ((a, b), (b, a)), ((a, a),), ((a, b), (a, b), (b, c))):
                for delta in (t[2] - t[1], 0, INF):
                    examine(p, motif, delta, Schedule())
            R.trace(p)
    else:
        for cls in ('IntervalGraph', 'IntervalDiGraph', 'ImpulseGraph'):
            p = Pair(R, cls, [op('add_edge', 0, 1, 0, 1) if cls[1] == 'n' else op('add_edge', 0, 1, 0)])
            R.ctx = Ctx(p, M14[0], 1, Schedule())
            R.state(p.m.canon_edges())
            try:
                got = dnx.count_temporal_motif(p.g, M14[0], 1)
            except TypeError:
                R.trace(p)
                continue
            R.fail('only directed impulse graphs are supported', 'TypeError', got)
