"""C11: from_snapshot_graph: an edge is present in period i of the result iff it is in the i-th snapshot."""
from itertools import combinations, product
import networkx as nx
import dynetworkx as dnx
from vlib.alpha import *
from vlib.core import Script as Ctx
from vlib.snap import SnapPair
from vlib import scale
from vlib.names import VALUES, edge_names

BOUNDS = {
    'quick': 'every assignment of subsets of 3 edges (weighted differently in each snapshot) to 1..5 snapshots, of 2 '
             'edges to 5, graph/multigraph, directed/undirected, snapshots given as intervals and as instants, several '
             'begins (0, negative, float) and periods (1, 2, 0.5); 12 and 40 snapshots of 10 edges in 8 patterns of presence and their reverses',
    'thorough': 'as quick with patterns of 120 snapshots and every four consecutive changes',
}
BOUNDS['quick'] += '; every triple of 16 changes of a snapshot graph somewhere in its life, checked after each change; 38 attribute names with 22 values each'
EDGES = [(0, 1), (1, 0), (1, 2), (2, 2), ('a', 0)]
# is edge j of the path 0-1-2-..-7, with chords, in snapshot i?
PATTERNS = {'blink': lambda i, j: i % (j + 1) == 0, 'slide': lambda i, j: j <= i % 12 < j + 4, 'grow': lambda i, j: i >= j,
            'shrink': lambda i, j: i < 12 - j, 'all': lambda i, j: True, 'last': lambda i, j: i % 12 == 11 or j == 0,
            'blocks': lambda i, j: (i // 4 + j) % 2, 'sparse': lambda i, j: i % 11 == j}
LONG = [(0, 1), (1, 2), (2, 2), (0, 2), (2, 3), ('a', 0), (3, 'a'), (4, 5), (5, 6), (6, 7)]


def items(tier):
    out = []
    for directed in (False, True):
        pool = [e for e in EDGES if directed or e != (1, 0)]
        for tri in combinations(pool, 3):
            for k in (1, 2, 3, 4, 5):
                out.append((directed, tri, k, False))
            out.append((directed, tri[:2], 5, False))
            for k in (2, 3):
                out.append((directed, tri, k, True))
        for k in (12, 40) + ((120,) if tier == 'thorough' else ()):
            for multi in (False, True):
                for shape in PATTERNS:
                    out.append((directed, shape, k, multi, 'long'))
    out += [('names', d, m, c) for d in (False, True) for m in (False, True) for c in range(4)]
    out += [('chat', d, m, c, 3 if tier == 'quick' else 4) for d in (False, True) for m in (False, True) for c in range(8)]
    return out


KEYS = [(0, 2), (2, 4), (5, 5), (-2, -1)]


def chat(item, R):
    """One snapshot graph, converted after every change: graphs replaced, updated by index or range, or changed in place."""
    _, directed, multi, part, order = item
    cls = ('Multi' if multi else '') + ('DiGraph' if directed else 'Graph')
    inserts = [(k, es) for k in KEYS for es in ([(0, 1, {'weight': 1}), (1, 2, {})], [(0, 1, {'weight': 2})], [(1, 1, {'c': 'x'})])]
    ops = inserts[:8] + [inserts[9], inserts[11]] + \
        [('add_edges_from', [(0, 1, {'c': 'y'})], {'sbunch': [0]}), ('add_edges_from', [(1, 2, {'c': 'z'})], {'start': 2}),
         ('add_nodes_from', [1, 8], {'sbunch': [-1]}), 'remove', 'reweight', ('add_edges_from', [(0, 1)], {})]
    seq = scale.debruijn(len(ops), order)
    for at in range(part * 40, len(seq), 8 * 40):
        p = SnapPair(R, 'SnapshotDiGraph' if directed else 'SnapshotGraph')
        p.lines.insert(0, '# converted after every one of these changes')
        for i in seq[at:at + 40 + order - 1]:
            o = ops[i]
            if type(o) is str:
                if not p.m:
                    continue
                for G in (p.m[p.keys()[-1]], list(p.g.get())[-1]):
                    if o == 'remove':
                        G.remove_edges_from(list(G.edges)[:1])
                    else:
                        for _, _, d in G.edges(data=True):
                            d['weight'] = d.get('weight', 0) + 3
                p.lines.append('# last snapshot, changed in place: ' + o)
            elif type(o[0]) is tuple:
                if any(k[0] < o[0][1] and k[1] > o[0][0] and k != o[0] for k in p.m):
                    continue
                p.insert((cls, o[1], [7]), o[0])
            elif p.m and not (multi and o[0] == 'add_edges_from'):
                p.update(o[0], (o[1],), o[2])
            if not p.m:
                continue
            hist = []
            for k in p.keys():
                es = set((u, v) for u, v, *_ in p.m[k].edges)
                hist.append(tuple(sorted(es if directed else set(tuple(sorted(e)) for e in es))))
            for begin, period in ((0, 1), (-3, 2)):
                kw = {} if begin == 0 else {'begin': begin, 'period': period}
                Cls = 'IntervalDiGraph' if directed else 'IntervalGraph'
                p.q = None
                p.R.transitions += 1
                G = getattr(dnx, Cls).from_snapshot_graph(p.g, **kw)
                R.ctx = Ctx(p.lines + ['h = dnx.%s.from_snapshot_graph(g, **%r)' % (Cls, kw), 'result = h.edges(data=True)'])
                if type(G).__name__ != Cls:
                    R.fail('wrong class', Cls, type(G).__name__)
                verify(G, p.g, hist, begin, period, directed, multi, R)
                R.ctx = p
            R.state((directed, multi, p.canon()))
        R.trace(p)


def names(item, R):
    """One attribute of any name and value, which changes from snapshot to snapshot."""
    _, directed, multi, part = item
    cls = ('Multi' if multi else '') + ('DiGraph' if directed else 'Graph')
    Cls = 'IntervalDiGraph' if directed else 'IntervalGraph'
    for i, (name, x) in enumerate(product(edge_names(Cls), VALUES)):
        if i % 4 != part:
            continue
        y = VALUES[(i * 3 + 5) % len(VALUES)]
        p = SnapPair(R, 'SnapshotDiGraph' if directed else 'SnapshotGraph')
        data = [[(0, 1, {name: x}), (1, 2, {'o': 1, name: y})], [(0, 1, {name: y}), (1, 2, {})], [(1, 2, {name: x})], [(0, 1, {'o': y, name: y})]]
        for j, es in enumerate(data):
            p.insert((cls, es, [7]), (j, j + 1))
        p.R.transitions += 1
        G = getattr(dnx, Cls).from_snapshot_graph(p.g)
        R.ctx = Ctx(p.lines + ['h = dnx.%s.from_snapshot_graph(g)' % Cls, 'result = h.edges(data=True)'])
        verify(G, p.g, [tuple(e[:2] for e in es) for es in data], 0, 1, directed, multi, R)
        R.state((directed, multi, name, i))
        R.trace(R.ctx)


def run(item, R):
    if item[0] == 'chat':
        return chat(item, R)
    if item[0] == 'names':
        return names(item, R)
    directed, edges, k, multi = item[:4]
    gcls = {(0, 0): 'Graph', (1, 0): 'DiGraph', (0, 1): 'MultiGraph', (1, 1): 'MultiDiGraph'}[(int(directed), int(multi))]
    if len(item) == 5:
        hists = [tuple(tuple(e for j, e in enumerate(LONG) if PATTERNS[edges](i, j)) for i in range(k))]
        hists += [hists[0][::-1]] * 3
    else:
        subsets = [s for r in range(len(edges) + 1) for s in combinations(edges, r)]
        hists = product(subsets, repeat=k)
    settings = [(0, 1), (-3, 2), (0.5, 0.5), (10, 1), (-1, 1)]
    for x, hist in enumerate(hists):
        for begin, period in (settings if k < 3 else [settings[x % 5]]):
            lines = ['sg = dnx.%s()' % ('SnapshotDiGraph' if directed else 'SnapshotGraph')]
            sg = getattr(dnx, 'SnapshotDiGraph' if directed else 'SnapshotGraph')()
            R.ctx = Ctx(lines)
            # snapshots are numbered by their times, not by the order in which they came
            for i, s in (list(enumerate(hist)) if x % 2 or k > 20 else sorted(enumerate(hist), key=lambda z: (z[0] * 5 + x) % (k + 1))):
                es = [(u, v, {'w': 10 * i + j, 's%d' % i: 1} if (i + j) % 3 else {'w': 10 * i + j})
                      for j, (u, v) in enumerate(s)]
                if multi and i % 2:
                    es = es + es[:1]
                if not directed and x % 2 and i == 1:
                    es = [(v, u, d) for (u, v, d) in es]
                g = getattr(nx, gcls)(es)
                g.add_node(7)
                kw = {'time': i * 3} if x % 3 == 0 else {'start': i * 3, 'end': i * 3 + 2}
                sg.insert(g, **kw)
                lines.append('sg.insert(nx.%s(%r), **%r)' % (gcls, es, kw))
                R.transitions += 1
            cls = 'IntervalDiGraph' if directed else 'IntervalGraph'
            kw = {} if (begin, period) == (0, 1) else {'begin': begin, 'period': period}
            lines.append('g = dnx.%s.from_snapshot_graph(sg, **%r)' % (cls, kw))
            G = getattr(dnx, cls).from_snapshot_graph(sg, **kw)
            R.transitions += 1
            if type(G).__name__ != cls:
                R.fail('wrong class', cls, type(G).__name__)
            verify(G, sg, hist, begin, period, directed, multi, R)
            R.state((directed, multi, hist, begin, period))
            R.trace(R.ctx)


def verify(G, sg, hist, begin, period, directed, multi, R):
    k = len(hist)
    snaps = list(sg.get())
    everything = G.edges(data=True)
    runs = []
    for e in set(x for s in hist for x in s):
        for i in range(k):
            want = e in hist[i]
            got = G.has_edge(e[0], e[1], begin + i * period, begin + (i + 1) * period)
            if bool(got) is not want:
                R.fail('edge %r in period %d' % (e, i), want, got)
        for (b, f) in ((begin - 5, begin - 1), (begin + k * period, begin + k * period + 9)):
            if G.has_edge(e[0], e[1], b, f):
                R.fail('edge %r outside the snapshots' % (e,), False, True)
        if directed and (e[1], e[0]) not in set(x for s in hist for x in s) and G.has_edge(e[1], e[0]):
            R.fail('reversed edge %r' % (e,), False, True)
    for (u, v, b, e2), d in everything:
        i, j = (b - begin) / period, (e2 - begin) / period
        if i != int(i) or j != int(j) or not 0 <= i < j <= k:
            R.fail('edge outside the grid of periods', None, (u, v, b, e2))
        S = snaps[int(i)]
        if multi:
            ok = any(d == x for x in S.get_edge_data(u, v).values())
        else:
            ok = S.has_edge(u, v) and d == S.get_edge_data(u, v)
        if not ok:
            R.fail('attributes of %r' % ((u, v, b, e2),), 'those of snapshot %d' % i, d)
        runs.append((frozenset((u, v)) if not directed else (u, v), int(i), int(j)))
    # one interval per maximal run of consecutive snapshots that contain the edge
    want = []
    for e in set((frozenset(x) if not directed else x) for s in hist for x in s):
        for i in range(k):
            has = [any((frozenset(x) if not directed else x) == e for x in s) for s in hist]
            if has[i] and not (i and has[i - 1]):
                j = i
                while j < k and has[j]:
                    j += 1
                want.append((e, i, j))
    if len(runs) != len(want) or set(runs) != set(want):
        R.fail('runs', want, runs)
    R.outcome(tuple(sorted((str(p), i, j) for p, i, j in runs)))
