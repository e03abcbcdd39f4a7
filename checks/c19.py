"""C19: snapshot graphs survive a text file of adjacency matrices."""
from itertools import combinations, product
import networkx as nx
import dynetworkx as dnx
from vlib import chat
from vlib.alpha import *
from vlib.core import Script, scratch_file
from vlib.snap import content

BOUNDS = {
    'quick': 'every 3-node graph (64 undirected with loops, 512 directed with loops) alone, every pair of undirected '
             'and of every 4th directed 3-node graph, weighted graphs, 1..4 nodes, delimiters, interval markers, instants, negative/float times, comment '
             'and blank lines in every position, hand-written files; files of 11..40 snapshots of up to 14 nodes',
    'thorough': 'as quick with every pair of directed 3-node graphs',
}
BOUNDS['quick'] += '; every triple of 14 changes of a snapshot graph somewhere in its life, checked after each change'
MARKS = [('start', 'end'), ('from', 'to'), ('b', 'z'), ('t', 'to'), ('to', 't'), ('end', 'start')]
DELIMS = [';', '|', ',', '::', '\t']


def graphs(directed, n=3):
    pairs = [(u, v) for u in range(n) for v in range(n) if directed or u <= v]
    for k in range(len(pairs) + 1):
        for es in combinations(pairs, k):
            G = (nx.DiGraph if directed else nx.Graph)()
            G.add_nodes_from(range(n))
            G.add_edges_from(es)
            yield G


def items(tier):
    out = [('single', d, c) for d in (False, True) for c in range(4)]
    out += [('pairs', d, c, 4 if tier == 'quick' else 1) for d in (False, True) for c in range(8)]
    out += [('weights', d) for d in (False, True)]
    out += [('lines', d, i) for d in (False, True) for i in range(3)]
    out += chat.snap_items('SnapshotGraph', 3) + chat.snap_items('SnapshotDiGraph', 3)
    out += [('order', d) for d in (False, True)] + [('long', d, i) for d in (False, True) for i in range(3)]
    return out


def weighted(G):
    """What the matrix says: node numbers, an edge where an entry is non-zero, its value as weight."""
    order = {v: i for i, v in enumerate(G.nodes())}
    und = not G.is_directed()
    es = {}
    for u, v, d in G.edges(data=True):
        k = frozenset((order[u], order[v])) if und else (order[u], order[v])
        es[k] = float(d.get('weight', 1))
    return set(range(len(order))), es, G.is_directed()


def got_weighted(G):
    und = not G.is_directed()
    es = {}
    for u, v, d in G.edges(data=True):
        es[frozenset((u, v)) if und else (u, v)] = float(d.get('weight', 1))
        if set(d) - {'weight'}:
            es['attributes'] = d
    return set(G.nodes()), es, G.is_directed()


def compare(R, cls, L, want, what):
    if type(L).__name__ != cls:
        R.fail(what + ': wrong class', cls, type(L).__name__)
    keys = [tuple(k) for k in L.snapshots.keys()]
    if keys != sorted(want):
        R.fail(what + ': intervals', sorted(want), keys)
    for k, G in zip(keys, L.get()):
        if got_weighted(G) != want[k]:
            R.fail('%s: snapshot %s' % (what, k), want[k], got_weighted(G))
    R.outcome(tuple(sorted((k, len(w[1])) for k, w in want.items())))


def roundtrip(R, directed, snaps, delimiter=';', marks=('start', 'end')):
    """snaps: list of (graph, start, end)."""
    cls = 'SnapshotDiGraph' if directed else 'SnapshotGraph'
    lines = ['g = dnx.%s()' % cls, 'path = os.path.join(tempfile.mkdtemp(), "g.txt")']
    sg = getattr(dnx, cls)()
    for G, s, e in snaps:
        H = G.copy()
        sg.insert(H, **({'time': s} if s == e else {'start': s, 'end': e}))
        lines.append('G = nx.%s(); G.add_nodes_from(%r); G.add_edges_from(%r); g.insert(G, start=%r, end=%r)' % (
            type(G).__name__, list(G.nodes()), list(G.edges(data=True)), s, e))
    kw = {}
    if delimiter != ';':
        kw['delimiter'] = delimiter
    if marks != ('start', 'end'):
        kw['start'], kw['end'] = marks
    lines += ['g.save_to_txt(path, **%r)' % kw, 'print(open(path).read())',
              'l = dnx.%s.load_from_txt(path, **%r)' % (cls, kw),
              'result = [(k, list(x.nodes()), list(x.edges(data=True))) for k, x in l.snapshots.items()]']
    R.ctx = Script(lines)
    path = scratch_file()
    R.transitions += 2
    sg.save_to_txt(path, **kw)
    L = getattr(dnx, cls).load_from_txt(path, **kw)
    compare(R, cls, L, {(float(s), float(e)): weighted(G) for G, s, e in snaps}, 'save and load')
    R.state((directed, delimiter, marks, tuple((repr(sorted(map(repr, G.edges(data=True)))), s, e) for G, s, e in snaps)))
    R.trace(R.ctx)


def load(R, directed, text, want, what, **kw):
    cls = 'SnapshotDiGraph' if directed else 'SnapshotGraph'
    R.ctx = Script(['path = os.path.join(tempfile.mkdtemp(), "g.txt")', 'open(path, "w").write(%r)' % text,
                    'l = dnx.%s.load_from_txt(path, **%r)' % (cls, kw),
                    'result = [(k, list(x.nodes()), list(x.edges(data=True))) for k, x in l.snapshots.items()]'])
    path = scratch_file()
    with open(path, 'w') as f:
        f.write(text)
    R.transitions += 1
    compare(R, cls, getattr(dnx, cls).load_from_txt(path, **kw), want, what)
    R.state((directed, text))
    R.trace(R.ctx)


def run(item, R):
    fam, directed = item[:2]
    if fam == 'chat':
        # saved after every change of its life
        cls = directed
        for p in chat.snap_walk(item, R, chat.homogeneous(cls == 'SnapshotDiGraph')):
            path = scratch_file()
            p.lines.append('path = os.path.join(tempfile.mkdtemp(), "g.txt"); g.save_to_txt(path)')
            p.q = None
            R.transitions += 2
            p.g.save_to_txt(path)
            L = getattr(dnx, cls).load_from_txt(path)
            compare(R, cls, L, {tuple(map(float, k)): weighted(G) for k, G in p.m.items()}, 'save and load')
            R.state(p.canon())
        return
    if fam == 'single':
        gs = list(graphs(directed))[item[2]::4]
        for i, G in enumerate(gs):
            s, e = [(0, 3), (-2, -1), (0.5, 1.5), (5, 5), (1234567.25, 9876543210), (-0.1, 1e-09), (1e+20, 1e+22)][i % 7]
            roundtrip(R, directed, [(G, s, e)], DELIMS[i % 5], MARKS[(i + i // 5) % 6])
        for n in (1, 2, 4):
            for i, G in enumerate(graphs(directed, n)):
                if i % (4 if n < 4 or not directed else 64) == item[2]:
                    roundtrip(R, directed, [(G, 0, i + 1)])
    elif fam == 'pairs':
        gs = list(graphs(directed))
        gs = gs[::item[3]] if directed else gs
        n = 0
        for i, G in enumerate(gs):
            for j, H in enumerate(gs):
                n += 1
                if n % 8 == item[2]:
                    t = [((0, 2), (2, 4)), ((2, 4), (0, 2)), ((0, 4), (1, 2)), ((3, 3), (0, 3)), ((-1, 0), (0, 1))][(i + j) % 5]
                    roundtrip(R, directed, [(G,) + t[0], (H,) + t[1]])
    elif fam == 'weights':
        for ws in product((2, 0.5, -1, 3.25, 1e-07), repeat=3):
            for es in ([(0, 1), (1, 2), (2, 2)], [(0, 0), (1, 0), (2, 1)], [(0, 1), (0, 2), (1, 1)]):
                G = (nx.DiGraph if directed else nx.Graph)()
                G.add_nodes_from(range(3))
                for (u, v), w in zip(es, ws):
                    G.add_edge(u, v, weight=w)
                roundtrip(R, directed, [(G, 0, 1)])
    elif fam == 'lines':
        i = item[2]
        mark = ('#', '@', '//')[i]
        base = ['0 1 0;1 0 0;0 0 2 start=0 end=3', '0 0;1 0 end=5 start=3' if directed else '0 1;1 0 end=5 start=3']
        want = {}
        G = (nx.DiGraph if directed else nx.Graph)()
        G.add_nodes_from(range(3))
        G.add_weighted_edges_from([(0, 1, 1), (1, 0, 1), (2, 2, 2)])
        want[(0.0, 3.0)] = weighted(G)
        H = (nx.DiGraph if directed else nx.Graph)([(1, 0)]) if not directed else None
        if directed:
            H = nx.DiGraph()
            H.add_nodes_from(range(2))
            H.add_edge(1, 0)
        want[(3.0, 5.0)] = weighted(H) if directed else ({0, 1}, {frozenset((0, 1)): 1.0}, False)
        junk = ['', '  ', mark, mark + ' 0 1;1 0 start=8 end=9', '\t', '  ' + mark + 'x']
        kw = {} if mark == '#' else {'comments': mark}
        for a, b in product(range(3), range(3)):
            for x, y in product(junk, junk):
                ls = list(base)
                ls.insert(b, y)
                ls.insert(a, x)
                load(R, directed, '\n'.join(ls) + ('\n' if (a + b) % 2 else ''), want, 'comment and blank lines', **kw)
        for tail in (mark, ' ' + mark + ' start=9', '  ', '\t' + mark + '1 0'):
            load(R, directed, '\n'.join(x + tail for x in base), want, 'trailing comment', **kw)
    elif fam == 'long':
        n = (11, 23, 40)[item[2]]
        snaps = []
        for i in range(n):
            G = (nx.DiGraph if directed else nx.Graph)()
            G.add_nodes_from(range(i % 14 + 1))
            for j in range(i % 14 + 1):
                if (j * 3 + i) % 4:
                    G.add_edge(j, (j * 5 + i) % (i % 14 + 1), weight=(1, 2, 0.25, -3, 1 / 3)[(i + j) % 5])
            snaps.append((G, i, i + i % 3))
        for order in (snaps, snaps[::-1], snaps[1::2] + snaps[::2]):
            roundtrip(R, directed, order, DELIMS[item[2]])
    else:
        # node names are not kept: rows follow the order of the nodes in the snapshot
        for names in (('a', 'b', 'c'), (2, 1, 0), (5, 'x', -1)):
            for es in combinations([(0, 1), (1, 2), (2, 0), (1, 1)], 2):
                G = (nx.DiGraph if directed else nx.Graph)()
                G.add_nodes_from(names)
                G.add_edges_from((names[u], names[v]) for u, v in es)
                roundtrip(R, directed, [(G, 0, 2), (G, 3, 4)])
