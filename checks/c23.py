"""C23: queries change nothing, print nothing, and share nothing with the caller or with other graphs."""
import contextlib, io
from itertools import combinations, permutations, product
import networkx as nx
import dynetworkx as dnx
from vlib.alpha import *
from vlib.core import Script, scratch_file
from vlib.drive import Pair, op, KIND
from vlib.queries import *
from vlib.snap import SnapPair
from checks.c16 import KEYS, SPECS

BOUNDS = {
    'quick': 'every ordered pair of ~130 queries on 9 graphs of each temporal class and ~90 on 5 graphs of each snapshot '
             'class, the first answer overwritten by the caller before the second query; every query on every set of '
             '<=3 of 7 edges; every interleaving of 2 histories of <=3 operations on two graphs (all class pairs); '
             'containers given by the caller changed afterwards; every answer kept while the graph or its snapshots change; sources of conversions changed afterwards',
    'thorough': 'as quick with sets of <=4 of 9 edges and interleavings of histories of <=4 operations',
}
ASSUMPTIONS = ['attribute dictionaries and graphs a query returns live (edges/nodes with data, get) are not written to',
               'attribute values are immutable']
IV9 = [(0, 1, 0, 2), (0, 1, 1, 3), (1, 0, 0, 3), (1, 2, 0, 1), (0, 0, 1, 2), (0, 1, 1, 1), (2, 1, -1, 1), (2, 0, 2, 3),
       (1, 2, 2, 2)]
IM9 = [(0, 1, 0), (0, 1, 1), (1, 0, 2), (1, 2, 0), (0, 0, 1), (0, 1, 3), (2, 1, -1), (2, 0, 2), (1, 2, 2)]
GRAPHS = [[0], [0, 1], [0, 1, 2, 3], [4, 5], [6, 0, 3], [0, 1, 2, 3, 4, 5, 6], [2], [5], []]
LIVE = ('get', 'nodes', 'edges')


class Q(object):
    """The context of a pair of queries, as a replay script."""
    def __init__(self, base, *queries):
        self.base, self.queries = base, queries

    def script(self):
        out = list(self.base)
        for q in self.queries[:-1]:
            out.append('x = %s    # and its contents changed by the caller' % query_src(q))
        return out + ['result = ' + query_src(self.queries[-1])]


def quietly(g, q, R):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        x = ask(g, q)
        y = plain(x)
    if out.getvalue():
        R.fail('%s prints to standard output' % query_src(q), '', out.getvalue())
    R.transitions += 1
    return x, y


def overwrite(q, x):
    """The caller changes a returned container (never live attribute dictionaries or live snapshots)."""
    name, args, kw = q
    if name in ('get', 'nodes', 'edges'):
        if isinstance(x, list):
            del x[:]
            x.append('scribbled')
        return
    if name in ('graph', 'name') or name == 'compute_network_statistic':
        return
    scribble(x)


def pairs(make, queries, first, R, base):
    """After each first query (and a change of its answer) every second query still has its answer."""
    g = make()
    answers = [quietly(g, q, R)[1] for q in queries]
    again = make()
    for q1 in queries[first::8]:
        R.ctx = Q(base, q1)
        x, _ = quietly(again, q1, R)
        overwrite(q1, x)
        for q2, want in zip(queries, answers):
            R.ctx = Q(base, q1, q2)
            got = quietly(again, q2, R)[1]
            if got != want:
                R.fail('the answer changed after %s' % query_src(q1), want, got)
            R.outcome((repr(q2)[:40], repr(want)[:60]))
        R.trace(R.ctx)


def build_ops(cls, idx):
    pool = IV9 if KIND[cls][0] == 'interval' else IM9
    return [op('add_nodes_from', [(0, {'a': 1}), 8], b=2)] * (len(idx) != 1) + \
        [op('add_edge', *pool[i], weight=i) if i % 3 else op('add_edge', *pool[i]) for i in idx]


def items(tier):
    deep = tier == 'thorough'
    out = []
    for cls in KIND:
        for g in range(len(GRAPHS)):
            for c in range(8):
                out.append(('pairs', cls, g, c))
        for c in range(8):
            out.append(('sets', cls, c, 9 if deep else 7, 4 if deep else 3))
    for cls in KIND:
        for g in range(len(GRAPHS)):
            out.append(('kept', cls, g))
    for cls in ('SnapshotGraph', 'SnapshotDiGraph'):
        for g in range(5):
            for c in range(8):
                out.append(('snap', cls, g, c))
    out += [('snapkept', cls, g) for cls in ('SnapshotGraph', 'SnapshotDiGraph') for g in range(5)]
    for a in list(KIND) + ['SnapshotGraph', 'SnapshotDiGraph']:
        for b in list(KIND) + ['SnapshotGraph', 'SnapshotDiGraph']:
            out.append(('two', a, b, 4 if deep else 3))
    out += [('given', cls) for cls in KIND] + [('convert', cls) for cls in KIND] + [('snapgiven',)]
    return out


def snap_make(cls, k):
    lists = [[0], [0, 1], [3, 4, 0], [5, 1, 2], [6, 7, 8, 2]]

    def make(R):
        p = SnapPair(R, cls, name='s')
        for j, i in enumerate(lists[k]):
            p.insert(SPECS[(i * 3 + j * 2 + k) % 7], KEYS[i])
        p.R.ctx = None
        return p
    return make


def run(item, R):
    fam = item[0]
    if fam == 'pairs':
        cls = item[1]
        ops = build_ops(cls, GRAPHS[item[2]])
        if cls == 'ImpulseGraph' and any(o[1][:3] == (2, 1, -1) for o in ops):
            pass
        p = Pair(R, cls, ops)
        R.state((cls, p.m.canon()))

        def make():
            g = getattr(dnx, cls)(name='n')
            for name, args, kw in ops:
                getattr(g, name)(*args, **kw)
            return g
        base = ['g = dnx.%s(name="n")' % cls] + p.script()[1:]
        pairs(make, temporal_queries(cls), item[3], R, base)
    elif fam == 'sets':
        cls = item[1]
        qs = temporal_queries(cls)
        sets = [s for k in range(item[4] + 1) for s in combinations(range(item[3]), k)]
        for s in sets[item[2]::8]:
            p = Pair(R, cls, build_ops(cls, s))
            R.state((cls, p.m.canon()))
            before = plain(p.g)
            for q in qs:
                R.ctx = Q(Pair.script(p), q)
                x, _ = quietly(p.g, q, R)
                overwrite(q, x)
            after = plain(p.g)
            if before != after:
                R.ctx = Q(Pair.script(p), *qs)
                R.fail('queries changed the graph', before, after)
            model = (sorted(p.m.edges, key=repr), sorted(p.m.nodes, key=repr))
            got = (sorted(p.g.edges(), key=repr), sorted(p.g.nodes(), key=repr))
            if got != model:
                R.fail('queries changed the graph', model, got)
            R.trace(p)
    elif fam == 'snap':
        cls = item[1]
        make = snap_make(cls, item[2])
        p = make(R)
        R.state((cls, p.canon()))
        pairs(lambda: make(R).g, snapshot_queries(cls == 'SnapshotDiGraph'), item[3], R, p.script())
    elif fam == 'snapkept':
        snapkept(item[1], item[2], R)
    elif fam == 'two':
        two(item, R)
    elif fam == 'kept':
        kept(item, R)
    elif fam == 'given':
        given(item[1], R)
    elif fam == 'convert':
        convert(item[1], R)
    else:
        snapgiven(R)


def graph_ops(cls):
    if cls.startswith('Snapshot'):
        return [('insert', 0), ('insert', 4), ('grow', 1)]
    pool = IV9 if KIND[cls][0] == 'interval' else IM9
    return [op('add_edge', *pool[0], weight=1), op('add_edge', *pool[3]), op('remove_edge', 0, 1), op('add_node', 0, a=1)]


def apply(cls, g, o):
    if cls.startswith('Snapshot'):
        if o[0] == 'insert':
            cname, edges, nodes = SPECS[o[1]]
            G = getattr(nx, cname)()
            G.add_edges_from(edges)
            k = KEYS[o[1]]
            g.insert(G, **({'time': k[0]} if k[0] == k[1] else {'start': k[0], 'end': k[1]}))
        else:
            g.add_nodes_from([50], x=1)
            g.add_edges_from([(50, 51)])
    else:
        getattr(g, o[0])(*o[1], **o[2])


def src_of(cls, var, o):
    if cls.startswith('Snapshot'):
        return '# %s: %s of snapshot spec %s' % (var, o[0], o[1])
    return query_src(o).replace('g.', var + '.', 1)


def two(item, R):
    """Two graphs, their operations interleaved in every way: each ends as if it were alone."""
    ca, cb, depth = item[1:]
    alone = {}
    ha = [s for k in range(1, depth) for s in product(graph_ops(ca), repeat=k)][-30:]
    hb = [s for k in range(1, depth) for s in product(graph_ops(cb), repeat=k)][-30:]
    for tag, cls, hs in (('a', ca, ha), ('b', cb, hb)):
        for h in hs:
            g = getattr(dnx, cls)(name=tag)
            for o in h:
                apply(cls, g, o)
            alone[tag, repr(h)] = plain(g)
    for x in ha[::2] if depth == 3 else ha:
        for y in hb[::3] if depth == 3 else hb:
            n = len(x) + len(y)
            for where in combinations(range(n), len(x)):
                R.ctx = Script(['a = dnx.%s(name="a"); b = dnx.%s(name="b")' % (ca, cb)])
                a, b = getattr(dnx, ca)(name='a'), getattr(dnx, cb)(name='b')
                ia = ib = 0
                for i in range(n):
                    if i in where:
                        R.ctx.lines.append(src_of(ca, 'a', x[ia]))
                        apply(ca, a, x[ia])
                        ia += 1
                    else:
                        R.ctx.lines.append(src_of(cb, 'b', y[ib]))
                        apply(cb, b, y[ib])
                        ib += 1
                R.transitions += n
                got = (plain(a), plain(b))
                want = (alone['a', repr(x)], alone['b', repr(y)])
                if got != want:
                    R.fail('two graphs affect each other', want, got)
                R.trace(R.ctx)
            R.state((ca, cb, repr(x), repr(y)))


def kept(item, R):
    """Answers the caller keeps while the graph changes (node views without a window are live by design)."""
    _, cls, k = item
    pool = IV9 if KIND[cls][0] == 'interval' else IM9
    for skip in range(3):
        ops = build_ops(cls, GRAPHS[k])[skip:]
        p = Pair(R, cls, ops)
        qs = [q for q in temporal_queries(cls) if q[0] != 'nodes' or 'begin' in q[2] or 'end' in q[2]]
        answers = [(q, ask(p.g, q)) for q in qs]
        before = [plain(x) for q, x in answers]
        done, poked = [], False
        for o, quiet in ((op('add_edge', *pool[7], weight=8), 0), (op('add_node', 0), 0), (op('add_node', 50, z=1), 0),
                         (op('add_node', 0, a=99, late=1), 1), (op('add_edge', *pool[0], weight=77), 1),
                         (op('remove_edge', *pool[1]), 0), (op('remove_node', 2), 0), (op('remove_node', 0), 0)):
            getattr(p.g, o[0])(*o[1], **o[2])
            done.append(o)
            poked = poked or quiet      # attribute values of existing elements were changed
            R.transitions += 1
            for (q, x), was in zip(answers, before):
                live = q[0] in ('edges', 'nodes') and q[2].get('data')      # holds the graph's attribute values
                if poked and live:
                    continue
                now = plain(x)
                if now != was:
                    R.ctx = Script(Pair.script(p)[:1 + len(ops)] + ['result = ' + query_src(q)] + [query_src(d) for d in done])
                    R.fail('an answer kept by the caller changed with the graph', was, now)
        R.state((cls, k, skip))
        R.trace(p)


def snapkept(cls, k, R):
    """Answers of a snapshot graph that the caller keeps while its snapshots change (get, subgraph and degree show live
    snapshots, as in networkx), and snapshots the caller converts and changes."""
    make = snap_make(cls, k)
    qs = [q for q in snapshot_queries(cls == 'SnapshotDiGraph') if q[0] not in ('get', 'subgraph', 'degree')]
    everywhere = lambda f: lambda g: [f(G) for G in g.get()]
    changes = [op('add_nodes_from', [50], z=1), op('add_edges_from', [(50, 51)], start=0.5), op('add_edges_from', [(0, 1)], weight=77),
               op('add_nodes_from', [0], a=99, late=1), everywhere(lambda G: G.add_edge(0, 0)), everywhere(lambda G: G.graph.update(late=2)),
               everywhere(lambda G: [d.update(late=3) for _, _, d in G.edges(data=True)]),
               everywhere(lambda G: [G.nodes[n].update(late=4) for n in G]), everywhere(lambda G: G.remove_nodes_from(list(G)[:1])),
               lambda g: g.insert(nx.DiGraph([(8, 9)]) if cls == 'SnapshotDiGraph' else nx.Graph([(8, 9)]), start=70, end=71),
               everywhere(lambda G: G.clear())]
    for first in range(len(changes)):
        p = make(R)
        answers = [(q, ask(p.g, q)) for q in qs]
        before = [plain(x) for q, x in answers]
        for n, c in enumerate(changes[first:] + changes[:first]):
            if callable(c):
                c(p.g)
            else:
                getattr(p.g, c[0])(*c[1], **c[2])
            R.transitions += 1
            for (q, x), was in zip(answers, before):
                now = plain(x)
                if now != was:
                    R.ctx = Script(p.script() + ['result = ' + query_src(q), '# then the snapshots are changed: change %d' % ((first + n) % len(changes))])
                    R.fail('an answer kept by the caller changed with the snapshot graph', was, now)
        R.state((cls, k, first))
        R.trace(p)
    for name in ('to_directed', 'to_undirected'):
        for kw in ({}, {'sbunch': [0]}, {'start': -9}):
            p = make(R)
            before = plain(p.g)
            for G in getattr(p.g, name)(**kw):
                scribble(G)
                for n in G:
                    G.nodes[n]['late'] = 1
                for _, _, d in G.edges(data=True):
                    d['late'] = 1
                G.clear()
            R.transitions += 1
            R.ctx = Script(p.script() + ['# graphs of g.%s(**%r) changed by the caller' % (name, kw)])
            if plain(p.g) != before:
                R.fail('the snapshots changed with what was converted from them', before, plain(p.g))
            R.trace(p)


def given(cls, R):
    """Containers and attribute dictionaries given to a graph and changed afterwards by the caller."""
    pool = IV9 if KIND[cls][0] == 'interval' else IM9
    for i, j in permutations(range(7), 2):
        for form in ('add_node', 'add_nodes_from', 'add_edge', 'add_edges_from', 'edge lists'):
            R.ctx = Script(['g = dnx.%s()' % cls, '# %s with edges %r, %r, then the caller changes what it gave' %
                            (form, pool[i], pool[j])])
            g = getattr(dnx, cls)()
            d, d2 = {'w': 1}, {'k': 2}
            edges = [pool[i], pool[j]] if form != 'edge lists' else [list(pool[i]), list(pool[j])]
            nodes = [(5, d), (6, d2), 7]
            if form == 'add_node':
                g.add_node(5, **d)
            elif form == 'add_nodes_from':
                g.add_nodes_from(nodes, z=0)
            elif form == 'add_edge':
                g.add_edge(*edges[0], **d)
                g.add_edge(*edges[1], **d)
            else:
                g.add_edges_from(edges, **d)
            before = plain(g)
            if (nodes, d, d2) != ([(5, d), (6, d2), 7], {'w': 1}, {'k': 2}) or \
                    [tuple(e) for e in edges] != [pool[i], pool[j]]:
                R.fail('the caller\'s containers were changed', ({'w': 1}, {'k': 2}), (nodes, d, d2, edges))
            d['w'] = 9
            d['x'] = 1
            d2.clear()
            if form == 'edge lists':
                edges[0][0] = 77
            del edges[:]
            del nodes[:]
            R.transitions += 2
            if plain(g) != before:
                R.fail('the graph changed with the containers it was given', before, plain(g))
            R.state((cls, form, i, j))
            R.trace(R.ctx)


def convert(cls, R):
    """Graphs made from other graphs, each changed afterwards."""
    iv, directed = KIND[cls][0] == 'interval', KIND[cls][1]
    C = getattr(dnx, cls)
    for multi in (False, True):
        G0 = {(0, 0): nx.Graph, (0, 1): nx.MultiGraph, (1, 0): nx.DiGraph, (1, 1): nx.MultiDiGraph}[directed, multi]
        for k in (1, 2, 3):
            for sel in permutations(range(5), k):
                G = G0()
                pool = IV9 if iv else IM9
                for i in sel:
                    e = pool[i]
                    t = {'begin': e[2], 'end': e[3]} if iv else {'timestamp': e[2]}
                    G.add_edge(e[0], e[1], weight=i, **t)
                R.ctx = Script(['# %s.from_networkx_graph of %r with edges %r' % (cls, G0.__name__, list(G.edges(data=True)))])
                was = content(G)
                g = C.from_networkx_graph(G)
                h = C.from_networkx_graph(G)
                if content(G) != was:
                    R.fail('the conversion changed its source', was, content(G))
                before = plain(g)
                scribble(G)
                h.add_edge(*pool[0], weight=99)
                for e, d in h.edges(data=True):
                    d['late'] = 1
                R.transitions += 3
                if plain(g) != before:
                    R.fail('the graph changed with its source', before, plain(g))
                R.state((cls, multi, sel))
                R.trace(R.ctx)
    if not iv:
        return
    for sel in permutations(range(5), 3):
        R.ctx = Script(['# %s.from_snapshot_graph of snapshots %r' % (cls, sel)])
        S = dnx.SnapshotDiGraph() if directed else dnx.SnapshotGraph()
        for i in sel:
            G = nx.DiGraph() if directed else nx.Graph()
            G.add_edges_from(SPECS[i][1])
            S.insert(G, start=i, end=i + 1)
        was = plain(S)
        g = C.from_snapshot_graph(S)
        h = C.from_snapshot_graph(S)
        if plain(S) != was:
            R.fail('the conversion changed its source', was, plain(S))
        before = plain(g)
        for G in S.get():
            scribble(G)
        for e, d in h.edges(data=True):
            d['late'] = 1
        R.transitions += 3
        if plain(g) != before:
            R.fail('the graph changed with its source', before, plain(g))
        R.state((cls, sel))
        R.trace(R.ctx)


def snapgiven(R):
    """Edge and node containers given to a snapshot graph and changed afterwards."""
    for cls in ('SnapshotGraph', 'SnapshotDiGraph'):
        for n in (1, 2, 3):
            for how in ('list', 'dicts'):
                for sel in ({}, {'sbunch': [0]}, {'start': 0.5, 'end': 1.5}):
                    R.ctx = Script(['# %s with %d snapshots, containers given as %s, changes for %r' % (cls, n, how, sel)])
                    g = getattr(dnx, cls)()
                    d = {'w': 1}
                    eb = [(0, 1), (1, 2)] if how == 'list' else [(0, 1, d), (1, 2, d)]
                    nb = [5, 6] if how == 'list' else [(5, d), (6, d)]
                    for i in range(n):
                        g.add_snapshot(eb, start=i, end=i + 1)
                    g.add_nodes_from(nb, **sel)
                    g.add_edges_from(eb, k=3, **sel)
                    if eb != ([(0, 1), (1, 2)] if how == 'list' else [(0, 1, {'w': 1}), (1, 2, {'w': 1})]):
                        R.fail('the caller\'s containers were changed', None, eb)
                    before = plain(g)
                    d['w'] = 2
                    del eb[:]
                    del nb[:]
                    R.transitions += n + 2
                    if plain(g) != before:
                        R.fail('the snapshots changed with the containers they were given', before, plain(g))
                    for G in g.get(sbunch=[0]):     # one snapshot's changes stay its own
                        scribble(G)
                    rest = [content(x) for x in g.get()[1:]]
                    if any('scribbled' in repr(x) for x in rest):
                        R.fail('a change of one snapshot reached another', before, plain(g))
                    R.state((cls, n, how, repr(sel)))
                    R.trace(R.ctx)
