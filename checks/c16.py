"""C16: snapshot graphs retrieve the snapshots of a time range or index list and measure each one."""
from itertools import combinations, permutations, product
import networkx as nx
import dynetworkx as dnx
from vlib.alpha import *
from vlib.snap import SnapPair, content
from vlib import chat, scale

BOUNDS = {
    'quick': 'every ordered sequence of <=4 of 9 snapshot intervals/instants (overlapping, nested, adjacent, gaps, '
             'negative) holding graphs of all 4 networkx classes; every start/end range over bounds, midpoints and '
             'omitted, every index list of <=2; 10 per-snapshot measures, membership, iteration, custom statistics; 9 shapes x 8 insertion orders of 12 and 45 '
             'snapshots; 9 edge lists x 5 containers x single/multi snapshots added',
    'thorough': 'as quick with sequences of <=5 intervals',
}
BOUNDS['quick'] += '; every triple of 14 changes of a snapshot graph somewhere in its life, checked after each change'
ASSUMPTIONS = ['ranges have start < end']
KEYS = [(0, 2), (2, 4), (1, 3), (0, 4), (3, 3), (-2, -1), (5, 6), (2, 2), (0, 1)]
SPECS = [('Graph', [(0, 1, {'weight': 2}), (1, 2, {})], [3]), ('Graph', [(0, 1, {'w': 3})], []),
         ('Graph', [(1, 1, {'weight': 0.5}), (2, 0, {'weight': 3})], []), ('MultiGraph', [(0, 1, {'weight': 1}), (0, 1, {'weight': 4})], [0]),
         ('Graph', [], [0, 7]), ('DiGraph', [(1, 0, {'weight': 2})], [2]), ('MultiDiGraph', [(0, 1, {}), (0, 1, {})], [])]


def items(tier):
    out = []
    for a in range(9):
        out.append((a, None, 0))
        for b in range(9):
            if a != b:
                out.append((a, b, 4 if tier == 'quick' else 5))
    for cls in ('SnapshotGraph', 'SnapshotDiGraph'):
        out += chat.snap_items(cls, 3)
        for shape in LONG:
            for order in scale.ORDERS:
                for n in ((12, 45) if tier == 'quick' else (12, 45, 300)):
                    out.append(('long', cls, shape, order, n))
        out.append(('ebunch', cls))
    return out


LONG = {
    'points': lambda i, n: (i, i), 'units': lambda i, n: (i, i + 1), 'gaps': lambda i, n: (2 * i - 5, 2 * i - 4),
    'nested': lambda i, n: (i, 2 * n - i), 'same': lambda i, n: (0, i + 1), 'thirds': lambda i, n: (i / 3, (i + 1) / 3),
    'mixed': lambda i, n: (i // 2, i // 2 + i % 2), 'neg': lambda i, n: (-n + i - 0.5, -n + i + 0.5),
    'big': lambda i, n: (10 ** 16 + i, 10 ** 16 + i + 1),
}


def long_graph(R, cls, shape, order, n):
    """A snapshot graph of n snapshots inserted in this order, some of them twice."""
    p = SnapPair(R, cls)
    G = 'DiGraph' if cls == 'SnapshotDiGraph' else 'Graph'
    for j, i in enumerate(scale.ORDERS[order](n)):
        key = LONG[shape](i, n)
        if j % 5 == 4:
            p.insert((G, [(0, 9)], []), key)
        p.insert((G, [(i % 4, 1, {'weight': i}), (1, 2, {})][:1 + i % 2], [i % 3]), key, ('insert', 'graph')[j % 2])
    return p


def long_selections(p, n):
    keys = p.keys()
    bs = sorted(set(keys[j][x] for j in (0, n // 3, n // 2, n - 1) for x in (0, 1)))
    bs = sorted(set(bs + [(x + y) / 2 for x, y in zip(bs, bs[1:])] + [bs[0] - 1, bs[-1] + 1]))
    return [{}] + [{'start': s} for s in bs] + [{'end': e} for e in bs] + \
        [{'start': s, 'end': e} for s in bs for e in bs if s < e] + \
        [{'sbunch': x} for x in ([0], [n - 1], [-1], [-n], [n // 2, 0], list(range(n))[::-1], list(range(0, n, 7)), [10, 2])]


def run_long(item, R):
    _, cls, shape, order, n = item
    p = long_graph(R, cls, shape, order, n)
    p.same()
    for sel in long_selections(p, n):
        want = [p.m[k] for k in p.chosen(**sel)]
        got = p.ask('get', **sel)
        if [content(x) for x in got] != [content(x) for x in want]:
            p.wrong([content(x) for x in want], [content(x) for x in got])
        for name, w in (('size', [G.size() for G in want]), ('order', [len(G) for G in want]),
                        ('has_node', [3 in G for G in want])):
            got = p.ask(name, *((3,) if name == 'has_node' else ()), **sel)
            if got != w:
                p.wrong(w, got)
        got = [dict(x) for x in p.ask('degree', **sel)]
        if got != [dict(G.degree()) for G in want]:
            p.wrong([dict(G.degree()) for G in want], got)
    R.state(p.canon())
    R.trace(p)


EDGES = [[], [(0, 1)], [(0, 1), (1, 0)], [(0, 1), (0, 1)], [(1, 1), (1, 1)], [(0, 1, {'weight': 2}), (0, 1, {'weight': 3})],
         [(1, 0, {'weight': 2}), (0, 1, {'c': 3})], [('a', 'b'), (0, 'a', {'weight': 1})], [((1, 2), 3), (frozenset([1]), (1, 2))]]


def run_ebunch(cls, R):
    """add_snapshot makes a graph of the edges it is given, in every container."""
    forms = {'%r': list, 'tuple(%r)': tuple, 'iter(%r)': iter, '(x for x in %r)': lambda x: (y for y in x),
             'dict.fromkeys(map(tuple, %r))': lambda x: dict.fromkeys(map(tuple, x))}
    multis = (None, False, True) if cls == 'SnapshotDiGraph' else (None,)
    for edges in EDGES:
        for src, form in forms.items():
            if src.startswith('dict') and any(len(e) == 3 for e in edges):
                continue
            for multi in multis:
                for kws in product(({'time': 0}, {'start': 0, 'end': 2}, {'start': 0, 'end': 0}), ({'time': 5}, {'start': -1, 'end': 0})):
                    p = SnapPair(R, cls)
                    for kw, es in zip(kws, (edges, [(5, 6)])):
                        M = {None: 'DiGraph' if cls == 'SnapshotDiGraph' else 'Graph', False: 'DiGraph', True: 'MultiDiGraph'}[multi]
                        M = getattr(nx, M)()
                        es = form(es)
                        M.add_edges_from(list(es) if type(es) in (list, tuple) else (edges if kw is kws[0] else [(5, 6)])
                                         if type(es) is not dict else list(es))
                        call = dict(kw) if multi is None else dict(kw, multi=multi)
                        p.lines.append('g.add_snapshot(%s, **%r)' % (src % (edges if kw is kws[0] else [(5, 6)]), call))
                        R.transitions += 1
                        p.g.add_snapshot(es, **call)
                        p.m[(kw.get('time', kw.get('start')), kw.get('time', kw.get('end')))] = M
                    p.same()
                    # a graph that is given is stored as it is, whatever multi says
                    for G in (nx.Graph([(0, 1)]), nx.DiGraph([(0, 1)]), nx.MultiGraph([(0, 1)] * 2), nx.MultiDiGraph([(0, 1)] * 2)):
                        call = {'graph': G, 'time': 9} if multi is None else {'graph': G, 'time': 9, 'multi': multi}
                        p.q = ('add_snapshot', (), call)
                        p.g.add_snapshot(**call)
                        if p.g.get(start=9)[0] is not G:
                            p.wrong(G, p.g.get(start=9)[0], 'the given graph is the snapshot')
                    p.q = None
                    R.state(p.canon())
                    R.trace(p)


def run(item, R):
    if item[0] == 'long':
        return run_long(item, R)
    if item[0] == 'chat':
        for p in chat.snap_walk(item, R, SPECS):
            check(p, {}, False)
            R.state(p.canon())
        return
    if item[0] == 'ebunch':
        return run_ebunch(item[1], R)
    a, b, depth = item

    def build(seq):
        p = SnapPair(R, 'SnapshotDiGraph' if sum(seq) % 4 == 3 else 'SnapshotGraph')
        real = {}
        for j, i in enumerate(seq):
            how = ('insert', 'graph', 'ebunch')[(i + j) % 3]
            spec = SPECS[(i * 3 + j * 2 + len(seq)) % 7]
            if how == 'ebunch':
                spec = ('DiGraph' if p.cls == 'SnapshotDiGraph' else 'Graph', spec[1], [])
            real[KEYS[i]] = p.insert(spec, KEYS[i], how)
        if len(seq) == 2:       # a second snapshot for the same interval replaces the first
            del real[KEYS[seq[0]]]
            real[KEYS[seq[0]]] = p.insert(SPECS[(seq[0] + 1) % 7], KEYS[seq[0]], 'insert')
        check(p, real, len(seq) < 3)
        R.state(p.canon())
        R.trace(p)
        if len(seq) < depth:
            for i in range(9):
                if i not in seq:
                    build(seq + [i])
    if b is None:
        p = SnapPair(R)
        check(p, {}, True)
        build([a])
    else:
        build([a, b])


def check(p, real, wide):
    R, g = p.R, p.g
    p.same()
    n = len(p.m)
    snaps = [p.m[k] for k in p.keys()]
    it = list(iter(g))
    p.q = ('__iter__', (), {})
    if [content(x) for x in it] != [content(x) for x in snaps]:
        p.wrong('snapshots in time order', it)
    for k, G in real.items():
        p.q = ('__contains__', (G,), {})
        if G not in g and G is not None:
            p.wrong(True, False)
    p.q = ('__contains__', ('a graph that was never inserted',), {})
    if nx.Graph([(0, 1)]) in g:
        p.wrong(False, True)
    bs = [-3, -2, -1.5, -1, 0, 0.5, 1, 2, 2.5, 3, 3.5, 4, 5, 6, 7] if wide else [-1.5, 0, 1, 2, 2.5, 3, 4, 5]
    selections = [{}] + [{'start': s} for s in bs] + [{'end': e} for e in bs] + \
        [{'start': s, 'end': e} for s in bs for e in bs if s < e]
    selections += [{'sbunch': list(x)} for k in (1, 2) for x in permutations(range(n), k)]
    selections += [{'sbunch': []}]
    if n:
        selections += [{'sbunch': [-1]}, {'sbunch': list(range(n))[::-1]}, {'sbunch': (0, -1)}, {'sbunch': range(n)}, {'sbunch': [0, 0]}]
    if wide or n == 3:
        forms(p)
    for sel in selections:
        want = [p.m[k] for k in p.chosen(**sel)]
        got = p.ask('get', **sel)
        if type(got) is not list or [content(x) for x in got] != [content(x) for x in want]:
            p.wrong([content(x) for x in want], [content(x) for x in got])
        R.outcome(tuple(p.chosen(**sel)))
        for name, f in (('number_of_nodes', nx.Graph.number_of_nodes), ('order', nx.Graph.order),
                        ('size', lambda G: G.size()), ('is_directed', lambda G: G.is_directed()),
                        ('is_multigraph', lambda G: G.is_multigraph())):
            w = [f(G) for G in want]
            got = p.ask(name, **sel)
            if got != w:
                p.wrong(w, got)
        w = [G.size(weight='weight') for G in want]
        got = p.ask('size', weight='weight', **sel)
        if got != w:
            p.wrong(w, got)
        for v in (0, 2, 9):
            w = [G.has_node(v) for G in want]
            got = p.ask('has_node', v, **sel)
            if got != w:
                p.wrong(w, got)
        w = [dict(G.degree()) for G in want]
        got = [dict(x) for x in p.ask('degree', **sel)]
        if got != w:
            p.wrong(w, got)
        w = [dict(G.degree(weight='weight')) for G in want]
        got = [dict(x) for x in p.ask('degree', weight='weight', **sel)]
        if got != w:
            p.wrong(w, got)
        w = [{x: G.degree(x) for x in (0, 1) if x in G} for G in want]
        for nb in ([0, 1], (1, 0), {0, 1}, {1: 'x', 0: 'y'}):
            got = [dict(x) for x in p.ask('degree', nbunch=nb, **sel)]
            if got != w:
                p.wrong(w, got)
        ww = [{x: G.degree(x, weight='weight') for x in (0, 1) if x in G} for G in want]
        got = [dict(x) for x in p.ask('degree', nbunch=[1, 0], weight='weight', **sel)]
        if got != ww:
            p.wrong(ww, got)
        got = [dict(x) for x in p.ask('degree', nbunch=iter([0, 1]), **sel)]
        if got != w:
            p.wrong(w, got, 'degree of the nodes of an iterator')
        for nb in ([], [9]):
            got = [dict(x) for x in p.ask('degree', nbunch=nb, **sel)]
            if got != [{}] * len(want):
                p.wrong([{}] * len(want), got)
        if wide or sel.get('sbunch') or len(sel) < 2:
            for name, conv in (('to_directed', lambda G: G.to_directed()), ('to_undirected', lambda G: G.to_undirected())):
                w = [content(conv(G)) for G in want]
                got = [content(x) for x in p.ask(name, **sel)]
                if got != w:
                    p.wrong(w, got)
            w = [nx.density(G) for G in want]
            got = p.ask('compute_network_statistic', nx.density, **sel)
            if got != w:
                p.wrong(w, got)
            w = [statistic(G, weight='weight', k=2) for G in want]
            got = p.ask('compute_network_statistic', statistic, weight='weight', k=2, **sel)
            if got != w:
                p.wrong(w, got)
    p.q = None


PER_SNAPSHOT = {'get': content, 'order': len, 'number_of_nodes': len, 'size': lambda G: G.size(), 'is_directed': lambda G: G.is_directed(),
                'is_multigraph': lambda G: G.is_multigraph(), 'to_directed': lambda G: content(G.to_directed()),
                'to_undirected': lambda G: content(G.to_undirected()), 'degree': lambda G: dict(G.degree())}


def forms(p):
    """Every measure asked by the documented order of arguments, and with the indexes given in other containers."""
    n = len(p.m)
    ways = [((None, s, e), {'start': s, 'end': e}) for s, e in ((1, 4), (None, 2), (2, None), (0, 1))] + [((None,), {}), ((), {})]
    ways += [((list(x),), {'sbunch': list(x)}) for x in ((), range(n), range(n)[::-1])]
    ways += [((f, x), {'sbunch': list(x)}) for x in ((), range(n), range(n)[::-2]) for f in (iter, set, dict.fromkeys)]
    for name, f in PER_SNAPSHOT.items():
        for args, sel in ways:
            if args and args[0] in (iter, set, dict.fromkeys):
                p.q = (name, ('%s of %r' % (args[0].__name__, args[1]),), {})
                if args[0] is set:      # in the order of the set
                    sel = {'sbunch': list(set(args[1]))}
                got = getattr(p.g, name)(args[0](args[1]))
            else:
                if name == 'degree' and len(args) == 3:
                    args = (None, None) + args[1:]
                got = p.ask(name, *args)
            want = [f(p.m[k]) for k in p.chosen(**sel)]
            got = [content(G) for G in got] if name in ('get', 'to_directed', 'to_undirected') else [dict(d) for d in got] \
                if name == 'degree' else got
            if list(got) != want:
                p.wrong(want, got)
    for args, sel in (((None, 1, 4), {'start': 1, 'end': 4}), (([0],), {'sbunch': [0]})) if n else ():
        want = [0 in p.m[k] for k in p.chosen(**sel)]
        got = p.ask('has_node', 0, *args)
        if got != want:
            p.wrong(want, got)
        want = [nx.density(p.m[k]) for k in p.chosen(**sel)]
        got = p.ask('compute_network_statistic', nx.density, *args)
        if got != want:
            p.wrong(want, got)
        want = [p.m[k].size(weight='weight') for k in p.chosen(**sel)]
        got = p.ask('size', *(args + (None, None))[:3], 'weight')
        if got != want:
            p.wrong(want, got)
        want = [{0: p.m[k].degree(0, weight='weight')} if 0 in p.m[k] else {} for k in p.chosen(**sel)]
        got = [dict(d) for d in p.ask('degree', args[0], [0], *(args[1:] + (None, None))[:2], 'weight')]
        if got != want:
            p.wrong(want, got)
    p.q = None


def statistic(G, weight=None, k=1):
    return (G.size(weight=weight) * k, sorted(map(repr, G.nodes())))
