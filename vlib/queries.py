"""Every kind of query of the temporal and snapshot graph classes, and order-free forms of their answers."""
import networkx as nx
import dynetworkx as dnx
from .core import scratch_file, call_src
from .drive import KIND, op
from .snap import content

TEMPORAL = (dnx.IntervalGraph, dnx.ImpulseGraph)
SNAP = (dnx.SnapshotGraph,)


def saved(g, *args, **kw):
    path = scratch_file()
    g.save_to_txt(path, *args, **kw)
    with open(path) as f:
        return ''.join(sorted(f.readlines()))


def ask(g, q):
    """The answer of the query, or the kind of exception it raises."""
    name, args, kw = q
    try:
        if name == 'save_to_txt':
            return saved(g, *args, **kw)
        if name == 'count_temporal_motif':
            return dnx.count_temporal_motif(g, *args, **kw)
        if name == 'from_snapshot_graph':
            return getattr(dnx, args[0]).from_snapshot_graph(g, **kw)
        if name in ('__len__', '__contains__', '__str__'):
            return {'__len__': len, '__str__': str}[name](g) if not args else args[0] in g
        r = getattr(g, name)
        return r(*args, **kw) if callable(r) else r
    except Exception as e:
        return ('raised', type(e).__name__)


def query_src(q):
    name, args, kw = q
    if name == 'count_temporal_motif':
        return call_src('dnx', name, ('g',) + args, kw).replace("'g'", 'g', 1)
    if name == 'from_snapshot_graph':
        return call_src('dnx.' + args[0], name, ('g',), kw).replace("'g'", 'g', 1)
    if name == 'save_to_txt':
        return call_src('g', name, ('/dev/null',) + args, kw)
    return call_src('g', name, args, kw)


def sort_key(x):
    """A text that does not depend on the order inside sets and dictionaries."""
    if isinstance(x, (set, frozenset)):
        return '{%s}' % ','.join(sorted(map(sort_key, x)))
    if isinstance(x, dict):
        return '{%s}' % ','.join(sorted(sort_key(k) + ':' + sort_key(v) for k, v in x.items()))
    if isinstance(x, (tuple, list)):
        return '(%s)' % ','.join(map(sort_key, x))
    return repr(x)


def plain(x):
    """Comparable form in which unordered collections compare as such."""
    if isinstance(x, TEMPORAL):
        return (type(x).__name__, plain(x.graph), plain(x.nodes(data=True)), plain(x.edges(data=True)),
                plain(x.edges(begin=float('-inf'))))
    if isinstance(x, SNAP):
        return (type(x).__name__, plain(x.graph), [(k, content(G)) for k, G in x.snapshots.items()])
    if isinstance(x, nx.Graph):
        return (type(x).__name__,) + content(x)
    if hasattr(x, 'to_dict') and hasattr(x, 'columns'):      # a data frame
        return (list(x.columns), sorted(x.to_dict().items(), key=sort_key))
    if isinstance(x, dict):
        return sorted(((k, plain(v)) for k, v in x.items()), key=sort_key)
    if isinstance(x, tuple):
        return tuple(plain(y) for y in x)
    if isinstance(x, (str, int, float)) or x is None:
        return x
    if isinstance(x, list) and any(isinstance(y, nx.Graph) for y in x):
        return [plain(y) for y in x]        # a sequence of snapshots
    if hasattr(x, 'nodes') or hasattr(x, '__iter__') or hasattr(x, '__next__'):
        return sorted((plain(y) for y in x), key=sort_key)
    return x


def scribble(x, depth=0):
    """Changes a returned container as a caller may: what the graph holds must not depend on it."""
    if isinstance(x, (str, int, float)) or x is None or depth > 3:
        return
    if isinstance(x, SNAP):
        for G in list(x.snapshots.values()):
            scribble(G, depth + 1)
        x.insert(nx.Graph([(98, 99)]), start=-50, end=-49)
    elif isinstance(x, TEMPORAL):
        for e in list(x.edges()):
            x.remove_edge(e[0], e[1])
        x.add_node(97, late=1)
    elif isinstance(x, nx.Graph):
        if nx.is_frozen(x):
            return
        for _, _, d in x.edges(data=True):
            d['scribbled'] = 1
        for _, d in x.nodes(data=True):
            d['scribbled'] = 1
        x.graph['scribbled'] = 1
        x.add_edge(98, 99)
        for n in list(x)[:1]:
            x.remove_node(n)
    elif isinstance(x, dict):
        x.clear()
    elif isinstance(x, list):
        for y in x:
            if isinstance(y, nx.Graph) or isinstance(y, SNAP):
                scribble(y, depth + 1)
        del x[:]
        x.append('scribbled')
    elif isinstance(x, set):
        x.clear()
    elif isinstance(x, tuple):
        for y in x:
            if not isinstance(y, dict):
                scribble(y, depth + 1)


def temporal_queries(cls, short=False):
    kind, directed = KIND[cls]
    iv = kind == 'interval'
    out = [op('__len__'), op('__str__'), op('__contains__', 0), op('__contains__', 9), op('name'), op('interval')]
    wins = [{}, {'begin': 0, 'end': 2}, {'begin': 1}, {'end': 1}, {'begin': 1, 'end': 1}]
    incs = [{}] if iv else [{}, {'inclusive': (False, True)}]
    for w in wins:
        for inc in incs:
            kw = dict(w, **inc)
            out += [op('nodes', **kw), op('number_of_nodes', **kw), op('has_node', 0, **kw), op('edges', **kw),
                    op('edges', 0, **kw), op('edges', v=1, **kw), op('edges', 0, 1, data=True, **kw),
                    op('has_edge', 0, 1, **kw), op('degree', 0, **kw)]
            if not short:
                out += [op('nodes', data=True, **kw), op('edges', [0, 1], **kw), op('edges', data=True, **kw),
                        op('edges', data='weight', default=0, **kw), op('degree', **kw), op('degree', 0, delta=True, **kw),
                        op('has_edge', 1, 0, **kw), op('nodes', data='a', **kw)]
                if directed:
                    out += [op('in_degree', 0, **kw), op('out_degree', 0, **kw), op('in_degree', 0, delta=True, **kw),
                            op('out_degree', 0, delta=True, **kw)]
    b = dict(begin=None, end=None)
    tkey = 'edge_interval_data' if iv else 'edge_timestamp_data'
    for k in ({}, {'edge_data': True, 'node_data': True}, {'multigraph': True, 'edge_data': True, tkey: True}):
        out += [op('to_subgraph', None, None, **k), op('to_networkx_graph', 0, 2, **k), op('to_snapshot_graph', **k),
                op('to_snapshots', number_of_snapshots=2, **k), op('to_snapshots', length_of_snapshots=1, return_length=True, **k)]
    out += [op('save_to_txt'), op('save_to_txt', delimiter=';')]
    if iv:
        out += [op('unique_timestamps'), op('unique_begin_timestamps', begin=1), op('unique_end_timestamps', end=1),
                op('has_edge', 0, 1, 0, 2, overlapping=False), op('has_edge', 0, 1, 1, 1, overlapping=False)]
    if cls == 'ImpulseDiGraph':
        out += [op('count_temporal_motif', ((1, 2), (2, 3)), 2), op('count_temporal_motif', ((1, 2),), 1)]
    return out


def degrees(graph):
    return dict(graph.degree())


def snapshot_queries(directed=False):
    out = [op('__len__'), op('__str__'), op('name')]
    for sel in ({}, {'sbunch': [0]}, {'sbunch': [-1]}, {'start': 0.5, 'end': 1.5}, {'start': 1}, {'end': 1}):
        out += [op('get', **sel), op('order', **sel), op('size', **sel), op('number_of_nodes', **sel),
                op('has_node', 0, **sel), op('is_directed', **sel), op('is_multigraph', **sel),
                op('size', weight='weight', **sel), op('size', weight='w', **sel), op('degree', **sel), op('degree', nbunch=[0, 1], weight='weight', **sel), op('degree', weight='w', **sel),
                op('to_directed', **sel), op('to_undirected', **sel), op('subgraph', [0, 1], **sel),
                op('compute_network_statistic', nx.density, **sel)]
    out += [op('save_to_txt'), op('from_snapshot_graph', 'IntervalDiGraph' if directed else 'IntervalGraph'),
            op('from_snapshot_graph', 'IntervalDiGraph' if directed else 'IntervalGraph', begin=2, period=0.5)]
    return out
