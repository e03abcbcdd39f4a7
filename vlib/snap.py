"""Reference model of snapshot graphs: a sorted list of (start, end) -> static graph as plain sets."""
import copy
import networkx as nx
import dynetworkx as dnx
from .core import call_src

NX = {(False, False): 'Graph', (True, False): 'DiGraph', (False, True): 'MultiGraph', (True, True): 'MultiDiGraph'}


def content(g):
    """Everything a networkx graph says: class, nodes and edges with attributes."""
    und = not g.is_directed()
    es = {}
    for u, v, d in g.edges(data=True):
        k = (frozenset((u, v)) if und else (u, v), frozenset((a, repr(x)) for a, x in d.items()))
        es[k] = es.get(k, 0) + 1
    return ({n: dict(d) for n, d in g.nodes(data=True)}, es, g.is_directed(), g.is_multigraph())


class SnapPair(object):
    """A real snapshot graph and its model: {(start, end): networkx graph built independently}."""

    def __init__(self, R, cls='SnapshotGraph', **attr):
        self.R, self.cls = R, cls
        self.g = getattr(dnx, cls)(**attr)
        self.m = {}
        self.lines = ['g = dnx.%s(%s)' % (cls, ', '.join('%s=%r' % kv for kv in attr.items()))]
        self.q = None
        R.ctx = self

    def insert(self, spec, key, how='insert'):
        """spec: (networkx class name, edges with data, isolated nodes)."""
        cls, edges, nodes = spec
        G, M = getattr(nx, cls)(), getattr(nx, cls)()
        for x in (G, M):
            x.add_edges_from(edges)
            x.add_nodes_from(nodes)
        kw = {'time': key[0]} if key[0] == key[1] else {'start': key[0], 'end': key[1]}
        self.q = None
        self.R.transitions += 1
        if how == 'insert':
            self.g.insert(G, **kw)
        elif how == 'graph':
            self.g.add_snapshot(graph=G, **kw)
        else:
            self.g.add_snapshot(edges, **kw)
        self.lines += ['G = nx.%s(%r); G.add_nodes_from(%r); g.insert(G, **%r)' % (cls, edges, nodes, kw)]
        self.m[key] = M
        return None if how == 'ebunch' else G

    def insert_graph(self, G, key):
        """A copy of a networkx graph."""
        G = G.copy()
        self.g.insert(G, **({'time': key[0]} if key[0] == key[1] else {'start': key[0], 'end': key[1]}))
        self.m[key] = G

    def update(self, name, args, kw):
        """add_nodes_from / add_edges_from by range or index: splits the model's snapshots at the range's bounds, then changes
        those inside."""
        self.q = None
        self.R.transitions += 1
        self.lines.append(call_src('g', name, args, kw))
        getattr(self.g, name)(*copy.deepcopy(args), **copy.deepcopy(kw))
        self.update_model(name, args[0], kw)

    def update_model(self, name, things, kw):
        sel = {k: v for k, v in kw.items() if k in ('start', 'end', 'sbunch')}
        attrs = {k: v for k, v in kw.items() if k not in sel}
        if 'sbunch' in sel:
            keys = self.chosen(**sel)
        else:
            for t in (sel.get('start'), sel.get('end')):
                for k in list(self.m):
                    if t is not None and k[0] < t < k[1]:
                        M = self.m.pop(k)
                        self.m[(k[0], t)], self.m[(t, k[1])] = M, copy.deepcopy(M)
            keys = self.chosen(**sel)
        for k in keys:
            getattr(self.m[k], name)(things, **attrs)

    def keys(self):
        return sorted(self.m)

    def chosen(self, sbunch=None, start=None, end=None):
        keys = self.keys()
        if sbunch is not None:
            return [keys[i] for i in sbunch]
        return [k for k in keys if self.in_range(k, start, end)]

    @staticmethod
    def in_range(k, start, end):
        s, e = k
        if end is not None and s >= end:
            return False
        if start is not None and not (e > start or s >= start):
            return False
        return True

    def ask(self, name, *args, **kw):
        self.q = (name, args, kw)
        self.R.transitions += 1
        return getattr(self.g, name)(*args, **kw)

    def script(self):
        out = list(self.lines)
        if self.q:
            out.append('result = ' + call_src('g', *self.q))
        return out

    def wrong(self, expected, got, what=None):
        self.R.fail(what or 'wrong answer from %s' % (call_src('g', *self.q) if self.q else 'g'), expected, got)

    def same(self):
        """The real graph's snapshots are the model's."""
        q = self.q
        got = list(self.g.snapshots.keys())
        if [tuple(k) for k in got] != self.keys():
            self.wrong(self.keys(), got, 'snapshot intervals')
        for k, S in zip(self.keys(), self.g.get()):
            if content(S) != content(self.m[k]):
                self.wrong((k, content(self.m[k])), content(S), 'content of snapshot %s' % (k,))
        if len(self.g) != len(self.m):
            self.wrong(len(self.m), len(self.g), 'number of snapshots')

    def canon(self):
        return tuple((k, tuple(sorted(map(repr, content(M)[0].items()))), tuple(sorted(map(repr, content(M)[1].items()))))
                     for k, M in sorted(self.m.items()))
