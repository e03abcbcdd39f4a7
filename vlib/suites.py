"""Query suites with precomputed answers: for each query, the set of edges of the pool that match it."""
from .model import Model
from .drive import KIND


def pack(x):
    """Nodes named by an edges() argument: a list/tuple/set of nodes (wrapped in Many) or one node."""
    if isinstance(x, Many):
        return list(x.nodes)
    return [x]


class Many(object):
    """A container of nodes given as one argument."""
    def __init__(self, container):
        self.arg = container
        self.nodes = tuple(container)


class EdgeSuite(object):
    """edges() and has_edge() queries over a fixed pool of edges."""

    def __init__(self, cls, pool, forms, pairs, windows, inclusives=(None,), exact=()):
        kind, directed = KIND[cls]
        self.queries = []
        singles = []
        for e in pool:
            m = Model(kind, directed)
            m.add_edge(*e)
            singles.append((e, m))
        for inc in inclusives:
            for wi, (b, e) in enumerate(windows):
                kw = {}
                if b is not None:
                    kw['begin'] = b
                if e is not None:
                    kw['end'] = e
                if inc is not None:
                    kw['inclusive'] = inc
                args = (b, e) + ((inc,) if inc is not None else ())
                for fi, (u, v) in enumerate(forms):
                    us, vs = pack(u), pack(v)
                    match = frozenset(x for x, m in singles if m.select_many(us, vs, *args))
                    k = dict(kw)
                    if u is not None:
                        k['u'] = u.arg if isinstance(u, Many) else u
                    if v is not None:
                        k['v'] = v.arg if isinstance(v, Many) else v
                    if (fi + wi) % 3 == 2:       # the documented order of arguments
                        k, pos = {}, (k.get('u'), k.get('v')) + args
                        while pos and pos[-1] is None:
                            pos = pos[:-1]
                        self.queries.append(('edges', pos, k, match))
                        continue
                    self.queries.append(('edges', (), k, match))
                for fi, (u, v) in enumerate(pairs):
                    match = frozenset(x for x, m in singles if m.select(u, v, *args))
                    if (fi + wi) % 2:
                        self.queries.append(('has_edge', (u, v) + args, {}, match))
                    else:
                        self.queries.append(('has_edge', (u, v), kw, match))
        for (u, v, b, e) in exact:
            match = frozenset(x for x, m in singles if m.joins(x, u, v) and x[2] == b and x[3] == e)
            self.queries.append(('has_edge', (u, v), {'begin': b, 'end': e, 'overlapping': False}, match))
            self.queries.append(('has_edge', (u, v, b, e, False), {}, match))

    def check(self, p, queries=None):
        """Every query of the suite on the pair's graph, against the pair's model."""
        cur = frozenset(p.m.edges)
        R, g = p.R, p.g
        edges, has_edge = g.edges, g.has_edge
        qs = self.queries if queries is None else queries
        total = 0
        for name, args, kw, match in qs:
            p.q = (name, args, kw)
            want = match & cur
            total += len(want)
            if name == 'edges':
                got = edges(*args, **kw)
                if len(got) != len(want) or set(got) != want or type(got) is not list:
                    p.wrong(want, got)
            else:
                got = has_edge(*args, **kw)
                if bool(got) is not bool(want):
                    p.wrong(bool(want), got)
        R.transitions += len(qs)
        R.outcome((p.cls, total))
        p.q = None


class NodeSuite(object):
    """nodes(), has_node(), number_of_nodes() queries over a fixed pool of edges."""

    def __init__(self, cls, pool, candidates, windows, inclusives=(None,)):
        kind, directed = KIND[cls]
        self.kind = kind
        self.candidates = list(candidates)
        self.queries = []
        for inc in inclusives:
            for i, (b, e) in enumerate(windows):
                kw = {}
                if b is not None:
                    kw['begin'] = b
                if e is not None:
                    kw['end'] = e
                if inc is not None:
                    kw['inclusive'] = inc
                args = (b, e) + ((inc,) if inc is not None else ())
                match = frozenset(x for x in pool if Model(kind, directed).present(x, *args))
                # some by the documented order of arguments
                self.queries.append(((args, {}) if i % 3 == 1 else ((), kw)) + (match, b is None and e is None))

    def check(self, p):
        g, m, R = p.g, p.m, p.R
        cur = frozenset(m.edges)
        total = 0
        for args, kw, match, whole in self.queries:
            if whole:
                want = set(m.nodes)
            else:
                want = set()
                for x in match & cur:
                    want.add(x[0])
                    want.add(x[1])
            total += len(want)
            p.q = ('nodes', args, kw)
            got = list(g.nodes(*args, **kw))
            if len(got) != len(want) or set(got) != want:
                p.wrong(want, got)
            p.q = ('number_of_nodes', args, kw)
            got = g.number_of_nodes(*args, **kw)
            if got != len(want):
                p.wrong(len(want), got)
            for n in self.candidates:
                p.q = ('has_node', (n,) + args, kw)
                got = g.has_node(n, *args, **kw)
                if bool(got) is not (n in want):
                    p.wrong(n in want, got)
        for n in self.candidates:
            p.q = ('__contains__', (n,), {})
            if (n in g) is not (n in m.nodes):
                p.wrong(n in m.nodes, n in g)
        p.q = ('__len__', (), {})
        if len(g) != len(m.nodes):
            p.wrong(len(m.nodes), len(g))
        R.transitions += len(self.queries) * (2 + len(self.candidates))
        R.outcome((p.cls, total, len(m.nodes)))
        p.q = None


_cache = {}


def cached(key, make):
    """One suite per process and key."""
    if key not in _cache:
        _cache[key] = make()
    return _cache[key]
