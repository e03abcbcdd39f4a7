"""Reference models: a dictionary of nodes and a dictionary of edges, every query a filter over them."""

INF = float('inf')


def in_interval_window(l, h, begin, end):
    """Is an edge lasting [l, h) present somewhere in [begin, end)?  begin == end asks about one instant;
    an edge that starts exactly at begin always counts."""
    if begin is None and end is None:
        return True
    b = -INF if begin is None else begin
    e = INF if end is None else end
    return (l < e and h > b) or l == b


def in_impulse_window(t, begin, end, inclusive=(True, False)):
    if begin is None and end is None:
        return True
    if begin is not None and begin == end:
        return t == begin
    if begin is not None and (t < begin or (t == begin and not inclusive[0])):
        return False
    if end is not None and (t > end or (t == end and not inclusive[1])):
        return False
    return True


class Model(object):
    def __init__(self, kind, directed):
        self.kind, self.directed = kind, directed
        self.nodes, self.edges = {}, {}

    # ---- presence
    def present(self, e, begin=None, end=None, inclusive=(True, False)):
        if self.kind == 'interval':
            return in_interval_window(e[2], e[3], begin, end)
        return in_impulse_window(e[2], begin, end, inclusive)

    def joins(self, e, u, v):
        return (e[0] == u and e[1] == v) or (not self.directed and e[0] == v and e[1] == u)

    def select(self, u=None, v=None, begin=None, end=None, inclusive=(True, False)):
        """Edges matching one source/one target; u and v are single nodes or None."""
        out = set()
        for e in self.edges:
            if u is None and v is None:
                ok = True
            elif v is None:
                ok = e[0] == u or (not self.directed and e[1] == u)
            elif u is None:
                ok = e[1] == v or (not self.directed and e[0] == v)
            else:
                ok = self.joins(e, u, v)
            if ok and self.present(e, begin, end, inclusive):
                out.add(e)
        return out

    def select_many(self, us, vs, begin=None, end=None, inclusive=(True, False)):
        out = set()
        for u in us:
            for v in vs:
                out |= self.select(u, v, begin, end, inclusive)
        return out

    def touching(self, n):
        return [e for e in self.edges if e[0] == n or e[1] == n]

    def window_nodes(self, begin=None, end=None, inclusive=(True, False)):
        if begin is None and end is None:
            return set(self.nodes)
        out = set()
        for e in self.edges:
            if self.present(e, begin, end, inclusive):
                out.add(e[0])
                out.add(e[1])
        return out

    # ---- changes (same signatures as the graphs)
    def add_node(self, n, /, **attr):
        self.nodes.setdefault(n, {}).update(attr)

    def add_nodes_from(self, nodes, /, **attr):
        for n in nodes:
            if isinstance(n, tuple) and len(n) == 2 and isinstance(n[1], dict):
                self.add_node(n[0], **attr)
                self.nodes[n[0]].update(n[1])
            else:
                self.add_node(n, **attr)

    def key(self, *e):
        if not self.directed and e not in self.edges:
            r = (e[1], e[0]) + e[2:]
            if r in self.edges:
                return r
        return e

    def add_edge(self, *e, **attr):
        self.nodes.setdefault(e[0], {})
        self.nodes.setdefault(e[1], {})
        self.edges.setdefault(self.key(*e), {}).update(attr)

    def add_edges_from(self, edges, /, **attr):
        for e in edges:
            self.add_edge(*e, **attr)

    def remove_edge(self, u, v, begin=None, end=None, overlapping=True, inclusive=(True, False)):
        if self.kind == 'impulse' and type(overlapping) is tuple:       # fifth in the order of arguments
            overlapping, inclusive = True, overlapping
        for e in list(self.edges):
            if self.joins(e, u, v):
                if not overlapping:
                    gone = e[2] == begin and e[3] == end
                else:
                    gone = self.present(e, begin, end, inclusive)
                if gone:
                    del self.edges[e]

    def remove_node(self, n, begin=None, end=None, inclusive=(True, False)):
        if n not in self.nodes:
            return
        for e in self.touching(n):
            if self.present(e, begin, end, inclusive):
                del self.edges[e]
        if not self.touching(n):
            del self.nodes[n]

    # ---- logical state, for counting distinct states
    def canon(self):
        return (frozenset((n, frozen(a)) for n, a in self.nodes.items()),
                frozenset((e, frozen(a)) for e, a in self.edges.items()))

    def canon_edges(self):
        return frozenset(self.edges), frozenset(self.nodes)


def frozen(d):
    try:
        return frozenset(d.items())
    except TypeError:       # values that are lists or dictionaries
        return frozenset((k, repr(v)) for k, v in d.items())
