"""Comparison of a networkx graph produced from a temporal graph with the edges it must hold."""
import networkx as nx
from .model import frozen as hashable

TYPES = {(False, False): nx.Graph, (False, True): nx.MultiGraph, (True, False): nx.DiGraph, (True, True): nx.MultiDiGraph}


def edge_attrs(m, e, edge_data, time_data):
    d = dict(m.edges[e]) if edge_data else {}
    if time_data:
        if m.kind == 'interval':
            d['begin'], d['end'] = e[2], e[3]
        else:
            d['timestamp'] = e[2]
    return d


def mismatch(m, S, edges, multigraph=False, edge_data=False, time_data=False, node_data=False):
    """None if S is the static graph of these edges of the model m, otherwise (expected, observed)."""
    want_type = TYPES[(m.directed, multigraph)]
    if type(S) is not want_type:
        return want_type.__name__, type(S).__name__
    nodes = set()
    for e in edges:
        nodes.add(e[0])
        nodes.add(e[1])
    want_nodes = {n: (m.nodes[n] if node_data else {}) for n in nodes}
    got_nodes = dict(S.nodes(data=True))
    if got_nodes != want_nodes:
        return ('nodes', want_nodes), ('nodes', got_nodes)
    directed = m.directed

    def pair(u, v):
        return (u, v) if directed else frozenset((u, v))
    if multigraph:
        want, got = {}, {}
        for e in edges:
            k = (pair(e[0], e[1]), hashable(edge_attrs(m, e, edge_data, time_data)))
            want[k] = want.get(k, 0) + 1
        for u, v, d in S.edges(data=True):
            k = (pair(u, v), hashable(d))
            got[k] = got.get(k, 0) + 1
        if want != got:
            return ('edges', want), ('edges', got)
        return None
    want = {}
    for e in edges:
        want.setdefault(pair(e[0], e[1]), []).append(edge_attrs(m, e, edge_data, time_data))
    got = {pair(u, v): d for u, v, d in S.edges(data=True)}
    if set(got) != set(want) or S.number_of_edges() != len(want):
        return ('edges', list(want)), ('edges', list(got))
    for k, options in want.items():
        # several temporal edges collapse into one: every attribute comes from one of them
        if set(got[k]) != set(a for o in options for a in o) or \
                any(not any(a in o and o[a] == x for o in options) for a, x in got[k].items()):
            return ('attributes of %s from' % (tuple(k),), options), got[k]
    return None
