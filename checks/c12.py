"""C12: conversion from networkx graphs keeps every edge, its times and attributes, and round-trips."""
from itertools import combinations, product
import networkx as nx
import dynetworkx as dnx
from vlib.alpha import *
from vlib import chat, medium, names, scale
from vlib.model import frozen
from vlib.drive import Pair, op, KIND
from checks.c08 import IV, IM
from vlib.core import Script as Ctx, call_src

BOUNDS = {
    'quick': 'every set of <=6 of 11 attributed edges x {simple, multi} networkx graphs x custom time keys, for the four '
             'classes; round trip through to_networkx_graph; 12 other node/time alphabets; graphs of 14..1100 '
             'edges of every shape, end point pattern and order; 38 attribute names x 22 values',
    'thorough': 'as quick with sets of <=8 edges',
}
BOUNDS['quick'] += '; every triple of 20 changes of a graph somewhere in its life, checked after each change'


def items(tier):
    out = []
    for cls in KIND:
        for c in range(8):
            out.append(('sets', cls, c, 6 if tier == 'quick' else 8))
        for (nk, tk) in NAMINGS:
            out.append(('naming', cls, nk, tk))
    for cls in KIND:
        out += medium.standard(cls, tier)
        out += chat.items(cls, 3 if tier == 'quick' else 4)
        out += [('source', cls, multi, c, 3 if tier == 'quick' else 4) for multi in (False, True) for c in range(4)]
        out += [('names', cls)]
    return out


def edge_map(G):
    out = {}
    for e, d in G.edges(data=True):
        if e in out:
            return None
        out[e] = d
    return out


def canon(d, directed):
    """Edges as a multiset; the order of an undirected edge's end points is not kept by networkx."""
    out = {}
    for e, a in d.items():
        k = ((e[:2] if directed else frozenset(e[:2])), e[2:], frozen(a))
        out[k] = out.get(k, 0) + 1
    return out


def convert(R, cls, edges, multi, keys):
    kind, directed = KIND[cls]
    gname = ('Multi' if multi else '') + ('DiGraph' if directed else 'Graph')
    es = []
    for e, a in edges:
        d = dict(a)
        for k, t in zip(keys, e[2:]):
            d[k] = t
        es.append((e[0], e[1], d))
    src = getattr(nx, gname)()
    src.add_edges_from(es)
    src.add_node('isolated')
    lines = ['src = nx.%s()' % gname, 'src.add_edges_from(%r)' % (es,)]
    if kind == 'interval':
        kw = {} if keys == ('begin', 'end') else {'begin': keys[0], 'end': keys[1]}
    else:
        kw = {} if keys == ('timestamp',) else {'timestamp': keys[0]}
    lines.append('g = dnx.%s.from_networkx_graph(src, **%r)' % (cls, kw))
    lines.append('result = sorted(map(repr, g.edges(data=True)))')
    R.ctx = Ctx(lines)
    before = repr(sorted(map(repr, src.edges(data=True))))
    G = getattr(dnx, cls).from_networkx_graph(src, **kw)
    R.transitions += 2
    if type(G).__name__ != cls:
        R.fail('wrong class', cls, type(G).__name__)
    want = {}
    for u, v, d in src.edges(data=True):
        e = (u, v) + tuple(d[k] for k in keys)
        want.setdefault(e, {}).update({k: x for k, x in d.items() if k not in keys})
    got = edge_map(G)
    if got is None or canon(got, directed) != canon(want, directed):
        R.fail('wrong edges', want, G.edges(data=True))
    for _, d in G.edges(data=True):
        d['touched'] = 1            # the graphs share no attributes
    if repr(sorted(map(repr, src.edges(data=True)))) != before:
        R.fail('changing the temporal graph changes the source', before, list(src.edges(data=True)))
    R.outcome((cls, len(want), multi))
    R.state((cls, multi, keys, frozenset(canon(want, directed))))
    R.trace(R.ctx)


def roundtrip(R, cls, edges):
    p = edges if isinstance(edges, Pair) else Pair(R, cls, [op('add_edge', *e, **a) for e, a in edges])
    kind, directed = KIND[cls]
    if kind == 'interval':
        S = p.ask('to_networkx_graph', None, None, multigraph=True, edge_data=True, edge_interval_data=True)
    else:
        S = p.ask('to_networkx_graph', multigraph=True, edge_data=True, edge_timestamp_data=True)
    G = getattr(dnx, cls).from_networkx_graph(S)
    got = edge_map(G)
    if got is None or canon(got, directed) != canon(p.m.edges, directed):
        p.wrong(p.m.edges, G.edges(data=True), 'round trip through networkx')
    R.transitions += 1
    R.state(p.m.canon())
    R.trace(p)


def source_changes(keys, multi):
    """Changes of a networkx graph."""
    def edge(u, v, b, e, **a):
        return ('add_edge', (u, v), dict(a, **dict(zip(keys, (b, e)))))
    out = [edge(0, 1, 0, 2, weight=1), edge(0, 1, 1, 3), edge(1, 0, 0, 2, c='x'), edge(1, 2, 0, 1, weight=2), edge(1, 1, 2, 2),
           ('add_node', (3,), {'a': 1}), ('add_node', (0,), {'a': 2}), ('remove_node', (1,), {}), ('remove_node', (3,), {}), ('clear', (), {})]
    # what networkx does not hold is not removed
    return out + [('remove_edge', (0, 1), {}), ('remove_edge', (1, 1), {})]


def source(R, cls, multi, part, order):
    """One networkx graph, converted after every change: each result is that of the graph as it is now, and stays."""
    kind, directed = KIND[cls]
    keys = ('begin', 'end') if kind == 'interval' else ('timestamp',)
    ops = source_changes(keys, multi)
    gname = ('Multi' if multi else '') + ('DiGraph' if directed else 'Graph')
    seq = scale.debruijn(len(ops), order)
    for at in range(part * 40, len(seq), 4 * 40):
        src = getattr(nx, gname)()
        lines = ['src = nx.%s()' % gname]
        R.ctx = Ctx(lines)
        old, kept = None, None
        for i in seq[at:at + 40 + order - 1]:
            name, args, kw = ops[i]
            if name == 'remove_edge' and not src.has_edge(*args) or name == 'remove_node' and args[0] not in src:
                continue
            getattr(src, name)(*args, **kw)
            lines.append(call_src('src', name, args, kw))
            if old is not None and repr(old.edges(data=True)) != kept:
                R.fail('changing the source changes what was made of it before', kept, old.edges(data=True))
            G = getattr(dnx, cls).from_networkx_graph(src)
            lines.append('g = dnx.%s.from_networkx_graph(src); result = g.edges(data=True)' % cls)
            R.transitions += 2
            want = {}
            for u, v, d in src.edges(data=True):
                e = (u, v) + tuple(d[k] for k in keys)
                want.setdefault(e, {}).update({k: x for k, x in d.items() if k not in keys})
            got = edge_map(G)
            if got is None or canon(got, directed) != canon(want, directed):
                R.fail('wrong edges', want, G.edges(data=True))
            old, kept = G, repr(G.edges(data=True))
            R.state((cls, multi, frozenset(canon(want, directed))))
        R.trace(R.ctx)


def run(item, R):
    fam, cls = item[:2]
    kind, directed = KIND[cls]
    keysets = [('begin', 'end'), ('from', 'begin'), ('end', 'begin')] if kind == 'interval' else [('timestamp',), ('t',)]
    if fam == 'medium':
        es = [(e, medium.attributes(j)) for j, e in enumerate(medium.edges(item))]
        convert(R, cls, es, True, keysets[item[5] % 2])
        convert(R, cls, es, False, keysets[0])
        roundtrip(R, cls, es)
    elif fam == 'names':
        pool = [x[0] for x in (IV if kind == 'interval' else IM)][:4]
        for name in names.edge_names(cls):
            for i, x in enumerate(names.VALUES):
                y = names.VALUES[(i * 3 + 5) % len(names.VALUES)]
                es = [(pool[0], {name: x}), (pool[1], {name: y, 'other': x}), (pool[2], {}), (pool[3], {'other': y, name: 7})]
                for keys in keysets + ([('start', 'stop'), ('', '_')] if kind == 'interval' else [('when',), ('',)]):
                    if name not in keys and 'other' not in keys:
                        convert(R, cls, es, i % 2 == 0, keys)
                if kind == 'interval' or name != 'timestamp':
                    roundtrip(R, cls, es)
    elif fam == 'chat':
        for p in chat.walk(item, R):
            roundtrip(R, cls, p)
    elif fam == 'source':
        source(R, cls, *item[2:])
    elif fam == 'sets':
        pool = IV if kind == 'interval' else IM
        sets = [s for k in range(item[3] + 1) for s in combinations(pool, k)]
        for s in sets[item[2]::8]:
            for keys in keysets:
                for multi in (True, False):
                    convert(R, cls, s, multi, keys)
            roundtrip(R, cls, s)
    else:
        n, t = NODES[item[2]], TIMES[item[3]]
        pairs = [(n[0], n[1]), (n[1], n[2]), (n[2], n[2])]
        pool = interval_edges(pairs, t)[::2] if kind == 'interval' else impulse_edges(pairs, t)
        for s in combinations(pool, 2):
            es = [(e, {'w': j}) for j, e in enumerate(s)]
            convert(R, cls, es, True, keysets[0])
            roundtrip(R, cls, es)
