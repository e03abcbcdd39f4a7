"""C22: edges are unique per identity, and each node, edge and graph keeps exactly its own attributes."""
from itertools import product
import dynetworkx as dnx
from vlib.alpha import *
from vlib.core import Script
from vlib import chat, names
from vlib.drive import Pair, op, KIND

BOUNDS = {
    'quick': 'every history of <=4 of 19 operations (adding and re-adding nodes and edges with attributes singly and in '
             'bulk, in both directions, removing them) on all 4 temporal classes; every edge/node data form in every '
             'window after each; writing to each returned attribute dictionary; 8 node and 5 time alphabets for 3 operations; '
             'graph attributes of all 6 classes; 43 attribute names x 22 values of every type',
    'thorough': 'as quick with histories of <=5 operations',
}
BOUNDS['quick'] += '; every triple of 20 changes of a graph somewhere in its life, checked after each change'
ASSUMPTIONS = ['attributes are not called like parameters of the call']


def alphabet(iv, und, n=(0, 1, 2), t=(0, 1, 2, 3)):
    a, b, c = n[:3]
    if iv:
        e1, e1r, e2, e3, loop = (a, b, t[0], t[2]), (b, a, t[0], t[2]), (a, b, t[1], t[3]), (b, c, t[0], t[2]), \
            (a, a, t[1], t[1])
        cut = {'begin': t[2], 'end': t[3]}
    else:
        e1, e1r, e2, e3, loop = (a, b, t[0]), (b, a, t[0]), (a, b, t[1]), (b, c, t[0]), (a, a, t[1])
        cut = {'begin': t[1], 'end': t[2]}
    out = [op('add_edge', *e1, weight=1), op('add_edge', *e1, c='x'), op('add_edge', *e1), op('add_edge', *e1, weight=None),
           op('add_edge', *e1r, weight=2), op('add_edge', *e2, weight=3), op('add_edge', *loop, weight=0),
           op('add_edges_from', [e1, e2, e3], weight=4, k='s'), op('add_edges_from', [e3, list(e1), e1]),
           op('add_node', a, p=1), op('add_node', a, q=''), op('add_node', c),
           op('add_nodes_from', [(a, {'p': 2}), b, (c, {'r': 5})], z=0, p=6), op('add_nodes_from', [a, c], p=7),
           op('add_nodes_from', (b, c), weight=9),
           op('remove_edge', a, b), op('remove_node', a), op('remove_edge', a, b, **cut), op('remove_node', b, **cut)]
    return out


def items(tier):
    out = []
    d = 4 if tier == 'quick' else 5
    for cls in KIND:
        for a in range(19):
            for b in range(0, 19, 1 if tier == 'thorough' else 3):
                out.append(('hist', cls, a, b, 1 if tier == 'thorough' else 3, d))
        for nk in NODES:
            out.append(('naming', cls, nk, 'int'))
        for tk in TIMES:
            if tk not in ('int', 'open'):
                out.append(('naming', cls, 'int', tk))
    out.append(('graph',))
    for cls in KIND:
        out += chat.items(cls, 3 if tier == 'quick' else 4)
    out += [('names', cls, c) for cls in KIND for c in range(8)]
    return out


def norm(pairs):
    return sorted(((k, sorted(d.items(), key=repr)) for k, d in pairs), key=repr)


def verify(p, nodes, t):
    m, R = p.m, p.R
    for kw in ({}, {'begin': t[0], 'end': t[1]}, {'begin': t[1]}, {'end': t[2]}, {'begin': t[1], 'end': t[1]}):
        b, e = kw.get('begin'), kw.get('end')
        win = [x for x in m.edges if m.present(x, b, e)]
        got = p.ask('edges', data=True, **kw)
        want = [(x, m.edges[x]) for x in win]
        if norm(got) != norm(want):
            p.wrong(want, got)
        got = p.ask('edges', data='weight', default='none', **kw)
        want = sorted([(x, m.edges[x].get('weight', 'none')) for x in win], key=repr)
        if sorted(got, key=repr) != want:
            p.wrong(want, got)
        ns = m.window_nodes(b, e)
        got = dict(p.ask('nodes', data=True, **kw))
        want = {n: m.nodes[n] for n in ns}
        if got != want:
            p.wrong(want, got)
        got = sorted(p.ask('nodes', data='p', default=-1, **kw), key=repr)
        want = sorted([(n, m.nodes[n].get('p', -1)) for n in ns], key=repr)
        if got != want:
            p.wrong(want, got)
    for n in nodes:
        got = p.ask('edges', n, data=True)
        want = [(x, m.edges[x]) for x in m.select(n)]
        if norm(got) != norm(want):
            p.wrong(want, got)
        got = p.ask('edges', v=n, data='c')
        want = sorted([(x, m.edges[x].get('c')) for x in m.select(None, n)], key=repr)
        if sorted(got, key=repr) != want:
            p.wrong(want, got)
        want = dict(zip(m.nodes, m.nodes))
        if (n in want) is not (n in p.g):
            p.wrong(n in want, n in p.g)
    p.q = None
    R.outcome((p.cls, len(m.edges), len(m.nodes), sum(map(len, m.edges.values()))))
    R.state(m.canon())


def poke(p):
    """Writing to the attributes a query returned for one edge or node reaches no other edge or node."""
    g, m = p.g, p.m
    for i, (x, d) in enumerate(g.edges(data=True)):
        d['poked'] = i
        for y, d2 in g.edges(data=True):
            if y != x and 'poked' in d2:
                p.wrong((y, m.edges[y]), (y, d2), 'writing to the attributes of %r changed those of %r' % (x, y))
        for n, d2 in g.nodes(data=True):
            if 'poked' in d2:
                p.wrong((n, m.nodes[n]), (n, d2), 'writing to the attributes of %r changed those of %r' % (x, n))
        d.pop('poked')
    for i, (x, d) in enumerate(list(g.nodes(data=True))):
        d['poked'] = i
        for y, d2 in g.nodes(data=True):
            if y != x and 'poked' in d2:
                p.wrong((y, m.nodes[y]), (y, d2), 'writing to the attributes of %r changed those of %r' % (x, y))
        for y, d2 in g.edges(data=True):
            if 'poked' in d2:
                p.wrong((y, m.edges[y]), (y, d2), 'writing to the attributes of %r changed those of %r' % (x, y))
        d.pop('poked')


def run(item, R):
    fam = item[0]
    if fam == 'graph':
        for cls in list(KIND) + ['SnapshotGraph', 'SnapshotDiGraph']:
            for attrs in ({}, {'name': 'x'}, {'k': 0}, {'name': '', 'k': None, 'graph': 1, 'data': 2}):
                for later in ([], ['n'], ['n', 'm'], ['']):
                    R.ctx = Script(['g = dnx.%s(**%r)' % (cls, attrs), 'h = dnx.%s()' % cls] +
                                   ['g.name = %r' % x for x in later] + ['result = g.graph, g.name, str(g), h.graph'])
                    R.transitions += 2 + len(later)
                    g, h = getattr(dnx, cls)(**attrs), getattr(dnx, cls)()
                    want = dict(attrs)
                    for x in later:
                        g.name = x
                        want['name'] = x
                    w = (want, want.get('name', ''), want.get('name', ''), {})
                    got = (g.graph, g.name, str(g), h.graph)
                    if got != w:
                        R.fail('graph attributes', w, got)
                    R.state((cls, repr(attrs), tuple(later)))
                    R.trace(R.ctx)
        return
    cls = item[1]
    iv, und = KIND[cls][0] == 'interval', not KIND[cls][1]
    if fam == 'names':
        for name, seq in list(names.histories(cls))[item[2]::8]:
            p = Pair(R, cls, seq)
            verify(p, (0, 1, 2), (0, 1, 2, 3))
            for kw in ({}, {'begin': 1, 'end': 2}):
                for what, have in (('edges', p.m.edges), ('nodes', p.m.nodes)):
                    got = dict(p.ask(what, data=True, **kw))
                    for x in got:
                        if names.typed(got[x]) != names.typed(have[x]):
                            p.wrong((x, have[x]), (x, got[x]))
                    for d in (None, False, 0, 'none'):
                        got = list(p.ask(what, data=name or 'other', default=d, **kw))
                        want = [(x, have[x].get(name or 'other', d)) for x, _ in got]
                        if repr(want) != repr(got):
                            p.wrong(want, got)
            R.trace(p)
    elif fam == 'chat':
        for p in chat.walk(item, R):
            verify(p, (0, 1, 7), (0, 1, 2, 3))
            poke(p)
    elif fam == 'hist':
        ops = alphabet(iv, und)

        def extend(seq, depth):
            p = Pair(R, cls, seq)
            verify(p, (0, 1, 2), (0, 1, 2, 3))
            R.trace(p)
            if len(seq) < 4:
                poke(p)
            if depth:
                for o in ops:
                    extend(seq + [o], depth - 1)
        a, b, w, d = item[2:]
        for j in range(b, min(b + w, 19)):
            extend([ops[a], ops[j]], d - 2)
        if b == 0:
            p = Pair(R, cls, [ops[a]])
            verify(p, (0, 1, 2), (0, 1, 2, 3))
            poke(p)
    else:
        n, t = NODES[item[2]], TIMES[item[3]]
        ops = alphabet(iv, und, n, t)
        for seq in product(ops, repeat=3):
            p = Pair(R, cls, list(seq))
            verify(p, n[:3], t)
            R.trace(p)
