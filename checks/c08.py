"""C08: static projections (to_subgraph / to_networkx_graph) hold exactly the window's nodes, edges and data."""
from itertools import combinations, product
from vlib.alpha import *
from vlib import chat, medium, names
from vlib.drive import Pair, op, KIND
from vlib.static import mismatch

BOUNDS = {
    'quick': 'every set of <=5 of 11 attributed edges (plus an isolated node, plus one removal); every window over '
             'times/midpoints/omitted bounds, every inclusivity; all 16 combinations of multigraph/edge data/time '
             'data/node data; 12 other node/time alphabets; graphs of 14..1100 edges of every shape, end point '
             'pattern and order; 43 attribute names x 22 values',
    'thorough': 'as quick with sets of <=7 of 11 edges',
}
BOUNDS['quick'] += '; every triple of 20 changes of a graph somewhere in its life, checked after each change'
ASSUMPTIONS = ['edge attributes are not called begin, end or timestamp']
IV = [((0, 1, 0, 2), {}), ((0, 1, 1, 3), {'weight': 1}), ((1, 0, 0, 2.5), {'weight': 2, 'c': 'x'}), ((1, 2, 1, 2), {'weight': 0}),
      ((0, 0, 0, 1), {'c': ''}), ((0, 1, 2, 2), {'weight': 3}), ((2, 0, 2, 3), {}), ((1, 1, 3, 3), {'k': None}),
      ((2, 1, 0, 0), {'weight': 1}), ((1, 2, 0, 3), {'weight': 4}), ((0, 2, 1, 1), {'c': 'y'})]
IM = [((0, 1, 0), {}), ((0, 1, 1), {'weight': 1}), ((1, 0, 2), {'weight': 2, 'c': 'x'}), ((1, 2, 1), {'weight': 0}),
      ((0, 0, 0), {'c': ''}), ((0, 1, 3), {'weight': 3}), ((2, 0, 2), {}), ((1, 1, 3), {'k': None}), ((2, 1, 0), {'weight': 1}),
      ((1, 2, 3), {'weight': 4}), ((0, 2, 1), {'c': 'y'})]
SETUP = [op('add_nodes_from', [(0, {'a': 1}), (1, {}), 7], z=0)]


def items(tier):
    out = []
    for cls in KIND:
        for c in range(16):
            out.append(('sets', cls, c, 11, 5 if tier == 'quick' else 7))
        for (nk, tk) in NAMINGS:
            if tk != 'open':
                out.append(('naming', cls, nk, tk))
    for cls in KIND:
        out += medium.standard(cls, tier)
        out += chat.items(cls, 3 if tier == 'quick' else 4)
        out += [('names', cls, c) for c in range(4)]
    return out


def check(p, wins, incs, options):
    m = p.m
    total = 0
    for (b, e) in wins:
        for inc in incs:
            kw = {} if inc is None else {'inclusive': inc}
            args = (b, e) + ((inc,) if inc is not None else ())
            edges = [x for x in m.edges if m.present(x, *args)]
            total += len(edges)
            for (multi, ed, td, nd) in options:
                tkey = 'edge_interval_data' if m.kind == 'interval' else 'edge_timestamp_data'
                k = dict(kw, multigraph=multi, edge_data=ed, node_data=nd)
                k[tkey] = td
                if ed ^ td:     # what is not asked for need not be named
                    k = {x: y for x, y in k.items() if y}
                # the two spellings are the same operation
                name = 'to_subgraph' if (multi ^ ed ^ td ^ nd ^ (b is None)) else 'to_networkx_graph'
                if multi:       # the documented order of arguments
                    S = p.ask(name, *(args + (multi, ed, td, nd) if inc is not None or m.kind == 'interval' else
                                      args + ((True, False), multi, ed, td, nd)))
                elif m.kind == 'impulse' and name == 'to_networkx_graph' and ed ^ td:
                    S = p.ask(name, **dict(k, **{x: y for x, y in (('begin', b), ('end', e)) if y is not None}))
                else:
                    S = p.ask(name, b, e, **k)
                bad = mismatch(m, S, edges, multi, ed, td, nd)
                if bad:
                    p.wrong(*bad)
    p.R.outcome((p.cls, total, len(m.edges)))
    p.R.state(m.canon())
    p.R.trace(p)


ALL = list(product((False, True), repeat=4))
FEW = [(False, False, False, False), (True, True, True, True), (True, False, False, False), (False, True, False, True),
       (True, False, True, False), (False, False, True, False)]


def run(item, R):
    fam, cls = item[:2]
    iv = KIND[cls][0] == 'interval'
    incs = (None,) if iv else (None,) + tuple(INCLUSIVE[1:])
    if fam == 'medium':
        check(Pair(R, cls, medium.ops(item)), windows(medium.bounds(item)[1::2]), incs[:2], FEW[:4])
    elif fam == 'names':
        for name, seq in list(names.histories(cls))[item[2]::4]:
            # an attribute called like the time data: not asked together
            clash = not iv and name == 'timestamp'
            check(Pair(R, cls, seq), [(None, None), (0, 2), (1, 1)], (None,),
                  [(True, True, not clash, True), (False, True, not clash, True), (False, True, False, False), (True, False, True, True)])
    elif fam == 'chat':
        for p in chat.walk(item, R):
            check(p, [(None, None), (0, 2), (1, None), (2, 2)], incs[:1], FEW)
    elif fam == 'sets':
        pool = (IV if iv else IM)[:item[3]]
        sets = [s for k in range(item[4] + 1) for s in combinations(pool, k)]
        for s in sets[item[2]::16]:
            ops = SETUP + [op('add_edge', *e, **a) for e, a in s]
            check(Pair(R, cls, ops), windows([0, 0.5, 1, 2, 3] if len(s) < 3 else [0, 1, 2, 3]), incs,
                  ALL if len(s) < 3 else FEW)
            if len(s) == 3:
                ops.append(op('remove_edge', 0, 1, begin=1, end=2))
                ops.append(op('remove_node', 2, begin=0, end=1))
                check(Pair(R, cls, ops), windows([0, 1, 2]), incs[:2], FEW[:3])
    else:
        n, t = NODES[item[2]], TIMES[item[3]]
        pairs = [(n[0], n[1]), (n[1], n[2]), (n[2], n[2])]
        pool = interval_edges(pairs, t)[::2] if iv else impulse_edges(pairs, t)
        for i, s in enumerate(combinations(pool, 2)):
            ops = [op('add_nodes_from', list(n), c=1)] + [op('add_edge', *e, weight=j) for j, e in enumerate(s)]
            check(Pair(R, cls, ops), windows(t), incs[:2], FEW[1:3])
