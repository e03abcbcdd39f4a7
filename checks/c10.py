"""C10: to_snapshot_graph is the complete timeline of the temporal graph."""
from itertools import combinations, product
import dynetworkx as dnx
from vlib.alpha import *
from vlib import chat, medium, names
from vlib.drive import Pair, op, KIND
from vlib.static import mismatch
from checks.c08 import IV, IM, SETUP

BOUNDS = {
    'quick': 'every set of <=6 of 11 attributed edges (instants, gaps, parallel, loops), also after removals; all 16 '
             'data options for <=2 edges; 10 other node/time alphabets; graphs of 14..1100 edges of every '
             'shape, end point pattern and order; 43 attribute names x 22 values',
    'thorough': 'as quick with sets of <=8 edges',
}
BOUNDS['quick'] += '; every triple of 20 changes of a graph somewhere in its life, checked after each change'
GAPS = [((0, 1, 5, 6), {'g': 1}), ((2, 1, 8, 8), {}), ((1, 0, 6, 9), {'g': 2})]


def items(tier):
    out = []
    for cls in KIND:
        for c in range(16):
            out.append(('sets', cls, c, 6 if tier == 'quick' else 8))
        for (nk, tk) in NAMINGS:
            if tk != 'open':
                out.append(('naming', cls, nk, tk))
    for cls in KIND:
        out += medium.standard(cls, tier)
        out += chat.items(cls, 3 if tier == 'quick' else 4)
        out += [('names', cls, c) for c in range(4)]
    return out


def timeline(m):
    """(begin, end) of every snapshot, with the edges it holds."""
    if m.kind == 'impulse':
        return {(t, t): [e for e in m.edges if e[2] == t] for t in set(e[2] for e in m.edges)}
    out = {}
    times = sorted(set(t for e in m.edges if e[2] < e[3] for t in e[2:]))
    for b, e in zip(times, times[1:]):
        out[(b, e)] = [x for x in m.edges if m.present(x, b, e)]
    for t in set(e[2] for e in m.edges if e[2] == e[3]):
        out[(t, t)] = [x for x in m.edges if m.present(x, t, t)]
    return out


def check(p, options):
    m = p.m
    want = timeline(m)
    for (multi, ed, td, nd) in options:
        tkey = 'edge_interval_data' if m.kind == 'interval' else 'edge_timestamp_data'
        if ed ^ multi:      # what is not asked for need not be named
            got = p.ask('to_snapshot_graph', **{x: True for x, y in (('multigraph', multi), ('edge_data', ed), ('node_data', nd), (tkey, td)) if y})
        elif ed:
            got = p.ask('to_snapshot_graph', multigraph=multi, edge_data=ed, node_data=nd, **{tkey: td})
        else:       # the documented order of arguments
            got = p.ask('to_snapshot_graph', multi, ed, td, nd)
        if not isinstance(got, dnx.SnapshotGraph):
            p.wrong('a SnapshotGraph', got)
        if list(got.snapshots.keys()) != sorted(want):
            p.wrong(sorted(want), list(got.snapshots.keys()))
        for (key, S), alone in zip(got.snapshots.items(), got.get()):
            if S is not alone:
                p.wrong('snapshots in time order', key)
            bad = mismatch(m, S, want[key], multi, ed, td, nd)
            if bad:
                p.wrong(('snapshot %s' % (key,),) + bad[:1], bad[1])
    p.R.outcome((p.cls, tuple(len(v) for k, v in sorted(want.items()))))
    p.R.state(m.canon())
    p.R.trace(p)


ALL = list(product((False, True), repeat=4))
FEW = [(True, True, True, True), (False, False, False, False), (False, True, False, True)]


def run(item, R):
    fam, cls = item[:2]
    iv = KIND[cls][0] == 'interval'
    if fam == 'medium':
        check(Pair(R, cls, medium.ops(item)), FEW)
    elif fam == 'names':
        for name, seq in list(names.histories(cls))[item[2]::4]:
            # an attribute called like the time data: not asked together
            clash = not iv and name == 'timestamp'
            check(Pair(R, cls, seq), [(True, True, not clash, True), (False, True, False, True)])
    elif fam == 'chat':
        for p in chat.walk(item, R):
            check(p, FEW)
    elif fam == 'sets':
        pool = (IV[:9] + GAPS) if iv else IM
        sets = [s for k in range(item[3] + 1) for s in combinations(pool, k)]
        for s in sets[item[2]::16]:
            ops = SETUP + [op('add_edge', *e, **a) for e, a in s]
            check(Pair(R, cls, ops), ALL if len(s) < 3 else FEW)
            if len(s) >= 2:
                check(Pair(R, cls, ops + [op('remove_edge', *s[0][0][:2])]), FEW[:1])
                check(Pair(R, cls, ops + [op('remove_node', 0, begin=1, end=2), op('add_edge', *s[0][0])]), FEW[:1])
    else:
        n, t = NODES[item[2]], TIMES[item[3]]
        pairs = [(n[0], n[1]), (n[1], n[2]), (n[2], n[2])]
        pool = interval_edges(pairs, t)[::2] if iv else impulse_edges(pairs, t)
        for s in combinations(pool, 2):
            ops = [op('add_nodes_from', list(n), c=1)] + [op('add_edge', *e, w=j) for j, e in enumerate(s)]
            check(Pair(R, cls, ops), FEW[:2])
