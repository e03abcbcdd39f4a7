"""C17: the subgraph of a snapshot graph holds exactly the induced subgraphs of the chosen snapshots."""
from itertools import combinations, permutations
import networkx as nx
import dynetworkx as dnx
from vlib.alpha import *
from vlib.snap import SnapPair, content
from checks.c16 import KEYS, SPECS, LONG, long_graph, long_selections
from vlib import chat, scale

BOUNDS = {
    'quick': 'every ordered sequence of <=3 of 9 snapshot intervals/instants with graphs of all 4 networkx classes x '
             '8 node sets (absent, empty, single) x every range and index list of <=2; 9 shapes of 12 and 45 snapshots',
    'thorough': 'as quick with sequences of <=4 intervals',
}
BOUNDS['quick'] += '; every triple of 14 changes of a snapshot graph somewhere in its life, checked after each change'
ASSUMPTIONS = ['ranges have start < end']
NODESETS = [[0, 1], [0], [1, 2, 9], [9], [], [0, 1, 2, 3, 7], (2, 0), {1}]


def items(tier):
    return [(cls, a, b, 3 if tier == 'quick' else 4) for cls in ('SnapshotGraph', 'SnapshotDiGraph')
            for a in range(9) for b in range(9) if a != b] + \
        [('long', cls, shape, order, n) for cls in ('SnapshotGraph', 'SnapshotDiGraph') for shape in LONG
         for order in ('up', 'down', 'outward') for n in ((12, 45) if tier == 'quick' else (12, 45, 300))] + \
        chat.snap_items('SnapshotGraph', 3) + chat.snap_items('SnapshotDiGraph', 3)


def run_long(item, R):
    _, cls, shape, order, n = item
    p = long_graph(R, cls, shape, order, n)
    for sel in long_selections(p, n):
        for nb in ([0, 1], [1, 2, 77]):
            keys = sorted(p.chosen(**sel))
            S = p.ask('subgraph', nb, **sel)
            if list(S.snapshots.keys()) != keys:
                p.wrong(keys, list(S.snapshots.keys()))
            for k, G in zip(keys, S.get()):
                if content(G) != content(p.m[k].subgraph(nb)):
                    p.wrong((k, content(p.m[k].subgraph(nb))), content(G))
    p.same()
    R.state(p.canon())
    R.trace(p)


def run_chat(item, R):
    """Subgraphs after every change, and the ones made before it: those stay as they were."""
    sels = [{}, {'start': 1}, {'end': 3}, {'start': 2, 'end': 4}, {'sbunch': [0]}, {'sbunch': [-1]}]
    for p in chat.snap_walk(item, R, SPECS):
        for nb in ([0, 1], [1, 2, 9], [0, 1, 2, 3, 7]):
            for sel in sels:
                keys = sorted(p.chosen(**sel))
                S = p.ask('subgraph', nb, **sel)
                if list(S.snapshots.keys()) != keys:
                    p.wrong(keys, list(S.snapshots.keys()))
                for k, G in zip(keys, S.get()):
                    if content(G) != content(p.m[k].subgraph(nb)):
                        p.wrong((k, content(p.m[k].subgraph(nb))), content(G))
        p.same()
        R.state(p.canon())


def run(item, R):
    if item[0] == 'long':
        return run_long(item, R)
    if item[0] == 'chat':
        return run_chat(item, R)
    cls, a, b, depth = item
    bs = [-1.5, 0, 1, 2, 3, 4, 5]

    def build(seq):
        p = SnapPair(R, cls, name='x', kind=3)
        for j, i in enumerate(seq):
            p.insert(SPECS[(i * 3 + j * 2 + len(seq)) % 7], KEYS[i])
        n = len(seq)
        sels = [{}, {'sbunch': []}] + [{'start': s} for s in bs] + [{'end': e} for e in bs] + [{'sbunch': [-1]}] + \
            [{'start': s, 'end': e} for s in bs for e in bs if s < e] + \
            [{'sbunch': list(x)} for k in (1, 2) for x in permutations(range(n), k)]
        for nb in NODESETS:
            for sel in sels:
                keys = sorted(p.chosen(**sel))
                S = p.ask('subgraph', nb, **sel)
                if type(S).__name__ != cls:
                    p.wrong(cls, type(S).__name__)
                if S.name != 'x' or S.graph != {'name': 'x', 'kind': 3}:
                    p.wrong({'name': 'x', 'kind': 3}, S.graph, 'graph attributes')
                got = list(S.snapshots.keys())
                if got != keys:
                    p.wrong(keys, got)
                for k, G in zip(keys, S.get()):
                    w = content(p.m[k].subgraph(nb))
                    if content(G) != w:
                        p.wrong((k, w), content(G))
                R.outcome((tuple(keys), tuple(G.number_of_edges() for G in S.get())))
            for k, G in zip(sorted(p.m), p.ask('subgraph', iter(list(nb))).get()):
                w = content(p.m[k].subgraph(nb))
                if content(G) != w:
                    p.wrong((k, w), content(G), 'subgraph on the nodes of an iterator')
        p.same()        # the graph itself is unchanged
        R.state(p.canon())
        R.trace(p)
        if len(seq) < depth:
            for i in range(9):
                if i not in seq:
                    build(seq + [i])
    if b == (a + 1) % 9:
        build([a])
    build([a, b])
