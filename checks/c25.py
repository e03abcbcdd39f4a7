"""C25: what a graph answers depends only on its nodes, edges and attributes, not on the history that built it."""
from itertools import combinations, permutations, product
import dynetworkx as dnx
from vlib import chat, scale
from vlib.alpha import *
from vlib.drive import Pair, op, KIND
from vlib.queries import *
from vlib.snap import SnapPair
from vlib.core import call_src
from checks.c16 import KEYS, SPECS

BOUNDS = {
    'quick': 'every history of <=4 of 12 changes, and every insertion order of every set of <=4 of 6 edges with a detour '
             '(an edge or node added and removed again, a query, a refused call) at every position, on all 4 temporal '
             'classes; every insertion order of <=4 of 9 snapshots with replaced snapshots; ~130 (snapshot graphs: ~90) '
             'queries against the same graph built afresh in sorted order',
    'thorough': 'as quick with histories of <=5 and sets of <=5',
}
ASSUMPTIONS = ['an edge has at most one attribute (their order in a text line is not compared)']


IV6 = [(0, 1, 0, 2), (0, 1, 1, 3), (1, 0, 0, 3), (1, 2, 0, 1), (0, 0, 1, 1), (2, 0, 1, 2)]
IM6 = [(0, 1, 0), (0, 1, 1), (1, 0, 2), (1, 2, 0), (0, 0, 1), (2, 0, 2)]


def detours(iv):
    """Steps that together leave the graph as it was."""
    t1 = (1, 2) if iv else (1,)
    t0 = (-5, 9) if iv else (-5,)
    t2 = (2, 3) if iv else (2,)
    return [[op('add_edge', 7, 8, *t1), op('remove_node', 7), op('remove_node', 8)],
            [op('add_edge', 7, 7, *t0), op('remove_edge', 7, 7), op('remove_node', 7)],
            [op('add_node', 9, z=1), op('remove_node', 9)],
            [op('add_edge', 5, 6, *t0), op('add_edge', 6, 5, *t2), op('remove_edge', 5, 6), op('remove_edge', 6, 5),
             op('remove_node', 5), op('remove_node', 6)],
            [op('remove_edge', 7, 8), op('remove_node', 77), op('remove_edge', 0, 9, begin=0)]]


def items(tier):
    deep = tier == 'thorough'
    out = []
    for cls in KIND:
        for a in range(12):
            for b in range(12):
                out.append(('hist', cls, a, b, 5 if deep else 4))
        for c in range(24):
            out.append(('orders', cls, c, 5 if deep else 4))
        for c in range(32):
            out.append(('chat', cls, c, 4 if deep else 3))
    for cls in ('SnapshotGraph', 'SnapshotDiGraph'):
        for a in range(9):
            out.append(('snap', cls, a, 4 if deep else 3))
        for a in range(16):
            out.append(('snapchat', cls, a, 3 if deep else 2))
    return out


_fresh = {}


def fresh(p, queries):
    """Answers of the same graph built in sorted order, its isolated nodes last."""
    m = p.m
    key = (p.cls, m.canon())
    if key not in _fresh:
        if len(_fresh) > 4000:
            _fresh.clear()
        lines = []
        for e in sorted(m.edges):
            lines.append(op('add_edge', *e, **m.edges[e]))
        for n in sorted(m.nodes):
            if m.nodes[n] or not m.touching(n):
                lines.append(op('add_node', n, **m.nodes[n]))
        g = getattr(dnx, p.cls)()
        for name, args, kw in lines:
            getattr(g, name)(*args, **kw)
        _fresh[key] = (['f.%s(*%r, **%r)' % o for o in lines], [plain(ask(g, q)) for q in queries])
    return _fresh[key]


class Ctx(object):
    def __init__(self, p, lines, q):
        self.p, self.lines, self.q = p, lines, q

    def script(self):
        self.p.q = None
        s = query_src(self.q)
        return ['f = dnx.%s()    # the same graph afresh' % self.p.cls] + self.lines + self.p.script() + \
            ['fresh = ' + s.replace('g.', 'f.', 1), 'result = ' + s]


def compare(p, queries):
    R = p.R
    lines, want = fresh(p, queries)
    for q, w in zip(queries, want):
        got = plain(ask(p.g, q))
        if got != w:
            R.ctx = Ctx(p, lines, q)
            R.fail('the answer depends on the history', w, got)
        R.outcome((repr(q)[:30], repr(w)[:50]))
    R.transitions += len(queries)
    R.state((p.cls, p.m.canon()))
    R.trace(p)


def run(item, R):
    fam, cls = item[:2]
    if fam in ('snap', 'snapchat'):
        a, depth = item[2:]
        directed = cls == 'SnapshotDiGraph'
        queries = snapshot_queries(directed)
        if fam == 'snapchat':
            for p in chat.snap_walk(item[:1] + item[1:4] + (16,), R, SPECS):
                f = SnapPair(R, cls)
                for k in p.keys():
                    f.insert_graph(p.m[k], k)
                R.ctx = p
                for q in queries:
                    w, got = plain(ask(f.g, q)), plain(ask(p.g, q))
                    if got != w:
                        p.q = q if q[0] not in ('save_to_txt', 'from_snapshot_graph') else None
                        p.wrong(w, got, 'the answer depends on the history: ' + query_src(q))
                    p.q = None
                R.transitions += len(queries)
                R.state((cls, p.canon()))
            return

        def make(seq, wrong=None):
            p = SnapPair(R, cls)
            for j, i in enumerate(seq):
                if wrong == j:
                    p.insert(SPECS[(i + 1) % 7], KEYS[i])       # replaced below
                p.insert(SPECS[i % 7], KEYS[i])
            return p
        sets = [s for k in range(1, depth + 1) for s in combinations(range(9), k)]
        for s in sets[a::9]:
            base = make(sorted(s, key=lambda i: KEYS[i]))
            want = [plain(ask(base.g, q)) for q in queries]
            for seq in permutations(s):
                for wrong in [None] + list(range(len(s))):
                    p = make(seq, wrong)
                    for q, w in zip(queries, want):
                        p.q = q if q[0] not in ('save_to_txt', 'from_snapshot_graph') else None
                        got = plain(ask(p.g, q))
                        if got != w:
                            p.wrong(w, got, 'the answer depends on the history: ' + query_src(q))
                    R.transitions += len(queries)
                    R.trace(p)
            R.state(base.canon())
        return
    iv, und = KIND[cls][0] == 'interval', not KIND[cls][1]
    queries = temporal_queries(cls)
    if fam == 'hist':
        ops = chat.changes(iv)

        def extend(seq, depth):
            compare(Pair(R, cls, seq), queries)
            if depth:
                for o in ops:
                    extend(seq + [o], depth - 1)
        extend([ops[item[2]], ops[item[3]]], item[4] - 2)
    elif fam == 'chat':
        # every tuple of changes somewhere in the life of a graph that is asked everything after each change
        ops = chat.more_changes(iv)
        seq = scale.debruijn(len(ops), item[3])
        for at in range(item[2] * 40, len(seq), 32 * 40):
            p = Pair(R, cls)
            for i in seq[at:at + 40 + item[3] - 1]:
                p.do(ops[i])
                compare(p, queries)
    else:
        pool = IV6 if iv else IM6
        sets = [s for k in range(1, item[3] + 1) for s in permutations(range(6), k)]
        for i, s in enumerate(sets[item[2]::24]):
            ops = [op('add_edge', *pool[j], **({'weight': j} if j % 2 else {})) for j in s]
            ds = detours(iv)
            for k, d in enumerate(ds):
                if len(s) > 3 and (i + k) % 3:
                    continue
                for at in range(len(s) + 1):
                    compare(Pair(R, cls, ops[:at] + d + ops[at:]), queries)
                    if len(d) > 2 and at < len(s):      # the detour's steps around the next edge
                        compare(Pair(R, cls, ops[:at] + d[:-2] + ops[at:at + 1] + d[-2:] + ops[at + 1:]), queries)
