"""C18: adding nodes or edges to a time range changes the snapshots exactly inside the range."""
from itertools import combinations, permutations, product
import copy
import networkx as nx
from vlib import chat
from vlib.alpha import *
from vlib.snap import SnapPair, content
from vlib.names import NODE_NAMES, VALUES
from vlib.core import call_src
from checks.c16 import KEYS, SPECS

BOUNDS = {
    'quick': 'every ordered sequence of <=3 of 7 disjoint or adjacent snapshot intervals/instants, every single update '
             'and every ordered pair of updates (nodes/edges, with attributes, by range or by index) over bounds at, '
             'between and outside the snapshot bounds; the whole timeline is compared before and after; single updates of 5 layouts of 5..12 snapshots; single updates and pairs on 8 layouts of snapshots that overlap, nest or share bounds; elements given in 7 kinds of container',
    'thorough': 'as quick with ordered triples of updates on <=2 snapshots',
}
BOUNDS['quick'] += '; every triple of 14 changes of a snapshot graph somewhere in its life, checked after each change; 41 attribute names with 22 values each'
ASSUMPTIONS = ['ranges have start < end', 'no range cuts snapshots into two pieces that cover the same interval (a snapshot graph holds one snapshot per interval)']
LAYOUTS = [[(0, 4)], [(0, 2), (2, 6)], [(0, 3), (5, 8)], [(2, 2), (3, 7)], [(-4, 0), (0, 1)], [(0, 2), (2, 4), (4, 6)],
           [(0, 0.5), (1, 1), (2, 4)], [(-2, 2), (4, 6), (6, 10)]]
PAIRED = len(LAYOUTS)       # the others get single updates only
LAYOUTS += [[(i, i + 1) for i in range(12)], [(i / 3, (i + 1) / 3) for i in range(7)], [(i, i) for i in range(11)],
            [(2.5 * i - 10, 2.5 * i - 8) for i in range(8)], [(10 ** 9 + 4 * i, 10 ** 9 + 4 * i + 4) for i in range(5)]]
OVER = len(LAYOUTS)         # these overlap, nest and share bounds; two updates each
LAYOUTS += [[(0, 4), (1, 3)], [(0, 3), (2, 5)], [(0, 2), (0, 5)], [(0, 5), (3, 5)], [(0, 6), (1, 1), (2, 8)],
            [(0, 8), (1, 7), (2, 6), (3, 5)], [(0, 3), (1, 4), (2, 5), (3, 6)], [(-5, 5), (-5, 0), (0, 5), (0, 0)]]


def twins(p, kw):
    """Would two pieces of snapshots cut by the range cover the same interval?"""
    keys = set(p.m)
    for t in (kw.get('start'), kw.get('end')):
        for k in list(keys):
            if t is not None and k[0] < t < k[1]:
                keys.remove(k)
                for piece in ((k[0], t), (t, k[1])):
                    if piece in keys:
                        return True
                    keys.add(piece)
    return False


def bounds_of(layout):
    pts = sorted(set(x for k in layout for x in k))
    return sorted(set(pts + [(x + y) / 2 for x, y in zip(pts, pts[1:])] + [pts[0] - 1, pts[-1] + 1]))


def updates(layout):
    bs = bounds_of(layout)
    ranges = [{}] + [{'start': s} for s in bs] + [{'end': e} for e in bs] + \
        [{'start': s, 'end': e} for s in bs for e in bs if s < e]
    ranges += [{'sbunch': list(x)} for k in (1, 2) for x in combinations(range(len(layout)), k)]
    out = []
    for i, r in enumerate(ranges):
        out.append(('add_edges_from', [(0, 1), (7, 8)], dict(r)))
        out.append(('add_nodes_from', [0, 5], dict(r, c=i)))
        out.append(('add_edges_from', [(0, 1, {'weight': i}), (8, 8)], dict(r, q='z')))
    return out


def items(tier):
    out = []
    for l in range(len(LAYOUTS)):
        n = len(updates(LAYOUTS[l]))
        for sp in (0, 3):
            for c in range(12):
                out.append(('one', l, sp, c))
        out += [('forms', l, sp, f) for sp in (0, 3) for f in sorted(FORMS)]
        for c in range(0, n if l < PAIRED or l >= OVER else 0, 3):
            out.append(('two', l, (l + c) % 2 * 3, c, 2 if tier == 'quick' else 3))
    out += [('names', l, sp, c) for l in (1, 4) for sp in (0, 3) for c in range(4)]
    out += chat.snap_items('SnapshotGraph', 3 if tier == 'quick' else 4) + chat.snap_items('SnapshotDiGraph', 3 if tier == 'quick' else 4)
    return out


FORMS = {'list': list, 'tuple': tuple, 'iter': iter, 'set': set, 'dict': lambda x: {y: 1 for y in x}.keys(),
         'generator': lambda x: (y for y in x), 'map': lambda x: map(lambda y: y, x)}


def update(p, name, things, kw, form='list'):
    if twins(p, kw):
        return
    p.q = None
    p.lines.append(call_src('g', name, (things,), kw) + ('' if form == 'list' else '    # given as a %s' % form))
    p.R.transitions += 1
    before = {k: content(M) for k, M in p.m.items()}
    getattr(p.g, name)(FORMS[form](things), **copy.deepcopy(kw))
    p.update_model(name, things, kw)
    # The timeline is what counts: the same instants are covered as before, with the new content in the range.
    check_timeline(p, before, kw)


def at(snaps, t):
    """Content of the snapshots present at instant t (intervals are half-open, instants closed)."""
    return [c for (s, e), c in sorted(snaps.items()) if s <= t < e or s == e == t]


def check_timeline(p, before, kw):
    real = {}
    for k, S in zip(list(p.g.snapshots.keys()), p.g.get()):
        real[tuple(k)] = content(S)
    want = {k: content(M) for k, M in p.m.items()}
    pts = sorted(set(x for k in list(real) + list(want) + list(before) for x in k))
    pts = sorted(set(pts + [(x + y) / 2 for x, y in zip(pts, pts[1:])] + [pts[0] - 1, pts[-1] + 1]))
    for t in pts:
        if at(real, t) != at(want, t):
            p.wrong(at(want, t), at(real, t), 'snapshots at time %r' % t)
    if set(real) != set(want):
        p.wrong(sorted(want), sorted(real), 'snapshot intervals')
    p.R.outcome(tuple(sorted(real)))


def run(item, R):
    if item[0] == 'chat':
        for p in chat.snap_walk(item, R, SPECS):
            p.same()
            for _ in range(2):
                list(p.g.get()), p.g.size(), p.g.order(), list(p.g)
            R.state(p.canon())
        return
    fam, l, sp = item[:3]
    layout = LAYOUTS[l]
    ups = updates(layout)

    def fresh():
        p = SnapPair(R, 'SnapshotDiGraph' if sp else 'SnapshotGraph')
        for j, k in enumerate(layout):
            p.insert(SPECS[(sp + j * 2) % 5 if not sp else (5, 6, 5)[j % 3]], k)
        return p

    def finish(p):
        R.state(p.canon())
        R.trace(p)
    if fam == 'one':
        for u in ups[item[3]::12]:
            p = fresh()
            update(p, *u)
            finish(p)
    elif fam == 'names':
        for i, (name, x) in enumerate(product(NODE_NAMES, VALUES)):
            if i % 4 != item[3]:
                continue
            y = VALUES[(i * 3 + 5) % len(VALUES)]
            common = {name: y} if name not in ('start', 'end') else {'other': y}
            for sel in ({'start': layout[0][1] - 1}, {'sbunch': [1]}):
                p = fresh()
                update(p, 'add_nodes_from', [0, (5, {name: x}), (6, {'q': 1, name: x})], dict(sel, **common))
                update(p, 'add_nodes_from', [(5, {'q': 2}), (0, {name: x})], dict(sel))
                update(p, 'add_edges_from', [(0, 1, {name: x}), (5, 6), (6, 6, {'q': x})], dict(sel, **(common if name not in ('u', 'v') else {})))
                update(p, 'add_edges_from', [(5, 6, {name: x}), (0, 1, {'q': 1})], dict(sel))
                finish(p)
    elif fam == 'forms':
        for i, (_, _, kw) in enumerate(ups[::3]):
            sel = {k: v for k, v in kw.items() if k in ('start', 'end', 'sbunch')}
            for name, things in (('add_nodes_from', [0, 5, 6]), ('add_edges_from', [(0, 5), (5, 6), (6, 6)])):
                p = fresh()
                update(p, name, things, dict(sel, z=i), item[3])
                finish(p)
            if item[3] not in ('set', 'dict'):
                for name, things in (('add_nodes_from', [0, (5, {'a': 1}), (6, {})]),
                                     ('add_edges_from', [(0, 5, {'weight': 1}), (5, 6), (0, 1, {'weight': 3})])):
                    p = fresh()
                    update(p, name, things, dict(sel, w=i), item[3])
                    finish(p)
            p = fresh()
            update(p, 'add_nodes_from', [0, 5], {'sbunch': []}, item[3])
            update(p, 'add_edges_from', [(0, 5)], {'sbunch': tuple(range(len(layout)))}, item[3])
            finish(p)
    else:
        def extend(done, depth):
            for u in (ups if depth == 1 else ups[::5]):
                p = fresh()
                for x in done + [u]:
                    # after a split, index lists name other snapshots: only ones that exist are used
                    update(p, *x)
                finish(p)
                if depth > 1:
                    extend(done + [u], depth - 1)
        extend([ups[item[3]]], item[4] - 1)
