"""One graph, asked everything after every change: every tuple of changes occurs somewhere in its life.
What an answer leaves behind (a cache, a shared container, a lazily built index) shows when the next change makes it stale."""
from .drive import KIND, Pair, op
from .snap import SnapPair
from . import scale


def changes(iv):
    if iv:
        return [op('add_edge', 0, 1, 0, 2, weight=1), op('add_edge', 0, 1, 1, 3, weight=2), op('add_edge', 1, 2, 0, 1),
                op('add_edge', 1, 0, 0, 3, weight=1), op('add_edge', 0, 0, 1, 1), op('add_edge', 1, 0, 0, 2, weight=5),
                op('add_node', 2, a=1), op('remove_edge', 0, 1), op('remove_edge', 1, 0, begin=0, end=1),
                op('remove_node', 1), op('remove_node', 0, begin=1, end=2),
                op('remove_edge', 0, 1, 0, 2, overlapping=False)]
    return [op('add_edge', 0, 1, 0, weight=1), op('add_edge', 0, 1, 1, weight=2), op('add_edge', 1, 2, 0),
            op('add_edge', 1, 0, 2, weight=1), op('add_edge', 0, 0, 1), op('add_edge', 1, 0, 0, weight=5),
            op('add_node', 2, a=1), op('remove_edge', 0, 1), op('remove_edge', 1, 0, begin=0, end=1),
            op('remove_node', 1), op('remove_node', 0, begin=1, end=2), op('remove_edge', 0, 1, begin=0, end=0)]


def more_changes(iv):
    out = changes(iv)
    e = (0, 1, 0, 2) if iv else (0, 1, 0)
    far = (7, 8, -2, 5) if iv else (7, 8, 5)
    return out + [op('add_edge', *e, weight=9), op('add_edge', e[1], e[0], *e[2:]), op('add_node', 0, a=3), op('add_node', 0, a=4),
                  op('add_nodes_from', [0, (1, {'a': 5})]), op('add_edge', *far), op('remove_edge', 7, 8), op('remove_node', 2, end=1)]


def pool(cls):
    """Every edge that a change adds."""
    return sorted(set(o[1] for o in more_changes(KIND[cls][0] == 'interval') if o[0] == 'add_edge'))


NODES = [0, 1, 2, 7]
WINS = [(None, None), (None, 1), (1, None), (0, 0), (0, 1), (1, 2), (1, 1), (2.5, 6), (-2, -1), (5, 5)]


def items(cls, order=3, parts=16):
    return [('chat', cls, c, order, parts) for c in range(parts)]


def walk(item, R, run=40, make=Pair, extra=()):
    """The pair after each of its changes; a new pair every `run` changes.  An extra change is a function of the pair."""
    _, cls, part, order, parts = item
    ops = more_changes(KIND[cls][0] == 'interval') + list(extra)
    seq = scale.debruijn(len(ops), order)
    for at in range(part * run, len(seq), parts * run):
        p = make(R, cls)
        p.prologue = p.prologue + ['# everything this check asks was also asked after each of these changes']
        for i in seq[at:at + run + order - 1]:
            p.do(ops[i]) if type(ops[i]) is tuple else ops[i](p)
            yield p
        R.trace(p)


def homogeneous(directed, multi=False):
    """Graphs of one kind, as SnapPair.insert takes them."""
    cls = ('Multi' if multi else '') + ('DiGraph' if directed else 'Graph')
    return [(cls, [(0, 1, {'weight': 2}), (1, 2, {})], [3]), (cls, [(0, 1, {})], []),
            (cls, [(1, 1, {'weight': 0.5}), (2, 0, {'weight': 3})], []), (cls, [(1, 0, {'weight': 5}), (0, 2, {'weight': 1})], [0]),
            (cls, [], [0, 7]), (cls, [(1, 0, {'weight': 2})], [2]), (cls, [(2, 1, {}), (0, 1, {'weight': 7})], [])]


def snap_changes():
    # disjoint or adjacent snapshots, replaced, and updated by range or index
    return [('insert', i, k) for i, k in ((0, 0), (1, 1), (2, 0), (4, 5), (5, 4), (6, 6), (3, 1))] + [
        op('add_nodes_from', [0, 5], start=0, end=2, c=1), op('add_nodes_from', [0], c=2), op('add_edges_from', [(0, 1, {'weight': 7})], start=1),
        op('add_edges_from', [(0, 5)], end=3), op('add_edges_from', [(1, 2)], sbunch=[0], weight=3), op('add_nodes_from', [2, 6], sbunch=[-1]),
        op('add_edges_from', [(2, 5)], start=2.5, end=5.5)]


SNAPKEYS = [(0, 2), (2, 4), (1, 3), (0, 4), (3, 3), (-2, -1), (5, 6), (2, 2), (0, 1)]


def snap_do(p, o, specs):
    """Makes the change; returns whether there was one to make."""
    if o[0] == 'insert':
        key = SNAPKEYS[o[2]]
        if any(k[0] < key[1] and k[1] > key[0] and k != key for k in p.m):
            return False    # would overlap a snapshot that has been split
        p.insert(specs[o[1]], key)
        return True
    if p.m:
        p.update(*o)
        return True
    return False


def snap_items(cls, order=2, parts=16):
    return [('chat', cls, c, order, parts) for c in range(parts)]


def snap_walk(item, R, specs, run=25, make=SnapPair):
    """The same for snapshot graphs."""
    _, cls, part, order, parts = item
    ops = snap_changes()
    seq = scale.debruijn(len(ops), order)
    for at in range(part * run, len(seq), parts * run):
        p = make(R, cls)
        p.lines.insert(0, '# everything this check asks was also asked after each of these changes')
        for i in seq[at:at + run + order - 1]:
            if snap_do(p, ops[i], specs):
                yield p
        R.trace(p)
