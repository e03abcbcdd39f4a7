"""C24: a call that cannot be carried out raises its documented error and leaves the graph as it was."""
from itertools import combinations, product
import networkx as nx
from networkx import NetworkXError
import dynetworkx as dnx
from vlib.alpha import *
from vlib.core import Script, scratch_file
from vlib.drive import Pair, op, KIND
from vlib.queries import plain, query_src, ask, temporal_queries
from vlib.snap import SnapPair
from checks.c16 import KEYS, SPECS

BOUNDS = {
    'quick': 'every history of <=4 of 9 changes of each temporal class and <=2 of 9 snapshots of each snapshot class, '
             'then each of ~50 refused calls (and bulk additions refused at each later element in 10 ways), after which the whole graph, and the graph after one more change, are '
             'compared with the model; every refused file of ~70 and every refused column order for each loading class',
    'thorough': 'as quick with histories of <=5 changes and 3 snapshots',
}
ASSUMPTIONS = ['a bulk call refused at a later element may keep the elements before it',
               'elements given to a bulk update of snapshots are ones networkx accepts']


def items(tier):
    deep = tier == 'thorough'
    out = []
    for cls in KIND:
        for a in range(9):
            for b in range(9):
                out.append(('hist', cls, a, b, 5 if deep else 4))
        out.append(('files', cls))
        for a in range(9):
            out.append(('bulk', cls, a))
    for cls in ('SnapshotGraph', 'SnapshotDiGraph'):
        for a in range(9):
            out.append(('snap', cls, a, 3 if deep else 2))
        out.append(('snapfiles', cls))
    return out


def changes(iv):
    if iv:
        return [op('add_edge', 0, 1, 0, 2, w=1), op('add_edge', 1, 0, 1, 3), op('add_edge', 1, 2, 0, 1),
                op('add_edge', 0, 0, 1, 1), op('add_node', 5, a=1), op('remove_edge', 0, 1), op('remove_node', 1),
                op('add_edge', 0, 1, -2, -1), op('remove_node', 0, begin=1, end=2)]
    return [op('add_edge', 0, 1, 0, w=1), op('add_edge', 1, 0, 2), op('add_edge', 1, 2, 0), op('add_edge', 0, 0, 1),
            op('add_node', 5, a=1), op('remove_edge', 0, 1), op('remove_node', 1), op('add_edge', 0, 1, -2),
            op('remove_node', 0, begin=1, end=2)]


def refused(m):
    """(call, exception) for the graph the model describes."""
    iv = m.kind == 'interval'
    out = []
    if iv:
        for (u, v) in ((0, 1), (1, 2), (7, 8), (0, 0), (5, 9)):
            for (b, e) in ((2, 0), (3, 2.5), (0, -1)):
                out.append((op('add_edge', u, v, b, e, w=5), NetworkXError))
        for bad in ([(0, 1)], [(0, 1, 2)], [(7, 8, 0, 1, 2)], [()], [(7, 8, 3, 2)]):
            out.append((op('add_edges_from', bad), NetworkXError))
        out += [(op('add_edge', [7], 1, 0, 1), TypeError), (op('add_edge', 7, [8], 0, 1), TypeError),
                (op('add_edge', 7, {}, 0, 1), TypeError), (op('add_edge', 7, 8, [0], [1]), TypeError),
                (op('add_edge', 0, 1, None, None), TypeError), (op('add_edge', 7, 8, 0, None), TypeError),
                (op('add_edge', 7, 8, 'a', 1), TypeError)]
        if m.edges:     # the first edge gives the graph's times their type
            out += [(op('add_edge', 7, 8, 'a', 'b'), TypeError), (op('add_edge', 0, 1, (0,), (1,)), TypeError)]
    else:
        for bad in ([(0, 1)], [(0, 1, 2, 3)], [(7, 8, 0, 1)], [()]):
            out.append((op('add_edges_from', bad), NetworkXError))
        out += [(op('add_edge', [7], 1, 0), TypeError), (op('add_edge', 7, [8], 0), TypeError),
                (op('add_edge', 7, {}, 5), TypeError), (op('add_edge', 7, 8, [0]), TypeError)]
        if m.edges:
            out += [(op('add_edge', 7, 8, 'a'), TypeError), (op('add_edge', 0, 1, None), TypeError)]
        else:
            out.append((op('interval'), IndexError))
    out += [(op('add_node', [7]), TypeError), (op('add_nodes_from', [[7]]), TypeError), (op('add_node', {}, a=1), TypeError)]
    out += [(op('edges', begin=2, end=0), NetworkXError)]
    for (u, v) in ((0, 1), (1, 0), (1, 2)):
        if m.select(u, v):
            out += [(op('edges', u, v, 2, 0), NetworkXError), (op('edges', u=u, begin=2, end=1), NetworkXError),
                    (op('edges', v=v, begin=2, end=1), NetworkXError), (op('has_edge', u, v, 2, 0), NetworkXError)]
            if iv:
                out += [(op('remove_edge', u, v, 2, 0), NetworkXError),
                        (op('remove_edge', u, v, begin=0, overlapping=False), NetworkXError),
                        (op('remove_edge', u, v, end=2, overlapping=False), NetworkXError),
                        (op('remove_edge', u, v, overlapping=False), NetworkXError),
                        (op('has_edge', u, v, begin=0, overlapping=False), NetworkXError),
                        (op('has_edge', u, v, end=2, overlapping=False), NetworkXError)]
    if not iv:
        out += [(op('nodes', begin=2, end=0), NetworkXError), (op('number_of_nodes', begin=2, end=0), NetworkXError),
                (op('to_subgraph', 2, 0), NetworkXError), (op('to_networkx_graph', 2, 0), NetworkXError)]
        if 0 in m.nodes:
            out += [(op('remove_node', 0, 2, 0), NetworkXError), (op('has_node', 0, 2, 0), NetworkXError)]
    out += [(op('to_snapshots'), NetworkXError),
            (op('to_snapshots', number_of_snapshots=2, length_of_snapshots=1), NetworkXError)]
    if m.edges:
        out += [(op('to_snapshots', number_of_snapshots=n), NetworkXError) for n in (1, 0, -3, 2.5)]
        out += [(op('to_snapshots', length_of_snapshots=x), NetworkXError) for x in (-1, 0, 1000, -0.5)]
    out += [(op('save_to_txt', '', delimiter='='), ValueError)]
    if not m.nodes:
        out += [(op('save_to_txt', ''), ValueError)]
    return out


def expect_refused(R, g, name, args, kw, exc):
    R.transitions += 1
    if name == 'save_to_txt':
        args = (scratch_file(),) + args[1:]
    try:
        got = getattr(g, name)(*args, **kw)
        if hasattr(got, '__next__'):
            got = list(got)
    except exc:
        return
    except Exception as e:
        R.fail('raises %s' % type(e).__name__, exc.__name__, repr(e))
    R.fail('is accepted', exc.__name__, got)


def run(item, R):
    fam, cls = item[:2]
    if fam == 'hist':
        ops = changes(KIND[cls][0] == 'interval')

        def visit(seq):
            p = Pair(R, cls, seq)
            p.q = None
            before = plain(p.g)
            for (name, args, kw), exc in refused(p.m):
                p.q = (name, args, kw)
                expect_refused(R, p.g, name, args, kw, exc)
                after = plain(p.g)
                if after != before:
                    p.wrong(before, after, 'a refused call changed the graph')
                for (u, v) in ((0, 1), (7, 8), (1, 2), (0, 0), (5, 9)):
                    if p.g.has_edge(u, v) is not bool(p.m.select(u, v)):
                        p.wrong(bool(p.m.select(u, v)), p.g.has_edge(u, v), 'a refused call changed has_edge')
                if p.m.edges:
                    want = (min(e[2] for e in p.m.edges), max(e[-1] for e in p.m.edges))
                    if p.g.interval() != want:
                        p.wrong(want, p.g.interval(), 'a refused call changed the extent of the graph')
                times = sorted(k for k in p.g.to_snapshot_graph().snapshots)
                want = sorted(e[2] for e in p.m.edges) if p.m.kind == 'impulse' else None
                if want is not None and [k[0] for k in times] != sorted(set(want)):
                    p.wrong(want, times, 'a refused call changed the snapshots')
            # the graph still works: a further change and every edge
            p.q = None
            for o in (ops[1], op(*(('add_edge', 7, 8, 0, 1) if p.m.kind == 'interval' else ('add_edge', 7, 8, 0)))):
                p.do(o)
                p.expect_edges(set(p.m.edges), 'edges')
                p.expect_edges(p.m.select(None, None, -10, 10), 'edges', begin=-10, end=10)
                p.expect_edges(p.m.select(7, None, 0, 1), 'edges', 7, begin=0, end=1)
            p.q = None
            R.state((cls, p.m.canon()))
            R.trace(p)

        def extend(seq, depth):
            visit(seq)
            if depth:
                for o in ops:
                    extend(seq + [o], depth - 1)
        if item[2:4] == (0, 0):
            visit([])
        if item[3] == 0:
            visit([ops[item[2]]])
        extend([ops[item[2]], ops[item[3]]], item[4] - 2)
    elif fam == 'bulk':
        bulk(cls, item[2], R)
    elif fam == 'files':
        files(cls, R)
    elif fam == 'snap':
        snap(item, R)
    else:
        snapfiles(cls, R)


class Stop(Exception):
    pass


class Raising(object):
    """An iterable that gives these elements and then fails."""
    def __init__(self, elements):
        self.elements = elements

    def __iter__(self):
        for x in self.elements:
            yield x
        raise Stop()

    def __repr__(self):
        return 'iter(%r)    # and then raises' % (self.elements,)


def bulk(cls, a, R):
    """A bulk addition whose k-th element is refused: the graph is as before, or has exactly some of the first k."""
    iv = KIND[cls][0] == 'interval'
    ops = changes(iv)
    edges = [(0, 1, 0, 2), (7, 8, 1, 3), (1, 0, 1, 3), (1, 1, -5, 9)] if iv else [(0, 1, 0), (7, 8, 1), (1, 0, 2), (1, 1, -5)]
    bad = [(), (3,), (3, 4), ([3], 4, 0, 1) if iv else ([3], 4, 0), (3, {}, 0, 1) if iv else (3, {}, 0),
           (3, 4, 2, 1) if iv else (3, 4, 'x'), (3, 4, 'a', 1) if iv else (3, 4, None), (3, 4, 0, 1, 5, 6), 5, None]
    nodes = [5, 7, (8, {'b': 2}), 0]
    badn = [[3], {}, ([3], {}), ([3], {'a': 1})]
    queries = temporal_queries(cls)
    for seq in [[ops[a]], [ops[0], ops[a]], [ops[a], ops[2], ops[5]]] + ([[]] if a == 0 else []):
        for name, good, wrong in (('add_edges_from', edges, bad), ('add_nodes_from', nodes, badn)):
            for order in (good, good[::-1]):
                for k in range(1 if seq else 2, 4):     # the first edge gives the graph's times their type
                    for w in wrong + ['stop']:
                        for kw in ({}, {'w': 9}):
                            p = Pair(R, cls, seq)
                            stop = w == 'stop'
                            arg = Raising(order[:k]) if stop else order[:k] + [w] + order[k:]
                            if not stop and not iv and not p.m.edges and type(w) is tuple and len(w) == 3 and \
                                    w[2] in ('x', None) and name == 'add_edges_from' and k < 1:
                                continue
                            p.q = (name, (arg,), kw)
                            R.transitions += 1
                            try:
                                getattr(p.g, name)(arg, **kw)
                            except Exception:
                                pass
                            else:
                                p.wrong('an error', 'none', 'is accepted')
                            got = [plain(ask(p.g, q)) for q in queries]
                            for j in range(k + 1):
                                f = Pair(R, cls, seq)
                                f.do((name, (order[:j],), kw))
                                want = [plain(ask(f.g, q)) for q in queries]
                                if got == want:
                                    break
                            else:
                                R.ctx = p
                                p.wrong('the graph as before, or with some of the first %d elements' % k, plain(p.g),
                                        'a bulk call refused half-way leaves the graph wrong')
                            R.ctx = p
                            R.trace(p)
            R.state((cls, repr(seq), name))


def files(cls, R):
    iv = KIND[cls][0] == 'interval'
    C = getattr(dnx, cls)
    good = '0 1 0 2\n' if iv else '0 1 0\n'
    bad_time = ['0 1 x 2\n', '0 1 0 y\n', '0 1 , 2\n'] if iv else ['0 1 x\n', '0 1 ,\n']
    cases = []
    for t in bad_time:
        for pre in ('', good):
            cases.append((pre + t, {}, TypeError))
    word = 'a 1 0 2\n' if iv else 'a 1 0\n'
    word2 = '1 b 0 2\n' if iv else '1 b 0\n'
    for t in (word, word2):
        cases += [(t, {'nodetype': float}, TypeError), (good + t, {'nodetype': float}, TypeError)]
    cases.append((good, {'delimiter': '='}, ValueError))
    orders = [('u', 'v'), ('u', 'v', 'x', 'y'), ('u', 'u', 'begin', 'end'), ('v', 'begin', 'end', 'x'), (),
              ('u', 'v', 'begin', 'end', 'x')] if iv else \
        [('u', 'v'), ('u', 'v', 'x'), ('u', 'u', 't'), ('v', 't', 'x'), (), ('u', 'v', 't', 'x')]
    # every tuple of <=5 of these names that lacks a required column or has the wrong length
    names = ('u', 'v', 'begin', 'end', 2) if iv else ('u', 'v', 't', 'x')
    for k in range(6 if iv else 5):
        for o in product(names, repeat=k):
            if (len(o) != 4 or 'u' not in o or 'v' not in o or not ('begin' in o or 'end' in o)) if iv else \
                    (len(o) != 3 or set(o) != set(names[:3])):
                orders.append(o)
    for o in orders:
        cases.append((good, {'order': o}, ValueError))
    if iv:
        cases.append(('0 1 2 0\n', {}, NetworkXError))
        cases.append((good + '1 0 3 2\n', {}, NetworkXError))
    for text, kw, exc in cases:
        path = scratch_file()
        with open(path, 'w') as f:
            f.write(text)
        R.ctx = Script(['path = os.path.join(tempfile.mkdtemp(), "f.txt"); open(path, "w").write(%r)' % text,
                        'result = dnx.%s.load_from_txt(path, **%r)' % (cls, kw)])
        expect_refused(R, C, 'load_from_txt', (path,), kw, exc)
        if open(path).read() != text:
            R.fail('a refused file was changed', text, open(path).read())
        R.state((cls, text, repr(kw)))
        R.trace(R.ctx)
    # a graph that cannot be saved leaves an existing file alone
    for empty in (True, False):
        for delim in ('=', ' '):
            if not empty and delim == ' ':
                continue
            R.ctx = Script(['g = dnx.%s()' % cls, '' if empty else 'g.add_edge(%s)' % ('0, 1, 0, 1' if iv else '0, 1, 0'),
                            'result = g.save_to_txt(path, delimiter=%r)    # path exists' % delim])
            g = C()
            if not empty:
                g.add_edge(*((0, 1, 0, 1) if iv else (0, 1, 0)))
            path = scratch_file()
            with open(path, 'w') as f:
                f.write('precious')
            expect_refused(R, g, 'save_to_txt', ('',), {'delimiter': delim}, ValueError)
            if open(path).read() != 'precious':
                R.fail('a refused save changed the file', 'precious', open(path).read())
            R.trace(R.ctx)


def snap(item, R):
    cls, a, depth = item[1:]
    measures = ['get', 'order', 'size', 'number_of_nodes', 'is_directed', 'is_multigraph', 'to_directed', 'to_undirected',
                'degree']
    G = nx.Graph([(70, 71)])
    ins = [{}, {'start': 1}, {'end': 1}, {'start': 3, 'end': 2}, {'time': 1, 'start': 1}, {'time': 1, 'end': 2},
           {'time': 1, 'start': 1, 'end': 2}, {'time': 0, 'start': 1, 'end': 2}, {'start': 0, 'end': -1}, {'start': 0},
           {'end': 0}]
    ins += [{'time': 1, 'start': 0}, {'time': 1, 'end': 0}, {'time': 0, 'start': 0, 'end': 0}, {'time': -1, 'end': 0.0}]
    both = [{'sbunch': [0], 'start': 0}, {'sbunch': [0], 'end': 0}, {'sbunch': [], 'start': 0}, {'sbunch': [], 'end': 1},
            {'sbunch': (0,), 'start': 0, 'end': 0}, {'sbunch': [0], 'start': 1}, {'sbunch': [0], 'end': 1}, {'sbunch': [0], 'start': 1, 'end': 2},
            {'sbunch': [-1], 'start': 0, 'end': 2}]

    def visit(seq):
        p = SnapPair(R, cls, name='s')
        for j, i in enumerate(seq):
            p.insert(SPECS[(i * 3 + j * 2 + len(seq)) % 7], KEYS[i])
        before = plain(p.g)
        calls = [('insert', (G,), kw) for kw in ins] + \
            [('add_snapshot', ([(70, 71)],), kw) for kw in ins] + \
            [('add_snapshot', (), dict(kw, graph=G)) for kw in ins]
        if seq:
            calls += [(n, (), kw) for n in measures for kw in both]
            calls += [('has_node', (0,), kw) for kw in both] + [('subgraph', ([0],), kw) for kw in both]
            calls += [('compute_network_statistic', (nx.density,), kw) for kw in both]
            calls += [('add_nodes_from', ([70],), kw) for kw in both] + [('add_edges_from', ([(70, 71)],), kw) for kw in both]
            calls += [('save_to_txt', ('',), {'delimiter': x}) for x in (' ', '\n')]
            calls += [('degree', (), dict(kw, nbunch=[0])) for kw in both]
        else:
            calls += [('save_to_txt', ('',), {})]
        for name, args, kw in calls:
            p.q = (name, args, kw)
            expect_refused(R, p.g, name, args, kw, ValueError)
            if plain(p.g) != before:
                p.wrong(before, plain(p.g), 'a refused call changed the graph')
        if G.number_of_edges() != 1:
            p.wrong(1, G.number_of_edges(), 'a refused call changed the given graph')
        # an index that does not exist
        if seq:
            for i in (len(seq), -len(seq) - 1):
                for name, args in (('get', ()), ('order', ()), ('add_nodes_from', ([70],)), ('subgraph', ([0],)),
                                   ('add_edges_from', ([(70, 71)],)), ('size', ()), ('to_directed', ())):
                    for sb in ([i], [0, i], [i, 0], list(range(len(seq))) + [i]):
                        p.q = (name, args, {'sbunch': sb})
                        expect_refused(R, p.g, name, args, {'sbunch': sb}, IndexError)
                        if plain(p.g) != before:
                            p.wrong(before, plain(p.g), 'a refused call changed the graph')
        p.q = None
        p.same()
        R.state((cls, p.canon()))
        R.trace(p)
        if len(seq) < depth:
            for i in range(9):
                if i not in seq:
                    visit(seq + [i])
    if a == 0:
        visit([])
    visit([a])


def snapfiles(cls, R):
    C = getattr(dnx, cls)
    good = '0 1;1 0 start=0 end=1\n'
    bad = ['0 1;1 0 start=x end=1\n', '0 1;1 0 start=0 end=y\n', '0 1;1 0 start=0\n', '0 1;1 0 end=0\n', '0 1;1 0\n',
           '0 1;1 0 start=3 end=2\n', '0 a;1 0 start=0 end=1\n']
    cases = [(pre + t, {}) for t in bad for pre in ('', good)] + [(good, {'delimiter': d}) for d in (' ', '\n')]
    for text, kw in cases:
        path = scratch_file()
        with open(path, 'w') as f:
            f.write(text)
        R.ctx = Script(['path = os.path.join(tempfile.mkdtemp(), "f.txt"); open(path, "w").write(%r)' % text,
                        'result = dnx.%s.load_from_txt(path, **%r)' % (cls, kw)])
        expect_refused(R, C, 'load_from_txt', (path,), kw, ValueError)
        R.state((cls, text, repr(kw)))
        R.trace(R.ctx)
