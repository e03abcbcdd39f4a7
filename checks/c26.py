"""C26: renaming nodes or shifting and scaling time renames, shifts and scales every answer, and nothing else."""
from datetime import date, datetime, timedelta
from decimal import Decimal
from fractions import Fraction
from functools import total_ordering
from itertools import combinations, permutations, product
import networkx as nx
import numpy as np
import dynetworkx as dnx
from vlib.core import call_src
from vlib.drive import op, KIND
from vlib.queries import ask, temporal_queries, snapshot_queries, sort_key, query_src
from vlib.chat import changes
from checks.c16 import KEYS, SPECS

BOUNDS = {
    'quick': 'every history of <=2 of 12 changes of each temporal class (and of 3, for a third of the renamings) and every insertion order of <=3 of 9 snapshots '
             'with 6 range updates of each snapshot class x 34 renamings of the nodes and times (zero, negative, '
             'fractional, huge, scaled, numpy, Fraction and Decimal times, dates, moments, texts and times that compare only with their like; empty, tuple, negative, reversed, frozenset and bool '
             'nodes); ~130 (snapshot graphs: ~90) queries each, compared with the renamed answer of the original',
    'thorough': 'as quick with histories of <=3 (4) changes of each temporal class',
}
ASSUMPTIONS = ['times are finite numbers whose sums are exact, or (where no length of time is computed) values of one orderable type']


@total_ordering
class Version(object):
    """A time that can be compared with its like, and nothing else."""
    def __init__(self, x):
        self.x = float(x)

    def __eq__(self, other):
        return self.x == other.x if isinstance(other, Version) else NotImplemented

    def __lt__(self, other):
        return self.x < other.x if isinstance(other, Version) else NotImplemented

    def __hash__(self):
        return hash(self.x)

    def __repr__(self):
        return 'Version(%r)' % self.x


# abstract names 0, 1, 2, ... and times 0, 1, 2, ... become:
T0 = lambda x: 1000 + x
TIMES = {
    'zero': (lambda x: x, 1), 'neg': (lambda x: x - 3, 1), 'cross': (lambda x: x - 1, 1), 'far': (lambda x: x + 10 ** 6, 1),
    'half': (lambda x: x + 0.5, 1), 'float': (lambda x: float(x), 1), 'double': (lambda x: 2 * x - 2, 2),
    'quarter': (lambda x: x / 4, 0.25), 'tiny': (lambda x: (x - 1) * 2.0 ** -40, 2.0 ** -40),
    'huge': (lambda x: x * 2.0 ** 40, 2 ** 40), 'farneg': (lambda x: x - 10 ** 6 - 2, 1),
    'third': (lambda x: Fraction(x) + Fraction(1, 3), 1), 'np float': (lambda x: np.float64(x), 1),
    'np int': (lambda x: np.int64(x) if x == int(x) else np.float64(x), 1),
    # orderable, but not numbers: what is computed with lengths of time is not asked of them
    'date': (lambda x: date(2020, 1, 15) + timedelta(int(2 * x)), timedelta(2)),
    'moment': (lambda x: datetime(2020, 1, 15) + timedelta(hours=x), timedelta(hours=1)),
    'text': (lambda x: '%08.3f' % (x + 500), None), 'version': (lambda x: Version(x), None), 'decimal': (lambda x: Decimal(x) / 4, Decimal('0.25')),
}
NOT_NUMBERS = ('date', 'moment', 'text', 'version', 'decimal')
COMPUTED = ('to_snapshots', 'from_snapshot_graph', 'count_temporal_motif')


def computed(q, tk):
    return tk in NOT_NUMBERS and q[0] in COMPUTED and not (q[0] == 'count_temporal_motif' and TIMES[tk][1])


N0 = lambda n: 'n%d' % n if isinstance(n, int) else n
NODES = {
    'int': lambda n: n, 'reverse': lambda n: 50 - n, 'neg': lambda n: n - 1, 'str': lambda n: 'abcdefghijklmnop'[n % 16] * (1 + n // 16),
    'empty': lambda n: 'x' * n, 'digits': lambda n: str(n), 'tuple': lambda n: (n,), 'tuple0': lambda n: (0,) * n,
    'float': lambda n: n - 0.5, 'bool': lambda n: bool(n) if n < 2 else n, 'set': lambda n: frozenset(range(n)),
    'several': lambda n: (n, 'n%d' % n, (n,), frozenset({n}))[n % 4], 'apart': lambda n: frozenset({n}),
    'pairs': lambda n: (n % 3, n), 'big': lambda n: 2 ** 64 + n, 'bytes': lambda n: b'%d' % n,
}
UNWRITABLE = ('several', 'apart', 'bool', 'tuple', 'tuple0', 'pairs', 'set', 'bytes', 'empty')
RENAMINGS = [(n, 'zero') for n in NODES] + [('int', t) for t in TIMES if t != 'zero'] + \
    [('empty', 'neg'), ('reverse', 'quarter'), ('bool', 'cross'), ('str', 'text'), ('tuple', 'version')]


def items(tier):
    out = []
    for cls in KIND:
        for a in range(12):
            for b in range(12):
                out.append(('hist', cls, a, b, 3 if tier == 'quick' else 4))
    for cls in ('SnapshotGraph', 'SnapshotDiGraph'):
        for a in range(9):
            for b in range(9):
                out.append(('snap', cls, a, b))
    return out


class Name(object):
    """One way of naming: N for nodes, T for times, L for lengths of time."""
    def __init__(self, nk, tk):
        self.nk, self.tk = nk, tk
        self.N = NODES[nk] if nk else N0
        self.T, self.scale = TIMES[tk] if tk else (T0, 1)

    def L(self, x):
        return x * self.scale if self.scale else x

    def call(self, o):
        """The abstract call o in this naming."""
        name, args, kw = o
        kinds = ROLES.get(name, ())
        args = tuple(self.value(k, a) for k, a in zip(kinds, args)) + args[len(kinds):]
        return name, args, {k: self.value(KW.get(k), v) for k, v in kw.items()}

    def value(self, kind, v):
        if kind is None or v is None:
            return v
        if kind == 'N':
            return [self.N(x) for x in v] if isinstance(v, list) else self.N(v)
        if kind == 'E':
            return [tuple(self.N(x) for x in e[:2]) + e[2:] for e in v]
        if kind == 'P' and self.tk == 'third':
            return Fraction(v)
        if self.scale is None and kind in ('L', 'P'):
            return v
        return self.T(v) if kind == 'T' else self.L(v)


ROLES = {'add_edge': 'NNTT', 'add_node': 'N', 'remove_edge': 'NNTT', 'remove_node': 'NTT', '__contains__': 'N',
         'has_node': 'NTT', 'has_edge': 'NNTT', 'edges': 'NNTT', 'degree': 'NTT', 'in_degree': 'NTT', 'out_degree': 'NTT',
         'to_networkx_graph': 'TT', 'to_subgraph': 'TT', 'subgraph': 'N', 'add_nodes_from': 'N', 'add_edges_from': 'E'}
ROLES = {k: tuple(v) for k, v in ROLES.items()}
ROLES['count_temporal_motif'] = (None, 'L')
KW = {'begin': 'T', 'end': 'T', 'start': 'T', 'time': 'T', 'length_of_snapshots': 'L', 'period': 'P', 'nbunch': 'N',
      'u': 'N', 'v': 'N'}


def number(x):
    return float(x)


class Reader(object):
    """Reads an answer given in one naming into a form that does not depend on the naming of another."""

    directed, first = True, float('-inf')     # and a time before all others

    def __init__(self, to=None):
        # to: the naming into which an answer in the original naming (N0, T0) is translated; None: leave as it is
        self.to = to
        self.nodes = {N0(n): to.N(n) for n in range(100)} if to else {}

    def atom(self, x):
        if isinstance(x, str):
            if self.to and x in self.nodes:
                return self.final(self.nodes[x])
            return x
        if isinstance(x, (bool, np.bool_)):
            return float(x)
        if isinstance(x, (int, float, Fraction, np.number)):
            if self.to and 900 <= x < 1100:
                x = self.to.T(x - 1000 if x != int(x) else int(x) - 1000)
            return self.final(x)
        return self.final(x)

    def final(self, x):
        if isinstance(x, (int, float, Fraction, Decimal, np.number)):
            return float(x)
        if isinstance(x, tuple):
            return ('t',) + tuple(self.final(y) for y in x)
        if isinstance(x, frozenset):
            return ('s',) + tuple(sorted((self.final(y) for y in x), key=sort_key))
        return x

    def node(self, x):
        return self.atom(x) if self.to else self.final(x)

    def attrs(self, d):
        return sorted((str(k), self.atom(v)) for k, v in d.items())

    def graph(self, g):
        und = not g.is_directed()
        es = []
        for u, v, d in g.edges(data=True):
            u, v = self.node(u), self.node(v)
            if und and sort_key(v) < sort_key(u):
                u, v = v, u
            es.append((u, v, self.attrs(d)))
        return (type(g).__name__, sorted(((self.node(n), self.attrs(d)) for n, d in g.nodes(data=True)), key=sort_key),
                sorted(es, key=sort_key))

    def temporal(self, g):
        return (type(g).__name__, sorted(((self.node(n), self.attrs(d)) for n, d in g.nodes(data=True)), key=sort_key),
                sorted(((self.edge(e), self.attrs(d)) for e, d in g.edges(data=True)), key=sort_key),
                sorted((self.edge(e) for e in g.edges(begin=self.first)), key=sort_key))

    def edge(self, e):
        ends = tuple(self.node(n) for n in e[:2])
        if not Reader.directed:     # the order of an undirected edge's ends is not kept by networkx
            ends = tuple(sorted(ends, key=sort_key))
        return ends + tuple(self.atom(t) for t in e[2:])

    def read(self, q, x):
        name, args, kw = q
        if isinstance(x, tuple) and len(x) == 2 and x[0] == 'raised':
            return x
        if name == 'save_to_txt':
            return self.text(x, kw.get('delimiter', ' '))
        if name == 'count_temporal_motif':
            total, counts, frame = x
            return (total, sorted(((tuple(self.node(n) for n in k), c) for k, c in counts.items()), key=sort_key),
                    sorted(((c, self.node(n), int(frame.at[n, c])) for n in frame.index for c in frame.columns), key=sort_key))
        if name in ('nodes', 'edges'):
            out = []
            for y in x:
                if name == 'nodes':
                    if 'data' in kw:
                        out.append((self.node(y[0]), self.attrs(y[1]) if isinstance(y[1], dict) else y[1]))
                    else:
                        out.append(self.node(y))
                elif 'data' in kw:
                    out.append((self.edge(y[0]), self.attrs(y[1]) if isinstance(y[1], dict) else y[1]))
                else:
                    out.append(self.edge(y))
            return sorted(out, key=sort_key)
        if name == 'to_snapshots' and kw.get('return_length'):
            return [self.graph(g) for g in x[0]], float(x[1] * (self.to.scale if self.to else 1))
        if name == 'degree' and kw.get('delta') and not Reader.directed and isinstance(x, list):
            return sorted(self.any(x))      # the order of an undirected impulse graph's degree list is not stated
        return self.any(x)

    def any(self, x):
        if isinstance(x, (dnx.IntervalGraph, dnx.ImpulseGraph)):
            return self.temporal(x)
        if isinstance(x, dnx.SnapshotGraph):
            return (type(x).__name__, [(self.atom(k[0]), self.atom(k[1]), self.graph(G)) for k, G in x.snapshots.items()])
        if isinstance(x, nx.Graph):
            return self.graph(x)
        if isinstance(x, dict) or (hasattr(x, '__getitem__') and hasattr(x, 'nbunch_iter')):
            return sorted(((self.node(k), self.any(v)) for k, v in dict(x).items()), key=sort_key)
        if hasattr(x, '_nodes') and hasattr(x, '__iter__'):       # a degree view
            return sorted(((self.node(k), float(v)) for k, v in x), key=sort_key)
        if isinstance(x, tuple):
            return tuple(self.any(y) for y in x)
        if isinstance(x, list):
            return [self.any(y) for y in x]
        return self.atom(x)

    def text(self, x, delim):
        out = []
        for line in x.splitlines():
            row = []
            for tok in line.split(delim):
                key, eq, val = tok.partition('=')
                if eq and key in ('start', 'end'):
                    row.append((key, self.atom(float(val))))
                    continue
                try:
                    row.append(self.atom(float(Fraction(tok))) if not (self.to and tok in self.nodes)
                               else self.atom(float(Fraction(str(self.nodes[tok])))))
                except ValueError:
                    row.append(self.atom(tok))
            if not Reader.directed and len(row) > 3:
                row[:2] = sorted(row[:2], key=sort_key)
            out.append(tuple(row))
        return sorted(out, key=sort_key)


class Ctx(object):
    def __init__(self, first, q):
        self.lines, self.q = first, q

    def script(self):
        return ['from fractions import Fraction', 'from decimal import Decimal', 'import datetime', 'from checks.c26 import Version', 'import numpy as np'] + self.lines + ['result = ' + query_src(self.q)]


def again(g):
    """Through a networkx graph and back."""
    iv = isinstance(g, dnx.IntervalGraph)
    kw = {'edge_interval_data' if iv else 'edge_timestamp_data': True, 'edge_data': True, 'multigraph': True}
    return type(g).from_networkx_graph(g.to_networkx_graph(None, None, **kw))


ASIS = Reader()
_read = {}


def reader(nk, tk):
    if (nk, tk) not in _read:
        _read[nk, tk] = (Name(nk, tk), Reader(Name(nk, tk)))
    return _read[nk, tk]


def compare(R, cls, build, queries, renamings=RENAMINGS):
    base = Name(None, None)
    g0, _ = build(base)
    asked0 = [base.call(q) for q in queries]
    answers = [ask(g0, q) for q in asked0]
    if cls in KIND:
        answers.append(again(g0))
    for nk, tk in renamings:
        name, rd = reader(nk, tk)
        g, lines = build(name)
        ASIS.first = name.T(-9) if tk in NOT_NUMBERS else float('-inf')
        for q, q0, a0 in zip(queries, asked0, answers):
            if q[0] == 'save_to_txt' and (nk in UNWRITABLE or tk not in ('zero', 'neg', 'cross', 'far', 'half', 'float')):
                continue
            if computed(q, tk):
                continue
            call = name.call(q)
            got, want = ASIS.read(call, ask(g, call)), rd.read(q0, a0)
            if q[0] in ('degree', 'in_degree', 'out_degree', 'compute_network_statistic', 'size') and got != want and close(got, want):
                continue
            if got != want:
                R.ctx = Ctx(lines, call)
                R.fail('the answer does not follow the renaming (%s nodes, %s times)' % (nk, tk), want, got)
        if cls in KIND:
            got, want = ASIS.temporal(again(g)), rd.temporal(answers[-1])
            if got != want:
                R.ctx = Ctx(lines, op('edges'))
                R.fail('through a networkx graph and back, renamed (%s nodes, %s times)' % (nk, tk), want, got)
        R.transitions += len(queries)
        R.outcome((nk, tk))
        R.trace(Ctx(lines, op('name')))


def close(a, b):
    """Equal but for the rounding of averages."""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b))
    return a == b


def run(item, R):
    fam, cls, a, b = item[:4]
    Reader.directed = cls not in KIND or KIND[cls][1]
    if fam == 'hist':
        iv, directed = KIND[cls][0] == 'interval', KIND[cls][1]
        ops = changes(iv)
        queries = temporal_queries(cls)
        if cls == 'ImpulseDiGraph':
            queries += [op('count_temporal_motif', ((1, 2), (2, 1)), 1), op('count_temporal_motif', ((2, 1), (1, 3)), 3)]

        def extend(seq, depth):
            def build(name):
                g = getattr(dnx, cls)()
                calls = [name.call(o) for o in seq]
                for n, args, kw in calls:
                    getattr(g, n)(*args, **kw)
                return g, ['g = dnx.%s()' % cls] + [call_src('g', *c) for c in calls]
            compare(R, cls, build, queries, RENAMINGS if len(seq) < item[4] else RENAMINGS[(a + b + ops.index(seq[-1])) % 3::3])
            R.state((cls, repr(seq)))
            if depth:
                for o in ops:
                    extend(seq + [o], depth - 1)
        if b == 0:
            extend([ops[a]], 0)
        extend([ops[a], ops[b]], item[4] - 2)
    else:
        queries = snapshot_queries(cls == 'SnapshotDiGraph')
        updates = [None, op('add_nodes_from', [0, 7], start=0.5, end=1.5), op('add_edges_from', [(0, 7), (7, 7, {'weight': 4})], start=1),
                   op('add_nodes_from', [1, 8], end=0.5, a=1), op('add_edges_from', [(1, 0)], sbunch=[0]),
                   op('add_nodes_from', [4], start=-1.5, end=2.5)]
        if a == b:
            seqs = [(a,)]
        else:
            seqs = [(a, b)] + [(a, b, c) for c in range(9) if c not in (a, b)]
        for k, seq in enumerate(seqs):
            for j, up in enumerate(updates):
                if len(seq) == 3 and (j + k) % 6:
                    continue

                def build(name):
                    g = getattr(dnx, cls)()
                    lines = ['g = dnx.%s()' % cls]
                    for i in seq:
                        c, edges, nodes = SPECS[(i * 2 + len(seq)) % 7]
                        G = getattr(nx, c)()
                        es = [(name.N(u), name.N(v), d) for u, v, d in edges]
                        G.add_edges_from([(u, v, dict(d)) for u, v, d in es])
                        G.add_nodes_from([name.N(n) for n in nodes])
                        s, e = name.T(KEYS[i][0]), name.T(KEYS[i][1])
                        if i % 2 == 0 and s == e:
                            g.insert(G, time=s)
                        else:
                            g.insert(G, start=s, end=e)
                        lines.append('G = nx.%s(%r); G.add_nodes_from(%r); g.insert(G, start=%r, end=%r)' % (
                            c, es, [name.N(n) for n in nodes], s, e))
                    if up:
                        n, args, kw = name.call(up)
                        getattr(g, n)(*args, **kw)
                        lines.append(call_src('g', n, args, kw))
                    return g, lines
                compare(R, cls, build, queries)
                R.state((cls, seq, j))
