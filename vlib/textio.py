"""Writing, saving and loading text files of a check, and what they must hold."""
from datetime import date, datetime
from decimal import Decimal
from fractions import Fraction
from itertools import permutations
import dynetworkx as dnx
from .core import Script, scratch_file
from .drive import Pair, op, KIND
from .model import Model


def number(x):
    try:
        return float(x)
    except (TypeError, ValueError):
        return x


def as_node(x, nodetype):
    s = str(x)
    if nodetype is int:
        try:
            return int(s)
        except ValueError:
            return s
    return nodetype(s)


def edge_map(G):
    out = {}
    for e, d in G.edges(data=True):
        if e in out:
            return None
        out[e] = dict(d)
    return out


def canon(edges, directed):
    out = {}
    for e, a in edges.items():
        k = (e[:2] if directed else frozenset(e[:2]), tuple((t, type(t).__name__) for t in e[2:]),
             frozenset((k, v, type(v).__name__) for k, v in a.items()))
        out[k] = out.get(k, 0) + 1
    return out


def typed_nodes(edges):
    return sorted(set((type(n).__name__, repr(n)) for e in edges for n in e[:2]))


def compare(R, cls, G, want, what):
    """The loaded graph G holds exactly these edges, with the types they must have."""
    if type(G).__name__ != cls:
        R.fail(what + ': wrong class', cls, type(G).__name__)
    got = edge_map(G)
    directed = KIND[cls][1]
    if got is None or canon(got, directed) != canon(want, directed) or typed_nodes(got) != typed_nodes(want):
        R.fail(what, want, got)
    nodes = set(n for e in want for n in e[:2])
    if set(G.nodes()) != nodes:
        R.fail(what + ': nodes', nodes, set(G.nodes()))
    lo = min([e[2] for e in want] or [0])
    for e in want:      # the time index was loaded too
        b = e[2]
        if e[:2] not in [x[:2] for x in G.edges(begin=b, end=b)] and \
                (directed or (e[1], e[0]) not in [x[:2] for x in G.edges(begin=b, end=b)]):
            R.fail(what + ': edge %r not found at its time' % (e,), e, list(G.edges(begin=b, end=b)))
    R.outcome((cls, frozenset(canon(want, directed))))


def load_text(R, cls, text, want, what, **kw):
    path = scratch_file()
    R.ctx = Script(['path = os.path.join(tempfile.mkdtemp(), "g.txt")', 'open(path, "w").write(%r)' % text,
                    'g = dnx.%s.load_from_txt(path%s)' % (cls, ''.join(', %s=%s' % (
                        k, v.__name__ if isinstance(v, type) else repr(v)) for k, v in kw.items())),
                    'result = g.edges(data=True)'])
    with open(path, 'w') as f:
        f.write(text)
    R.transitions += 1
    G = getattr(dnx, cls).load_from_txt(path, **kw)
    compare(R, cls, G, want, what)
    R.state((cls, text, tuple(sorted((k, str(v)) for k, v in kw.items()))))
    R.trace(R.ctx)
    return G


def roundtrip(R, cls, ops, delimiter=' ', nodetype=int, timetype=float):
    """Save the graph and load it again."""
    p = ops if isinstance(ops, Pair) else Pair(R, cls, ops)
    p.q = None
    path = scratch_file()
    tkey = 'intervaltype' if KIND[cls][0] == 'interval' else 'timestamptype'
    lines = ['import datetime', 'from fractions import Fraction', 'from decimal import Decimal', 'from vlib.textio import *'] * (timetype not in (float, int)) + \
        p.script() + ['path = os.path.join(tempfile.mkdtemp(), "g.txt")',
                          'g.save_to_txt(path, delimiter=%r)' % delimiter,
                          'result = dnx.%s.load_from_txt(path, delimiter=%r, nodetype=%s, %s=%s).edges(data=True)' % (
                              cls, delimiter, nodetype.__name__, tkey, timetype.__name__)]
    R.ctx = Script(lines)
    R.transitions += 2
    p.g.save_to_txt(path, **({} if delimiter == ' ' else {'delimiter': delimiter}))
    kw = {} if delimiter == ' ' else {'delimiter': delimiter}
    if nodetype is not int:
        kw['nodetype'] = nodetype
    if timetype is not float:
        kw[tkey] = timetype
    G = getattr(dnx, cls).load_from_txt(path, **kw)
    want = {}
    for e, a in p.m.edges.items():
        k = (as_node(e[0], nodetype), as_node(e[1], nodetype)) + tuple(timetype(t) for t in e[2:])
        want.setdefault(k, {}).update({str(x): number(y) for x, y in a.items()})
    compare(R, cls, G, want, 'save and load')
    R.state((p.m.canon(), delimiter, nodetype.__name__, timetype.__name__))
    R.trace(R.ctx)
    R.ctx = p


def times_of(cls, a, b):
    return (a, b) if KIND[cls][0] == 'interval' else (a,)


def iso_date(x):
    return x if isinstance(x, date) else date.fromisoformat(x)


def iso_time(x):
    return x if isinstance(x, datetime) else datetime.fromisoformat(x)


def odd_values(R, cls):
    """Round trips of unusual numbers, names and attribute values, one at a time."""
    times = [1 / 3, 0.1 + 0.2, 1e-300, 1e300, 123456789.125, -7.0, 2.5e-7, 1e22, 10 ** 9 + 0.0625]
    for a in times:
        for b in times:
            if a <= b:
                for d in (' ', ',', ';'):
                    roundtrip(R, cls, [op('add_edge', 0, 1, *times_of(cls, a, b), w=a), op('add_edge', 1, 2, *times_of(cls, b, b))], d)
    for a, b in ((10 ** 16 + 1, 10 ** 16 + 3), (-10 ** 18 - 1, -1), (0, 2 ** 63), (7, 1000000)):
        roundtrip(R, cls, [op('add_edge', 0, 1, *times_of(cls, a, b)), op('add_edge', 0, 1, *times_of(cls, a + 1, b + 1))],
                  timetype=int)
    # times of any type that can be ordered and written
    for kind, ts in ((Fraction, [Fraction(-1, 3), Fraction(2, 7), Fraction(5)]), (Decimal, [Decimal('-1'), Decimal('0.10'), Decimal('1E+30')]),
                     (str, ['0a', '10', '9', 'x-1', 'y:2']), (iso_date, [date(1999, 12, 31), date(2000, 1, 1), date(2000, 2, 29)]),
                     (iso_time, [datetime(1999, 12, 31, 23, 59), datetime(2000, 1, 1), datetime(2000, 1, 1, 0, 0, 0, 1)])):
        for a in ts:
            for b in ts:
                for c in ts:
                    if a <= b <= c:
                        for d in (',', ' ') if kind is not iso_time else (',',):
                            roundtrip(R, cls, [op('add_edge', 0, 1, *times_of(cls, a, b), w=1), op('add_edge', 1, 2, *times_of(cls, b, c)),
                                               op('add_edge', 2, 0, *times_of(cls, c, c))], d, timetype=kind)
    names = ['0', '-1', '+3', '007', '1.0', '0x1', 'a=b', '%s', '{}', "it's", 'A', 'a', '\\n', '1-2', '12345678901234567890', '_']
    try:
        for s in ('\u00e9', '\u7bc0\u70b9'):
            with open(scratch_file(), 'w') as f:
                f.write(s)
            names.append(s)
    except UnicodeError:        # this locale cannot write them
        pass
    for u in names:
        for v in names:
            for d in (',', ' ', '||'):
                if d != ' ' and u < v:
                    continue
                roundtrip(R, cls, [op('add_edge', u, v, *times_of(cls, 0, 1), k=v)], d)
                roundtrip(R, cls, [op('add_edge', u, v, *times_of(cls, 0, 1), k=v)], d, nodetype=str)
    values = [0, -1.5, '', 'x', 'x y', 'a=b', '=', '1e5', '-0', '007', 10 ** 20, 0.1, "'", '"q"', '[1]', '{}', '%d', 'a.b']
    for x in values:
        for y in values:
            for d in (',', '\t', ';'):
                roundtrip(R, cls, [op('add_edge', 'n', 1, *times_of(cls, 0, 1), k=x, K=y, kk=1),
                                   op('add_edge', 1, 'n', *times_of(cls, 1, 2), k=y)], d)


def given_again(R, cls):
    """The same edge on several lines, from either end, with other lines between."""
    iv, directed = KIND[cls]
    t0, t1 = ('0 2', '0 3') if iv == 'interval' else ('0', '2')
    lines = [('0 1 %s w=1' % t0, (0, 1), t0, {'w': 1.0}), ('1 0 %s c=x' % t0, (1, 0), t0, {'c': 'x'}),
             ('0 1 %s w=2 k=' % t0, (0, 1), t0, {'w': 2.0, 'k': ''}), ('0 1 %s' % t1, (0, 1), t1, {}),
             ('1 0 %s w=7' % t1, (1, 0), t1, {'w': 7.0}), ('0 0 %s w=3' % t0, (0, 0), t0, {'w': 3.0}),
             ('0 0 %s c=4' % t0, (0, 0), t0, {'c': 4.0})]
    for k in (2, 3, 4):
        for s in permutations(lines, k):
            m = Model(iv, directed)
            for _, (u, v), t, a in s:
                m.add_edge(u, v, *[float(x) for x in t.split()], **a)
            load_text(R, cls, '\n'.join(x[0] for x in s) + '\n', m.edges, 'an edge given on several lines')


def long_files(R, cls, n=400):
    """Files of hundreds of lines, in several line orders and with either line end."""
    iv, directed = KIND[cls]
    m = Model(iv, directed)
    rows = []
    for i in range(n):
        e = (i % 7, i * 3 % 11) + ((i // 3, i // 3 + i % 4) if iv == 'interval' else (i // 3,))
        m.add_edge(e[0], e[1], *[float(t) for t in e[2:]], **({'w': float(i)} if i % 3 else {}))
        rows.append(' '.join(map(str, e)) + (' w=%d' % i if i % 3 else ''))
    for end in ('\n', '\r\n', '\n\n', ' # x\n'):
        load_text(R, cls, end.join(rows) + end, m.edges, 'a long file')
    roundtrip(R, cls, [op('add_edge', *e, **a) for e, a in m.edges.items()])
