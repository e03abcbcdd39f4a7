"""Small alphabets of nodes, times, windows and edges; simplest values first."""
from itertools import product

INF = float('inf')

# three nodes of a graph and one that is never in it
NODES = {
    'int': (0, 1, 2, 9),
    'str': ('a', 'ab', 'b', 'zz'),
    'tuple': ((0, 1), (1, 0), (1,), 'x'),
    'mixed': ('', 0, '0', 9),
    'float': (-1, 0.5, 2, 9),
    'set': (frozenset(), frozenset([1]), 1, 9),
}

TIMES = {
    'int': (0, 1, 2, 3),
    'neg': (-3, -2, -1, 0),
    'float': (-0.5, 0.0, 0.25, 1.75),
    'big': (10 ** 16, 10 ** 16 + 1, 10 ** 16 + 2, 10 ** 16 + 3),
    'mixed': (-1, 0, 0.5, 1),
    'open': (-INF, 0, 1, INF),
}

# node alphabet x time alphabet combinations that vary one thing at a time
NAMINGS = [('int', t) for t in ('neg', 'float', 'big', 'mixed', 'open')] + \
          [(n, 'int') for n in ('str', 'tuple', 'mixed', 'float', 'set')] + [('str', 'neg'), ('mixed', 'float')]


def bounds(times):
    """Interesting window bounds for events at these times: the times, midpoints and outside values."""
    out = [t for t in times if abs(t) != INF]
    for a, b in zip(times, times[1:]):
        m = (a + b) / 2 if abs(a) < 10 ** 15 and abs(b) < 10 ** 15 else None
        if m is not None and a < m < b:
            out.append(m)
    finite = [t for t in times if abs(t) != INF]
    out += [min(finite) - 1, max(finite) + 1]
    return sorted(set(out))


def windows(bs, full=True):
    """(begin, end) pairs with begin <= end, including omitted bounds."""
    out = [(None, None)]
    out += [(b, None) for b in bs] + [(None, e) for e in bs]
    out += [(b, e) for b in bs for e in bs if b <= e]
    return out


def intervals(times):
    return [(l, h) for l in times for h in times if l <= h and not (l == h and abs(l) == INF)]


def interval_edges(pairs, times):
    return [(u, v, l, h) for (l, h) in intervals(times) for (u, v) in pairs]


def impulse_edges(pairs, times):
    return [(u, v, t) for t in times for (u, v) in pairs]


INCLUSIVE = [(True, False), (True, True), (False, True), (False, False)]
