"""Long regular histories: a fixed set of orders in which thousands of edges are added and removed.
A time index that loses its balance, its depth bound or its bounds only in long histories shows here."""
import sys


def bitrev(n):
    bits = max(1, (n - 1).bit_length())
    out = [int(format(i, '0%db' % bits)[::-1], 2) for i in range(1 << bits)]
    return [i for i in out if i < n]


def zigzag(n):
    out, lo, hi = [], 0, n - 1
    while lo <= hi:
        out.append(lo)
        if lo != hi:
            out.append(hi)
        lo, hi = lo + 1, hi - 1
    return out


ORDERS = {
    'up': lambda n: list(range(n)),
    'down': lambda n: list(range(n))[::-1],
    'zigzag': zigzag,
    'outward': lambda n: zigzag(n)[::-1],
    'bitrev': bitrev,
    'pairs': lambda n: [i ^ 1 for i in range(n) if (i ^ 1) < n] + ([n - 1] if n % 2 else []),
    'stride': lambda n: [j for s in range(7) for j in range(s, n, 7)],
    'blocks': lambda n: [j for s in range(0, n, 50) for j in range(min(s + 50, n) - 1, s - 1, -1)],
}
# shape: the i-th interval of n
SHAPES = {
    'chain': lambda i, n: (i, i + 1),
    'nested': lambda i, n: (i, 2 * n - i),
    'begins': lambda i, n: (0, i),
    'ends': lambda i, n: (i, n),
    'points': lambda i, n: (i, i),
    'long': lambda i, n: (i, i + n // 3),
}


def interval_pool(shape, n):
    out = []
    for i in range(n):
        l, h = SHAPES[shape](i, n)
        out.append((i % 5, (i * 3 + 1) % 7, l, h))
    return out


def impulse_pool(n):
    return [(i % 5, (i * 3 + 1) % 7, i if i % 3 else i - i % 2) for i in range(n)]


def probes(n):
    q = [n // 4, n // 2, n - 1]
    return [(None, None), (None, q[0]), (q[2], None), (0, 0), (q[1], q[1]), (q[0], q[1]), (q[1] - 0.5, q[1] + 0.5),
            (-3, 0), (2 * n - 1, 2 * n + 5), (n, n + 2)]


def sizes(tier):
    return (31, 1400) if tier == 'quick' else (31, 257, 1400, 4000)


def scale_items(cls, tier):
    return [('scale', cls, s, o, n) for n in sizes(tier) for s in SHAPES for o in ORDERS]


DEPTH = 150     # frames: over ten times the height of a balanced tree of these sizes


class shallow(object):
    """Runs a long history with little stack: a time index that loses its balance, whose calls nest more and more deeply as
    the graph grows, fails here at a size at which the default limit would not stop it yet."""

    def __init__(self, p):
        depth, f = 0, sys._getframe()
        while f:
            depth, f = depth + 1, f.f_back
        self.limit = depth + DEPTH
        p.prologue = ['import sys; sys.setrecursionlimit(%d)    # deep enough for any balanced index' % (DEPTH + 5)]

    def __enter__(self):
        self.old = sys.getrecursionlimit()
        sys.setrecursionlimit(self.limit)

    def __exit__(self, *exc):
        sys.setrecursionlimit(self.old)


def debruijn(k, n):
    """A shortest sequence over range(k) that holds every n-tuple (the first n - 1 elements repeated at the end)."""
    a, out = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                out.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return out + out[:n - 1]
