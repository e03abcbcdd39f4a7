"""Regular graphs of dozens of edges: every combination of a shape of times, a pattern of end points, an order of insertion
and a size.  What depends on the number of edges, nodes, parallel edges or distinct times shows here."""
from .alpha import windows, INCLUSIVE
from .drive import KIND, op
from . import scale

INTERVALS = dict(scale.SHAPES, gaps=lambda i, n: (3 * i, 3 * i + 1), clumps=lambda i, n: (i // 8, i // 8 + 1 + i % 3),
                 mixed=lambda i, n: (i // 2 - n // 4, i // 2 - n // 4 + (i % 2) * (i % 5)), half=lambda i, n: (i / 2, i / 2 + 1.5))
INSTANTS = {'each': lambda i, n: i, 'pairs': lambda i, n: i - i % 2, 'gaps': lambda i, n: 3 * i - n, 'clumps': lambda i, n: i // 8,
            'half': lambda i, n: i / 2 - 5}
ENDS = {'few': lambda i: (i % 5, (i * 3 + 1) % 7), 'path': lambda i: (i, i + 1), 'star': lambda i: (0, i + 1) if i % 2 else (i + 1, 0),
        'one': lambda i: (0, 1), 'both': lambda i: (i % 2, 1 - i % 2), 'loops': lambda i: (i % 3, i % 3 if i % 2 else (i + 1) % 3)}
ORDERS = ('up', 'down', 'zigzag', 'stride')


def items(cls, sizes=(14, 40), orders=ORDERS):
    shapes = INTERVALS if KIND[cls][0] == 'interval' else INSTANTS
    return [('medium', cls, s, p, o, n) for n in sizes for s in shapes for p in ENDS for o in orders]


def edges(item):
    """The edges in the order in which they are added."""
    _, cls, shape, ends, order, n = item
    if KIND[cls][0] == 'interval':
        pool = [ENDS[ends](i) + tuple(INTERVALS[shape](i, n)) for i in range(n)]
    else:
        pool = [ENDS[ends](i) + (INSTANTS[shape](i, n),) for i in range(n)]
    return [pool[i] for i in scale.ORDERS[order](n)]


def attributes(j):
    return {} if j % 3 == 0 else {'weight': j} if j % 3 == 1 else {'weight': j / 2.0, 'c': 'x%d' % j}


def ops(item):
    """Additions, with some edges taken out again and some of those put back."""
    es = edges(item)
    out = [op('add_node', 99, a=1)]
    for j, e in enumerate(es):
        out.append(op('add_edge', *e, **attributes(j)))
        if j % 7 == 6:
            out.append(op('remove_edge', *(es[j - 3][:2] + (es[j - 3][2:] if len(e) == 4 else es[j - 3][2:] * 2)),
                          **({'overlapping': False} if len(e) == 4 else {})))
        if j % 14 == 13:
            out.append(op('add_edge', *es[j - 3], again=1))
    return out


def bounds(item):
    times = sorted(set(t for e in edges(item) for t in e[2:]))
    k = len(times)
    bs = set([times[0], times[k // 3], times[k // 2], times[-1]])
    return sorted(bs | set([times[0] - 1, (times[k // 2] + times[k // 2 - 1]) / 2.0, times[-1] + 1]))


def wins(item):
    return windows(bounds(item))


def inclusives(cls, n=4):
    return [None] if KIND[cls][0] == 'interval' else ([None] + INCLUSIVE[1:])[:n]


def standard(cls, tier):
    """What most checks explore: two small sizes in full, larger ones for some orders."""
    out = items(cls) + items(cls, (130,), ('stride',))
    shape = 'chain' if KIND[cls][0] == 'interval' else 'each'
    out += [('medium', cls, shape, ends, 'zigzag', 1100) for ends in ('few', 'path')]
    return out + (items(cls, (150,)) if tier == 'thorough' else [])
