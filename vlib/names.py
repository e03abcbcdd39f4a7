"""Names and values of attributes: what a special case for some name, or a truth test of some value, would treat differently."""
from itertools import product
from .drive import KIND, op

NAMES = ['w', 'weight', 'timestamp', 'time', 'start', 'key', 'interval', 'default', 'data', 'inclusive', 'overlapping', 'edge', 'node',
         'name', 'graph', 'id', 'label', 'Begin', '_adj', '', 'a b', '1', 'attr', 'duration', 'begins', 'ends', 'to', 'from', 'multigraph',
         'node_data', 'count', 'length', 'tree', 'type', 'capacity', 'degree']
VALUES = [None, False, True, 0, 1, -1, 0.0, 2.5, '', 'x', 'w', '0', (), (1, 2), [], [3], {}, {'a': 1}, frozenset(), 10 ** 20,
          float('inf'), Ellipsis]


def edge_names(cls):
    """begin, end and t are parameters of add_edge, each in one kind of graph."""
    return NAMES + (['t', 'timestamps'] if KIND[cls][0] == 'interval' else ['begin', 'end'])


NODE_NAMES = NAMES + ['u', 'v', 't', 'begin', 'end']


def typed(d):
    return sorted((str(k), type(v).__name__, repr(v)) for k, v in d.items())


def histories(cls):
    """One attribute, on edges and on nodes, alone and next to others, replaced by another value later."""
    iv = KIND[cls][0] == 'interval'
    a, b, c = ((0, 1, 0, 2), (0, 1, 1, 3), (2, 1, 1, 1)) if iv else ((0, 1, 0), (0, 1, 2), (2, 1, 1))
    for name, i in product(edge_names(cls), range(len(VALUES))):
        x, y = VALUES[i], VALUES[(i * 3 + 5) % len(VALUES)]
        yield name, [op('add_edge', *a, **{name: x}), op('add_edge', *b, **{name: y, 'other': x}), op('add_edge', *c)]
        if i % 3 == 0:
            yield name, [op('add_edge', *a, **{name: x}), op('add_edges_from', [a, c], **{name: y})]
    for name, i in product(NODE_NAMES, range(len(VALUES))):
        x, y = VALUES[i], VALUES[(i * 3 + 5) % len(VALUES)]
        yield name, [op('add_nodes_from', [(0, {name: x}), 1, (2, {'other': x, name: y})]), op('add_edge', *a), op('add_edge', *c)]
        if i % 3 == 0:
            yield name, [op('add_edge', *a), op('add_node', 0, **{name: x}), op('add_nodes_from', [0, (1, {})], **{name: y})]
