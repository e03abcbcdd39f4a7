"""C21: a trained predictive model never changes the answer of a query, whatever it predicts."""
from itertools import combinations, product
import numpy
from sklearn.linear_model import LinearRegression
import dynetworkx as dnx
from vlib.alpha import *
from vlib.core import scratch_file
from vlib import chat, medium
from vlib.drive import Pair, op, KIND
from vlib.suites import EdgeSuite, NodeSuite, Many, cached
from checks.c01 import forms_for

BOUNDS = {
    'quick': 'all 4 temporal classes: every set of <=2 of 12 edges and <=3 of 8; a model trained on the graph, then every '
             'prediction outcome (node first, interval first, tie) x every window x inclusivity x 16 endpoint '
             'arguments, data forms and degrees; every history of <=3 changes after training; 12 other node/time '
             'alphabets; graphs loaded with predict=True; regular graphs of 14 and 40 edges trained half way through',
    'thorough': 'as quick with sets of <=4 of 10 edges and histories of <=4',
}
BOUNDS['quick'] += '; every triple of 21 changes (one of them training) somewhere in its life, checked after each change'
ASSUMPTIONS = ['the model is trained on a graph with at least one edge, whose times are exact as floats']
IV12 = [(0, 1, 0, 2), (0, 1, 1, 3), (1, 0, 0, 3), (1, 2, 0, 1), (1, 2, 2, 2), (0, 0, 1, 2), (0, 2, 1, 2), (0, 1, 0, 0),
        (2, 0, 2, 3), (0, 1, 3, 3), (1, 1, 0, 3), (2, 1, 3, 3)]
IM12 = [(0, 1, 0), (0, 1, 1), (1, 0, 2), (1, 2, 0), (1, 2, 2), (0, 0, 1), (0, 2, 1), (0, 1, 3), (2, 0, 2), (1, 1, 3),
        (2, 1, 1), (2, 1, 3)]
ANSWERS = {'node first': (0.0, 1.0), 'interval first': (1.0, 0.0), 'tie': (0.5, 0.5)}


class Predicted(object):
    """Every prediction is the given one."""
    def __init__(self, answer):
        self.answer = ANSWERS.get(answer)

    def __enter__(self):
        self.real = LinearRegression.predict
        if self.answer:     # else the model's own
            LinearRegression.predict = lambda model, X: numpy.array([self.answer] * len(X))

    def __exit__(self, *exc):
        LinearRegression.predict = self.real


class TrainedPair(Pair):
    answer = None

    def train(self, n=2):
        self.q = None
        self.log.append(('generate_predictive_model', (n,), {}))
        self.R.transitions += 1
        self.g.generate_predictive_model(n)

    def script(self):
        out = Pair.script(self)
        if self.answer:
            out.insert(1, 'from sklearn.linear_model import LinearRegression')
            out.insert(2, 'LinearRegression.predict = lambda model, X: [%r]    # the model answers: %s' % (
                ANSWERS[self.answer], self.answer))
        return out


def train_again(p):
    if p.m.edges:
        p.train(2)


def items(tier):
    deep = tier == 'thorough'
    out = []
    for cls in KIND:
        for c in range(16):
            out.append(('sets', cls, c, 12, 2))
            out.append(('sets', cls, c, 10 if deep else 8, 4 if deep else 3))
        for a in range(9):
            out.append(('hist', cls, a, 4 if deep else 3))
        for (nk, tk) in NAMINGS:
            if tk not in ('open', 'big'):
                out.append(('naming', cls, nk, tk))
        out.append(('load', cls))
        out += chat.items(cls, 3)
        out += medium.items(cls, (14, 40) if deep else (14,), medium.ORDERS if deep else ('up', 'zigzag'))
        if not deep:
            out += medium.items(cls, (40,), ('stride',))
    return out


def check(p, suite):
    for answer in ANSWERS:
        p.answer = answer
        with Predicted(answer):
            suite.check(p)
            others(p)
        p.answer = None
    p.R.state((p.m.canon(), len(p.log)))
    p.R.trace(p)


def others(p):
    """Data forms and degrees go through the same choice."""
    m = p.m
    for (b, e) in ((0, 2), (1, None), (None, 2), (2, 2)):
        kw = {k: x for k, x in (('begin', b), ('end', e)) if x is not None}
        for n in (0, 1):
            sel = m.select(n, None, b, e)
            want = sorted([(x, m.edges[x]) for x in sel], key=repr)
            got = p.ask('edges', n, data=True, **kw)
            if sorted(got, key=repr) != want:
                p.wrong(want, got)
            want = sorted([(x, m.edges[x].get('w', -1)) for x in sel], key=repr)
            got = p.ask('edges', u=n, data='w', default=-1, **kw)
            if sorted(got, key=repr) != want:
                p.wrong(want, got)
    for n in (0, 1):
        want = len(m.select(n, None, 0, 2)) + (len(m.select(None, n, 0, 2)) if m.directed else 0)
        p.expect(want, 'degree', n, begin=0, end=2)
    p.q = None


def run(item, R):
    fam, cls = item[:2]
    iv = KIND[cls][0] == 'interval'
    pool = IV12 if iv else IM12
    incs = (None,) if iv else (None, (True, True), (False, True))

    def make():
        return EdgeSuite(cls, pool, forms_for(NODES['int']), [(0, 1)], windows([-1, 0, 0.5, 1, 2, 3, 4]),
                         inclusives=incs)
    if fam == 'chat':
        # trained again and again, and asked between any two changes and trainings
        s = cached((fam, cls), lambda: EdgeSuite(cls, chat.pool(cls), [(None, None), (0, None), (None, 1), (1, 0), (0, 1), (7, None)], [(0, 1)],
                                                 chat.WINS, inclusives=incs[:2]))
        for i, p in enumerate(chat.walk(item, R, make=TrainedPair, extra=[train_again])):
            for p.answer in (None, 'node first', 'interval first', 'tie'):
                with Predicted(p.answer):
                    s.check(p)
            p.answer = None
            R.state(p.m.canon())
    elif fam == 'sets':
        s = cached((fam, cls), make)
        pool2 = pool[:item[3]]
        sets = [x for x in combinations(pool2, item[4])] + ([x for x in combinations(pool2, 1)] if item[4] == 2 else [])
        for k, edges in enumerate(sets[item[2]::16]):
            p = TrainedPair(R, cls, [op('add_edge', *e, **({'w': i} if i % 2 else {'c': 'x'})) for i, e in enumerate(edges)])
            p.train(1 + k % 3)
            check(p, s)
    elif fam == 'hist':
        s = cached((fam, cls), lambda: EdgeSuite(cls, pool, forms_for(NODES['int']), [], windows([0, 1, 2, 3]),
                                                 inclusives=incs[:2]))
        ops = [op('add_edge', *e, w=1) for e in pool[1:5]] + [
            op('remove_edge', 0, 1), op('remove_edge', 0, 1, begin=1, end=2), op('remove_node', 1),
            op('add_node', 5), op('remove_node', 0, begin=0, end=1)]

        def extend(seq, depth):
            p = TrainedPair(R, cls, [op('add_edge', *pool[0])])
            p.train(2)
            for o in seq:
                p.do(o)
            check(p, s)
            if depth:
                for o in ops:
                    extend(seq + [o], depth - 1)
        extend([ops[item[2]]], item[3] - 1)
    elif fam == 'medium':
        # trained half way, then grown and reduced: predictions of an outdated model
        s = cached(item[:4] + item[5:], lambda: EdgeSuite(cls, medium.edges(item), [(None, None), (0, None), (None, 1), (1, 0)], [],
                                                          medium.wins(item), inclusives=incs[:2]))
        ops = medium.ops(item)
        p = TrainedPair(R, cls, ops[:len(ops) // 2])
        if not p.m.edges:       # all added in the same place and taken out again
            return
        p.train(3)
        for o in ops[len(ops) // 2:]:
            p.do(o)
        s.check(p)      # the model's own verdict
        for p.answer in list(ANSWERS)[:2]:
            with Predicted(p.answer):
                s.check(p)
        p.answer = None
        R.state(p.m.canon())
        R.trace(p)
    elif fam == 'naming':
        n, t = NODES[item[2]], TIMES[item[3]]
        pairs = [(n[0], n[1]), (n[1], n[2]), (n[2], n[2])]
        pool = interval_edges(pairs, t)[::2] if iv else impulse_edges(pairs, t)
        s = cached(item, lambda: EdgeSuite(cls, pool, forms_for(n), [], windows(bounds(t)), inclusives=incs[:2]))
        for edges in combinations(pool, 2):
            p = TrainedPair(R, cls, [op('add_nodes_from', list(n[:3]))] + [op('add_edge', *e) for e in edges])
            p.train(1)
            for p.answer in ANSWERS:
                with Predicted(p.answer):
                    s.check(p)
            p.answer = None
            R.state(p.m.canon())
            R.trace(p)
    else:
        s = cached(('sets', cls), make)
        for k in (1, 2):
            for edges in combinations(pool, k):
                path = scratch_file()
                text = ''.join(' '.join(map(str, e)) + '\n' for e in edges)
                with open(path, 'w') as f:
                    f.write(text)
                p = TrainedPair(R, cls)
                p.log = [('# loaded with predict=True from', (text,), {})]
                p.g = getattr(dnx, cls).load_from_txt(path, predict=True)
                for e in edges:
                    p.m.add_edge(*e)
                check(p, s)
