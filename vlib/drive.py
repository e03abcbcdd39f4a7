"""A real graph and its reference model, driven side by side."""
import dynetworkx as dnx
from .core import call_src
from .model import Model

KIND = {'IntervalGraph': ('interval', False), 'IntervalDiGraph': ('interval', True),
        'ImpulseGraph': ('impulse', False), 'ImpulseDiGraph': ('impulse', True)}


class Pair(object):
    """Applies every change to a fresh real graph and to the model; records what was done."""

    prologue = []

    def __init__(self, R, cls, ops=()):
        self.R, self.cls = R, cls
        self.g = getattr(dnx, cls)()
        self.m = Model(*KIND[cls])
        self.log = []
        self.q = None
        R.ctx = self
        for op in ops:
            self.do(op)

    def do(self, op):
        self.q = None
        self.log.append(op)
        name, args, kw = op
        self.R.transitions += 1
        getattr(self.g, name)(*args, **kw)
        getattr(self.m, name)(*args, **kw)

    def ask(self, name, /, *args, **kw):
        self.q = (name, args, kw)
        self.R.transitions += 1
        return getattr(self.g, name)(*args, **kw)

    def expect(self, expected, name, /, *args, **kw):
        got = self.ask(name, *args, **kw)
        if got != expected or type(got) is not type(expected):
            self.wrong(expected, got)
        return got

    def expect_edges(self, expected, name, *args, **kw):
        """The answer is a list holding exactly these edges, each once, in any order."""
        got = self.ask(name, *args, **kw)
        if len(got) != len(expected) or set(got) != expected:
            self.wrong(expected, got)
        return got

    def wrong(self, expected, got, what=None):
        self.R.fail(what or 'wrong answer from %s' % (call_src('g', *self.q) if self.q else 'g'), expected, got)

    def script(self):
        lines = self.prologue + ['g = dnx.%s()' % self.cls]
        lines += [call_src('g', *op) for op in self.log]
        if self.q:
            lines.append('result = ' + call_src('g', *self.q))
        return lines


def op(name, /, *args, **kw):
    return (name, args, kw)
