"""C14: loading with merge joins exactly the edges with the same nodes and data within the grace period."""
from itertools import combinations, permutations, product
from vlib.alpha import *
from vlib.textio import load_text
from vlib import scale, medium

CLASSES = ('IntervalGraph', 'IntervalDiGraph')
BOUNDS = {
    'quick': 'every ordered sequence of <=3 of 15 integer-time lines (several node pairs, directions and data) and every '
             'order of every set of 4 or 5 of 10, grace periods 0, 1, 2; the same for 10 lines with edges of zero length, and for 9 with times that are no whole numbers and grace periods 0..2 in steps of 1/4 and 1/2; files of 16 and 60 lines in 8 orders of 9 shapes; other delimiters, column orders, durations, '
             'node and time types and comment lines with merging',
    'thorough': 'as quick, and every order of every set of 6 of 10',
}
ASSUMPTIONS = ['no gap is between the grace period and the grace period plus 1 (the documented offset of 1 makes no difference)', 'no two lines give the same edge with different data']
L = [(0, 1, 0, 2, ''), (0, 1, 2, 4, ''), (0, 1, 5, 6, ''), (0, 1, 1, 3, ''), (0, 1, 8, 9, ''), (1, 0, 4, 5, ''),
     (0, 1, 3, 5, 'w=1'), (0, 1, 5, 7, 'w=1'), (0, 2, 2, 3, ''), (0, 1, 0, 9, ''), (0, 0, 0, 2, ''), (0, 0, 3, 4, ''),
     (1, 0, 6, 8, 'w=1'), (0, 1, 10, 11, 'w=1'), ('a', 'b', -3, -1, 'c=x')]
# edges of zero length, and times that are no whole numbers
Z = [(0, 1, 0, 0, ''), (0, 1, 1, 1, ''), (0, 1, 2, 2, ''), (0, 1, 3, 3, ''), (1, 0, 5, 5, ''), (0, 1, 2, 4, ''), (0, 1, 6, 7, ''),
     (0, 1, 4, 4, 'w=1'), (0, 0, 1, 1, ''), (0, 0, 3, 3, '')]
F = [(0, 1, -1.5, -0.25, ''), (0, 1, -0.25, 0.5, ''), (0, 1, 0.75, 0.75, ''), (0, 1, 0.5, 0.625, ''), (1, 0, 1.75, 2.25, ''),
     (0, 1, 2.5, 4.0, ''), (0, 1, 0.25, 0.5, 'w=1'), (0, 1, 5.5, 6, ''), (0, 1, 8.625, 8.625, '')]
GRACE = (0, 0.25, 0.5, 1, 1.5, 2)


def items(tier):
    out = []
    for cls in CLASSES:
        for g in (0, 1, 2):
            for a in range(15):
                out.append(('seq', cls, g, a))
            for a in range(10):
                for n in ((4, 5) if tier == 'quick' else (4, 5, 6)):
                    out.append(('perm', cls, g, a, n))
            out.append(('forms', cls, g))
            out += [('seq', cls, g, a, Z) for a in range(len(Z))]
            out += [('perm', cls, g, a, n, Z) for a in range(len(Z)) for n in (4, 5)]
        for g in GRACE:
            out += [('seq', cls, g, a, F) for a in range(len(F))]
            out += [('perm', cls, g, a, n, F) for a in range(len(F)) for n in (4, 5)]
        for g in (0, 1, 3, 10):
            for n in (16, 60) if tier == 'quick' else (16, 60, 300):
                for shape in SHAPES:
                    out.append(('long', cls, g, n, shape))
    return out


SHAPES = dict((k, medium.INTERVALS[k]) for k in ('chain', 'nested', 'begins', 'ends', 'long', 'gaps', 'clumps'))
SHAPES['wide'] = lambda i, n: (5 * i, 5 * i + 1 + i % 5)
SHAPES['back'] = lambda i, n: (-7 * i, -7 * i + 1 + i % 9)
TEXT = {'': {}, 'w=1': {'w': 1.0}, 'c=x': {'c': 'x'}}


def merged(lines, cls, grace):
    groups = {}
    for (u, v, b, e, d) in lines:
        k = ((u, v) if cls == 'IntervalDiGraph' else tuple(sorted((u, v), key=str)), d)
        groups.setdefault(k, []).append((b, e))
    want = {}
    for ((u, v), d), ivs in groups.items():
        data = {}
        if d:
            k, x = d.split('=')
            try:
                data[k] = float(x)
            except ValueError:
                data[k] = x
        out = []
        for b, e in sorted(ivs):
            if out and grace < b - out[-1][1] < grace + 1 and not isinstance(b - out[-1][1], int):
                return None
            if out and b <= out[-1][1] + grace:
                out[-1] = (out[-1][0], max(e, out[-1][1]))
            else:
                out.append((b, e))
        for b, e in out:
            want[(u, v, float(b), float(e))] = data
    return want


def one(R, cls, lines, grace):
    # the same pair and interval with different data would be one edge: not asked
    seen = {}
    for (u, v, b, e, d) in lines:
        k = (frozenset((u, v)), b, e)
        if seen.setdefault(k, d) != d:
            return
    want = merged(lines, cls, grace)
    if want is None:
        return
    groups = {}
    for (u, v, b, e, d) in lines:
        groups.setdefault(frozenset((u, v)), set()).add(d)
    text = ''.join('%s %s %s %s%s\n' % (u, v, b, e, ' ' + d if d else '') for (u, v, b, e, d) in lines)
    # merging one data group may produce the interval of an edge with other data; that would again be one edge
    spans = {}
    for (u, v, b, e, d) in lines:
        spans.setdefault((frozenset((u, v)), d), set()).add((b, e))
    for pair, ds in groups.items():
        if len(ds) > 1:
            all_spans = []
            for d in ds:
                ivs = spans[(pair, d)]
                all_spans.append({(min(x[0] for x in c), max(x[1] for x in c))
                                  for r in range(1, len(ivs) + 1) for c in combinations(ivs, r)})
            for i, j in combinations(range(len(all_spans)), 2):
                if all_spans[i] & all_spans[j]:
                    return
    load_text(R, cls, text, want, 'merge with grace period %s' % grace, merge=(True, grace))


def run(item, R):
    fam, cls, g = item[:3]
    a = item[3] if len(item) > 3 else None
    if fam == 'long':
        n, f = item[3], SHAPES[item[4]]
        for few in (True, False):
            lines = []
            for i in range(n):
                l, h = f(i, n)
                if h <= l:
                    h = l + 1
                # a pair has one kind of data
                u, v = (0, 1) if few else (i % 3, (i * 2 + 1) % 4)
                lines.append((u, v) + (l, h) + (['', 'w=1', 'c=x'][(u + v) % 3],))
            for order in scale.ORDERS:
                one(R, cls, [lines[i] for i in scale.ORDERS[order](n)], g)
    elif fam == 'forms':
        for s in combinations(range(10), 3):
            lines = [L[i] for i in s]
            if len(set((frozenset(x[:2]), x[2:4]) for x in lines)) < 3 or len(set(x[4] for x in lines)) > 1:
                continue
            want = merged(lines, cls, g)
            strs = {(str(u), str(v), b, e): d for (u, v, b, e), d in want.items()}
            ints = {(u, v, int(b), int(e)): d for (u, v, b, e), d in want.items()}
            for d in (',', '\t', '||'):
                text = ''.join(d.join([str(c) for c in x[:4]] + [x[4]] * bool(x[4])) + '\n' for x in lines)
                load_text(R, cls, text, want, 'merge', merge=(True, g), delimiter=d)
                load_text(R, cls, text, strs, 'merge', merge=(True, g), delimiter=d, nodetype=str)
                load_text(R, cls, text, ints, 'merge', merge=(True, g), delimiter=d, intervaltype=int)
            for order in permutations(('u', 'v', 'begin', 'end')):
                text = '# merged\n'
                for x in lines:
                    col = dict(zip(('u', 'v', 'begin', 'end'), x))
                    text += ' '.join([str(col[o]) for o in order] + [x[4]] * bool(x[4])) + '  # line\n\n'
                load_text(R, cls, text, want, 'merge', merge=(True, g), order=order)
            # one time and a duration
            flat = [(u, v, b, b + 2, x) for (u, v, b, _, x) in lines]
            if len(set((frozenset(x[:2]), x[2:4]) for x in flat)) == 3:
                want = merged(flat, cls, g)
                for order in permutations(('u', 'v', 'begin')):
                    text = ''
                    for x in flat:
                        col = dict(zip(('u', 'v', 'begin'), x))
                        text += ' '.join([str(col[o]) for o in order] + [x[4]] * bool(x[4])) + '\n'
                    load_text(R, cls, text, want, 'merge', merge=(True, g), order=order + (2,))
                    load_text(R, cls, text.replace(' ', ';'), want, 'merge', merge=(True, g), order=order + (2,), delimiter=';')
            # the same lines without merging
            plain = {(u, v, float(b), float(e)): dict(TEXT[x]) for (u, v, b, e, x) in lines}
            if len(plain) == 3:
                text = ''.join('%s %s %s %s %s' % x + '\n' for x in lines)
                load_text(R, cls, text.replace(' \n', '\n'), plain, 'no merge', merge=(False, g))
    elif fam == 'seq':
        K = item[4] if len(item) > 4 else L
        rest = [i for i in range(len(K)) if i != a]
        one(R, cls, [K[a]], g)
        for x in K:
            one(R, cls, [K[a], x], g)
        for s in permutations(rest, 2):
            one(R, cls, [K[a]] + [K[i] for i in s], g)
    else:
        K = item[5] if len(item) > 5 else L[:10]
        rest = [i for i in range(len(K)) if i != a]
        for s in permutations(rest, item[4] - 1):
            one(R, cls, [K[a]] + [K[i] for i in s], g)
