"""C13: interval graphs survive a text file; the documented file format is read as written."""
from itertools import combinations, permutations, product
from vlib import chat
from vlib.alpha import *
from vlib.drive import op
from vlib.textio import odd_values, given_again, long_files, load_text, roundtrip, number, as_node

CLASSES = ('IntervalGraph', 'IntervalDiGraph')
BOUNDS = {
    'quick': 'round trips of every set of <=5 of 12 attributed edges over int/str/negative nodes x 7 delimiters x node '
             'and time types; every column order (24 with both times, 12 with a duration) x delimiters x attributes; '
             'every placement of <=2 comment/blank/space lines and trailing comments among 3 edge lines; 16x16 odd names, 18x18 attribute values, extreme times, Fraction, Decimal, text, date and moment times; every order of <=4 of 7 lines '
             'that repeat an edge from either end; files of 400 lines',
    'thorough': 'as quick with sets of <=6 edges',
}
BOUNDS['quick'] += '; every triple of 20 changes of a graph somewhere in its life, checked after each change'
ASSUMPTIONS = ['node names, attribute names and values contain neither the delimiter nor the comment mark, and do not '
               'begin or end with white space', 'attribute names contain no =']
DELIMS = [' ', ',', '\t', ';', '|', '||', ' , ']
POOL = [(0, 1, 0, 2, {}), (1, 0, 1, 3, {'w': 1}), (-1, 2, -2, -1, {'w': 1.5, 'c': 'x'}), ('a', 'b', 0, 0, {'c': 'a=b'}),
        (0, 'a', 0.5, 2.25, {'z': -3}), (0, 0, 1, 2, {}), ('n1', 'n2', 5, 7, {'e': ''}), (2, 3, -0.5, 0, {'w': 0}),
        ('7x', 10, 1, 1, {'t': '1e3'}), (0, 1, 2, 3, {'w': 2}), ('x.y', 'p-q', 0, 1, {'k=': 'v'}),
        (1, 2, 1e-05, 1e20, {'m': 'nanx'})]
del POOL[10]
POOL.append(('x.y', 'p-q', 0, 1, {'kk': '=v='}))


def items(tier):
    out = []
    for cls in CLASSES:
        for c in range(8):
            out.append(('round', cls, c, 5 if tier == 'quick' else 6))
        for d in range(7):
            out.append(('order', cls, d))
        for c in range(4):
            out.append(('lines', cls, c))
        out += chat.items(cls, 3 if tier == 'quick' else 4)
        out += [('types', cls), ('odd', cls), ('again', cls), ('long', cls)]
        out.append(('merge_off', cls))
    return out


def add(want, cls, e, a):
    k = e
    r = (e[1], e[0]) + e[2:]
    if cls == 'IntervalGraph' and k not in want and r in want:
        k = r
    want.setdefault(k, {}).update(a)


def run(item, R):
    fam, cls = item[:2]
    if fam == 'round':
        sets = [s for k in range(1, item[3] + 1) for s in combinations(POOL, k)]
        for i, s in enumerate(sets[item[2]::8]):
            ops = [op('add_edge', *e[:4], **e[4]) for e in s] + [op('add_node', 99)]
            for d in (DELIMS if len(s) == 1 else [DELIMS[i % 7], DELIMS[(i + 3) % 7]]):
                if d == '||' and any('|' in str(x) for e in s for x in e):
                    continue
                roundtrip(R, cls, ops, d)
            if all(t == int(t) and abs(t) < 1e15 for e in s for t in e[2:4]):
                roundtrip(R, cls, [o for o in ops], ',', timetype=int) if not any(
                    type(t) is float for e in s for t in e[2:4]) else None
            roundtrip(R, cls, ops, nodetype=str)
            if len(s) > 1:
                roundtrip(R, cls, ops + [op('remove_edge', *s[0][:2]), op('add_edge', 5, 6, 1, 2, q='r')])
    elif fam == 'chat':
        for p in chat.walk(item, R):
            if p.m.nodes:       # an empty graph is not saved
                roundtrip(R, cls, p)
    elif fam == 'odd':
        odd_values(R, cls)
    elif fam == 'again':
        given_again(R, cls)
    elif fam == 'long':
        long_files(R, cls)
    elif fam == 'order':
        d = DELIMS[item[2]]
        rows = [((0, 1, 2, 5), {}), ((1, 0, -1, 3), {'w': '2.5', 'c': 'a=b'}), (('a', 3, 0, 0), {'x': 'y'})]
        for order in permutations(('u', 'v', 'begin', 'end')):
            text, want = '', {}
            for (u, v, b, e), a in rows:
                val = {'u': u, 'v': v, 'begin': b, 'end': e}
                text += d.join([str(val[o]) for o in order] + ['%s=%s' % kv for kv in a.items()]) + '\n'
                add(want, cls, (u, v, float(b), float(e)), {k: number(x) for k, x in a.items()})
            load_text(R, cls, text, want, 'column order %s' % (order,), order=order, delimiter=d)
            load_text(R, cls, text[:-1], want, 'no final newline', order=order, delimiter=d)
        for which in ('begin', 'end'):
            for cols in permutations(('u', 'v', which)):
                for dur in (2, 0.5, 0):
                    text, want = '', {}
                    for (u, v, b, _), a in rows:
                        val = {'u': u, 'v': v, which: b}
                        text += d.join([str(val[o]) for o in cols] + ['%s=%s' % kv for kv in a.items()]) + '\n'
                        iv = (float(b), float(b) + dur) if which == 'begin' else (float(b) - dur, float(b))
                        add(want, cls, (u, v) + iv, {k: number(x) for k, x in a.items()})
                    load_text(R, cls, text, want, 'columns %s and a duration' % (cols,), order=cols + (dur,), delimiter=d)
    elif fam == 'lines':
        base = [('0 1 0 2', (0, 1, 0.0, 2.0), {}), ('1 2 1 3 w=4 c=x', (1, 2, 1.0, 3.0), {'w': 4.0, 'c': 'x'}),
                ('a 0 -1 5', ('a', 0, -1.0, 5.0), {})]
        junk = ['', '   ', '%s', '%s comment', '  %s 9 9 0 1', '\t', '%s0 1 7 8']
        mark = ('#', '@', '//', '--')[item[2]]
        want = {e: a for _, e, a in base}
        lines = [x for x, _, _ in base]
        kw = {} if mark == '#' else {'comments': mark}
        for tail in ('', '%s', ' %s 5 5', '  %s w=9', ' ', '%s w=3%s'):
            t = tail.replace('%s', mark)
            load_text(R, cls, ''.join(x + t + '\n' for x in lines), want, 'trailing comment', **kw)
        for i, j in product(range(4), range(4)):
            for x, y in product(junk, junk):
                ls = list(lines)
                ls.insert(j, y.replace('%s', mark))
                ls.insert(i, x.replace('%s', mark))
                load_text(R, cls, '\n'.join(ls) + ('\n' if (i + j) % 2 else ''), want, 'comment and blank lines', **kw)
    elif fam == 'types':
        text = '0 1 0 2\n10 1x 1 3 w=1\n-5 007 2 2\n'
        load_text(R, cls, text, {(0, 1, 0.0, 2.0): {}, (10, '1x', 1.0, 3.0): {'w': 1.0}, (-5, 7, 2.0, 2.0): {}}, 'default types')
        load_text(R, cls, text, {(0, 1, 0, 2): {}, (10, '1x', 1, 3): {'w': 1.0}, (-5, 7, 2, 2): {}}, 'int times',
                  intervaltype=int)
        load_text(R, cls, text, {('0', '1', 0.0, 2.0): {}, ('10', '1x', 1.0, 3.0): {'w': 1.0},
                                 ('-5', '007', 2.0, 2.0): {}}, 'str nodes', nodetype=str)
        load_text(R, cls, '0 1.5 0 2\n', {(0.0, 1.5, 0.0, 2.0): {}}, 'float nodes', nodetype=float)
        load_text(R, cls, '', {}, 'empty file')
        load_text(R, cls, '# nothing\n\n', {}, 'only comments')
        for text in ('0 1 0 2 w=1\n0 1 0 2 c=2\n', '0 1 0 2 w=9\n0 1 0 2 w=1 c=2\n'):
            load_text(R, cls, text, {(0, 1, 0.0, 2.0): {'w': 1.0, 'c': 2.0}}, 'an edge given twice')
    else:
        lines = ['0 1 0 2', '0 1 2 4', '1 0 1 3', '0 1 9 9', '0 0 0 2', '0 0 1 3']
        for k in (2, 3, 4):
            for s in permutations(lines, k):
                want = {}
                for x in s:
                    u, v, b, e = x.split()
                    add(want, cls, (int(u), int(v), float(b), float(e)), {})
                load_text(R, cls, '\n'.join(s), want, 'overlapping edges stay apart without merge')
