"""C03: writing WOS records and reading them back changes nothing."""
import collections
import copy
import io
import itertools
import os
import pickle
from mc.core import Scenario, explore
from mc import build as b
from mc import default
from mc.chars import CHARS, placed
from mc.sizes import sizes, word
import metaknowledge as mk

HEAD = '\ufeffFN Thomson Reuters Web of Science\u2122\nVR 1.0\n'
LINES = ['a', '', 'ER', 'EF', 'x  y ', 'é—中', ' lead', 'UT WOS:9', 'VR 1.0', 'FN x', '   ', 'B, C']
TAGS = ['AU', 'TI', 'CR', 'Z9', 'U1', 'PY', 'SO', 'E2']


def text_of(rec):
    """rec: list of [tag, lines]"""
    out = []
    for tag, lines in rec:
        for i, l in enumerate(lines):
            out.append((tag + ' ' if i == 0 else '   ') + l + '\n')
    return ''.join(out) + 'ER\n'


def file_of(recs):
    return HEAD + ''.join(text_of(r) + '\n' for r in recs) + 'EF'


def raw(R):
    return [[t, list(v)] for t, v in R.items(raw=True)]


def table(RC):
    return {R.id: raw(R) for R in RC}


def expect(recs):
    return {dict((t, v) for t, v in r)['UT'][0]: r for r in recs}


def roundtrip(ctx, RC, want, what, fname='out.txt'):
    """RC must hold exactly `want`; write it, read it, compare everything."""
    ctx.eq(table(RC), want, what + ' content before writing')
    p = ctx.path(fname)
    RC.writeFile(p)
    ctx.step()
    back = mk.RecordCollection(p)
    ctx.step()
    ctx.eq(bool(back.bad), False, what + ' flagged bad after reading back: {}'.format(back.errors))
    ctx.eq(back.errors, {}, what + ' errors after reading back')
    ctx.eq(table(back), want, what + ' fields after reading back')
    ctx.true(back == RC and RC == back, what + ' not equal after reading back')
    ctx.eq(hash(back), hash(RC), what + ' hash after reading back')
    ctx.eq(len(back), len(want), what + ' length after reading back')
    ctx.eq(table(RC), want, what + ' content changed by writing')
    for R in RC:
        t = text_of(want[R.id])
        ctx.eq(bytes(R), t.encode('utf-8'), what + ' bytes of a record')
        f = io.StringIO()
        R.writeRecord(f)
        ctx.eq(f.getvalue(), t, what + ' writeRecord')
        ctx.eq(raw(mk.WOSRecord(t)), want[R.id], what + ' record from its text')
        ctx.eq(raw(mk.WOSRecord(io.StringIO(t))), want[R.id], what + ' record from a stream')
        ctx.eq(raw(mk.WOSRecord(collections.OrderedDict(want[R.id]))), want[R.id], what + ' record from a dict')
    ctx.eq(sorted(bytes(RC).decode('utf-8').split('ER\n')), sorted('\n'.join(text_of(want[R.id]) for R in RC).split('ER\n')), what + ' bytes of the collection')
    with open(p, encoding='utf-8-sig') as f:
        body = f.read()
    for w in want.values():
        ctx.true(text_of(w) in body, what + ' record text missing in the file')
    ctx.state(sorted(want.items()))


def run_shape(ctx, case):
    recs = case['recs']
    p = ctx.write('in.isi', file_of(recs))
    RC = mk.RecordCollection(p)
    ctx.step()
    ctx.eq(bool(RC.bad), False, 'well formed file flagged bad: {}'.format(RC.errors))
    want = expect(recs)
    for R in RC:
        ctx.eq(R.sourceFile, os.path.realpath(p), 'source file')
    roundtrip(ctx, RC, want, 'file')
    made = b.rc([mk.WOSRecord(text_of(r)) for r in recs])
    roundtrip(ctx, made, want, 'list of records', 'out2.isi')


def shape_cases(tier):
    lists = [[x] for x in LINES] + [[x, y] for x in LINES for y in LINES]
    ut = ['UT', ['WOS:1']]
    for l1 in lists:
        yield {'recs': [[['AU', l1], ut]]}
        yield {'recs': [[ut, ['TI', l1]]]}
        for l2 in (lists if tier == 'thorough' else [[x] for x in LINES]):
            yield {'recs': [[['TI', l1], ut, ['AU', l2]]]}
    for a, c, d in itertools.product(LINES, repeat=3):
        yield {'recs': [[['PT', ['J']], ['CR', [a, c, d]], ut]]}
    # tag orders, several records, repeated text in several records
    for n in (1, 2, 3):
        for tags in itertools.permutations(TAGS[:5], n):
            for pos in range(n + 1):
                r = [[t, ['v' + t]] for t in tags]
                r.insert(pos, ut)
                r2 = [[t, ['w', 'w']] for t in reversed(tags)] + [['UT', ['WOS:2']]]
                yield {'recs': [r, r2]}
    for n in (3, 40, 130):
        yield {'recs': [[['PT', ['J']], ['TI', ['T%d' % i]], ['UT', ['WOS:%d' % i]]] for i in range(n)]}
        yield {'recs': [[['PT', ['J']], ['CR', ['Cite %d, 19%02d, J' % (i, i % 100) for i in range(n)]], ['UT', ['WOS:1']]]]}
        yield {'recs': [[['PT', ['J']], ['AB', ['x' * (n * 100)]], ['UT', ['WOS:1']]]]}


R1 = [['PT', ['J']], ['AU', ['A, A', 'B, B']], ['TI', ['First', 'title']], ['CR', ['X, 1990, J1', 'Y, 1991, J2, V1']], ['PY', ['2000']], ['UT', ['WOS:1']]]
R2 = [['PT', ['B']], ['AU', ['A, A']], ['CR', ['X, 1990, J1']], ['PY', ['2001']], ['AB', ['', 'é x ']], ['UT', ['WOS:2']]]
R3 = [['PT', ['J']], ['TI', ['Third']], ['PY', ['2001']], ['UT', ['WOS:3']], ['Z9', ['0']]]
R4 = [['UT', ['WOS:4']], ['PT', ['J']], ['BE', ['E']], ['CR', ['Y, 1991, J2, V1']]]
POOL = {'1': R1, '2': R2, '3': R3, '4': R4}


def op_table():
    """name -> (real operation on (A, B), model on label sets)"""
    lab = lambda f: {l for l in '1234' if f(POOL[l])}
    get = lambda r, t: dict((k, v) for k, v in r).get(t)
    T = {
        'copy': (lambda A, B: A.copy(), lambda a, c: a),
        'or': (lambda A, B: A | B, lambda a, c: a | c),
        'and': (lambda A, B: A & B, lambda a, c: a & c),
        'sub': (lambda A, B: A - B, lambda a, c: a - c),
        'rsub': (lambda A, B: B - A, lambda a, c: c - a),
        'xor': (lambda A, B: A ^ B, lambda a, c: a ^ c),
        'plus': (lambda A, B: A + B, lambda a, c: a | c),
        'list': (lambda A, B: mk.RecordCollection(list(A)), lambda a, c: a),
        'empty-add': (lambda A, B: adds(A), lambda a, c: a),
        'pickle': (lambda A, B: pickle.loads(pickle.dumps(A)), lambda a, c: a),
        'deepcopy': (lambda A, B: copy.deepcopy(A), lambda a, c: a),
        'recopies': (lambda A, B: mk.RecordCollection([r.copy() for r in A]), lambda a, c: a),
        'yearSplit': (lambda A, B: A.yearSplit(2001, 2001), lambda a, c: a & lab(lambda r: get(r, 'PY') == ['2001'])),
        'citeFilter': (lambda A, B: A.citeFilter('X, 1990'), lambda a, c: a & lab(lambda r: 'X, 1990, J1' in (get(r, 'CR') or []))),
        'citeFilterR': (lambda A, B: A.citeFilter('X, 1990', reverse=True), lambda a, c: a & lab(lambda r: 'X, 1990, J1' not in (get(r, 'CR') or []))),
        'dropNJ': (lambda A, B: inplace(A, lambda x: x.dropNonJournals()), lambda a, c: a & lab(lambda r: get(r, 'PT') == ['J'])),
        'dropBad': (lambda A, B: inplace(A, lambda x: x.dropBadEntries()), lambda a, c: a),
        'ior': (lambda A, B: inplace(A, lambda x: x.__ior__(B)), lambda a, c: a | c),
        'isub': (lambda A, B: inplace(A, lambda x: x.__isub__(B)), lambda a, c: a - c),
        'split': (lambda A, B: merge(A.copy().split(1)), lambda a, c: a),
        'chunk': (lambda A, B: merge(A.chunk(2)), lambda a, c: a),
        'read-fields': (lambda A, B: touch(A), lambda a, c: a),
    }
    return T


def adds(A):
    x = mk.RecordCollection()
    for r in A:
        x.add(r)
    return x


def inplace(A, f):
    x = A.copy()
    f(x)
    return x


def merge(parts):
    x = mk.RecordCollection()
    for p in parts:
        x |= p
    return x


def touch(A):
    for r in A:
        dict(r.items())
        r.createCitation()
        str(r)
    return A


def run_hist(ctx, case):
    A = mk.RecordCollection(ctx.write('a.isi', file_of([POOL[l] for l in case['a']])))
    B = mk.RecordCollection(ctx.write('b.isi', file_of([POOL[l] for l in case['b']])))
    ma, mb = set(case['a']), set(case['b'])
    T = op_table()
    for op in case['hist']:
        A, ma = T[op][0](A, B), T[op][1](ma, mb)
        ctx.step()
    want = {'WOS:' + l: POOL[l] for l in ma}
    if not ma:
        ctx.eq(len(A), 0, 'content')
        ctx.state(('empty', A.name))
        return
    roundtrip(ctx, A, want, 'after ' + '>'.join(case['hist']))
    if case.get('default'):
        os.chdir(ctx.dir)
        A.name = case['default']
        A.writeFile()
        ctx.eq(table(mk.RecordCollection(ctx.path(case['default'][:200] + '.txt'))), want, 'default file name')


def hist_cases(tier):
    ops = list(op_table())
    starts = [('12', '23'), ('134', '12'), ('1', '1234')]
    yield {'a': '12', 'b': '3', 'hist': [], 'default': 'some name'}
    yield {'a': '12', 'b': '3', 'hist': ['or'], 'default': 'n' * 230}
    for a, c in starts:
        for n in (1, 2) if tier == 'quick' else (1, 2, 3):
            for h in itertools.product(ops, repeat=n):
                yield {'a': a, 'b': c, 'hist': list(h)}


def run_default(ctx, case):
    def check(f, what):
        got = mk.RecordCollection(ctx.path('cwd/' + f))
        ctx.eq(sorted((R.id, R['TI']) for R in got), [('WOS:1', 'Title 1'), ('WOS:2', 'Title 2')], what + ' content')
        ctx.true(not got.bad, what + ' damaged')
    default.run(ctx, case, '.txt', lambda RC: RC.writeFile(), check)


def size_cases(tier):
    for n in sizes(2001 if tier == 'thorough' else 513):
        for shape in ('records', 'lines', 'line', 'fields'):
            if shape != 'fields' or n < 600:
                yield [shape, n]


def size_run(ctx, case):
    shape, n = case
    if shape == 'records':
        recs = [[['PT', ['J']], ['AU', [word(i), 'B, B']], ['TI', ['T%d' % i, 'more']], ['UT', ['WOS:%d' % i]]] for i in range(n)]
    elif shape == 'lines':
        recs = [[[t, ['%s, %d' % (word(i), i) for i in range(n)]], ['PY', ['1999']], ['UT', ['WOS:' + t]]] for t in ('AU', 'CR', 'ZZ')]
    elif shape == 'line':
        recs = [[['TI', [c * n, 'end ' + c]], ['AB', ['a ' * n, 'b']], ['UT', ['WOS:%d' % i]]] for i, c in enumerate(('x', 'é', 'x y', '中'))]
    else:
        alpha = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
        tags = [t for t in (a + c for a in alpha for c in alpha) if t not in ('ER', 'EF', 'FN', 'VR', 'UT')][:n]
        recs = [[[t, ['v ' + t]] for t in tags] + [['UT', ['WOS:1']]]]
    run_shape(ctx, {'recs': recs})


def char_cases(tier):
    for c in CHARS:
        yield c


def char_run(ctx, c):
    ut = ['UT', ['WOS:1']]
    for n, v in enumerate(placed(c)):
        for rec in ([['TI', [v]], ut], [['PT', ['J']], ['AU', ['x', v, v]], ut, ['ZZ', [v, 'y']]], [ut, ['CR', ['Aa B, 1990, J', v]]]):
            run_shape(ctx, {'recs': [rec, [['TI', ['other']], ['UT', ['WOS:2']]]]})
    run_shape(ctx, {'recs': [[['TI', placed(c)], ['AU', placed(c)[::-1]], ut]]})


def long_cases(tier):
    for n in (1024, 4096, 8192, 32768, 65536, 131072) + ((1 << 18, 1 << 20) if tier == 'thorough' else ()):
        for d in (-1, 0, 1, 7):
            yield n + d


def long_run(ctx, n):
    for rec in ([['TI', ['x' * n]]], [['AB', ['x y\u00e9' * (n // 4) + 'q' * (n % 4), 'end']], ['PY', ['1999']]], [['AU', ['a', ' ' * (n - 1) + 'b']]], [['CR', ['Aa B, 1990, J'] * 3 + ['\u4e2d' * n]]]):
        run_shape(ctx, {'recs': [rec + [['UT', ['WOS:1']]]]})


SCENARIOS = [
    Scenario('characters', char_cases, char_run, '{} unusual characters x 8 places x 4 records'.format(len(CHARS)), timeout=120),
    Scenario('long-lines', long_cases, long_run, 'lines of 1024, 4096, 8192, 32768, 65536, 131072 characters -1, 0, +1, +7 (thorough up to 2^20)', timeout=240),
    Scenario('size', size_cases, size_run, 'n records, n lines in a field, lines of n characters, n fields, n around 4, 5, 8, 10, 16, ... up to 513 (thorough 2001)', timeout=240),
    Scenario('default-names', default.cases, run_default, default.BOUNDS),
    Scenario('field-shapes', shape_cases, run_shape, {'line alphabet': LINES, 'lines per field': '<=3', 'fields': '<=4', 'records': '<=130'}),
    Scenario('operation-histories', hist_cases, run_hist, {'quick': {'operations': 22, 'length': 2}, 'thorough': {'operations': 22, 'length': 3}}),
]
