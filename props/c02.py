"""C02: damage is never forgotten and always attributable.

Model register: (set of record labels, bad flag, set of damaged sources)."""
import itertools
import os
from mc.core import Scenario, histories
from mc.sizes import sizes
from mc import build as b
from mc import files
from props.c30 import listing
import metaknowledge as mk

REGS = ('A', 'B', 'Z')
HEAD = '\ufeffFN Thomson Reuters Web of Science\u2122\nVR 1.0\n'


def rec(n, uid=True):
    return 'PT J\nTI Title {0}\n{1}ER\n\n'.format(n, 'UT WOS:{}\n'.format(n) if uid else '')


FILES = {
    # name -> (text, record labels, damaged)
    'good': (HEAD + rec(1) + rec(2) + 'EF', '12', False),
    'cutA': (HEAD + rec(1) + rec(3), '13', True),
    'cutB': (HEAD + rec(3) + rec(2), '32', True),
    'badrec': (HEAD + rec(1) + rec('x', False) + 'EF', '1x', False),
    'badrecy': (HEAD + rec('y', False) + rec(3), 'y3', True),
    'empty': (None, '', False),
}
BADLABELS = 'xy'
PURE = ('or', 'and', 'sub', 'xor', 'plus')
INPL = ('ior', 'iand', 'isub', 'ixor')


def combine(op, x, y):
    return {'or': x | y, 'and': x & y, 'sub': x - y, 'xor': x ^ y, 'plus': x | y}[op]


def apply(st, op):
    s = dict(zip(REGS, st))
    k = op[0]
    if k in PURE:
        x, y = s[op[1]], s[op[2]]
        s[op[3]] = (combine(k, x[0], y[0]), x[1] or y[1], x[2] | y[2])
    elif k in INPL:
        x, y = s[op[1]], s[op[2]]
        s[op[1]] = (combine(k[1:], x[0], y[0]), x[1] or y[1], x[2] | y[2])
    elif k == 'copy':
        s[op[2]] = s[op[1]]
    elif k == 'clear':
        s[op[1]] = (frozenset(), False, frozenset())
    elif k == 'dropBad':
        s[op[1]] = (frozenset(l for l in s[op[1]][0] if l not in BADLABELS), False, frozenset())
    elif k == 'badEntries':
        pass
    elif k == 'add':
        s[op[1]] = (s[op[1]][0] | {op[2]}, s[op[1]][1], s[op[1]][2])
    elif k == 'removeID':
        if op[2] not in s[op[1]][0]:
            return None
        s[op[1]] = (s[op[1]][0] - {op[2]}, s[op[1]][1], s[op[1]][2])
    return tuple(s[r] for r in REGS)


def ops_all():
    o = []
    for x, y in itertools.product(REGS, REGS):
        for k in PURE:
            if (x, y) in (('A', 'B'), ('B', 'A'), ('A', 'Z')):
                o.append((k, x, y, 'Z'))
        for k in INPL:
            o.append((k, x, y))
    for x in REGS:
        o += [('clear', x), ('dropBad', x), ('badEntries', x), ('add', x, 'x'), ('removeID', x, '1')]
        for y in REGS:
            if x != y:
                o.append(('copy', x, y))
    return o


def label(r):
    if r.bad:
        return r.get('TI').split()[-1]
    return r.id[-1]


def run(ctx, case):
    kind = case['kind']
    S, st, errs = {}, [], {}
    badrecs = {}
    for r, f in zip(REGS, case['start']):
        text, labels, damaged = FILES[f]
        if kind == 'rec':
            if text is None:
                S[r] = mk.RecordCollection()
            else:
                p = ctx.write(f + '.isi', text)
                S[r] = mk.RecordCollection(p)
                ctx.step()
                ctx.eq(list(S[r].errors), [p] if damaged else [], 'errors after reading ' + f)
                for k, v in S[r].errors.items():
                    ctx.true(isinstance(v, BaseException), 'error of {} is not an exception: {!r}'.format(f, v))
                errs.setdefault(f, p)
        else:
            S[r] = mk.GrantCollection([mk.MedlineGrant('NICHD' + l) if l in BADLABELS else mk.MedlineGrant('N0/AG/Ag/' + l) for l in labels])
            errs.setdefault(f, f)
            if damaged:
                S[r].bad = True
                S[r].errors[f] = ValueError(f)
        st.append((frozenset(labels), damaged, frozenset([f]) if damaged else frozenset()))
    M = tuple(st)
    lab = label if kind == 'rec' else (lambda g: g.original[-1])

    def check(what):
        for r, m in zip(REGS, M):
            ctx.eq(sorted(map(lab, S[r])), sorted(m[0]), '{} {} contents'.format(what, r))
            ctx.eq(bool(S[r].bad), m[1], '{} {} bad flag'.format(what, r))
            ctx.eq(sorted(S[r].errors), sorted(errs[e] for e in m[2]), '{} {} errors'.format(what, r))
            be = S[r].badEntries()
            ctx.eq(sorted(map(lab, be)), sorted(l for l in m[0] if l in BADLABELS), '{} {} badEntries'.format(what, r))
            ctx.true(type(be) is type(S[r]), 'badEntries type')
            for x in S[r]:
                ctx.eq(bool(x.bad), lab(x) in BADLABELS, '{} bad flag of record {}'.format(what, lab(x)))
                ctx.eq(x.error is not None, lab(x) in BADLABELS, '{} error of record {}'.format(what, lab(x)))
    check('start')
    newbad = b.wos(None, TI=['Title x']) if kind == 'rec' else mk.MedlineGrant('NICHDx')
    if kind == 'rec':
        newbad = [r for r in mk.RecordCollection(ctx.write('nb.isi', FILES['badrec'][0])) if r.bad][0]
    for n, op in enumerate(case['hist']):
        k = op[0]
        ctx.step()
        if k in PURE:
            x, y = S[op[1]], S[op[2]]
            if k == 'plus' and kind == 'grant':
                k = 'or'
            S[op[3]] = {'or': lambda: x | y, 'and': lambda: x & y, 'sub': lambda: x - y, 'xor': lambda: x ^ y, 'plus': lambda: x + y}[k]()
        elif k in INPL:
            x, y = S[op[1]], S[op[2]]
            if k == 'ior':
                x |= y
            elif k == 'iand':
                x &= y
            elif k == 'isub':
                x -= y
            else:
                x ^= y
            S[op[1]] = x
        elif k == 'copy':
            S[op[2]] = S[op[1]].copy()
        elif k == 'clear':
            S[op[1]].clear()
        elif k == 'dropBad':
            S[op[1]].dropBadEntries()
        elif k == 'badEntries':
            S[op[1]].badEntries().clear()
        elif k == 'add':
            S[op[1]].add(newbad)
        elif k == 'removeID':
            S[op[1]].removeID([r.id for r in S[op[1]] if lab(r) == op[2]][0])
        M = apply(M, op)
        check('step {} {}'.format(n, op))
    ctx.state((kind, [(sorted(m[0]), m[1], sorted(m[2])) for m in M]))


def cases(tier):
    ops = ops_all()
    names = list(FILES)
    for kind in ('rec', 'grant'):
        for a, c in itertools.product(names, names):
            start = tuple((frozenset(FILES[f][1]), FILES[f][2], frozenset([f]) if FILES[f][2] else frozenset()) for f in (a, c, 'empty'))
            depth, full = (2, 2) if tier == 'quick' else (3, 3)
            for h in histories(start, lambda s: ops, apply, lambda s: s, depth, full):
                yield {'kind': kind, 'start': [a, c, 'empty'], 'hist': list(h)}
            if a == 'cutA' and c in ('cutB', 'badrecy'):
                for h in histories(start, lambda s: ops, apply, lambda s: s, 3 if tier == 'quick' else 4, 1):
                    yield {'kind': kind, 'start': [a, c, 'empty'], 'hist': list(h)}


def size_cases(tier):
    for n in sizes(513 if tier == 'thorough' else 129):
        for shape in ('files', 'records', 'grants'):
            yield [shape, n]


def sized(ctx, case):
    """n damaged sources, n damaged records"""
    shape, n = case
    d = ctx.path('d')
    os.mkdir(d)
    if shape == 'files':
        names = []
        for i in range(n):
            names.append(ctx.write('d/f%d.isi' % i, HEAD + rec('1%d' % i) + (rec('2%d' % i) + 'EF' if i % 3 else 'PT J\nTI y')))
        cut = [p for i, p in enumerate(names) if i % 3 == 0]
        D = mk.RecordCollection(d)
        parts = [mk.RecordCollection(p) for p in names]
        badids = set()
    elif shape == 'records':
        p = ctx.write('d/f.isi', HEAD + ''.join(rec(i, bool(i % 3)) for i in range(n)) + rec('end', False))
        D, cut, names = mk.RecordCollection(d), [], [p]
        parts = [mk.RecordCollection([R], 'one') for R in D]
    else:
        names = [ctx.write('d/f%d.csv' % i, 'key,b\n1%d,x\n' % i + ('' if i % 3 else '2%d\n' % i)) for i in range(n)]
        cut = [p for i, p in enumerate(names) if i % 3 == 0]
        D = mk.GrantCollection(d)
        parts = [mk.GrantCollection(p) for p in names]
    if shape == 'grants':
        # what counts as damage of a grant file is decided elsewhere (C20)
        cut = sorted(p for p, P in zip(names, parts) if P.bad)
    else:
        ctx.eq(sorted(k for P in parts for k in P.errors), sorted(cut) if shape == 'files' else sorted(cut), 'damaged sources alone, {}'.format(case))
    if shape == 'records':
        # the last is the only one that lacks what it needs and ends the file
        cut = sorted(D.errors)
        want = {i for i in range(n) if not i % 3}
        ctx.eq({int(R.get('TI').split()[-1]) for R in D if R.bad and R.get('TI') != 'Title end'}, want, 'damaged records of {}'.format(case))
    bad = sum(1 for R in D if R.bad)
    every = lambda C: (sorted(R.id if not R.bad else repr(list(R.items(raw=True) if hasattr(R, 'keys') and shape != 'grants' else R.items())) for R in C), bool(C.bad), sorted(C.errors), sum(1 for R in C.badEntries()))
    want = every(D)
    ctx.step()
    ctx.eq(want[2], sorted(cut), 'sources of {}'.format(case))
    ctx.eq(want[1], bool(cut), 'flag of {}'.format(case))
    ctx.eq(want[3], bad, 'damaged entries of {}'.format(case))
    for order in (parts, parts[::-1]):
        U = order[0].copy()
        V = order[0].copy()
        for P in order[1:]:
            U |= P
            V = V | P
        if shape != 'records':
            ctx.eq(every(U), want, 'united one by one, {}'.format(case))
            ctx.eq(every(V), want, 'union of {}'.format(case))
        else:
            ctx.eq(every(U)[0], want[0], 'united one by one, {}'.format(case))
            ctx.eq(every(V)[3], want[3], 'union of {}'.format(case))
    C = D.copy()
    ctx.eq(every(C), want, 'copy of {}'.format(case))
    B = D.badEntries()
    ctx.eq(all(R.bad for R in B), True, 'damaged entries of {}'.format(case))
    C.dropBadEntries()
    ctx.eq((sum(1 for R in C if R.bad), len(C), bool(C.bad), dict(C.errors)), (0, len(D) - bad, False, {}), 'without damaged entries, {}'.format(case))
    ctx.eq(every(D), want, 'left as it was, {}'.format(case))
    D.clear()
    ctx.eq((len(D), bool(D.bad), dict(D.errors)), (0, False, {}), 'cleared, {}'.format(case))
    ctx.state(tuple(case))


# ------------------------------------------------- directories of several files
KINDS = [(k, ok) for k in ('wos', 'medline', 'scopus', 'proquest') for ok in (True, False)] + [('badrec', True)]


def dir_cases(tier):
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for c in itertools.product(range(len(KINDS)), repeat=n) if n < 4 else itertools.combinations_with_replacement(range(len(KINDS)), 4):
            yield list(c)


def dir_run(ctx, case):
    d = ctx.path('d')
    os.mkdir(d)
    want, labels, bads = [], [], 0
    for i, k in enumerate(case):
        kind, ok = KINDS[k]
        p = ctx.write('d/f%d.txt' % i, FILES['badrec'][0].replace('Title 1', 'Title a%d' % i).replace('WOS:1', 'WOS:%d0' % i).replace('Title x', 'Title x%d' % i) if kind == 'badrec' else files.RECORDS[kind]([(10 * i + 1, 'Title a%d' % i)], ok))
        labels.append('a%d' % i)
        if not ok and kind != 'scopus':
            want.append(p)
        if kind == 'badrec':
            bads += 1
    bads += ('scopus', False) in [KINDS[k] for k in case]        # the same line in each of them
    every = lambda C: (sorted(C.errors), bool(C.bad), sorted(str(R.get('title')).split()[-1] for R in C if not R.bad), all(isinstance(v, BaseException) for v in C.errors.values()))
    for order in itertools.permutations(['f%d.txt' % i for i in range(len(case))]) if len(case) < 4 else (['f3.txt', 'f1.txt', 'f0.txt', 'f2.txt'],):
        with listing(order):
            C = mk.RecordCollection(d)
        ctx.step()
        ctx.eq(every(C), (want, bool(want), labels, True), 'damaged files, flag and records of {} listed {}'.format([KINDS[k] for k in case], order))
        ctx.eq(sum(1 for R in C if R.bad) >= bads, True, 'damaged records of {}'.format([KINDS[k] for k in case]))
        ctx.eq(len(C.badEntries()), sum(1 for R in C if R.bad), 'bad entries of {}'.format([KINDS[k] for k in case]))
    U = mk.RecordCollection()
    for i in range(len(case)):
        U |= mk.RecordCollection(ctx.path('d/f%d.txt' % i))
    ctx.eq(every(U), (want, bool(want), labels, True), 'united one by one, {}'.format([KINDS[k] for k in case]))
    ctx.state(case)


# ---------------------------------------- everything else that can be done to one
BAD = lambda l: l in BADLABELS
OTHER = {   # what happens to the records; None: the flag and the errors go as well
    'dropNonJournals': (lambda C: C.dropNonJournals(), lambda L: {l for l in L if not BAD(l)}, True),
    'dropNonJournals inverted': (lambda C: C.dropNonJournals(invert=True), lambda L: set(), True),
    'dropNonJournals keeping bad': (lambda C: C.dropNonJournals(dropBad=False), lambda L: L, False),
    'dropNonJournals B': (lambda C: C.dropNonJournals('B', dropBad=False), lambda L: set(), False),
    'dropNonJournals b inverted': (lambda C: C.dropNonJournals(ptVal='b', dropBad=False, invert=True), lambda L: L, False),
    'dropBadEntries': (lambda C: C.dropBadEntries(), lambda L: {l for l in L if not BAD(l)}, True),
    'discard': (lambda C: [C.discard(R) for R in list(C) if label(R) == '1'], lambda L: L - {'1'}, False),
    'discard bad': (lambda C: [C.discard(R) for R in list(C) if R.bad], lambda L: {l for l in L if not BAD(l)}, False),
    'discardID': (lambda C: C.discardID('WOS:2'), lambda L: L - {'2'}, False),
    'removeID none': (lambda C: attempt(lambda: C.removeID('WOS:77')), lambda L: L, False),
    'add good': (lambda C: C.add(b.wos(8, PT=['J'], TI=['Title 8'])), lambda L: L | {'8'}, False),
    'iand itself': (lambda C: C.__iand__(C), lambda L: L, False),
    'iand copy': (lambda C: C.__iand__(C.copy()), lambda L: L, False),
    'ior empty': (lambda C: C.__ior__(mk.RecordCollection()), lambda L: L, False),
    'isub empty': (lambda C: C.__isub__(mk.RecordCollection()), lambda L: L, False),
    'ixor empty': (lambda C: C.__ixor__(mk.RecordCollection()), lambda L: L, False),
    'isub itself': (lambda C: C.__isub__(C.copy()), lambda L: set(), False),
    'pop all': (lambda C: [C.pop() for i in range(len(C))], lambda L: set(), False),
    'yearSplit': (lambda C: C.yearSplit(1900, 2100).clear(), lambda L: L, False),
    'badEntries cleared': (lambda C: C.badEntries().dropBadEntries(), lambda L: L, False),
    'copy cleared': (lambda C: C.copy().clear(), lambda L: L, False),
    'copy dropped': (lambda C: C.copy().dropBadEntries(), lambda L: L, False),
    'union dropped': (lambda C: (C | C).dropBadEntries(), lambda L: L, False),
    'difference dropped': (lambda C: (C - mk.RecordCollection()).dropBadEntries(), lambda L: L, False),
    'sum dropped': (lambda C: (C + C).dropBadEntries(), lambda L: L, False),
    'made again dropped': (lambda C: mk.RecordCollection(list(C)).dropBadEntries(), lambda L: L, False),
    'renamed': (lambda C: setattr(C, 'name', 'other'), lambda L: L, False),
    'chunk': (lambda C: [x.clear() for x in C.chunk(1)], lambda L: L, False),
}


def attempt(f):
    try:
        return f()
    except Exception:
        pass


def other_cases(tier):
    names = list(OTHER)
    for start in FILES:
        for n in (1, 2) if tier == 'quick' else (1, 2, 3):
            for h in itertools.product(names, repeat=n):
                yield [start] + list(h)


def other_run(ctx, case):
    start, ops = case[0], case[1:]
    text, labels, damaged = FILES[start]
    p = None
    if text is None:
        C = mk.RecordCollection()
    else:
        p = ctx.write(start + '.isi', text)
        C = mk.RecordCollection(p)
    L, errs = set(labels), [p] if damaged else []

    def check(what):
        ctx.step()
        ctx.eq((sorted(map(label, C)), bool(C.bad), sorted(C.errors), sorted(map(label, C.badEntries()))), (sorted(L), bool(errs), errs, sorted(l for l in L if BAD(l))), what)
    for n, op in enumerate(ops):
        f, g, drop = OTHER[op]
        f(C)
        L = g(L)
        if drop:
            errs = []
        check('{} of a file, then {}'.format(start, ops[:n + 1]))
    ctx.state((case[0], sorted(L), errs != []))


SCENARIOS = [
    Scenario('directories', dir_cases, dir_run, 'every sequence of up to 3 files (4 in depth) of 9 kinds (4 formats, damaged or not, and a damaged record), every listing order, and the files united one by one', timeout=120),
    Scenario('others', other_cases, other_run, 'every sequence of 1-2 (3) of {} operations on each of 6 files'.format(len(OTHER)), timeout=240),
    Scenario('size', size_cases, sized, 'directories of n files every third of which is damaged, n records every third of which is damaged, united, copied, dropped and cleared; n around 4, 5, 8, 10, 16, ... up to 129 (thorough 513)', timeout=240),
    Scenario('histories', cases, run, {'quick': {'depth': '2 unmerged from 36 start pairs, 3 with state merging from 2'}, 'thorough': {'depth': '3 unmerged'}})]
