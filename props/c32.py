"""C32: gender counts account for every author exactly once."""
import csv
import itertools
import os
from collections import Counter, OrderedDict as OD
from fractions import Fraction
from mc.core import Scenario
from mc import build as b
from mc import names as N
from mc.faults import limited
from mc.sizes import sizes
from metaknowledge import MedlineRecord, ScopusRecord, ProQuestRecord
import metaknowledge.genders as genders

N.install()
M = list(N.MENU)
GS = ('Male', 'Female', 'Unknown')


def rec(n, fmt, auths):
    """auths: list of menu indexes or None (no authors)"""
    names = None if auths is None else [M[i] for i in auths]
    if fmt == 'wos':
        return b.wos(n, AF=names, AU=names)
    if fmt == 'med':
        return MedlineRecord(OD([('PMID', [str(n)])] + ([('FAU', list(names)), ('AU', list(names))] if names else [])))
    return ScopusRecord(OD([('EID', str(n))]))


def counts(auths):
    c = Counter(N.MENU[M[i]] for i in auths or [])
    return tuple(c[g] for g in GS)


def pairs(d):
    """authGenders() in either orientation as name -> gender"""
    out = {}
    if set(d) <= set(GS) and all(isinstance(v, (list, tuple, set)) for v in d.values()):
        for g, vs in d.items():
            for v in vs:
                out[v] = g
        return out
    return dict(d)


def run(ctx, case):
    fmt, recs = case
    Rs = [rec(n, fmt, a) for n, a in enumerate(recs)]
    tot = [0, 0, 0]
    for R, a in zip(Rs, recs):
        ctx.step()
        want = counts(a)
        tot = [x + y for x, y in zip(tot, want)]
        what = 'authors %r' % ([M[i] for i in a or []],)
        ctx.eq(pairs(R.authGenders()), {M[i]: N.MENU[M[i]] for i in a or []}, what)
        got = R.authGenders(countsOnly=True)
        ctx.eq(got, dict(zip(GS, want)), what + ' counts')
        ctx.eq(sum(got.values()), len(a or []), what + ' every author once')
        for kw in ({'fractionsMode': True}, {'fractionsMode': True, 'countsOnly': True}):
            ctx.eq(R.authGenders(**kw), dict(zip(GS, [w / len(a) if a else 0 for w in want])), what + ' fractions')
        ctx.eq([genders.nameStringGender(M[i], noExcept=True) for i in a or []], [N.MENU[M[i]] for i in a or []], what)
    RC = b.rc(Rs)
    ctx.eq(RC.genderStats(), dict(zip(GS, tot)), 'collection')
    ctx.eq(RC.genderStats(asFractions=True), dict(zip(GS, [t / sum(tot) if sum(tot) else 0 for t in tot])), 'collection fractions')
    D = RC.makeDict(onlyTheseTags=['id'])
    idcol = [k for k in D if not k.startswith('num-')]
    want = {R.id: counts(a) + (len(a or []),) for R, a in zip(Rs, recs)}
    if fmt != 'sco':
        ctx.eq({D[idcol[0]][i]: (D['num-Male'][i], D['num-Female'][i], D['num-Unknown'][i], D['num-Authors'][i]) for i in range(len(Rs))}, want, 'makeDict')
        p = ctx.path('o.csv')
        RC.writeCSV(p, onlyTheseTags=['id'])
        rows = list(csv.DictReader(open(p, encoding='utf-8', newline='')))
        ctx.eq({r['id']: tuple(int(r['num-' + g]) for g in GS + ('Authors',)) for r in rows}, want, 'csv')
        ctx.eq(len(rows), len(Rs), 'csv rows')
    ctx.state((fmt, tuple(tot)))


def cases(tier):
    k = range(len(M))
    for n in (0, 1, 2):
        for c in itertools.product(k, repeat=n):
            yield ['wos', [list(c)]]
            yield ['med', [list(c)]]
    yield ['wos', [None]]
    yield ['sco', [None]]
    yield ['wos', []]
    small = [0, 1, 2, 3, 4]
    for c in itertools.product(k if tier == 'thorough' else small, repeat=3):
        yield ['wos', [list(c)]]
        yield ['med', [list(c)]]
    if tier == 'thorough':
        for c in itertools.product(k[:6], repeat=4):
            yield ['wos', [list(c)]]
    opts = [None, [0], [1], [3], [4], [0, 0], [0, 1], [1, 4, 3]]
    for n in (2, 3):
        for c in itertools.combinations_with_replacement(opts, n):
            yield ['wos', list(c)]
            yield ['med', list(c)]


def size_cases(tier):
    for n in sizes(1025 if tier == 'thorough' else 513):
        for shape in ('authors', 'same', 'records', 'late'):
            yield [shape, n]


def sized(ctx, case):
    shape, n = case
    auths = [i % len(M) for i in range(n)]
    recs = {'authors': [auths, [0]], 'same': [[1] * n, [0] * (n // 2)], 'records': [[a] for a in auths], 'late': [None] * n + [[1, 0, 3]]}[shape]
    for fmt in ('wos', 'med'):
        run(ctx, [fmt, recs])


# ---- obtaining the table: downloads that stop or fail at any byte
class Resp(object):
    def __init__(self, data):
        self.data = data

    def read(self, n=-1):
        d, self.data = self.data, b''
        return d


UK = {'John': 'Female', 'Pat': 'Male'}
SMALL = {'John': 'Male', 'Jane': 'Female'}


def serve(data):
    import urllib.request
    import urllib.error

    def urlopen(url, *a, **k):
        if data is None:
            raise urllib.error.URLError('no network')
        return Resp(data)
    urllib.request.urlopen = urlopen


def clean(table):
    for f in os.listdir(N.DIR):
        if f.startswith('namesData'):
            os.remove(os.path.join(N.DIR, f))
    if table:
        N.install(table)
    N.forget()


def look(name):
    return genders.nameStringGender('X, ' + name, noExcept=True)


def run_down(ctx, case):
    kind, n, had, kill, uk = case
    import urllib.request
    real = urllib.request.urlopen
    old = {'John': 'Unknown', 'Old': 'Male'} if had else None
    good = N.archive(SMALL, UK)
    wantnew = UK if uk else SMALL
    try:
        clean(old)
        serve(None if kind == 'none' else good[:n] if kind == 'cut' else good)
        ctx.step()
        if kind == 'full':
            genders.downloadData(useUK=uk)
            new = True
        elif kind in ('cut', 'none'):
            try:
                genders.downloadData(useUK=uk)
                new = True
            except Exception:
                new = False
            ctx.true(new == (kind == 'cut' and n >= len(good)), '%r: reported' % (case,))
        else:
            r = limited(n, lambda: genders.downloadData(useUK=uk), kill)
            new = r == 'ok'
            ctx.true(r != 'broken', 'child ended')
        # afterwards: the old table, the new table, or none; then a working network always gives answers
        serve(good)
        N.forget()
        table = genders.getMapping(uk) if not had and not new else genders.getMapping()
        want = wantnew if new or not had else old
        ctx.eq(dict(table), want, '%r: table used afterwards' % (case,))
        N.forget()
        ctx.eq([look(k) for k in ('John', 'Jane', 'Pat', 'Old')], [want.get(k, 'Unknown') for k in ('John', 'Jane', 'Pat', 'Old')], '%r: answers' % (case,))
        ctx.state((kind, had, new))
    finally:
        urllib.request.urlopen = real
        clean(None)
        N.install()


def down_cases(tier):
    size = len(N.archive(SMALL, UK))
    for had in (False, True):
        for uk in (False, True):
            yield ['full', 0, had, False, uk]
            yield ['none', 0, had, False, uk]
            for n in range(0, size, 1 if tier == 'thorough' else 3):
                yield ['cut', n, had, False, uk]
        for kill in (False, True):
            for n in range(0, len(N.text(UK).encode()) + 3):
                yield ['write', n, had, kill, True]


SCENARIOS = [
    Scenario('authors', cases, run, bounds='15 name forms: every author list of length <=2 (and 3, 4 thorough) and every multiset of 2-3 records over 8 author lists; WOS and Medline; record, collection, dict and CSV counts'),
    Scenario('size', size_cases, sized, bounds='n authors of a record, n equal authors, n records, n records without authors; n around 4, 5, 8, 10, 16, ... up to 513 (thorough 1025)', timeout=240),
    Scenario('download', down_cases, run_down, bounds='names archive cut at every (3rd quick) byte, no network, every byte at which writing the table fails or the process is killed, with and without an older table, US and UK'),
]
