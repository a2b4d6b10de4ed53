"""C22: filters select exactly the records that satisfy them."""
import itertools
from collections import OrderedDict as OD
from mc.core import Scenario
from mc import build as b
from mc import cites as ct
from mc.sizes import sizes, word
import metaknowledge as mk
from metaknowledge import RecordCollection, Citation, MedlineRecord, ScopusRecord

# ---------------------------------------------------------------- year ranges
YEARS = [None, 1998, 1999, 2000, 2001, 'bad']


def yrec(n, y):
    if y == 'bad':
        return b.badwos('bad %d' % n)
    return b.wos(n, **({} if y is None else {'PY': [str(y)]}))


def snapshot(RC):
    return (RC.name, len(RC), sorted((R.id or '', R.bad, str(sorted((k, str(R.get(k))) for k in R))) for R in RC), RC.bad, dict(RC.errors) if RC.errors else RC.errors)


def run_years(ctx, case):
    ys = case
    recs = [yrec(n, y) for n, y in enumerate(ys)]
    RC = b.rc(recs)
    before = snapshot(RC)
    tot = {}
    for lo in (1997, 1998, 1999, 2000, 2002):
        for hi in (1997, 1998, 2000, 2001):
            ctx.step()
            what = 'yearSplit(%d, %d) of %r' % (lo, hi, ys)
            got = RC.yearSplit(lo, hi)
            ctx.eq(sorted(R.id for R in got), sorted(recs[n].id for n, y in enumerate(ys) if isinstance(y, int) and lo <= y <= hi), what)
            ctx.true(all(any(R is r for r in recs) for R in got), what + ' holds the records themselves')
            if all(isinstance(y, int) for y in ys):
                ctx.eq(sorted(R.id for R in RC.yearSplit(lo, hi, dropMissingYears=False)), sorted(R.id for R in got), what + ' dropMissingYears False')
            else:
                ctx.raises(TypeError, lambda: RC.yearSplit(lo, hi, dropMissingYears=False), what + ' dropMissingYears False')
            got.add(b.wos('extra'))
            if recs:
                got.discard(recs[0])
            ctx.eq(snapshot(RC), before, what + ' leaves the collection alone')
    # consecutive ranges partition the dated records
    for m in (1997, 1998, 1999, 2000):
        a, c = RC.yearSplit(1990, m), RC.yearSplit(m + 1, 2010)
        ctx.eq((len(a & c), sorted(R.id for R in a | c)), (0, sorted(recs[n].id for n, y in enumerate(ys) if isinstance(y, int))), 'ranges split at %d partition %r' % (m, ys))
    ctx.state(tuple(ys))


def year_cases(tier):
    for n in range(0, 7 if tier == 'thorough' else 5):
        for c in itertools.combinations_with_replacement(YEARS, n):
            yield list(c)
            if len(set(c)) > 1:
                yield list(reversed(c))


# ---------------------------------------------------------------- citation filters
# string -> parts as documented (author, year, journal, V, P, misc, bad)
CITES = {
    'AA B, 2000, JONE, V1, P1': dict(author='Aa B', year=2000, journal='JONE', V='V1', P='P1'),
    'XX Y, 1990, JTWO, V12, P3, DOI 10.1/ab': dict(author='Xx Y', year=1990, journal='JTWO', V='V12', P='P3'),
    'Xx Aa, 1990, BOOK AA': dict(author='Xx Aa', year=1990, journal='BOOK AA'),
    '[ANONYMOUS], 1991, JONE': dict(author='[Anonymous]', year=1991, journal='JONE'),
    'Zz Y, JTWO': dict(author='Zz Y', journal='JTWO', bad=True),
    'Qq R, 2000, JONE, V2, P1, ARTN v1': dict(author='Qq R', year=2000, journal='JONE', V='V2', P='P1', misc='ARTN V1', bad=True),
    'OLD A, -1990, JOLD, V 12': dict(author='Old A', year=-1990, journal='JOLD', V='V 12'),
    'Yy Z, 0, J Y R.': dict(author='Yy Z', year=0, journal='J Y R.'),
    '1990, JSIX': dict(year=1990, journal='JSIX', bad=True),
}
CS = list(CITES)
KEYS = {
    'all': ['', 'aa', 'AA', 'Aa', ' B', 'B ', 'E, ', 'V1', 'v1', '1990, ', '10.1/AB', '10.1/ab', 'none', 1990],
    'author': ['', 'AA', 'aa b', 'x', 'anon', ' Y', 'y ', 'none'],
    'year': ['', 1990, '2000', 1850, -1990, '-1990', 0, '0'],
    'journal': ['', 'jone', 'J', 'AA', ' a', 'k ', 'R.', 'none'],
    'V': ['', 'V1', 'v2', '2', 'P1'],
    'P': ['', 'P1', 'p3', '3', 'V1'],
    'misc': ['', 'artn', ' ', 'V1', 'none'],
    'anonymous': [''],
    'bad': ['', 'ignored'],
}


def match(s, field, key, case):
    p = CITES[s]
    if field == 'all':
        k = str(key)
        return k in s if case else k.upper() in s.upper()
    if field == 'anonymous':
        return p.get('author') == '[Anonymous]'
    if field == 'bad':
        return bool(p.get('bad'))
    if p.get(field) is None:
        return False
    if field == 'year':
        return key == '' or p['year'] == int(key)
    return key.upper() in p[field].upper()


def run_filter(ctx, case):
    recs = [b.wos(n, CR=(None if cs is None else [CS[i] for i in cs])) for n, cs in enumerate(case)]
    # damaged records, all of the same id: without citations and, in the cases of one record, each with one of its own
    extra = [b.badwos('x')]
    cited = [None] * len(extra)
    if len(case) == 1:
        cited += [CS[0], CS[3], CS[5]]
        extra += [mk.WOSRecord(OD([('TI', ['z']), ('CR', [c])])) for c in cited[1:]]
    RC = b.rc(recs + extra)
    before = snapshot(RC)
    for field in KEYS:
        for key in KEYS[field]:
            for cs in ((False, True) if field == 'all' else (False,)):
                ctx.step()
                what = 'citeFilter(%r, %r, caseSensitive=%s) of %r' % (key, field, cs, case)
                want = {recs[n] for n, c in enumerate(case) if c and any(match(CS[i], field, key, cs) for i in c)} | {R for R, c in zip(extra, cited) if c and match(c, field, key, cs)}
                kw = dict(field=field)
                if field == 'all' and key and ctx.tier == 'quick':
                    kw = {}
                if cs:
                    kw['caseSensitive'] = True
                got = RC.citeFilter(key, **kw)
                ctx.eq(sorted(str(R.id) + str(R.get('CR')) for R in got), sorted(str(R.id) + str(R.get('CR')) for R in want), what)
                rev = RC.citeFilter(key, reverse=True, **kw)
                ctx.eq(sorted(str(R.id) + str(R.get('CR')) for R in rev), sorted(str(R.id) + str(R.get('CR')) for R in set(recs + extra) - want), what + ' reversed')
                ctx.true(all(any(R is r for r in recs + extra) for R in itertools.chain(got, rev)), what + ' holds the records themselves')
                got.clear()
                rev.clear()
        ctx.eq(snapshot(RC), before, 'citeFilter leaves the collection alone')
    ctx.state(case)


def filter_cases(tier):
    ns = range(len(CS))
    one = [None] + [[i] for i in ns] + [list(p) for p in itertools.permutations(ns, 2)]
    for a in one:
        yield [a]
    small = [None] + [[i] for i in ns] + [[i, j] for i in ns for j in ns if i < j]
    for a, c in itertools.combinations_with_replacement(small, 2):
        yield [a, c]
    if tier == 'thorough':
        for c in itertools.combinations_with_replacement([None] + [[i] for i in ns], 3):
            yield list(c)


# ---------------------------------------------------------------- who cites this
HEADS = [
    (dict(AU=['Aa, B'], PY=['2000'], J9=['JONE']), 'Aa B, 2000, JONE'),
    (dict(AU=['Cc, D', 'Ee, F'], PY=['2001'], J9=['JTWO'], VL=['3'], BP=['9']), 'Cc D, 2001, JTWO'),
    (dict(AU=['Gg, H'], J9=['JTWO']), 'Gg H, JTWO'),
]
LOC = ['AA B, 2000, JONE', 'Aa B, 2000, JONE, V1, P1', 'Cc D, 2001, JTWO, V3, P9', 'CC D, 2001, JTWO, V4', 'GG H, JTWO, V3', 'Gg H, JTWO', 'Other X, 1999, JTEN', 'Other X, 1999, J TEN.']
LOCID = ['Aa B, 2000, JONE', 'Aa B, 2000, JONE', 'Cc D, 2001, JTWO', 'Cc D, 2001, JTWO', 'Gg H, JTWO', 'Gg H, JTWO', 'Other X, 1999, JTEN', 'Other X, 1999, J TEN.']


def run_local(ctx, case):
    recs = [b.wos(n, CR=(None if cs is None else [LOC[i] for i in cs]), **HEADS[n][0]) for n, cs in enumerate(case)]
    RC = b.rc(recs)
    before = snapshot(RC)

    def citing(ident):
        return sorted(recs[n].id for n, cs in enumerate(case) if cs and any(LOCID[i] == ident for i in cs))
    probes = []
    for n, R in enumerate(recs):
        probes += [(R, HEADS[n][1]), (R.id, HEADS[n][1])]
    for i, s in enumerate(LOC):
        probes += [(s, LOCID[i]), (Citation(s), LOCID[i])]
    probes += [('Nobody N, 1900, JNINE', 'Nobody N, 1900, JNINE'), (b.wos('outside', **HEADS[0][0]), HEADS[0][1])]
    for p, ident in probes:
        ctx.step()
        got = RC.localCitesOf(p)
        ctx.eq(sorted(R.id for R in got), citing(ident), 'localCitesOf(%r) in %r' % (str(p), case))
        ctx.true(all(any(R is r for r in recs) for R in got), 'localCitesOf holds the records themselves')
        got.clear()
    for bad in (3, None, ['x']):
        ctx.raises(ValueError, lambda: RC.localCitesOf(bad), 'localCitesOf(%r)' % (bad,))
    ctx.eq(snapshot(RC), before, 'localCitesOf leaves the collection alone')
    ctx.state(case)


def local_cases(tier):
    ns = range(len(LOC))
    opts = [None] + [[i] for i in ns] + [[i, j] for i in ns for j in ns if i < j]
    if tier == 'quick':
        opts = opts[:8] + opts[8::4]
    for c in itertools.product(opts, repeat=2):
        yield list(c)
    for c in itertools.product(opts[:8] if tier == 'quick' else opts[:12], repeat=3):
        yield list(c)


# ---------------------------------------------------------------- records of every source
SFIELDS = {   # V, P of the Scopus citations
    'Xx Y., Qq R., Other (1990) JTWO, 2 (3), pp. 4-5': ('2', '4-5'),
    'XX Y., (1990) JTWO, 9': ('9', None),
    'Zz Y., Unknown (1995) JTEN, p. 7': (None, '7'),
}
SKEYS = {
    'all': ['', 'title, of', 'XX', 'xx', 'Xx Y., Qq', '(1990)', 'none'],
    'author': ['', 'aa', 'XX Y.', 'none'],
    'year': ['', 1990, '2000', 1850],
    'journal': ['', 'jtwo', 'T', 'none'],
    'V': ['', '2', '9', '4', 'V1'],
    'P': ['', '4', '7', 'p3', '9'],
    'anonymous': [''],
    'bad': [''],
}
WV = {'AA B, 2000, JONE, V1, P1': ('V1', 'P1'), 'XX Y, 1990, JONE, V2, P3': ('V2', 'P3'), 'Xx Y, 1990, JONE, V9': ('V9', None)}
WBAD = {'Zz Y, JTWO', 'Xx Y, 1995'}


def smatch(s, field, key, case):
    a, y, j = ct.POOL[s][:3]
    if field == 'all':
        return str(key) in s if case else str(key).upper() in s.upper()
    if field == 'anonymous':
        return a == '[Anonymous]' or s == ct.NOBODY
    if field == 'bad':
        return s == ct.NOBODY or s in WBAD
    if field == 'year':
        return y is not None and (key == '' or y == int(key))
    v, p = SFIELDS.get(s) or WV.get(s) or (None, None)
    val = {'author': a, 'journal': j, 'V': v, 'P': p}[field]
    return val is not None and key.upper() in val.upper()


def run_sources(ctx, case):
    recs = ct.collection(case)
    RC = b.rc(recs)
    lists = [[ct.C[i] for i in cs or []] for h, cs in case]
    before = snapshot(RC)
    probes = []
    for (h, cs), R in zip(case, recs):
        own = ct.ident(ct.HEADS[h][1])
        probes += [(R, own), (R.id, own), (R.createCitation(), own)]
    for i, s in enumerate(ct.C[:ct.M0]):
        probes.append((Citation(s, scopusMode=s in ct.SCOPUS), ct.ident(ct.POOL[s])))
        if s not in ct.SCOPUS:
            probes.append((s, ct.ident(ct.POOL[s])))
    have = {R.id for R in recs}
    probes += [(x, None) for x in ('PMID:7', '2-s', 'PROQUEST:9', 'EID:77') if x not in have]
    for p, own in probes:
        ctx.step()
        got = RC.localCitesOf(p)
        want = [R.id for R, l in zip(recs, lists) if own is not None and any(ct.ident(ct.POOL[s]) == own for s in l)]
        ctx.eq(sorted(R.id for R in got), sorted(want), 'localCitesOf(%r) in %r' % (str(p), case))
        ctx.true(all(any(R is r for r in recs) for R in got), 'localCitesOf holds the records themselves')
    for field in SKEYS:
        for key in SKEYS[field]:
            for cs in ((False, True) if field == 'all' else (False,)):
                ctx.step()
                what = 'citeFilter(%r, %r, caseSensitive=%s) of %r' % (key, field, cs, case)
                want = [R.id for R, l in zip(recs, lists) if any(smatch(s, field, key, cs) for s in l)]
                ctx.eq(sorted(R.id for R in RC.citeFilter(key, field, caseSensitive=cs)), sorted(want), what)
                ctx.eq(sorted(R.id for R in RC.citeFilter(key, field, reverse=True, caseSensitive=cs)), sorted(R.id for R in recs if R.id not in want), what + ' reversed')
    for lo, hi in ((1999, 2000), (2001, 2001), (2000, 2003), (1900, 1999)):
        ys = {R.id: ct.HEADS[h][1][1] for (h, cs), R in zip(case, recs)}
        ctx.eq(sorted(R.id for R in RC.yearSplit(lo, hi)), sorted(i for i, y in ys.items() if y is not None and lo <= y <= hi), 'yearSplit(%d, %d) of %r' % (lo, hi, case))
    ctx.eq(snapshot(RC), before, 'filters leave the collection alone')
    ctx.state(case)


def source_cases(tier):
    n = 5
    for heads in ((5,), (6,)):
        yield from ct.citing_cases(heads, n, 3 if tier == 'thorough' else 2)
    for heads in ((5, 7), (6, 8), (5, 6)):
        yield from ct.citing_cases(heads, n, 2 if tier == 'thorough' or heads != (5, 6) else 1)
    for heads in ((0, 5), (1, 6), (0, 7), (3, 8)):
        yield from ct.citing_cases(heads, n, 1)
    for heads in ((0, 5, 7), (1, 5, 8), (5, 6, 9)):
        yield from ct.citing_cases(heads, 3 if tier == 'quick' else n, 1)


# ---------------------------------------------------------------- journals only
KINDS = ['J', 'B', 'P', None, 'bad', 'badJ', 'badB']


def ptrec(n, k):
    if k == 'bad':
        return b.badwos('x%d' % n)
    if k in ('badJ', 'badB'):
        return mk.WOSRecord(OD([('PT', [k[-1]]), ('TI', ['y%d' % n])]))
    return mk.WOSRecord(OD([('UT', ['WOS:%d' % n])])) if k is None else b.wos(n, PT=[k])


def pt(k):
    return {'bad': 'J', 'badJ': 'J', 'badB': 'B'}.get(k, k)


def run_journals(ctx, case):
    kinds = case
    for val in ('default', 'J', 'j', 'B', 'b', 'S'):
        for dropBad in (True, False):
            for invert in (False, True):
                ctx.step()
                recs = [ptrec(n, k) for n, k in enumerate(kinds)]
                src = b.rc(recs)
                RC = src.copy()
                kw = {} if val == 'default' else {'ptVal': val}
                if not dropBad:
                    kw['dropBad'] = False
                if invert:
                    kw['invert'] = True
                what = 'dropNonJournals(%r) of %r' % (kw, kinds)
                ret = RC.dropNonJournals(**kw)
                ctx.eq(ret, None, what)
                v = 'J' if val == 'default' else val.upper()
                want = [R for R, k in zip(recs, kinds) if (pt(k) == v) != invert and not (dropBad and k and k.startswith('bad'))]
                ctx.eq(sorted(str(R.get('PT')) + str(R.id) + str(R.get('TI')) for R in RC), sorted(str(R.get('PT')) + str(R.id) + str(R.get('TI')) for R in want), what)
                ctx.true(all(any(R is r for r in recs) for R in RC), what + ' keeps the records themselves')
                ctx.eq(len(src), len(set(recs)), what + ' is confined to its collection')
    ctx.state(kinds)


def journal_cases(tier):
    for n in range(0, 7 if tier == 'thorough' else 5):
        for c in itertools.combinations_with_replacement(KINDS, n):
            yield list(c)


# ---------------------------------------------------------------- sizes
def size_cases(tier):
    for n in sizes(2001 if tier == 'thorough' else 1025):
        for shape in ('long', 'repeat', 'star', 'chain', 'shared', 'late'):
            if n < 1025 or shape == 'long' and n == 1025:
                yield [shape, n]
        yield ['name', n]
        yield ['kinds', n]


def run_size(ctx, sh):
    shape, n = sh
    if shape == 'kinds':
        kinds = [('J', 'B', 'J', None, 'P')[i % 5] for i in range(n)]
        recs = [ptrec(i, k) for i, k in enumerate(kinds)]
        for inv in (False, True):
            RC = b.rc(recs)
            RC.dropNonJournals(invert=inv)
            ctx.step()
            ctx.eq(sorted(R.id for R in RC), sorted(R.id for R, k in zip(recs, kinds) if (k == 'J') != inv), 'dropNonJournals(invert={}) of {}'.format(inv, sh))
        return
    if shape == 'name':      # a long citation, the key at its start and its end
        text = 'Aa B, 1990, ' + 'JONE ' * n + 'ZEND'
        recs = [b.wos(0, CR=[text]), b.wos(1, CR=[text[:-1]])]
        RC = b.rc(recs)
        for field, key, want in (('all', 'zend', [0]), ('all', 'zen', [0, 1]), ('all', text, [0]), ('journal', 'zend', [0]), ('journal', 'jone zen', [0, 1]), ('all', 'zendx', [])):
            ctx.step()
            ctx.eq(sorted(R.id for R in RC.citeFilter(key, field)), ['WOS:%d' % i for i in want], 'citeFilter({!r:.40}, {}) of {}'.format(key, field, sh))
        ctx.eq([R.id for R in RC.localCitesOf(text)], ['WOS:0'], 'localCitesOf a long citation of {}'.format(sh))
        return
    case = ct.sized(shape, n)
    recs = ct.collection(case)
    RC = b.rc(recs)
    lists = [[ct.ident(ct.POOL[ct.C[i]]) for i in cs or []] for h, cs in case]
    full = [[ct.C[i] for i in cs or []] for h, cs in case]
    probes = {x for l in (lists[0], lists[-1], lists[len(lists) // 2]) for x in l[:1] + l[-1:] + l[len(l) // 2:][:1]} | {ct.ident(ct.HEADS[h][1]) for h, cs in case[:3] + case[-2:]}
    for own in sorted(probes):
        ctx.step()
        ctx.eq(sorted(R.id for R in RC.localCitesOf(own)), sorted(R.id for R, l in zip(recs, lists) if own in l), 'localCitesOf({}) of {}'.format(own, sh))
        key = own.split(',')[0]
        for field in ('all', 'author'):
            want = {R.id for R, l in zip(recs, full) if any(key.upper() in (s if field == 'all' else ct.POOL[s][0]).upper() for s in l)}
            ctx.eq(sorted(R.id for R in RC.citeFilter(key, field)), sorted(want), 'citeFilter({}, {}) of {}'.format(key, field, sh))
            ctx.eq(sorted(R.id for R in RC.citeFilter(key, field, reverse=True)), sorted({R.id for R in recs} - want), 'citeFilter({}, {}, reverse) of {}'.format(key, field, sh))
    ys = {R.id: ct.HEADS[h][1][1] for (h, cs), R in zip(case, recs)}
    for lo, hi in ((1900, 1949), (1950, 1950), (1950, 1999)):
        ctx.step()
        ctx.eq(sorted(R.id for R in RC.yearSplit(lo, hi)), sorted(i for i, y in ys.items() if lo <= y <= hi), 'yearSplit({}, {}) of {}'.format(lo, hi, sh))
    ctx.state(sh)


SCENARIOS = [
    Scenario('size', size_cases, run_size, bounds='n citations in a record, n records, citations of that length; n around 4, 5, 8, 10, 16, ... up to 1025 (2001 thorough)', timeout=120),
    Scenario('sources', source_cases, run_sources, bounds='1-3 records of WOS, Scopus, Medline and ProQuest citing <=2 (3) of 5 citations each: cited-by lookups by record, ID, Citation and string; citation filters and year ranges'),
    Scenario('years', year_cases, run_years, bounds='0-4 records (6 thorough) with year in {none, 4 values, bad record}, both orders; 20 ranges x dropMissingYears'),
    Scenario('citeFilter', filter_cases, run_filter, bounds='1 record with every ordered pair of 7 citations; 2 records x <=2 citations each (3 records thorough); every documented field x 1-11 key strings x case x reverse'),
    Scenario('localCites', local_cases, run_local, bounds='2 and 3 records citing <=2 of 7 citations each; looked up by record, ID, citation string, Citation, outsider, invalid'),
    Scenario('journals', journal_cases, run_journals, bounds='0-4 records (6 thorough) of 7 kinds x 6 ptVal x dropBad x invert'),
]
