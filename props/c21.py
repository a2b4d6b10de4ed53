"""C21: ranked series, time series, co-occurrence and citation counts are exact."""
import collections
import csv
import itertools
from collections import Counter
import metaknowledge as mk
from metaknowledge import MedlineRecord, ScopusRecord, ProQuestRecord
from mc import build as b
from mc import cites as ct
from mc.sizes import sizes, word
from mc.core import Scenario

OD = collections.OrderedDict
#what every record of the alphabet contains: tag -> values
MENU = [
    {},
    {'AU': ['A'], 'PY': 2000},
    {'AU': ['A', 'B'], 'PY': 2000, 'TI': 'T'},
    {'AU': ['B', 'B'], 'PY': 1999, 'WC': ['X', 'Y']},
    {'AU': ['C'], 'TI': 'T', 'WC': ['X']},
    {'AU': ['A', 'C'], 'PY': 2001, 'TI': 'U', 'WC': ['X', 'X']},
    {'PY': 2000, 'TI': 'T'},
    {'AU': ['A,q', 'B"r'], 'PY': 1998, 'TI': 'U'},
]


def wos(n, m):
    f = {}
    if 'AU' in m:
        f['AU'] = m['AU']
    if 'PY' in m:
        f['PY'] = [str(m['PY'])]
    if 'TI' in m:
        f['TI'] = [m['TI']]
    if 'WC' in m:
        f['WC'] = ['; '.join(m['WC'])]
    return b.wos(n, **f)


def mixed(n, m):
    """The same content in another source (year, title, authorsShort only)."""
    k = n % 3
    if k == 0:
        d = OD([('PMID', [str(n)])] + ([('AU', list(m['AU']))] if 'AU' in m else []) + ([('DP', [str(m['PY'])])] if 'PY' in m else []) + ([('TI', [m['TI']])] if 'TI' in m else []))
        return MedlineRecord(d)
    if k == 1 and all(', ' not in a for a in m.get('AU', [])):
        return ScopusRecord(OD([('EID', str(n))] + ([('Authors', ', '.join(m['AU']))] if 'AU' in m else []) + ([('Year', str(m['PY']))] if 'PY' in m else []) + ([('Title', m['TI'])] if 'TI' in m else [])))
    return wos(n, m)


NAMES = {'AU': 'AU', 'authorsShort': 'AU', 'TI': 'TI', 'title': 'TI', 'PY': 'PY', 'year': 'PY', 'WC': 'WC', 'subjects': 'WC', 'ZZ': None, 'nothing': None}


def vals(m, name):
    v = m.get(NAMES[name])
    return [] if v is None else v if isinstance(v, list) else [v]


def colls(tier):
    top = 4 if tier == 'quick' else 5
    for n in range(0, top + 1):
        for c in itertools.combinations_with_replacement(range(len(MENU)), n):
            yield list(c)


def cases(tier):
    for c in colls(tier):
        yield {'recs': c, 'mixed': False}
        if len(c) <= 3 and c:
            yield {'recs': c, 'mixed': True}


LIMITS = [None, ['A'], ['B', 'T', 2000], {'A': 1, 'ZZ': 2}, ('U',), {'X', 'A,q'}]


def readcsv(p):
    with open(p, newline='') as f:
        return list(csv.reader(f))


def ordered(ctx, seq, first, what):
    """seq of numbers sorted descending (first) or ascending"""
    ctx.eq(list(seq), sorted(seq, reverse=first), what + ': order')


def run(ctx, case):
    ms = [MENU[i] for i in case['recs']]
    make = mixed if case['mixed'] else wos
    RC = b.rc([make(n, m) for n, m in enumerate(ms)])
    names = ['authorsShort', 'title', 'year'] if case['mixed'] else list(NAMES)
    for name in names:
        for lim in LIMITS if name in ('AU', 'title', 'year', 'WC') else LIMITS[:1]:
            want = Counter(v for m in ms for v in vals(m, name) if lim is None or v in lim)
            greater = {v: 1 + len({c for c in want.values() if c > n}) for v, n in want.items()}
            for first in (True, False):
                what = '{} rankedSeries({!r}, limitTo={!r}, greatestFirst={})'.format(case, name, lim, first)
                kw = dict(greatestFirst=first, limitTo=lim)
                ctx.step(5)
                p = ctx.path('s.csv')
                D = RC.rankedSeries(name, outputFile=p, **kw)
                ctx.eq(sorted(D), ['count', 'entry', 'rank'], what + ' columns')
                rows = list(zip(D['entry'], D['count'], D['rank']))
                ctx.eq(len(rows), len(D['entry']), what)
                ctx.eq(sorted(rows, key=repr), sorted(((v, n, greater[v]) for v, n in want.items()), key=repr), what + ' table')
                ordered(ctx, D['count'], first, what + ' table')
                L = RC.rankedSeries(name, pandasMode=False, **kw)
                ctx.eq(sorted(L, key=repr), sorted(want.items(), key=repr), what + ' counts')
                ordered(ctx, [n for v, n in L], first, what + ' counts')
                F = readcsv(p)
                ctx.eq(F[0], [name, 'count'], what + ' file header')
                ctx.eq(sorted(map(tuple, F[1:])), sorted((str(v), str(n)) for v, n in want.items()), what + ' file')
                ordered(ctx, [int(n) for v, n in F[1:]], first, what + ' file')
                K = RC.rankedSeries(name, pandasMode=False, giveCounts=False, giveRanks=True, **kw)
                ctx.eq(sorted(K, key=repr), sorted(greater.items(), key=repr), what + ' ranks')
                ordered(ctx, [r for v, r in K], not first, what + ' ranks')
                V = RC.rankedSeries(name, pandasMode=False, giveCounts=False, **kw)
                ctx.eq(sorted(V, key=repr), sorted(want, key=repr), what + ' values')
                ordered(ctx, [want[v] for v in V], first, what + ' values')
            #------------------------------------------------------ time series
            wantT = Counter((v, m['PY']) for m in ms if 'PY' in m for v in vals(m, name) if lim is None or v in lim)
            for first in (True, False):
                what = '{} timeSeries({!r}, limitTo={!r}, greatestFirst={})'.format(case, name, lim, first)
                kw = dict(greatestFirst=first, limitTo=lim) if lim is not None else dict(greatestFirst=first)
                ctx.step(3)
                p = ctx.path('t.csv')
                D = RC.timeSeries(name, outputFile=p, **kw)
                ctx.eq(sorted(D), ['count', 'entry', 'year'], what + ' columns')
                rows = list(zip(D['entry'], D['year'], D['count']))
                ctx.eq((sorted(rows, key=repr), len(rows)), (sorted(((v, y, n) for (v, y), n in wantT.items()), key=repr), len(D['entry'])), what + ' table')
                ordered(ctx, D['year'], first, what + ' table')
                L = RC.timeSeries(name, pandasMode=False, **kw)
                ctx.eq(sorted(L, key=repr), sorted(wantT, key=repr), what + ' years')
                ordered(ctx, [y for v, y in L], first, what + ' years')
                V = RC.timeSeries(name, pandasMode=False, giveYears=False, **kw)
                ctx.eq(sorted(V, key=repr), sorted([v for v, y in wantT], key=repr), what + ' values')
                F = readcsv(p)
                years = {}
                for v, y in wantT:
                    years.setdefault(str(v), set()).add(str(y))
                ctx.eq(F[0], [name, 'years'], what + ' file header')
                ctx.eq((len(F) - 1, {v: set(y.split('|')) for v, y in F[1:]}), (len(years), years), what + ' file')
    what = '{} timeSeries()'.format(case)
    for first in (True, False):
        D = RC.timeSeries(greatestFirst=first)
        ctx.eq(sorted(zip((R.id for R in D['entry']), D['year'], D['count'])), sorted((make(n, m).id, m['PY'], 1) for n, m in enumerate(ms) if 'PY' in m), what)
        ordered(ctx, D['year'], first, what)
        ctx.eq([(R.id, y) for R, y in RC.timeSeries(pandasMode=False, greatestFirst=first)], list(zip((R.id for R in D['entry']), D['year'])), what + ' list')
    ctx.raises((mk.mkException,), lambda: RC.rankedSeries('AU', giveRanks=True), what + ' counts and ranks')
    #------------------------------------------------------------ co-occurrence
    for key in names[:4] if not case['mixed'] else names:
        for counted in [(n,) for n in names] + ([('AU', 'WC'), ('title', 'year', 'AU'), ('AU', 'AU')] if not case['mixed'] else [('title', 'year')]):
            want = {}
            for m in ms:
                for k in vals(m, key):
                    want.setdefault(k, Counter())
                    for t in counted:
                        for v in vals(m, t):
                            want[k][v] += 1
            ctx.step()
            got = RC.cooccurrenceCounts(key, *counted)
            ctx.eq(got, {k: dict(v) for k, v in want.items()}, '{} cooccurrenceCounts({!r}, {})'.format(case, key, counted))
    ctx.raises((mk.mkException,), lambda: RC.cooccurrenceCounts('AU'), 'no counted tags')
    ctx.raises((mk.mkException,), lambda: RC.cooccurrenceCounts('AU', 3), 'a number as tag')
    ctx.raises((mk.mkException,), lambda: RC.cooccurrenceCounts(None, 'AU'), 'None as tag')
    ctx.state(tuple(sorted(Counter(v for m in ms for v in vals(m, 'AU')).items())))


# ------------------------------------------------------------------ citations

SCOPUS = {'Aho, A., Work, (1990) J Sci, 1': ('Aho, A.', 1990, 'J Sci'), 'Bee, B., Other, (1990) K Sci, 2': ('Bee, B.', 1990, 'K Sci'), 'no citation at all': (None, None, None)}


def cite_cases(tier):
    for c in ct.citing_cases([0], 7, 3):
        yield {'recs': c}
    for c in ct.citing_cases([0, 1], 7 if tier == 'thorough' else 5, 2):
        yield {'recs': c}
    for c in ct.citing_cases([0, 1, 4], 7, 1 if tier == 'quick' else 1):
        yield {'recs': c}
    for hs in ([5], [5, 0], [5, 6], [6, 7, 8], [0, 7, 5]):
        for c in ct.citing_cases(hs, 5, 3 if len(hs) == 1 else 1):
            yield {'recs': c}
    zero = ct.M0 - 1
    for first in [[], [zero]] + [[i] for i in range(ct.NWOS)]:
        for second in (None, [zero], [1]):
            yield {'recs': [[0, first + [zero]], [1, second]]}
    S = list(SCOPUS)
    for n in (1, 2):
        for combo in itertools.product([s for k in range(0, 3) for s in itertools.product(range(3), repeat=k)], repeat=n):
            yield {'scopus': [list(s) for s in combo]}


SV = {'Xx Y., Qq R., Other (1990) JTWO, 2 (3), pp. 4-5': '2', 'XX Y., (1990) JTWO, 9': '9'}      # the volumes of the Scopus citations
FIELDS = [(None, None), ('year', None), ('journal', None), ('author', None), ('V', None), ('year', 1990), ('year', [1990, 1995]), ('year', (2000,)), ('journal', 'JONE'), ('journal', ['JTWO', 'BOOK']), ('author', 'Xx Y'), ('V', 'V2'),
          ('year', {1991, 2001}), ('journal', 'THE JONE AND JTWO'), ('author', ''), ('V', ['V2 and V1']), ('nofield', None), ('year', 3000), ('year', 0), ('year', [0, 1990])]


def cite_run(ctx, case):
    if 'recs' in case:
        recs = ct.collection(case['recs'])
        lists = [[ct.C[i] for i in (cs or [])] for h, cs in case['recs']]
        parts = {s: dict(zip(('author', 'year', 'journal'), p[:3]), V=next((x for x in p[3] if x[0] == 'V'), SV.get(s))) for s in {s for l in lists for s in l} for p in (ct.POOL[s],)}
        ident = {s: ct.ident(ct.POOL[s]) for s in parts}
        fields = FIELDS
    else:
        S = list(SCOPUS)
        lists = [[S[i] for i in cs] for cs in case['scopus']]
        recs = [ScopusRecord(OD([('EID', str(n))] + ([('References', '; '.join(l))] if l else []))) for n, l in enumerate(lists)]
        up = {s: mk.Citation(s, scopusMode=True) for s in S}
        parts = {s: {k: getattr(up[s], k, None) for k in ('author', 'year', 'journal', 'V')} for s in S}
        ident = {s: up[s].ID() for s in S}
        fields = [(None, None), ('year', None), ('year', 1990), ('journal', None)]
    RC = b.rc(recs)
    alls = [s for l in lists for s in l]
    what0 = '{} '.format(lists)
    for kt in ('citation', 'author', 'year', 'journal'):
        want = Counter(ident[s] if kt == 'citation' else parts[s][kt] for s in alls if kt == 'citation' or parts[s][kt] is not None)
        ctx.step(2)
        got = RC.localCiteStats(keyType=kt)
        ctx.eq({(k.ID() if kt == 'citation' else k): v for k, v in got.items()}, dict(want), what0 + 'localCiteStats ' + kt)
        ctx.eq(len(got), len(want), what0 + 'localCiteStats ' + kt)
        P = RC.localCiteStats(pandasFriendly=True, keyType=kt)
        ctx.eq(sorted(P), ['Citations', 'Counts'], what0)
        ctx.eq(dict(zip(((k.ID() if kt == 'citation' else k) for k in P['Citations']), P['Counts'])), dict(want), what0 + 'localCiteStats table ' + kt)
        ctx.eq((len(P['Citations']), len(P['Counts'])), (len(want), len(want)), what0)
    ctx.raises((TypeError,), lambda: RC.localCiteStats(keyType='pages'), what0 + 'bad key type')
    for f, v in fields:
        what = what0 + 'getCitations({!r}, {!r})'.format(f, v)
        vs = None if v is None else v if isinstance(v, (list, tuple, set)) else [v]
        ok = [s for s in alls if f is None or (parts[s].get(f) is not None and (vs is None or parts[s][f] in vs))]
        C = Counter(ident[s] for s in ok)
        ctx.step(3)
        asked = repr(v)
        L = RC.getCitations(f, v, pandasFriendly=False)
        ctx.eq(sorted(c.ID() for c in L), sorted(C), what + ' list')
        for counts in (True, False):
            D = RC.getCitations(f, v, counts=counts)
            ctx.eq(sorted(D), sorted(['citeString', 'year', 'journal', 'author'] + (['num-cites', 'fraction-cites-overall', 'fraction-cites-year'] if counts else [])), what + ' columns')
            n = len(C)
            ctx.eq({k: len(x) for k, x in D.items()}, {k: n for k in D}, what + ' lengths')
            seen = []
            for i in range(n):
                s = D['citeString'][i]
                ctx.true(s in ok, what + ' row {!r}'.format(s))
                seen.append(ident[s])
                same = [t for t in ok if ident[t] == ident[s]]
                for k in ('year', 'journal', 'author'):
                    ctx.eq(D[k][i], parts[s][k], what + ' {} of {!r}'.format(k, s))
                if counts:
                    ctx.eq(D['num-cites'][i], len(same), what + ' count of {!r}'.format(s))
                    ctx.eq(round(D['fraction-cites-overall'][i], 9), round(len(same) / len(ok), 9), what + ' fraction of {!r}'.format(s))
                    if parts[s]['year'] is not None:
                        inyear = sum(1 for t in ok if parts[t]['year'] == parts[s]['year'])
                        ctx.eq(round(D['fraction-cites-year'][i], 9), round(len(same) / inyear, 9), what + ' year fraction of {!r}'.format(s))
            ctx.eq(sorted(seen), sorted(C), what + ' rows')
        ctx.eq(repr(v), asked, what + ' leaves its argument alone')
        #the records on their own
        for R, l in zip(recs, lists):
            mine = [s for s in l if s in ok]
            ctx.eq([str(c) for c in R.getCitations(f, v, pandasFriendly=False)], mine, what + ' of one record')
            E = R.getCitations(f, v)
            ctx.eq((sorted(E), sorted(ident[s] for s in E['citeString'])), (['author', 'citeString', 'journal', 'year'], sorted(set(ident[s] for s in mine))), what + ' table of one record')
    ctx.state(tuple(sorted(Counter(ident[s] for s in alls).items())))


# ---------------------------------------------------------------------- sizes
def size_cases(tier):
    for n in sizes(2001 if tier == 'thorough' else 1025):
        for shape in ('values', 'records', 'same', 'late', 'names'):
            yield [shape, n]
    for n in sizes(1025 if tier == 'thorough' else 257):
        for shape in ('long', 'repeat', 'star', 'late', 'shared'):
            yield ['cites', shape, n]


def size_run(ctx, sh):
    if sh[0] == 'cites':
        global FIELDS
        case = ct.sized(*sh[1:])
        keep, FIELDS = FIELDS, [(None, None), ('year', None), ('year', [1900, 1907, 1914]), ('journal', 'JONE')]
        try:
            cite_run(ctx, {'recs': case})
        finally:
            FIELDS = keep
        return
    shape, n = sh
    if shape == 'values':
        ms = [{'AU': [word(i) for i in range(n)], 'WC': [word(i % 7) for i in range(n)], 'PY': 2000}, {'AU': [word(n - 1)], 'PY': 2001}]
    elif shape == 'records':
        ms = [{'AU': [word(i), word(i // 3)], 'WC': [word(i % 9)], 'PY': 1700 + i % 350} for i in range(n)]
    elif shape == 'same':
        ms = [{'AU': ['A', 'B'], 'WC': ['X'], 'PY': 1990 + i % 3} for i in range(n)]
    elif shape == 'late':
        ms = [{}] * n + [{'AU': ['A', 'B'], 'WC': ['X', 'Y'], 'PY': 1990}]
    else:
        ms = [{'AU': ['a' * n + 'b', 'a' * n, 'a' * n + 'c'], 'WC': ['w' * n], 'PY': 1990}] * 2
    RC = b.rc([wos(i, m) for i, m in enumerate(ms)])
    for name in ('AU', 'subjects', 'year'):
        for lim in (None, [word(n - 1), word(0), 'B', 1990, 'a' * n]):
            want = Counter(v for m in ms for v in vals(m, name) if lim is None or v in lim)
            order = {c: i + 1 for i, c in enumerate(sorted(set(want.values()), reverse=True))}
            what = '{} rankedSeries({!r}, limitTo={!r:.60})'.format(sh, name, lim)
            p = ctx.path('s.csv')
            ctx.step(3)
            D = RC.rankedSeries(name, outputFile=p, limitTo=lim)
            ctx.eq(sorted(zip(D['entry'], D['count'], D['rank'])), sorted((v, c, order[c]) for v, c in want.items()), what)
            ordered(ctx, D['count'], True, what)
            ctx.eq(sorted(map(tuple, readcsv(p)[1:])), sorted((str(v), str(c)) for v, c in want.items()), what + ' file')
            wantT = Counter((v, m['PY']) for m in ms if 'PY' in m for v in vals(m, name) if lim is None or v in lim)
            D = RC.timeSeries(name, outputFile=p, limitTo=lim)
            what = '{} timeSeries({!r}, limitTo={!r:.60})'.format(sh, name, lim)
            ctx.eq(sorted(zip(D['entry'], D['year'], D['count'])), sorted((v, y, c) for (v, y), c in wantT.items()), what)
            ordered(ctx, D['year'], True, what)
            years = {}
            for v, y in wantT:
                years.setdefault(str(v), set()).add(str(y))
            ctx.eq({v: set(y.split('|')) for v, y in readcsv(p)[1:]}, years, what + ' file')
    for key, counted in (('AU', ('WC', 'PY')), ('WC', ('AU',)), ('PY', ('WC', 'WC'))):
        want = {}
        for m in ms:
            for k in vals(m, key):
                want.setdefault(k, Counter())
                for t in counted:
                    for v in vals(m, t):
                        want[k][v] += 1
        ctx.step()
        ctx.eq(RC.cooccurrenceCounts(key, *counted), {k: dict(v) for k, v in want.items()}, '{} cooccurrenceCounts({!r}, {})'.format(sh, key, counted))
    ctx.state(sh)


SCENARIOS = [
    Scenario('size', size_cases, size_run, 'n values in a record, n records, values of that length, n citations in several arrangements; n around 4, 5, 8, 10, 16, ... up to 1025 (2001), citations 257 (1025)', timeout=240),
    Scenario('series', cases, run, 'all multisets of up to 4 (5) of 8 records, up to 3 also mixed over three sources; every tag name, 6 limits, every output form and order', timeout=60),
    Scenario('citations', cite_cases, cite_run, 'all citing structures of 1 record with up to 3 of 7 citations, 2 records with up to 2 of 5 (7), 3 with up to 1 of 7, and Scopus; 15 field filters'),
]
