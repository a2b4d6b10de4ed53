"""C26: reference publication year spectra count every cited year."""
import itertools
from collections import Counter
from mc.core import Scenario
from mc import build as b
from mc import cites as ct
from mc.sizes import sizes

REC = 1995      # year of the citing records (None: no year)
YEARS = [1988, 1990, 1991, 1995, 1996, None, 1998, 2031]    # 1998 and later are later than a paper of 1995 can cite


def cite(y, i):
    return 'Aa B, %s, JONE, V%d' % (y, i + 1) if y is not None else 'Aa B, JONE'


def counted(case):
    c = Counter()
    for ry, cys in case:
        for y in cys or []:
            if y is not None and not (ry is not None and y > ry + 2):
                c[y] += 1
    return c


def check(ctx, RC, c, kw, what):
    lo, hi, drop, empty = kw.get('minYear'), kw.get('maxYear'), kw.get('dropYears'), kw.get('rankEmptyYears', False)
    inside = [y for y in c if (lo is None or y >= lo - 2) and (hi is None or y <= hi + 2)]
    D = RC.rpys(**kw)
    ctx.eq(sorted(D), ['abs-deviation', 'count', 'rank', 'year'], what)
    if not inside and (lo is None or hi is None):
        years = []
    else:
        a = lo if lo is not None else max(1000, min(inside))
        z = hi if hi is not None else min(2100, max(inside))
        dropped = {drop} if isinstance(drop, int) else set(drop or ())
        years = [y for y in range(a, z + 1) if y not in dropped]
    ctx.eq(D['year'], years, what + ' years')
    ctx.eq(D['count'], [c[y] for y in years], what + ' counts')
    dev = [c[y] - sorted(c[y + d] for d in (-2, -1, 0, 1, 2))[2] for y in years]
    ctx.eq(D['abs-deviation'], dev, what + ' deviations')
    ranks = D['rank']
    ctx.eq(len(ranks), len(years), what + ' ranks')
    ctx.true(all(type(r) is int for r in ranks), what + ' ranks')
    if empty:
        ctx.eq(sorted(ranks), list(range(1, len(years) + 1)), what + ' ranks')
    else:
        ctx.eq([r for r, y in zip(ranks, years) if not c[y]], [0] * len([y for y in years if not c[y]]), what + ' ranks of empty years')
        full = [r for r, y in zip(ranks, years) if c[y]]
        ctx.true(len(set(full)) == len(full) and all(1 <= r <= len(years) for r in full), what + ' ranks')
    order = [d for r, d in sorted((r, d) for r, d, y in zip(ranks, dev, years) if empty or c[y])]
    ctx.eq(order, sorted(order), what + ' ranks follow the deviations')
    if drop in (None, []) and not empty and years:
        # the top year is the same as the number of years of the table
        if max(dev) > 0:
            ctx.eq(max(ranks), len(years), what + ' highest rank')


MINS = [None, 1000, 1989, 1990, 1992, 2000]
MAXS = [None, 1990, 1991, 1996, 2100]
DROPS = [None, 1990, [1991, 1995], {1988}, (1990, 1990, 2050), []]


def run(ctx, case):
    recs = []
    for n, (ry, cys) in enumerate(case):
        recs.append(b.wos(n, PY=None if ry is None else [str(ry)], CR=None if cys is None else [cite(y, i) for i, y in enumerate(cys)]))
    RC = b.rc(recs)
    c = counted(case)
    short = len(case) > 1 and ctx.tier == 'quick'
    for lo in (MINS if not short else [None, 1990]):
        for hi in (MAXS if not short else [None, 1991, 1996]):
            if lo == 1000 and hi == 2100 and len(case[0][1] or []) > 1:
                continue
            for drop in (DROPS if lo in (None, 1990) else [None, 1990]):
                for empty in (False, True):
                    if hi == 2100 and (empty or lo == 1000) and ctx.tier == 'quick':
                        continue
                    ctx.step()
                    kw = {k: v for k, v in dict(minYear=lo, maxYear=hi, dropYears=drop, rankEmptyYears=empty).items() if v is not None and v is not False}
                    keep = repr(drop)
                    check(ctx, RC, c, kw, 'rpys(%r) of %r' % (kw, case))
                    ctx.eq(repr(drop), keep, 'dropYears unchanged')
    ctx.state(sorted(c.items()))


def cases(tier):
    for n in range(0, 5 if tier == 'thorough' else 4):
        for ys in itertools.combinations_with_replacement(YEARS, n) if n < 4 else itertools.combinations_with_replacement(YEARS[:5], n):
            yield [[REC, list(ys)]]
            if n < 3:
                yield [[None, list(ys)]]
    yield [[REC, None]]
    for c in ([900], [900, 901, 1000], [1001, 999], [2101], [2100, 2102], [99999, 1990], [12], [2099, 2103]):
        yield [[None, c]]
        yield [[2200, c]]
    for a in (1990, 1992):     # windows: every placement of up to 4 (5) citations in 4 years
        for k in (4, 5, 6) if tier == 'thorough' else (4, 5):
            for c in itertools.combinations_with_replacement(range(a - 2, a + 2), k):
                yield [[None, list(c)]]
    opts = [None, [], [1990], [1995], [1990, 1990], [1991, None], [1998]]
    for r1, r2 in ((1995, 1995), (1995, None), (1988, 1995)):
        for x, y in itertools.product(opts, repeat=2):
            yield [[r1, x], [r2, y]]
    if tier == 'thorough':
        for x in itertools.combinations_with_replacement(opts, 3):
            yield [[1995, x[0]], [1988, x[1]], [None, x[2]]]


# long ranges: the order of the years must not depend on their values
def run_long(ctx, case):
    a, z, step = case
    cys = list(range(a, z + 1, step))
    RC = b.rc([b.wos(0, CR=[cite(y, i) for i, y in enumerate(cys)])])
    for kw in ({}, {'rankEmptyYears': True}, {'dropYears': [a + 1]}):
        ctx.step()
        check(ctx, RC, Counter(cys), kw, 'rpys(%r) of years %d-%d by %d' % (kw, a, z, step))
    ctx.state(case)


def long_cases(tier):
    for a in range(1880, 2060, 9 if tier == 'quick' else 1):
        for n in (5, 33, 40, 90):
            for step in (1, 3):
                if a + n <= 2100:
                    yield [a, a + n, step]


# records and citations of every source
def run_sources(ctx, case):
    RC = b.rc(ct.collection(case))
    c = counted([(ct.HEADS[h][1][1], [ct.POOL[ct.C[i]][1] for i in cs or []]) for h, cs in case])
    for kw in ({}, {'rankEmptyYears': True}, {'minYear': 1990}, {'maxYear': 2000}, {'minYear': 1992, 'maxYear': 2001, 'dropYears': [1995]}):
        ctx.step()
        check(ctx, RC, c, kw, 'rpys(%r) of %r' % (kw, case))
    ctx.state(case)


def source_cases(tier):
    n = 5
    for heads in ((5,), (0,)):
        yield from ct.citing_cases(heads, n, 3)
    for heads in ((5, 7), (6, 8), (5, 6), (0, 5), (1, 6)):
        yield from ct.citing_cases(heads, n, 2 if tier == 'thorough' else 1)
    for heads in ((0, 5, 7), (4, 5, 8), (5, 6, 9)):
        yield from ct.citing_cases(heads, n if tier == 'thorough' else 3, 1)


# many citations and records
def run_size(ctx, sh):
    shape, n = sh
    if shape == 'same':
        lists = [(1995, [1990] * n + [1991])]
    elif shape == 'spread':
        lists = [(1999, [1960 + i * 7 % 41 for i in range(n)])]
    elif shape == 'records':
        lists = [(1980 + i % 20, [1975 + i % 30]) for i in range(n)]
    elif shape == 'late':
        lists = [(None, None)] * n + [(1995, [1990, 1991, 1991])]
    else:      # one year stands out by one
        lists = [(1995, [y for y in range(1980, 1990) for _ in range(n)] + [1985])]
    RC = b.rc([b.wos(i, PY=None if y is None else [str(y)], CR=None if cys is None else [cite(c, j) for j, c in enumerate(cys)]) for i, (y, cys) in enumerate(lists)])
    c = counted(lists)
    for kw in ({}, {'rankEmptyYears': True}, {'minYear': 1984, 'maxYear': 1992}):
        ctx.step()
        check(ctx, RC, c, kw, 'rpys(%r) of %r' % (kw, sh))
    ctx.state(sh)


def size_cases(tier):
    for n in sizes(5001 if tier == 'thorough' else 1025):
        for shape in ('same', 'spread', 'records', 'late', 'out'):
            if shape != 'out' or n < 520 or tier == 'thorough':
                yield [shape, n]


SCENARIOS = [
    Scenario('size', size_cases, run_size, timeout=120, bounds='n citations of one year, over 41 years, in n records, after n records without, ten years of n with one of n+1; n around 4, 5, 8, 10, 16, ... up to 1025 (5001 thorough)'),
    Scenario('sources', source_cases, run_sources, bounds='1-3 records of WOS, Scopus, Medline and ProQuest citing <=3, <=1 (2), <=1 of 5 citations of their source'),
    Scenario('spectrum', cases, run, timeout=60, bounds='one record citing every multiset of <=3 (4) of 8 years (none, before, same, later than the paper), windows of 4-5 (6) citations in 4 years, pairs of records; 6 minima x 5 maxima x 6 drops x rankEmptyYears'),
    Scenario('ranges', long_cases, run_long, bounds='ranges starting every 9th (every) year 1880-2059 of 5-90 years, dense and sparse'),
]
