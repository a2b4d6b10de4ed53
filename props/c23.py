"""C23: CSV and dictionary exports contain every record and value."""
import csv
import itertools
import os
from collections import OrderedDict as OD
from mc.core import Scenario
from mc import build as b
from mc import default
from mc import names as N
from mc.sizes import sizes, word
import metaknowledge as mk
from metaknowledge import MedlineRecord, ScopusRecord, ProQuestRecord

N.install()
GEN = ('num-Male', 'num-Female', 'num-Unknown')
LONG = {'UT': 'wosString', 'PT': 'pubType', 'TI': 'title', 'AF': 'authorsFull', 'AU': 'authorsShort', 'CR': 'citations', 'ID': 'keywords',
        'DI': 'DOI', 'PY': 'year', 'VL': 'volume', 'id': 'id', 'AB': 'abstract', 'BF': 'bookAuthorFull', 'SO': 'journal', 'BP': 'beginningPage'}

# field -> lines as stored; the values are listed in VAL below
FIELDS = {
    'TI': [['Plain'], ['With, comma "and quote"'], ['Line', 'break | pipe']],
    'AU': [['Smith, J'], ['Smith, J', 'Doe, J', 'Roe, K']],
    'AF': [['Smith, John'], ['Smith, John', 'Doe, Jane', 'Smith, John']],
    'PY': [['2000'], ['1999']],
    'CR': [['AA B, 2000, JONE'], ['AA B, 2000, JONE', 'XX Y, 1990, JTWO']],
    'ID': [['K1; ; K2; K1']],
    'VL': [['7']],
    'BF': [[' Lead', 'Trail ', ' ', 'In  side']],
    'DI': [['10.1/x"y']],
    'ZZ': [['odd', '', 'lines']],
}


def val(tag, lines):
    """documented value of the field"""
    if tag == 'TI':
        return ' '.join(lines)
    if tag in ('AU', 'AF', 'CR', 'ZZ', 'BF'):
        return list(lines)
    if tag == 'PY':
        return int(lines[0])
    if tag == 'ID':
        return ['K1', '', 'K2', 'K1']
    return lines[0]


def gender(lines):
    t = {'Smith, John': 'num-Male', 'Doe, Jane': 'num-Female'}
    return [sum(t.get(x, 'num-Unknown') == g for x in lines) for g in GEN]


def cell(v, delim):
    if v is None:
        return ''
    if isinstance(v, list):
        return delim.join(str(x) for x in v)
    return str(v)


def norm(v):
    return [str(x) for x in v] if isinstance(v, (list, tuple)) else v


# a record spec is a tuple of (tag, variant)
SPECS = [
    [],
    [('TI', 0)],
    [('TI', 1), ('AU', 1), ('AF', 1), ('PY', 0)],
    [('TI', 2), ('AU', 0), ('AF', 0), ('PY', 1), ('CR', 1), ('ID', 0)],
    [('CR', 0), ('VL', 0), ('DI', 0), ('PY', 0)],
    [('ZZ', 0), ('AU', 0), ('PY', 1), ('BF', 0)],
]


def build(specs):
    recs, vals = [], []
    for n, sp in enumerate(specs):
        f = OD((t, FIELDS[t][i]) for t, i in SPECS[sp])
        recs.append(b.wos(n, **f))
        d = {t: val(t, FIELDS[t][i]) for t, i in SPECS[sp]}
        d.update({'PT': 'J', 'UT': 'WOS:%d' % n, 'id': 'WOS:%d' % n})
        d['#'] = [len(d.get('AU', []))] + gender(d.get('AF', []))
        vals.append(d)
    return recs, vals


REQS = [None, ['TI', 'PY'], ['title', 'year', 'AU'], ['id', 'CR', 'authorsFull'], ['UT'], ['VL', 'nothing', 'DOI', 'ID']]
SHORT = {v: k for k, v in LONG.items()}


def expect_cols(vals, req):
    if req is None:
        cols = set()
        for d in vals:
            cols |= set(k for k in d if k not in ('id', '#'))
        return cols
    return {SHORT.get(t, t) for t in req}


def run_dict(ctx, case):
    recs, vals = build(case)
    RC = b.rc(recs)
    before = sorted(repr(sorted((k, str(R[k])) for k in R)) for R in recs)
    for req in REQS:
        for longNames in (False, True):
            for raw in (False, True):
                for na, gc in ((True, True), (False, True), (True, False), (False, False)):
                    cols = expect_cols(vals, req)
                    if longNames and not cols <= set(LONG):
                        ctx.raises(KeyError, lambda: RC.makeDict(req, longNames=True), 'unknown long name')
                        continue
                    for form in (list, tuple) if req else (list,):
                        ctx.step()
                        arg = None if req is None else form(req)
                        kw = {}
                        if longNames: kw['longNames'] = True
                        if raw: kw['raw'] = True
                        if not na: kw['numAuthors'] = False
                        if not gc: kw['genderCounts'] = False
                        what = 'makeDict(%r, %r) of %r' % (arg, kw, case)
                        D = RC.makeDict(arg, **kw) if arg else RC.makeDict(**kw)
                        ctx.eq(arg, None if req is None else form(req), what + ' leaves its argument alone')
                        names = [LONG[c] if longNames else c for c in cols]
                        ctx.eq(set(D), set(names) | ({'num-Authors'} if na else set()) | (set(GEN) if gc else set()), what + ' columns')
                        ctx.eq({len(v) for v in D.values()} or {len(recs)}, {len(recs)}, what + ' equal lengths')
                        if raw and 'id' in cols:
                            names = [x for x in names if x != 'id']

                        def want(d, c):
                            c0 = SHORT.get(c, c)
                            if c0 not in d:
                                return None
                            if raw:
                                n = int(d['UT'][4:])
                                return recs[n].get(c0, raw=True)
                            return norm(d[c0])
                        got = sorted(repr([norm(D[c][i]) for c in names] + ([D['num-Authors'][i]] if na else []) + ([D[g][i] for g in GEN] if gc else [])) for i in range(len(recs)))
                        exp = sorted(repr([want(d, c) for c in names] + (d['#'][:1] if na else []) + (d['#'][1:] if gc else [])) for d in vals)
                        if names or na or gc:
                            ctx.eq(got, exp, what)
    ctx.eq(sorted(repr(sorted((k, str(R[k])) for k in R)) for R in recs), before, 'makeDict leaves the records alone')
    ctx.state(case)


def spec_cases(tier):
    for n in (0, 1, 2, 3):
        for c in itertools.combinations_with_replacement(range(len(SPECS)), n):
            if tier == 'quick' and n == 3 and len(set(c)) < 3:
                continue
            yield list(c)
    if tier == 'thorough':
        for c in itertools.combinations_with_replacement(range(len(SPECS)), 4):
            yield list(c)


def read(path, delim=',', quote='"'):
    with open(path, encoding='utf-8', newline='') as f:
        return list(csv.reader(f, delimiter=delim, quotechar=quote))


FIRST = [None, ['PY', 'title'], ['CR', 'VL', 'UT'], ['zz', 'authorsShort']]


def columns(vals, req, first):
    """the order of the columns before the counts: fixed prefix, then a set in any order"""
    f = [SHORT.get(t, t) for t in (first or ['id', 'title', 'authorsFull', 'citations', 'keywords', 'DOI'])]
    if req:
        r = [SHORT.get(t, t) for t in req]
        return [t for t in f if t in r], {t for t in r if t not in f}
    return f, {c for c in expect_cols(vals, None) if c not in f}


def row(d, cols, ld, na, gc):
    return [cell(d.get(c), ld) for c in cols] + [str(x) for x in (d['#'][:1] if na else []) + (d['#'][1:] if gc else [])]


def run_csv(ctx, case):
    recs, vals = build(case)
    RC = b.rc(recs, name='coll')
    os.chdir(ctx.dir)
    for req in REQS:
        for first in FIRST:
            for na, gc, longNames, dialect in ((True, True, False, None), (False, True, False, None), (True, False, True, None), (False, False, False, (';', "'", '##')), (True, True, True, ('\t', '"', '; '))):
                ctx.step()
                pre, rest = columns(vals, req, first)
                kw = {}
                if req: kw['onlyTheseTags'] = tuple(req) if first else list(req)
                if first: kw['firstTags'] = tuple(first) if req else list(first)
                if not na: kw['numAuthors'] = False
                if not gc: kw['genderCounts'] = False
                if longNames: kw['longNames'] = True
                if dialect: kw.update(csvDelimiter=dialect[0], csvQuote=dialect[1], listDelimiter=dialect[2])
                what = 'writeCSV(%r) of %r' % (kw, case)
                args = {k: list(v) for k, v in kw.items() if k in ('onlyTheseTags', 'firstTags')}
                p = 'coll.csv' if not dialect else 'out.txt'
                if longNames and not set(pre) | rest <= set(LONG):
                    ctx.raises(KeyError, lambda: RC.writeCSV(p, **kw), what)
                    continue
                RC.writeCSV(**kw) if p == 'coll.csv' else RC.writeCSV(p, **kw)
                ctx.eq({k: list(v) for k, v in kw.items() if k in args}, args, what + ' leaves its arguments alone')
                rows = read(p, *((dialect[0], dialect[1]) if dialect else ()))
                head, rows = rows[0], rows[1:]
                tail = (['num-Authors'] if na else []) + (list(GEN) if gc else [])
                nm = (lambda c: LONG[c]) if longNames else (lambda c: c)
                ctx.eq(head[:len(pre)], [nm(c) for c in pre], what + ' first columns')
                ctx.eq(head[len(head) - len(tail):], tail, what + ' counts')
                mid = head[len(pre):len(head) - len(tail)]
                ctx.eq(sorted(mid), sorted(nm(c) for c in rest), what + ' columns')
                cols = pre + [SHORT.get(c, c) if longNames else c for c in mid]
                ld = dialect[2] if dialect else '|'
                ctx.eq(sorted(rows), sorted(row(d, cols, ld, na, gc) for d in vals), what)
                os.remove(p)
    ctx.eq(os.listdir('.'), [], 'no other files')
    ctx.state(case)


# ---- one file per value
SVALS = {'PY': [None, ['2000'], ['1999']], 'AU': [None, ['A'], ['A', 'B'], ['B/C', 'A'], ['B_C'], ['L' * 210 + 'x'], ['L' * 210 + 'y', 'A'], ['A', 'A'], ['M' * 190 + 'x'], ['M' * 190 + 'y', 'A; B']],
         'TI': [None, ['Same'], ['Other/one'], ['One; two|three, four']], 'CR': [None, ['AA B, 2000, JONE'], ['AA B, 2000, JONE', 'XX Y, 1990, JTWO']]}


def run_split(ctx, case):
    tag, combo, where = case
    recs = [b.wos(n, **({} if SVALS[tag][v] is None else {tag: SVALS[tag][v]})) for n, v in enumerate(combo)]
    RC = b.rc(recs, name='nm')
    os.chdir(ctx.dir)
    os.mkdir('sub')
    base = {'default': 'nm.csv', 'name': 'o.csv', 'rel': 'sub/o.csv', 'abs': ctx.path('sub/o.csv')}[where]
    d = os.path.dirname(base) or '.'
    for stag in (tag, LONG[tag]):
        ctx.step()
        what = 'writeCSV split by %s %r' % (stag, case)
        RC.writeCSV(None if where == 'default' else base, splitByTag=stag, onlyTheseTags=['UT', tag], firstTags=['UT'])
        files = {f: read(os.path.join(d, f)) for f in os.listdir(d) if f != 'sub'}
        values = {}
        for n, v in enumerate(combo):
            for x in (SVALS[tag][v] or []):
                values.setdefault(x, set()).add('WOS:%d' % n)
        ids = {f: [r[0] for r in rows[1:]] for f, rows in files.items()}
        for f, rows in files.items():
            ctx.eq(rows[0], ['UT', tag, 'num-Authors'] + list(GEN), what + ' header of ' + f)
            ctx.eq(len(ids[f]), len(set(ids[f])), what + ' one row per record in ' + f)
            ctx.true(f.endswith('-' + os.path.basename(base)), what + ' name ' + f)
            for r in rows[1:]:
                v = SVALS[tag][combo[int(r[0][4:])]]
                ctx.eq(r[1], '|'.join(v), what + ' row')
        used = set()
        for x, want in values.items():
            plain = '%s-%s' % (x, os.path.basename(base))
            shared = [y for y in values if y != x and (y[:200] == x[:200] or y.replace('/', '_') == x.replace('/', '_'))]
            if plain in files and not shared:
                ctx.eq(set(ids[plain]), want, what + ' file of ' + x[:20])
                used.add(plain)
            else:
                ctx.true('/' in x or len(x) > 200 or shared, what + ' no file for ' + x[:20])
                fs = [f for f in files if want <= set(ids[f])]
                ctx.true(fs, what + ' records of %s are in a file' % x[:20])
                used.update(fs)
        ctx.eq(set(files) - used, set(), what + ' no other files')
        for f in files:
            os.remove(os.path.join(d, f))
    ctx.state(case)


def split_cases(tier):
    for tag in SVALS:
        k = range(len(SVALS[tag]))
        for n in (1, 2, 3) if tier == 'thorough' or tag != 'AU' else (1, 2):
            for c in itertools.product(k, repeat=n):
                for where in ('default', 'name', 'rel', 'abs') if n < 3 else ('default', 'abs'):
                    yield [tag, list(c), where]


# ---- the other formats: fields asked for by name
def other(fmt, n, full):
    if fmt == 'med':
        return MedlineRecord(OD([('PMID', [str(n)])] + ([('TI', ['Med %d' % n]), ('FAU', ['Smith, John', 'Roe, K']), ('AU', ['Smith J', 'Roe K']), ('DP', ['1999 Jan']), ('AB', ['Text']), ('JT', ['Jour'])] if full else [])))
    if fmt == 'sco':
        return ScopusRecord(OD([('EID', str(n))] + ([('Title', 'Sco %d' % n), ('Authors', 'Smith J., Roe K.'), ('Year', '1999'), ('Abstract', 'Text'), ('Volume', '3'), ('Cited by', '0')] if full else [])))
    if fmt == 'pro':
        return ProQuestRecord(OD([('ProQuest document ID', [str(n)]), ('Title', ['Pro %d' % n])] + ([('Author', ['Smith, John']), ('Degree date', ['1996']), ('Abstract', ['Text', 'more']), ('Classification', ['1: a; 2: b'])] if full else [])))
    return b.wos(n, **(dict(TI=['Wos %d' % n], AF=['Smith, John'], AU=['Smith, J'], PY=['1999'], AB=['Text'], VL=['3']) if full else {}))


COUNTS = {'med': [2, 1, 0, 1], 'sco': [2, 0, 0, 2], 'pro': [1, 1, 0, 0], 'wos': [1, 1, 0, 0]}        # authors, then male, female, unknown
NAMED = ['title', 'year', 'abstract', 'authorsShort', 'authorsFull', 'volume', 'citations', 'journal', 'keywords', 'beginningPage', 'Cited by']


def run_other(ctx, case):
    recs = [other(f, n, full) for n, (f, full) in enumerate(case)]
    RC = b.rc(recs, name='mix')
    os.chdir(ctx.dir)
    for longNames in (False, True):
        named = [t for t in NAMED if not longNames or t != 'Cited by']
        for req in [named] + [[t] for t in named] + [['year', 'title']]:
            ctx.step()
            what = 'named fields %r of %r' % (req, case)
            D = RC.makeDict(req, longNames=longNames)
            ctx.eq(sorted(zip(D['num-Authors'], *[D[g] for g in GEN])), sorted(tuple(COUNTS[f] if full else [0] * 4) for f, full in case), what + ' counts')
            col = {t: (t if longNames or t not in SHORT else SHORT[t]) for t in req}
            ctx.eq(sorted(repr([norm(D[col[t]][i]) for t in req]) for i in range(len(recs))), sorted(repr([norm(R.get(t)) for t in req]) for R in recs), what)
            RC.writeCSV('o.csv', onlyTheseTags=req, longNames=longNames, firstTags=['title'])
            rows = [dict(zip(*[read('o.csv')[0], r])) for r in read('o.csv')[1:]]
            ctx.eq(sorted(tuple(int(r[c]) for c in ('num-Authors',) + GEN) for r in rows), sorted(tuple(COUNTS[f] if full else [0] * 4) for f, full in case), what + ' counts in csv')
            ctx.eq(sorted(repr([r[col[t]] for t in req]) for r in rows), sorted(repr([cell(norm(R.get(t)), '|') for t in req]) for R in recs), what + ' in csv')
    # everything: each field of each record has its column
    D = RC.makeDict()
    RC.writeCSV('a.csv')
    rows = read('a.csv')
    for R in recs:
        i = [j for j in range(len(recs)) if all(norm(D[k][j]) == norm(R[k]) for k in R)]
        ctx.eq(len(i) > 0, True, 'row of %r with all its fields in makeDict' % (R.id,))
        j = [r for r in rows[1:] if all(dict(zip(rows[0], r)).get(k) == cell(norm(R[k]), '|') for k in R)]
        ctx.eq(len(j), 1, 'row of %r with all its fields in the csv' % (R.id,))
    ctx.eq(len(rows), len(recs) + 1, 'rows')
    ctx.state(case)


def other_cases(tier):
    kinds = [[f, full] for f in ('wos', 'med', 'sco', 'pro') for full in (True, False)]
    for n in (1, 2, 3):
        for c in itertools.combinations_with_replacement(kinds, n):
            yield list(c)


def run_default(ctx, case):
    def check(f, what):
        rows = read(f)
        ctx.eq(sorted(r[rows[0].index('TI')] for r in rows[1:]), ['Title 1', 'Title 2'], what + ' content')
    default.run(ctx, case, '.csv', lambda RC: RC.writeCSV(), check)


# ---- sizes
def size_cases(tier):
    for n in sizes(2001 if tier == 'thorough' else 1025):
        for shape in ('records', 'late', 'values', 'text', 'tags'):
            if shape != 'tags' or n < 151:
                yield [shape, n]


def run_size(ctx, sh):
    shape, n = sh
    if shape == 'records':
        fs = [OD(TI=['T%d' % i], AF=['Smith, John', word(i)], AU=[word(i)], PY=[str(1900 + i % 99)]) for i in range(n)]
    elif shape == 'late':
        fs = [OD(TI=['T%d' % i]) for i in range(n)] + [OD(PY=['2000'], ZZ=['only', 'here'], AU=['A'])]
    elif shape == 'values':
        fs = [OD(AU=[word(i) for i in range(n)], AF=['Smith, John'] * (n // 2) + ['Doe, Jane'] * (n // 3) + ['Zzyx, Q'] * 2, CR=['%s, 1990, J%d' % (word(i), i) for i in range(n)], ZZ=['v%d' % i for i in range(n)]), OD(TI=['x'])]
    elif shape == 'text':
        fs = [OD(TI=['x, "y" ' * n + 'end'], SO=['S' * n], ZZ=['z' * n]), OD(TI=['x'])]
    else:
        fs = [OD((x + y, ['v' + x + y]) for x in 'QXYHKWVGNLFRMEO' for y in '0123456789')]
        fs = [OD(list(fs[0].items())[:n]), OD(list(fs[0].items())[:n // 2])]
    recs, vals = [], []
    for i, f in enumerate(fs):
        recs.append(b.wos(i, **f))
        d = {t: list(v) if t in ('AU', 'AF', 'CR') or t not in LONG and t != 'SO' else (' '.join(v).upper() if t == 'SO' else int(v[0]) if t == 'PY' else v[0]) for t, v in f.items()}
        d.update({'PT': 'J', 'UT': 'WOS:%d' % i})
        d['#'] = [len(d.get('AU', []))] + gender(d.get('AF', []))
        vals.append(d)
    RC = b.rc(recs, name='coll')
    os.chdir(ctx.dir)
    for req in (None, ['UT', 'AU', 'TI', 'ZZ']):
        cols = sorted({k for d in vals for k in d if k != '#'} if req is None else req)
        D = RC.makeDict(req) if req else RC.makeDict()
        ctx.step(2)
        what = 'makeDict({}) of {}'.format(req, sh)
        ctx.eq(sorted(D), sorted(cols + ['num-Authors'] + list(GEN)), what + ' columns')
        ctx.eq(sorted(repr([norm(D[c][i]) for c in cols] + [D['num-Authors'][i]] + [D[g][i] for g in GEN]) for i in range(len(D['UT']))), sorted(repr([norm(d.get(c)) for c in cols] + d['#']) for d in vals), what)
        RC.writeCSV('o.csv', onlyTheseTags=req)
        rows = read('o.csv')
        what = 'writeCSV({}) of {}'.format(req, sh)
        ctx.eq(sorted(c for c in rows[0] if c != 'id'), sorted((set(cols) | {'TI', 'AF', 'CR', 'ID', 'DI'} if req is None else set(cols)) | {'num-Authors'} | set(GEN)), what + ' columns')
        at = {c: rows[0].index(c) for c in cols + ['num-Authors'] + list(GEN)}
        ctx.eq(sorted([r[at[c]] for c in cols + ['num-Authors'] + list(GEN)] for r in rows[1:]), sorted(row(d, cols, '|', True, True) for d in vals), what)
    if shape in ('records', 'values'):
        os.mkdir('sub')
        RC.writeCSV('sub/s.csv', splitByTag='PY' if shape == 'records' else 'AU', onlyTheseTags=['UT', 'PY', 'AU'])
        want = {}
        for d in vals:
            for x in ([d['PY']] if 'PY' in d else []) if shape == 'records' else d.get('AU', []):
                want.setdefault('%s-s.csv' % x, set()).add(d['UT'])
        got = {}
        for f in os.listdir('sub'):
            rows = read(os.path.join('sub', f))
            got[f] = {r[rows[0].index('UT')] for r in rows[1:]}
        ctx.eq(got, want, 'split files of {}'.format(sh))
    ctx.state(sh)


SCENARIOS = [
    Scenario('size', size_cases, run_size, bounds='n records, n before one with its own fields, n values, texts of that length, n tags (up to 150); n around 4, 5, 8, 10, 16, ... up to 1025 (2001 thorough)', timeout=240),
    Scenario('default-names', default.cases, run_default, default.BOUNDS),
    Scenario('dict', spec_cases, run_dict, bounds='collections of 0-3 records (4 thorough) from 6 record shapes over 10 fields x 6 tag requests (list/tuple) x long names x raw x author/gender counts'),
    Scenario('csv', spec_cases, run_csv, bounds='the same collections x 6 requests x 4 first tags x 5 option/dialect combinations, read back with the csv module'),
    Scenario('split', split_cases, run_split, bounds='1-2 (3) records with every combination of 3-8 values of 4 tags (shared, with slash, longer than a file name part, repeated, citations) x 4 file name forms'),
    Scenario('named', other_cases, run_other, bounds='every multiset of 1-3 full/empty WOS, Medline, Scopus and ProQuest records x 13 requests by name x long names'),
]
