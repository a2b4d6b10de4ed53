"""C09: co-authorship and co-investigator networks against an independent count."""
import itertools
from collections import Counter
from mc.core import Scenario
from mc import build as b
from mc import cites as ct
from mc.sizes import sizes, word
import metaknowledge as mk
from metaknowledge.grants.baseGrant import FallbackGrant
from metaknowledge.grants.nsercGrant import NSERCGrant
from metaknowledge.grants.nsfGrant import NSFGrant

SEQ = [None] + [list(p) for n in (1, 2, 3) for p in itertools.permutations(['Ab, C', 'De F', 'Gh'], n)] + [['Gh', 'Ab, C', 'Gh', 'De F', 'Gh']]
CITES = ['Xx Y, 1990, JONE, V1, P2', 'Zz Y, 1991, JTWO, V1, P2']
ATTR = [dict(PY=['2000'], TI=['One, two'], SO=['J'], J9=['JONE'], CR=[CITES[0]]),
        dict(PY=['2001'], J9=['BOOK'], WC=['p; q, r'], CR=CITES, VL=['3']),
        dict(TI=['t'])]
NAMES = {True: ['year', 'title', 'journal', 'volume', 'beginningPage'], 'list': ['PY', 'WC'], 'long': ['title', 'year']}


def cases(tier):
    for n in range(3):
        pool = [(s, a) for s in range(len(SEQ)) for a in range(len(ATTR))] if n < 2 else [(s, a) for s in range(len(SEQ)) for a in (0, 1)]
        for c in itertools.combinations_with_replacement(pool, n):
            yield dict(recs=[dict(ATTR[a], AF=SEQ[s]) for s, a in c])
    pool = [(s, s % 3) for s in (range(len(SEQ)) if tier == 'thorough' else (0, 1, 2, 4, 6, 8, 12))]
    for n in (3, 4):
        for c in itertools.combinations_with_replacement(pool, n):
            yield dict(recs=[dict(ATTR[a], AF=SEQ[s]) for s, a in c])


def edges_of(lists):
    nodes, edges = Counter(), Counter()
    for l in lists:
        nodes.update(l)
        for u, v in itertools.combinations(l, 2):
            edges[tuple(sorted((u, v)))] += 1
    return nodes, edges


def compare_edges(ctx, G, edges, weighted, what):
    got = {}
    for u, v, d in G.edges(data=True):
        got[tuple(sorted((u, v)))] = dict(d)
    ctx.eq(got, {k: ({'weight': w} if weighted else {}) for k, w in edges.items()}, what + ' edges')


def fmt(v):
    return ', '.join(str(x).replace(',', '') for x in v) if isinstance(v, list) else str(v).replace(',', '')


RAW = {'year': lambda r: int(r['PY'][0]) if r.get('PY') else None, 'title': lambda r: r['TI'][0] if r.get('TI') else None,
       'journal': lambda r: r['SO'][0] if r.get('SO') else None, 'volume': lambda r: r['VL'][0] if r.get('VL') else None,
       'beginningPage': lambda r: None, 'WC': lambda r: r['WC'][0].split('; ') if r.get('WC') else None}
RAW['PY'] = RAW['year']


def run(ctx, case):
    b.journals({'JONE': ['Journal One'], 'OLD': ['']})
    recs = case['recs']
    RC = b.rc([b.wos(i, AU=([x.upper() for x in r['AF']] if r['AF'] else None), **r) for i, r in enumerate(recs)])
    for info, weighted, count, prof, short, dropj in itertools.product((False, True, 'list', 'long'), (True, False), (True, False), (False, True), (False, True), (False, True)):
        if (short or dropj) and info == 'list':
            continue
        used = [r for r in recs if r['AF'] and (not dropj or r.get('J9') == ['JONE'])]
        name = (lambda x: x.upper()) if short else (lambda x: x)
        nodes, edges = edges_of([[name(x) for x in r['AF']] for r in used])
        G = RC.networkCoAuthor(detailedInfo=NAMES[info] if info not in (True, False) else info, weighted=weighted, count=count, citeProfile=prof, useShortNames=short, dropNonJournals=dropj)
        ctx.step()
        what = 'networkCoAuthor(detailedInfo={}, weighted={}, count={}, citeProfile={}, useShortNames={}, dropNonJournals={})'.format(info, weighted, count, prof, short, dropj)
        ctx.eq(type(G).__name__, 'Graph', what)
        ctx.eq(sorted(G.nodes()), sorted(nodes), what + ' nodes')
        compare_edges(ctx, G, edges, weighted, what)
        for n, d in G.nodes(data=True):
            d = dict(d)
            mine = [r for r in used for x in r['AF'] if name(x) == n]
            if count:
                ctx.eq(d.pop('count', None), nodes[n], what + ' count of ' + n)
            if prof:
                cs, ns = d.pop('citeProfileCites'), d.pop('citeProfileCounts')
                got = dict(zip(cs.split('|'), [int(x) for x in ns.split('|')])) if cs else {}
                ctx.eq(got, dict(Counter(c for r in mine for c in (r.get('CR') or []))), what + ' citation profile of ' + n)
            if info:
                want = [{t: fmt(RAW[t](r)) for t in NAMES[info]} for r in mine]
                got = {('PY' if k == 'year' and info == 'list' else 'WC' if k == 'subjects' else 'title' if k == 'TI' else 'year' if k == 'PY' and info == 'long' else k): v for k, v in d.items()}
                ctx.true(got in want, '{} info of {}: {} not in {}'.format(what, n, got, want))
            else:
                ctx.eq(d, {}, what + ' extra attributes')
    ctx.state(b.graph_dump(RC.networkCoAuthor()))


# ----------------------------------------------------------------- records of every source
TAGS = [['year', 'title'], ['PY', 'TI'], ['title', 'volume', 'journal'], ['beginningPage', 'PY'], ['authorsFull', 'year']]
LONG = {'PY': 'year', 'TI': 'title', 'VL': 'volume', 'SO': 'journal', 'BP': 'beginningPage', 'AF': 'authorsFull'}
VIEW = ['authorsFull', 'authorsShort', 'year', 'title', 'journal', 'volume', 'beginningPage', 'id']


def src_cases(tier):
    n = 5
    for heads in ((5,), (6,)):
        yield from ct.citing_cases(heads, n, 2)
    for heads in ((5, 6), (6, 7), (1, 8), (0, 7), (9, 6), (5, 8)):
        yield from ct.citing_cases(heads, n, 1)
    for heads in ((0, 6, 7), (6, 7, 8), (1, 6, 8), (4, 6, 7), (1, 9, 6)):
        yield from ct.citing_cases(heads, n if tier == 'thorough' else 2, 1)


def src_run(ctx, case):
    b.journals(ct.TABLE)
    recs = ct.collection(case)
    RC = b.rc(recs)
    rows = []
    for (h, cs), R in zip(case, recs):
        v = dict(zip(VIEW, ct.view(h, R)))
        rows.append((v, [ct.C[i] for i in cs or []], ct.HEADS[h][1][2] in ct.TABLE))
    for info, prof, short in itertools.product([False] + TAGS, (False, True), (False, True)):
        ctx.step()
        names = [list(dict.fromkeys(v['authorsShort' if short else 'authorsFull'] or [])) for v, _, _ in rows]
        what = 'networkCoAuthor(detailedInfo={}, citeProfile={}, useShortNames={}) of {}'.format(info, prof, short, case)
        nodes, edges = edges_of(names)
        G = RC.networkCoAuthor(detailedInfo=info, citeProfile=prof, useShortNames=short)
        ctx.eq(sorted(G.nodes()), sorted(nodes), what + ' nodes')
        compare_edges(ctx, G, edges, True, what)
        for n, d in G.nodes(data=True):
            d = dict(d)
            mine = [(v, cites) for (v, cites, _), l in zip(rows, names) if n in l]
            ctx.eq(d.pop('count', None), nodes[n], what + ' count of ' + n)
            if prof:
                cs, ns = d.pop('citeProfileCites'), d.pop('citeProfileCounts')
                got = [(ct.ident(ct.POOL[s]), int(x)) for s, x in zip(cs.split('|'), ns.split('|'))] if cs else []
                want = sorted(Counter(ct.ident(ct.POOL[c]) for _, cites in mine for c in cites).items())
                got.sort()
                ctx.eq(got, want, what + ' citation profile of ' + n)
            if info:
                want = [{LONG.get(t, t): fmt(v[LONG.get(t, t)]) for t in info} for v, _ in mine]
                got = {LONG.get(k, k): x for k, x in d.items()}
                ctx.true(got in want, '{} info of {}: {} not in {}'.format(what, n, got, want))
            else:
                ctx.eq(d, {}, what + ' extra attributes')
    ctx.state(case)


# ----------------------------------------------------------------- investigators
INV = ['', 'A B', 'A B; C D', 'C D;E', 'E ; A B; C D', 'A B; C D; A B; E; C D']


def inv_cases(tier):
    for kind in ('fallback', 'nserc', 'nsf'):
        for n in range(4 if tier == 'thorough' else 3):
            for c in itertools.combinations_with_replacement(INV, n):
                yield dict(kind=kind, inv=list(c))
        for c in itertools.combinations_with_replacement(INV[1:], 3):
            yield dict(kind=kind, inv=list(c))


def split(s, sep=';'):
    return [x.strip() for x in s.split(sep)]


def inv_run(ctx, case):
    kind, inv = case['kind'], case['inv']
    gs = []
    for i, s in enumerate(inv):
        if kind == 'fallback':
            gs.append(FallbackGrant('o{}'.format(i), {'Name': s, 'Alt': s.replace(';', '|'), 'Title': 't'}, sFile='f', sLine=i))
        elif kind == 'nserc':
            gs.append(NSERCGrant('o{}'.format(i), {'Cle': str(i), 'Name-Nom': s, 'Institution-Etablissement': s.lower(), 'Title': 't'}, 'NSERC_f', i))
        else:
            d = {'AwardID': str(i), 'AwardTitle': 't'}
            if s:
                d['Investigator'] = [x + '; x@y.z' for x in split(s)]
                d['Institution'] = [x.lower() + '; City' for x in split(s)]
            gs.append(NSFGrant(d, 'f{}.xml'.format(i)))
    GC = mk.GrantCollection(gs)
    calls = []
    if kind == 'fallback':
        calls = [(dict(targetTags=['Name']), ['Name'], ';', str), (dict(targetTags='Name'), ['Name'], ';', str), (dict(targetTags=['Alt'], tagSeperator='|'), ['Alt'], '|', str),
                 (dict(), [], ';', str), (dict(targetTags=['None', 'Name']), ['Name'], ';', str)]
    elif kind == 'nserc':
        calls = [(dict(), ['Name-Nom'], ';', str), (dict(targetTags=['Name-Nom']), ['Name-Nom'], ';', str)]
    else:
        calls = [(dict(), ['Investigator'], ';', str), (dict(targetTags=['Zip']), ['Investigator'], ';', str), (dict(targetTags='Zip'), ['Investigator'], ';', str)]
    for kw, tags, sep, _ in calls:
        for inst, weighted, count in itertools.product((False, True), repeat=3):
            if inst and kind == 'nserc' and kw:
                continue
            lower = inst and kind != 'fallback'
            field = tags[0] if tags else None
            if inst and kind == 'nserc':
                field = 'Institution-Etablissement'
            if inst and kind == 'nsf':
                field = 'Institution'
            lists = []
            for s in inv:
                l = [] if not tags or (kind == 'nsf' and not s) else split(s)
                lists.append([x.lower() for x in l] if lower else l)
            nodes, edges = edges_of(lists)
            f = GC.networkCoInvestigatorInstitution if inst else GC.networkCoInvestigator
            args = {k: (list(v) if isinstance(v, list) else v) for k, v in kw.items()}
            before = {k: (list(v) if isinstance(v, list) else v) for k, v in kw.items()}
            what = '{} {}({}, weighted={}, count={})'.format(kind, f.__name__, kw, weighted, count)
            G = f(weighted=weighted, count=count, **args)
            ctx.step()
            ctx.eq(args, before, what + ' arguments afterwards')
            ctx.eq(sorted(G.nodes()), sorted(nodes), what + ' nodes')
            compare_edges(ctx, G, edges, weighted, what)
            for n, d in G.nodes(data=True):
                want = {'field': field}
                if count:
                    want['count'] = nodes[n]
                ctx.eq(dict(d), want, what + ' node ' + n)
        ctx.state(b.graph_dump(GC.networkCoInvestigator(**{k: (list(v) if isinstance(v, list) else v) for k, v in kw.items()})))


# ---------------------------------------------------------------------- sizes
def size_cases(tier):
    for n in sizes(301 if tier == 'thorough' else 151):
        yield ['authors', n]
        yield ['authors-twice', n]
    for n in sizes(2001 if tier == 'thorough' else 1025):
        for shape in ('records', 'same', 'late', 'name', 'cites'):
            yield [shape, n]


def size_recs(shape, n):
    cite = ['Xx Y, 1990, JONE, V1, P2']
    if shape == 'authors':
        return [dict(AF=[word(i) + ', Q' for i in range(n)], CR=cite), dict(AF=[word(0) + ', Q', word(n - 1) + ', Q'], CR=cite)]
    if shape == 'authors-twice':
        return [dict(AF=[word(i) for i in range(n)], CR=cite), dict(AF=[word(i) for i in reversed(range(n))])]
    if shape == 'records':
        return [dict(AF=[word(i), word((i + 1) % n)], CR=cite) for i in range(n)]
    if shape == 'same':
        return [dict(AF=['B b', 'A a'] if i % 2 else ['A a', 'B b'], CR=cite) for i in range(n)]
    if shape == 'late':
        return [dict(AF=None)] * n + [dict(AF=['A a', 'B b'], CR=cite)]
    if shape == 'name':
        return [dict(AF=['a' * n + 'b', 'a' * n + 'c', 'a' * n], CR=cite)]
    if shape == 'cites':
        return [dict(AF=['A a', 'B b'], CR=['{} Y, {}, JONE, V1, P{}'.format(word(i), 1900 + i % 100, i) for i in range(n)])] * 2
    raise KeyError(shape)


def size_run(ctx, sh):
    b.journals({'JONE': ['Journal One']})
    recs = size_recs(*sh)
    RC = b.rc([b.wos(i, AU=([x.upper() for x in r['AF']] if r['AF'] else None), PY=[str(1990 + i % 20)], **r) for i, r in enumerate(recs)])
    for info, prof, short in ((False, False, False), (['year'], False, True), (False, True, False)):
        name = (lambda x: x.upper()) if short else (lambda x: x)
        mine = {}
        for i, r in enumerate(recs):
            for x in dict.fromkeys(r['AF'] or []):
                mine.setdefault(name(x), []).append(i)
        nodes, edges = edges_of([[name(x) for x in r['AF'] or []] for r in recs])
        G = RC.networkCoAuthor(detailedInfo=info, citeProfile=prof, useShortNames=short)
        ctx.step()
        what = 'networkCoAuthor(detailedInfo={}, citeProfile={}, useShortNames={}) of {}'.format(info, prof, short, sh)
        ctx.eq(sorted(G.nodes()), sorted(nodes), what + ' nodes')
        compare_edges(ctx, G, edges, True, what)
        for n, d in G.nodes(data=True):
            d = dict(d)
            ctx.eq(d.pop('count', None), nodes[n], what + ' count of ' + n)
            if info:
                ctx.true(d.pop('year' if 'year' in d else 'PY', None) in [str(1990 + i % 20) for i in mine[n]], what + ' year of ' + n)
            if prof:
                cs, ns = d.pop('citeProfileCites'), d.pop('citeProfileCounts')
                got = dict(zip(cs.split('|'), [int(x) for x in ns.split('|')])) if cs else {}
                ctx.eq(got, dict(Counter(c for i in mine[n] for c in (recs[i].get('CR') or []))), what + ' citation profile of ' + n)
            ctx.eq(d, {}, what + ' extra attributes')
    n = sh[1]
    if sh[0] in ('records', 'authors'):
        gs = [FallbackGrant('o{}'.format(i), {'Name': '; '.join(r['AF']), 'Title': 't'}, sFile='f', sLine=i) for i, r in enumerate(recs)]
        nodes, edges = edges_of([r['AF'] for r in recs])
        for f in (mk.GrantCollection(gs).networkCoInvestigator, mk.GrantCollection(gs).networkCoInvestigatorInstitution):
            G = f(targetTags=['Name'])
            what = '{} of {}'.format(f.__name__, sh)
            ctx.eq({n: d.get('count') for n, d in G.nodes(data=True)}, dict(nodes), what + ' nodes')
            compare_edges(ctx, G, edges, True, what)
    ctx.state(sh)


SCENARIOS = [
    Scenario('size', size_cases, size_run, 'sizes around 4, 5, 8, 10, 16, ...: records with up to 151 (thorough 301) authors in either order, up to 1025 (2001) records in a ring of authors, by the same two, without authors before one with, names of that length, as many citations; as many investigators', timeout=240),
    Scenario('sources', src_cases, src_run, '1-3 records of WOS, Scopus, Medline and ProQuest citing <=2, <=1 of 5 citations; 6 kinds of node information x citation profile x short names'),
    Scenario('co-author', cases, run, 'all collections of up to 2 records (32-48 templates: every ordered choice of up to 3 of 3 authors x field variants) and 3-4 records (7, thorough 16 templates), 112 option settings each'),
    Scenario('co-investigator', inv_cases, inv_run, 'all collections of up to 3 grants of three agencies over 5 investigator strings, all options'),
]
