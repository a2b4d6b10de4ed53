"""C10: citation networks against an independent construction."""
import itertools
from collections import Counter
from mc.core import Scenario
from mc import build as b
from mc import cites as ct
from mc.sizes import sizes

TYPES = ['full', 'original', 'author', 'journal', 'year']


def oracle(case, nodeType, f, directed, recordToCite):
    core = {ct.ident(ct.HEADS[h][1]) for h, _ in case}
    nodes, edges, years = Counter(), Counter(), {}
    src = {}
    for h, cs in case:
        parts, string = ct.HEADS[h][1], ct.own_string(h)
        if not ct.keep(parts, string, nodeType, f, core) or cs is None:
            continue
        hid = ct.node(parts, string, nodeType)
        nodes[hid] += 1
        src.setdefault(hid, []).append((parts, string))
        for i in cs:
            s = ct.C[i]
            p = ct.POOL[s]
            if not ct.keep(p, s, nodeType, f, core):
                continue
            nid = ct.node(p, s, nodeType)
            nodes[nid] += 1
            src.setdefault(nid, []).append((p, s))
            e = (hid, nid) if recordToCite else (nid, hid)
            if not directed:
                e = tuple(sorted(e, key=str))
            edges[e] += 1
            years[e] = abs(parts[1] - p[1]) if parts[1] is not None and p[1] is not None else None
    return nodes, edges, years, src


def check(ctx, G, nodes, edges, edgeattr, weighted, count, directed, what):
    ctx.step()
    ctx.eq(type(G).__name__, 'DiGraph' if directed else 'Graph', what)
    ctx.eq(sorted(G.nodes(), key=str), sorted(nodes, key=str), what + ' nodes')
    got = {}
    for u, v, d in G.edges(data=True):
        got[(u, v) if directed else tuple(sorted((u, v), key=str))] = dict(d)
    want = {e: (dict(edgeattr(e), weight=w) if weighted else {}) for e, w in edges.items()}
    ctx.eq(got, want, what + ' edges')
    if count:
        ctx.eq({n: d.get('count') for n, d in G.nodes(data=True)}, dict(nodes), what + ' counts')
    else:
        ctx.true(not any('count' in d for n, d in G.nodes(data=True)), what + ' has counts')


def info(ctx, G, src, case, recs, nodeType, kw, what):
    """Node annotations; a node standing for several strings may describe any of them."""
    own = {}
    for (h, cs), R in zip(case, recs):
        own.setdefault(ct.ident(ct.HEADS[h][1]), []).append((h, cs, R))
    for n, d in G.nodes(data=True):
        d = dict(d)
        d.pop('count', None)
        strings = [s for p, s in src[n]]
        if kw.get('fullInfo'):
            ctx.true(d.pop('fullCite', None) in strings, what + ' fullCite of {}'.format(n))
        if not kw.get('nodeInfo', True):
            ctx.eq(d, {}, what + ' attributes of {}'.format(n))
            continue
        if nodeType == 'full':
            extra = [', '.join([ct.ident(p)] + list(p[3] if len(p) > 3 else [])) for p, s in src[n]]
            if kw.get('detailedCore', True):
                incore = n in own
                ctx.eq(d.pop('inCore', None), incore, what + ' inCore of {}'.format(n))
                ids = [R.id for h, cs, R in own[n]] if incore else ['None']
                ctx.true(d.get('MK-ID') in ids, what + ' MK-ID of {}: {}'.format(n, d.get('MK-ID')))
                mk = d.pop('MK-ID')
                me = [x for x in own.get(n, []) if x[2].id == mk]
                if kw.get('addCR'):
                    ctx.eq(d.pop('citations', None), '|'.join(ct.C[i] for i in (me[0][1] or [])) if incore else '', what + ' citations of {}'.format(n))
                if not incore:
                    ctx.true(d.pop('info', None) in extra, what + ' info of {}'.format(n))
                else:
                    full, short, year, title, journal, volume, page, iid = ct.view(me[0][0], me[0][2])
                    tags = kw.get('detailedCore', True)
                    cr = [ct.C[i] for i in (me[0][1] or [])] or None
                    values = dict(zip(('id', 'authorsFull', 'year', 'title', 'journal', 'volume', 'beginningPage'), (iid, full, year, title, journal, volume, page))) if tags is True else \
                        {t: {'AU': short, 'TI': title, 'CR': cr, 'AF': full, 'PY': year, 'authorsFull': full, 'Title': title}[t] for t in tags}
                    if kw.get('detailedCoreAttributes'):
                        want = {{'authorsFull': 'AF', 'Title': 'TI'}.get(k, k) if tags is not True else k: '|'.join(sorted(v)) if isinstance(v, list) else v for k, v in values.items()}
                        ctx.eq(d, want, what + ' details of {}'.format(n))
                        continue
                    i = d.pop('info', None)
                    want = [(v[0] if isinstance(v, list) else v).replace(',', '') for v in values.values() if isinstance(v, (list, str))]
                    ctx.eq(i, ', '.join(want), what + ' info of {}'.format(n))
            else:
                ctx.true(d.pop('info', None) in extra, what + ' info of {}'.format(n))
        elif nodeType == 'journal':
            ctx.eq(d.pop('info', None), ct.TABLE[n][0] if n in ('JONE', 'JTWO') else 'None', what + ' info of {}'.format(n))
        elif nodeType == 'original':
            ctx.eq(d.pop('info', None), n, what + ' info of {}'.format(n))
        else:
            ctx.eq(d.pop('info', None), n, what + ' info of {}'.format(n))
        ctx.eq(d, {}, what + ' extra attributes of {}'.format(n))


INFOS = [dict(detailedCore=False), dict(detailedCore=True), dict(detailedCore=True, detailedCoreAttributes=True), dict(detailedCore=True, addCR=True, fullInfo=True),
         dict(nodeInfo=False), dict(nodeInfo=False, fullInfo=True), dict(detailedCore=['TI', 'AU']), dict(detailedCore=['TI', 'AU'], detailedCoreAttributes=True),
         dict(detailedCore=['CR', 'PY', 'AF']), dict(detailedCore=['PY', 'authorsFull', 'CR', 'Title'], detailedCoreAttributes=True)]


def cases(tier):
    yield []
    for h in range(ct.H0):
        for c in ct.citing_cases([h], 7, 2):
            yield c
    for h in (5, 6):
        for c in ct.citing_cases([h], 5, 2):
            yield c
    for hs in ((5, 6), (0, 5), (5, 7), (1, 8), (5, 7, 8), (0, 7), (6, 8)):
        for c in ct.citing_cases(hs, 4 if len(hs) == 3 else 5, 2 if tier == 'thorough' else 1):
            yield c
    pairs = [(0, 1), (0, 2), (1, 4), (3, 0), (0, 0), (2, 3)]
    for hs in pairs:
        for c in ct.citing_cases(hs, 7, 2 if tier == 'thorough' else 1):
            yield c
    for c in ct.citing_cases((0, 1), 7, 2, dup=False):
        yield c
    for hs in ((0, 1, 2), (0, 1, 4)):
        for c in ct.citing_cases(hs, *((5, 2) if tier == 'thorough' else (7, 1)), dup=False):
            yield c


def run(ctx, case):
    b.journals(ct.TABLE)
    recs = ct.collection(case)
    RC = b.rc(recs)
    for nodeType in TYPES:
        for f in ct.FILTERS:
            for directed, r2c in itertools.product((True, False), repeat=2):
                nodes, edges, years, src = oracle(case, nodeType, f, directed, r2c)
                attr = (lambda e: {'yearDiff': years[e]}) if nodeType in ('full', 'original') else (lambda e: {})
                for weighted, count in itertools.product((True, False), repeat=2):
                    kw = dict(f, nodeType=nodeType, directed=directed, recordToCite=r2c, weighted=weighted, count=count)
                    G = RC.networkCitation(detailedCore=bool(f.get('coreOnly')), **kw)
                    check(ctx, G, nodes, edges, attr, weighted, count, directed, 'networkCitation({})'.format(kw))
        nodes, edges, years, src = oracle(case, nodeType, {}, True, True)
        attr = (lambda e: {'yearDiff': years[e]}) if nodeType in ('full', 'original') else (lambda e: {})
        for kw in INFOS:
            G = RC.networkCitation(nodeType=nodeType, **kw)
            what = 'networkCitation(nodeType={}, {})'.format(nodeType, kw)
            check(ctx, G, nodes, edges, attr, True, True, True, what)
            info(ctx, G, src, case, recs, nodeType, kw, what)
        ctx.state(b.graph_dump(G))
    from metaknowledge.mkExceptions import RCValueError
    ctx.raises(RCValueError, lambda: RC.networkCitation(nodeType='nope'), 'unknown node type')


SCENARIOS = [Scenario('citation', cases, run, 'all citing structures of 1 record with up to 2 of 7 citations (with repeats) x 5 kinds of record, 2 records with up to 1 (2) citations over 6 pairs, 3 records with up to 1 of 7 (2 of 5); 5 node types x 7 filters x directed x recordToCite x weighted x count, 10 annotation settings; the same for records from Scopus and pairs and triples of records from WOS, Scopus, Medline and ProQuest')]


# -------------------------------------------------------------- expanded core
def exp_cases(tier):
    for c in ct.citing_cases((0, 1), 7, 2, dup=False):
        yield c
    for c in ct.citing_cases((1, 2), 7, 2, dup=False):
        yield c
    for hs in ((9,), (6,), (9, 6), (6, 7), (9, 0)):
        for c in ct.citing_cases(hs, 5 if len(hs) > 1 else 7, 2):
            yield c


def expanded(ctx, make, case, directed, nodeType, what):
    """Expansion adds one node per further author, linked and with the links of the original; nothing else changes."""
    base, G = make(False), make(True)
    ctx.step(2)
    extra, groups = {}, []
    for h, cs in case:
        parts, F, own = ct.HEADS[h][1], ct.HEADS[h][0], ct.own_string(h)
        me = ct.node(parts, own, nodeType)
        if h not in ct.OTHER:
            first, others = F.get('AU', [''])[0].replace(',', ''), [a.replace(',', '') for a in F.get('AU', [])[1:]]
        else:
            first, others = ct.OTHER[h][1][0].replace(',', ''), [a.replace(',', '') for a in ct.OTHER[h][1][1:]]
        if me in base:
            group = [me]
            for a in others:
                name = a.upper() if 'EID' in F else a.title()
                x = {'full': ct.ident((name,) + parts[1:3]), 'original': a + own[len(first):], 'author': name}[nodeType]
                extra[x] = me
                group.append(x)
            groups.append(group)
    ctx.eq(sorted(G.nodes()), sorted(set(base.nodes()) | set(extra)), what + ' nodes')
    ctx.eq({n: d for n, d in G.nodes(data=True) if n in base}, dict(base.nodes(data=True)), what + ' original nodes')
    key = (lambda u, v: (u, v)) if directed else (lambda u, v: tuple(sorted((u, v))))
    ctx.eq({key(u, v): d for u, v, d in G.edges(data=True) if u in base and v in base}, {key(u, v): d for u, v, d in base.edges(data=True)}, what + ' original edges')
    for x, me in extra.items():
        ctx.eq(dict(G.nodes[x]), dict(base.nodes[me]), what + ' attributes of ' + x)
        for u, v, d in base.edges(me, data=True):
            if v != me:
                ctx.eq(G.get_edge_data(x, v), d, what + ' copied edge to ' + v)
    for group in groups:
        for u, v in itertools.combinations(group, 2):
            ctx.true(G.has_edge(u, v), '{} lacks an edge between the authors {} and {} of a record'.format(what, u, v))


def exp_run(ctx, case):
    b.journals(ct.TABLE)
    RC = b.rc(ct.collection(case))
    for nodeType, directed, weighted in itertools.product(('full', 'original', 'author'), (True, False), (True, False)):
        expanded(ctx, lambda e: RC.networkCitation(expandedCore=e, nodeType=nodeType, directed=directed, weighted=weighted), case, directed, nodeType,
                 'networkCitation(expandedCore, nodeType={}, directed={}, weighted={})'.format(nodeType, directed, weighted))
    ctx.state(b.graph_dump(RC.networkCitation(expandedCore=True)))


SCENARIOS.append(Scenario('expanded-core', exp_cases, exp_run, 'all citing structures of 2 records (one with two authors) with up to 2 of 7 citations, records with 3 authors and from Scopus and Medline; nodes full, original and author'))


# ---------------------------------------------------------------------- sizes
def size_cases(tier):
    top = 1025 if tier == 'thorough' else 513
    for n in sizes(top):
        for shape in ('long', 'repeat', 'star', 'chain', 'shared', 'late'):
            yield [shape, n]


def size_run(ctx, sh):
    b.journals(ct.TABLE)
    case = ct.sized(*sh)
    recs = ct.collection(case)
    RC = b.rc(recs)
    for nodeType in TYPES:
        for f, directed in itertools.product(({}, {'coreOnly': True}, {'dropNonJournals': True}, {'keyWords': ['zaaa', 'zaab']}, {'keyWords': []}, {'keyWords': ''}), (True, False)):
            nodes, edges, years, src = oracle(case, nodeType, f, directed, True)
            attr = (lambda e: {'yearDiff': years[e]}) if nodeType in ('full', 'original') else (lambda e: {})
            what = 'networkCitation(nodeType={}, directed={}, {}) of {}'.format(nodeType, directed, f, sh)
            G = RC.networkCitation(nodeType=nodeType, directed=directed, **f)
            check(ctx, G, nodes, edges, attr, True, True, directed, what)
        nodes, edges, years, src = oracle(case, nodeType, {}, True, True)
        for kw in (dict(fullInfo=True, detailedCore=True, addCR=True), dict(detailedCore=['CR', 'PY', 'AF'], detailedCoreAttributes=True)):
            what = 'networkCitation(nodeType={}, {}) of {}'.format(nodeType, kw, sh)
            info(ctx, RC.networkCitation(nodeType=nodeType, **kw), src, case, recs, nodeType, kw, what)
    ctx.state(sh)


SIZES = 'sizes around {} up to {}: one record with n citations, one citing the same n times, n records citing the same, n in a chain, two sharing n citations, n without citations before one with'
SCENARIOS.append(Scenario('size', size_cases, size_run, SIZES.format('4, 5, 8, 10, 16, ... 512, 1000', '513 (thorough 1025)'), timeout=240))
