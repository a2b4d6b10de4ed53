"""C08: one, two, multi mode and multi level networks against an independent count."""
import itertools
import networkx as nx
from collections import Counter
from mc.core import Scenario
from mc import build as b
from mc.sizes import sizes, word
import metaknowledge as mk

STEM = {None: None, 'first': lambda x: x[0], 'wrap': lambda x: x + 's'}


def ident(x):
    return x


def mkrc(recs):
    return b.rc([b.wos(i, **r) for i, r in enumerate(recs)])


def vals(R, tag):
    """Values of a tag from the raw lines of the template (independent of the getters)."""
    v = R.get(tag)
    if 'kind' in R:
        v = {'authorsShort': R['A'], 'authorsFull': R['F'], 'year': None if R['Y'] is None else [R['Y']], 'title': None if R['T'] is None else [R['T']]}[tag]
        return list(v or [])
    if v is None:
        return []
    if tag in ('AU', 'AF', 'CR') or tag[0] == 'Q':
        return list(v)
    if tag in ('WC', 'EM'):
        return ' '.join(v).split('; ')
    if tag == 'DE':
        return [x.lower() for x in ' '.join(v).split('; ')]
    if tag in ('PY', 'TC'):
        return [int(v[0])]
    if tag == 'LA':
        return [', '.join(v)]
    raise KeyError(tag)


def svals(R, tag, stem):
    return [(stem or ident)(str(v)) for v in vals(R, tag)]


def check(ctx, G, nodes, edges, want_type, nodeCount, edgeWeight, creators, what, attrs=None):
    """edges: Counter of (u, v, key); creators: node -> set of tags (None: no type attribute)"""
    ctx.step()
    ctx.eq(type(G).__name__, want_type, what + ' graph type')
    ctx.eq(sorted(G.nodes()), sorted(nodes), what + ' nodes')
    for n, d in G.nodes(data=True):
        d = dict(d)
        if nodeCount:
            ctx.eq(d.pop('count', None), nodes[n], what + ' count of ' + n)
        if creators is not None:
            t = d.pop('type', None)
            ctx.true(t in creators[n], '{} type of {}: {} not in {}'.format(what, n, t, creators[n]))
        if attrs is not None:
            (name, table), = attrs.items()
            got = d.pop(name, None)
            ctx.true(isinstance(got, list) and sorted(got) == sorted(table[n]), '{} attribute {} of {}: {} expected {}'.format(what, name, n, got, table[n]))
        ctx.eq(d, {}, what + ' extra attributes of ' + n)
    multi, directed = G.is_multigraph(), G.is_directed()
    got = {}
    for e in (G.edges(keys=True, data=True) if multi else G.edges(data=True)):
        u, v, d = e[0], e[1], e[-1]
        if not directed:
            u, v = sorted((u, v))
        k = (u, v, str(e[2]) if multi else None)
        ctx.true(k not in got, what + ' repeated edge {}'.format(k))
        got[k] = dict(d)
    want = Counter()
    for (u, v, k), n in edges.items():
        if not directed:
            u, v = sorted((u, v))
        want[(u, v, k)] += n
    ctx.eq(sorted(got, key=repr), sorted(want, key=repr), what + ' edges')
    for k, d in got.items():
        ctx.eq(d, {'weight': want[k]} if edgeWeight else {}, what + ' edge data {}'.format(k))


# ------------------------------------------------------------------- one mode
ATTR = [dict(PY=['2000'], WC=['p'], LA=['en']), dict(PY=['2000'], WC=['p; q']), dict(PY=['2001'], WC=['q; q'], LA=['fr']), {}]
ONE = [None, ['a'], ['a', 'b'], ['b', 'a'], ['a', 'a'], ['a', 'b', 'c'], ['bb', 'b']]


def level_oracle(recs, modes, stem, edgeAttr, nodeAttr):
    nodes, edges, attr = Counter(), Counter(), {}
    for R in recs:
        cont = [v for m in modes for v in svals(R, m, stem)]
        keys = [str(v) for v in vals(R, edgeAttr)] if edgeAttr else [None]
        for i, u in enumerate(cont):
            nodes[u] += 1
            if nodeAttr:
                l = attr.setdefault(u, [])
                l += [v for v in dict.fromkeys(str(v) for v in vals(R, nodeAttr)) if v not in l]
            for v in cont[i + 1:]:
                for k in keys:
                    edges[tuple(sorted((u, v))) + (k,)] += 1
    return nodes, edges, attr


def one_cases(tier):
    ts = [dict(a, AU=v) for v in ONE for a in ATTR]
    for n in range(0, 3):
        for c in itertools.combinations_with_replacement(range(len(ts)), n):
            yield dict(recs=[ts[i] for i in c], tag='AU')
    ts = [dict(a, AU=v) for v in ONE for a in (ATTR if tier == 'thorough' else ATTR[1:3])]
    for c in itertools.combinations_with_replacement(range(len(ts)), 3):
        yield dict(recs=[ts[i] for i in c], tag='AU')
    for tag in ('PY', 'LA', 'WC', 'TC'):
        for c in itertools.combinations_with_replacement([['2000'], ['2001']] if tag in ('PY', 'TC') else [['x; y'], ['x'], ['y; x; z']], 2):
            for extra in (None, ['2000']):
                yield dict(recs=[dict({tag: v}) for v in c] + [dict({tag: extra})], tag=tag)


LONG = {'AU': 'authorsShort', 'PY': 'year', 'LA': 'language', 'WC': 'subjects', 'TC': 'wosTimesCited'}


def one_run(ctx, case):
    recs, tag = case['recs'], case['tag']
    RC = mkrc(recs)
    for name in (tag, LONG[tag]):
        for st, ea, na in itertools.product((None, 'first'), (None, 'PY', 'WC'), (None, 'LA', 'WC')):
            nodes, edges, attr = level_oracle(recs, [tag], STEM[st], ea, na)
            for nc, ew in itertools.product((True, False), repeat=2):
                G = RC.networkOneMode(name, nodeCount=nc, edgeWeight=ew, stemmer=STEM[st], edgeAttribute=ea, nodeAttribute=na)
                check(ctx, G, nodes, edges, 'MultiGraph' if ea else 'Graph', nc, ew, None,
                      'networkOneMode({}, nodeCount={}, edgeWeight={}, stemmer={}, edgeAttribute={}, nodeAttribute={})'.format(name, nc, ew, st, ea, na),
                      {na: attr} if na else None)
        ctx.state(b.graph_dump(RC.networkOneMode(name)))
        if name == LONG[tag] or len(recs) > 2:
            break
    ctx.eq(len(RC.networkOneMode('D2')), 0, 'missing tag nodes')


# ---------------------------------------------------------------- multi level
def ml_cases(tier):
    ts = [dict(AU=a, WC=w, LA=l, PY=p) for a in (None, ['a'], ['a', 'b']) for w in (None, ['x'], ['x; a']) for l, p in ((None, ['2000']), (['en'], ['2000']), (['a'], None))]
    top = 3 if tier == 'thorough' else 2
    for n in range(top + 1):
        for c in itertools.combinations_with_replacement(range(len(ts)), n):
            yield dict(recs=[ts[i] for i in c])


def ml_run(ctx, case):
    recs = case['recs']
    RC = mkrc(recs)
    for modes in ([], ['AU'], ['AU', 'WC'], ['WC', 'LA', 'AU'], ['LA', 'PY'], ['AU', 'AU']):
        for st, ea, na in itertools.product((None, 'first'), (None, 'PY', 'WC'), (None, 'LA')):
            nodes, edges, attr = level_oracle(recs, modes, STEM[st], ea, na)
            for nc, ew in itertools.product((True, False), repeat=2):
                G = RC.networkMultiLevel(*modes, nodeCount=nc, edgeWeight=ew, stemmer=STEM[st], edgeAttribute=ea, nodeAttribute=na)
                check(ctx, G, nodes, edges, 'MultiGraph' if ea else 'Graph', nc, ew, None,
                      'networkMultiLevel({}, nodeCount={}, edgeWeight={}, stemmer={}, edgeAttribute={}, nodeAttribute={})'.format(modes, nc, ew, st, ea, na),
                      {na: attr} if na else None)
    ctx.state(b.graph_dump(RC.networkMultiLevel('AU', 'WC', 'LA')))


# ------------------------------------------------------------------- two mode
def two_cases(tier):
    ts = [dict(AU=a, WC=w, PY=p) for a in (None, ['a'], ['a', 'b'], ['x', 'a']) for w in (None, ['x'], ['x; y'], ['a']) for p in (None, ['2000'], ['2001'])]
    for n in range(3):
        for c in itertools.combinations_with_replacement(range(len(ts)), n):
            yield dict(recs=[ts[i] for i in c])
    ts = [dict(AU=a, WC=w, PY=['2000']) for a in (None, ['a'], ['a', 'b'], ['a', 'a']) for w in (None, ['x'], ['x; y'])]
    for c in itertools.combinations_with_replacement(range(len(ts)), 4 if tier == 'thorough' else 3):
        yield dict(recs=[ts[i] for i in c])
    ts = [dict(AU=a, WC=w, DE=k) for a in (['ab'], ['ab', 'cd']) for w in (['xy'], ['xy; ab']) for k in (['k'], ['k; j; k'])]
    for n in (1, 2):
        for c in itertools.combinations_with_replacement(range(len(ts)), n):
            yield dict(recs=[ts[i] for i in c])


def two_run(ctx, case):
    recs = case['recs']
    RC = mkrc(recs)
    stems = ((None, None), ('wrap', None), (None, 'wrap'), ('wrap', 'first'))
    for (t1, t2), (s1, s2), ea, directed in itertools.product((('AU', 'WC'), ('WC', 'AU'), ('AU', 'AU'), ('AU', 'PY'), ('D2', 'AU')), stems, (None, 'PY', 'DE'), (True, False)):
        if ea == 'DE' and not any('DE' in R for R in recs):
            continue
        if (t1, t2) in (('AU', 'AU'), ('AU', 'PY'), ('D2', 'AU')) and (s1 or s2) and s1 != 'wrap':
            continue
        nodes, edges, creators = Counter(), Counter(), {}
        for R in recs:
            c1 = svals(R, t1, STEM[s1]) if t1 != 'D2' else []
            c2 = svals(R, t2, STEM[s2])
            keys = [str(v) for v in vals(R, ea)] if ea else [None]
            for u in c1:
                nodes[u] += 1
                creators.setdefault(u, set()).add(t1)
                for v in c2:
                    for k in keys:
                        edges[((u, v) if directed else tuple(sorted((u, v)))) + (k,)] += 1
            for v in c2:
                nodes[v] += 1
                creators.setdefault(v, set()).add(t2)
        kind = ('Multi' if ea else '') + ('DiGraph' if directed else 'Graph')
        for rt, nc, ew in itertools.product((True, False), repeat=3):
            G = RC.networkTwoMode(t1, t2, directed=directed, recordType=rt, nodeCount=nc, edgeWeight=ew, stemmerTag1=STEM[s1], stemmerTag2=STEM[s2], edgeAttribute=ea)
            check(ctx, G, nodes, edges, kind, nc, ew, creators if rt else None,
                  'networkTwoMode({}, {}, directed={}, recordType={}, nodeCount={}, edgeWeight={}, stemmers={}/{}, edgeAttribute={})'.format(t1, t2, directed, rt, nc, ew, s1, s2, ea))
    ctx.state(b.graph_dump(RC.networkTwoMode('AU', 'WC')))


# ----------------------------------------------------------------- multi mode
def mm_cases(tier):
    ts = [dict(AU=a, WC=w, LA=l, PY=p) for a in (None, ['a'], ['a', 'b']) for w in (None, ['x'], ['x; a']) for l in (None, ['en'], ['a']) for p in (None, ['2000'])]
    for n in range(3):
        for c in itertools.combinations_with_replacement(range(len(ts)), n):
            yield dict(recs=[ts[i] for i in c])
    ts = [dict(AU=a, WC=w, LA=['en'], PY=['2000']) for a in (None, ['a'], ['a', 'b']) for w in (None, ['x'], ['x; a'])]
    for c in itertools.combinations_with_replacement(range(len(ts)), 4 if tier == 'thorough' else 3):
        yield dict(recs=[ts[i] for i in c])
    ts = [dict(AU=a, WC=w, DE=k) for a in (['ab'], ['ab', 'cd']) for w in (['xy'], ['xy; ab']) for k in (['k'], ['k; j; k'])]
    for n in (1, 2):
        for c in itertools.combinations_with_replacement(range(len(ts)), n):
            yield dict(recs=[ts[i] for i in c])


def mm_run(ctx, case):
    recs = case['recs']
    RC = mkrc(recs)
    for tags, st, ea in itertools.product((['AU'], ['AU', 'WC'], ['AU', 'WC', 'LA'], ['LA', 'D2', 'AU'], ['WC', 'AU', 'PY'], ['AU', 'AU'], ['WC', 'AU', 'WC']), (None, 'first', 'wrap'), (None, 'PY', 'DE')):
        if ea == 'DE' and not any('DE' in R for R in recs):
            continue
        nodes, edges, creators = Counter(), Counter(), {}
        for R in recs:
            cont = [(t, svals(R, t, STEM[st]) if t != 'D2' else []) for t in tags]
            keys = [str(v) for v in vals(R, ea)] if ea else [None]
            for i, (t, vs) in enumerate(cont):
                for u in vs:
                    nodes[u] += 1
                    creators.setdefault(u, set()).add(t)
                    for _, ws in cont[i + 1:]:
                        for v in ws:
                            for k in keys:
                                edges[tuple(sorted((u, v))) + (k,)] += 1
        for rt, nc, ew in itertools.product((True, False), repeat=3):
            args = tags if (rt or len(tags) == 1 and not nc) else [list(tags)]
            G = RC.networkMultiMode(*args, recordType=rt, nodeCount=nc, edgeWeight=ew, stemmer=STEM[st], edgeAttribute=ea)
            check(ctx, G, nodes, edges, 'MultiGraph' if ea else 'Graph', nc, ew, creators if rt else None,
                  'networkMultiMode({}, recordType={}, nodeCount={}, edgeWeight={}, stemmer={}, edgeAttribute={})'.format(args, rt, nc, ew, st, ea))
    ctx.state(b.graph_dump(RC.networkMultiMode('AU', 'WC', 'LA')))


# ----------------------------------------------------- grants, bad use, sources
def misc_cases(tier):
    yield dict(kind='refuse')
    for rows in itertools.product(('a', 'b', ''), repeat=2):
        for rows2 in itertools.product(('x', 'a'), repeat=2):
            yield dict(kind='grants', a=list(rows), b=list(rows2))


def misc_run(ctx, case):
    if case['kind'] == 'refuse':
        RC = mkrc([dict(AU=['a', 'b'], WC=['x'])])
        from metaknowledge.mkExceptions import TagError
        for f in (lambda: RC.networkOneMode('AU', stemmer='no'), lambda: RC.networkMultiLevel('AU', stemmer=3),
                  lambda: RC.networkTwoMode(b'AU', 'WC'), lambda: RC.networkTwoMode('AU', 3), lambda: RC.networkTwoMode('AU', 'WC', stemmerTag1=1),
                  lambda: RC.networkTwoMode('AU', 'WC', stemmerTag2='x'), lambda: RC.networkMultiMode(1), lambda: RC.networkMultiMode('AU', 1),
                  lambda: RC.networkMultiMode('AU', 'WC', stemmer='x')):
            ctx.raises((TagError, TypeError), f, 'bad arguments')
        return
    from metaknowledge.grants.baseGrant import FallbackGrant
    gs = [FallbackGrant('row{}'.format(i), dict(Name=x, Inst=y), sFile='f', sLine=i) for i, (x, y) in enumerate(zip(case['a'], case['b']))]
    GC = mk.GrantCollection(gs)
    G = GC.networkTwoMode('Name', 'Inst')
    nodes, edges, creators = Counter(), Counter(), {}
    for x, y in zip(case['a'], case['b']):
        for t, v in (('Name', x), ('Inst', y)):
            nodes[v] += 1
            creators.setdefault(v, set()).add(t)
        edges[tuple(sorted((x, y))) + (None,)] += 1
    check(ctx, G, nodes, edges, 'Graph', True, True, creators, 'grant two mode')
    if '' not in case['a']:
        G = GC.networkMultiMode('Name', 'Inst')
        check(ctx, G, nodes, edges, 'Graph', True, True, creators, 'grant multi mode')
    G = GC.networkMultiLevel('Name', 'Inst')
    check(ctx, G, nodes, edges, 'Graph', True, True, None, 'grant multi level')
    ctx.state(b.graph_dump(G))


# ------------------------------------------------- records of the other sources
def made(i, R):
    k, A, F, Y, T = R['kind'], R['A'], R['F'], R['Y'], R['T']
    has = lambda **kw: {k: v for k, v in kw.items() if v is not None}
    if k == 'W':
        return b.wos(i, **has(AU=A, AF=F, PY=Y and [str(Y)], TI=T and [T]))
    if k == 'M':
        return b.MedlineRecord(has(PMID=[str(i)], AU=A, FAU=F, DP=Y and ['{} Jan 3'.format(Y)], TI=T and [T]))
    if k == 'S':
        return b.ScopusRecord(has(EID=str(i), Authors=A and ', '.join(A), Year=Y and str(Y), Title=T))
    d = has(Author=A, Title=T and [T])
    d['ProQuest document ID'] = [str(i)]
    if Y:
        d['Degree date'] = [str(Y)]
    return b.ProQuestRecord(d)


def src_templates():
    out = []
    for kind in 'WMSP':
        for a in (None, ['A B.'], ['A B.', 'C D.']):
            if kind == 'P' and a and len(a) > 1:
                continue
            full = None if a is None else [x + 'x' for x in a] if kind in 'WM' else a
            for y, t in ((2000, 'T'), (None, 'T'), (2000, None)):
                out.append(dict(kind=kind, A=a, F=full, Y=y, T=t))
    return out


def src_cases(tier):
    n = len(src_templates())
    for k in (1, 2):
        for c in itertools.combinations_with_replacement(range(n), k):
            yield list(c)
    for c in itertools.combinations(range(1, n, 1 if tier == 'thorough' else 3), 3):
        yield list(c)


def src_run(ctx, case):
    recs = [src_templates()[i] for i in case]
    RC = b.rc([made(i, R) for i, R in enumerate(recs)])
    for tag in ('authorsShort', 'authorsFull', 'year', 'title'):
        for ea, na in ((None, None), ('year', None), (None, 'title'), ('authorsShort', 'year')):
            nodes, edges, attr = level_oracle(recs, [tag], None, ea, na)
            G = RC.networkOneMode(tag, edgeAttribute=ea, nodeAttribute=na)
            check(ctx, G, nodes, edges, 'MultiGraph' if ea else 'Graph', True, True, None, 'networkOneMode({}, edgeAttribute={}, nodeAttribute={}) of {}'.format(tag, ea, na, recs), {na: attr} if na else None)
    for tags in (['authorsFull', 'year'], ['title', 'authorsShort']):
        nodes, edges, attr = level_oracle(recs, tags, None, None, None)
        check(ctx, RC.networkMultiLevel(*tags), nodes, edges, 'Graph', True, True, None, 'networkMultiLevel({}) of {}'.format(tags, recs))
        for two in (True, False):
            nodes, edges, creators = Counter(), Counter(), {}
            for R in recs:
                for t in tags:
                    for v in svals(R, t, None):
                        nodes[v] += 1
                        creators.setdefault(v, set()).add(t)
                for u in svals(R, tags[0], None):
                    for v in svals(R, tags[1], None):
                        edges[tuple(sorted((u, v))) + (None,)] += 1
            G = RC.networkTwoMode(*tags) if two else RC.networkMultiMode(*tags)
            check(ctx, G, nodes, edges, 'Graph', True, True, creators, '{}({}) of {}'.format('networkTwoMode' if two else 'networkMultiMode', tags, recs))
    ctx.state(b.graph_dump(RC.networkOneMode('authorsFull')))


# ---------------------------------------------------------------------- sizes
def size_cases(tier):
    for n in sizes(201 if tier == 'thorough' else 101):
        for shape in ('values', 'twice', 'keys'):
            yield [shape, n]
    for n in sizes(41 if tier == 'thorough' else 19):
        yield ['tags', n]
    for n in sizes(2001 if tier == 'thorough' else 1025):
        for shape in ('records', 'same', 'late', 'name'):
            yield [shape, n]


def size_recs(shape, n):
    if shape == 'values':      # n authors and n subjects in one record
        return [dict(AU=[word(i) for i in range(n)], WC=['; '.join(word(i, 'S') for i in range(n // 2))], PY=['2000'])]
    if shape == 'twice':       # each author twice in a record, once in the next
        return [dict(AU=[word(i // 2) for i in range(n)], WC=['x'], PY=['2000']), dict(AU=[word(i) for i in range(n // 2)], PY=['2001'])]
    if shape == 'keys':        # few authors, n subjects (edge attribute)
        return [dict(AU=['a', 'b', 'c'], WC=['; '.join(word(i, 'S') for i in range(n))], PY=['2000'])] * 2
    if shape == 'records':     # n records, a ring of authors
        return [dict(AU=[word(i), word((i + 1) % n)], WC=[('x', 'y', 'x; z')[i % 3]], PY=[str(1950 + i % 60)]) for i in range(n)]
    if shape == 'same':        # n records by the same two
        return [dict(AU=['a', 'b'], WC=['x'], PY=[str(1950 + i % 7)]) for i in range(n)]
    if shape == 'late':        # n empty records, one with values
        return [{}] * n + [dict(AU=['a', 'b'], WC=['x; y'], PY=['2000'])]
    if shape == 'name':        # long values with a common beginning
        return [dict(AU=['a' * n + 'b', 'a' * n + 'c', 'a' * n], WC=['w' * n + 'x; ' + 'w' * n], PY=['2000'])]
    raise KeyError(shape)


def mode_oracle(recs, tags, ea, directed):
    """Values of every tag against those of every later tag."""
    nodes, edges, creators = Counter(), Counter(), {}
    for R in recs:
        cont = [svals(R, t, None) for t in tags]
        keys = [str(v) for v in vals(R, ea)] if ea else [None]
        for i, us in enumerate(cont):
            for u in us:
                nodes[u] += 1
                creators.setdefault(u, set()).add(tags[i])
                for vs in cont[i + 1:]:
                    for v in vs:
                        for k in keys:
                            edges[((u, v) if directed else tuple(sorted((u, v)))) + (k,)] += 1
    return nodes, edges, creators


def tags_run(ctx, sh):
    n = sh[1]
    tags = ['Q' + 'ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789abcdefghij'[i] for i in range(n)]
    recs = [{t: [word(i), 'shared'] for i, t in enumerate(tags)}, {t: [word(i)] for i, t in enumerate(tags) if i % 2}, {tags[-1]: ['end'], tags[0]: ['shared', 'end']}]
    RC = mkrc(recs)
    for rev in (False, True):
        ts = tags[::-1] if rev else tags
        nodes, edges, creators = mode_oracle(recs, ts, None, False)
        check(ctx, RC.networkMultiMode(*ts), nodes, edges, 'Graph', True, True, creators, 'networkMultiMode of {} tags'.format(n))
        nodes, edges, attr = level_oracle(recs, ts, None, None, None)
        check(ctx, RC.networkMultiLevel(*ts), nodes, edges, 'Graph', True, True, None, 'networkMultiLevel of {} tags'.format(n))
    ctx.state(sh)


def size_run(ctx, sh):
    if sh[0] == 'tags':
        return tags_run(ctx, sh)
    recs = size_recs(*sh)
    RC = mkrc(recs)
    for ea, na in ((None, None), ('WC', None), (None, 'PY')):
        if ea and sh == ['values', sh[1]] and sh[1] > 65:
            continue
        for f, tags in ((RC.networkOneMode, ['AU']), (RC.networkMultiLevel, ['AU', 'WC'])):
            nodes, edges, attr = level_oracle(recs, tags, None, ea, na)
            check(ctx, f(*tags, edgeAttribute=ea, nodeAttribute=na), nodes, edges, 'MultiGraph' if ea else 'Graph', True, True, None,
                  '{}({}, edgeAttribute={}, nodeAttribute={}) of {}'.format(f.__name__, tags, ea, na, sh), {na: attr} if na else None)
    for ea in (None, 'PY'):
        kind = ('Multi' if ea else '')
        nodes, edges, creators = mode_oracle(recs, ['AU', 'WC'], ea, True)
        check(ctx, RC.networkTwoMode('AU', 'WC', directed=True, edgeAttribute=ea), nodes, edges, kind + 'DiGraph', True, True, creators, 'networkTwoMode(edgeAttribute={}) of {}'.format(ea, sh))
        nodes, edges, creators = mode_oracle(recs, ['AU', 'WC', 'PY'], ea, False)
        check(ctx, RC.networkMultiMode('AU', 'WC', 'PY', edgeAttribute=ea), nodes, edges, kind + 'Graph', True, True, creators, 'networkMultiMode(edgeAttribute={}) of {}'.format(ea, sh))
    ctx.state(sh)


B = 'all collections of up to {} records over the template alphabet, every option setting'
SCENARIOS = [
    Scenario('one-mode', one_cases, one_run, B.format('2 (28 templates) / 3 (14, thorough 28 templates)')),
    Scenario('multi-level', ml_cases, ml_run, B.format('2 (thorough 3) of 27 templates')),
    Scenario('two-mode', two_cases, two_run, B.format('2 of 48 templates / 3 (thorough 4) of 12 templates')),
    Scenario('multi-mode', mm_cases, mm_run, B.format('2 of 54 templates / 3 (thorough 4) of 9 templates')),
    Scenario('sources', src_cases, src_run, '1-2 records of 33 (WOS, Medline, Scopus, ProQuest) and triples of every third (every); one mode by 4 names with edge and node attributes, two, multi mode and multi level'),
    Scenario('size', size_cases, size_run, 'sizes around 4, 5, 8, 10, 16, ...: records with up to 101 (thorough 201) authors and subjects, the same twice, as many edge keys; multi mode and multi level of up to 19 (41) tags; up to 1025 (2001) records in a ring of authors, by the same two, empty before one that is not; values of that length', timeout=240),
    Scenario('other', misc_cases, misc_run, 'grant collections of 2 grants; refused arguments'),
]
