"""C15: diffusion graphs and counts.

Oracle: who cites whom is computed pair by pair with Citation equality from the
records' own citations; counts and edges follow by plain loops."""
import collections
import itertools
import metaknowledge as mk
from metaknowledge import ScopusRecord
from mc.core import Scenario, Violation
from mc import build as b
from mc import cites as ct
from mc.sizes import sizes, word

SRC = [
    ('s0', dict(AU=['A, A', 'B, B'], AF=['Alpha, A', 'Beta, B'], TI=['T0'], PY=['1990'], J9=['J1'], WC=['w1; w2'], CR=['B B, 1991, J2'])),
    ('s1', dict(AU=['A, A'], AF=['Alpha, A'], TI=['T1'], PY=['1990'], J9=['J1'], VL=['2'], WC=['w2'], CR=['A A, 1990, J1', 'X X, 1901, Q'])),
    ('s2', dict(AU=['B, B', 'C, C'], AF=['Beta, B', 'Gamma, C'], TI=['T2'], PY=['1991'], J9=['J2'], BP=['7'], WC=['w1'], CR=['C C, 1991, J2', 'A A, 1990, J1'])),
    ('s3', dict(TI=['T3'], PY=['1992'], J9=['J3'])),
    ('s4', dict(AU=['D, D'], AF=['Delta, D'], TI=['T4'], PY=['1993'], WC=['w1'])),
]
TGT = [
    ('t0', dict(AU=['K, K'], AF=['Kappa, K'], PY=['2000'], WC=['w1'])),
    ('t1', dict(AU=['K, K', 'L, L'], AF=['Kappa, K', 'Lambda, L'], PY=['2001'], WC=['w1; w3'], CR=['A A, 1990, J1'])),
    ('t2', dict(AU=['L, L'], AF=['Lambda, L'], PY=['2001'], CR=['A A, 1990, J1, V2, P1', 'B B, 1990, J1', 'Unknown U, 1980, Z'])),
    ('t3', dict(WC=['w3'], CR=['C C, 1991, J2', 'D D, 1993, T4', 'A A, 1990, J1', 'A A, 1990, J1, V9'])),
    ('t4', dict(AU=['K, K'], AF=['Kappa, K'], PY=['2001'], WC=['w2'], CR=['1992, J3', 'b b, 1991, j2', '[Anonymous], 1990, J1'])),
]


def rec(spec):
    if spec[0] in 'PQ':
        return scopus(spec)
    pool, i = (SRC, int(spec[1])) if spec[0] == 's' else (TGT, int(spec[1]))
    uid, f = pool[i]
    return b.wos(uid, **f)


SC = {'P0': dict(Authors='Smith J., Doe K.', Title='T', Year='1990', EID='p0', **{'Source title': 'Nature', 'Index Keywords': 'k1; k2'}),
      'P1': dict(Authors='Doe K.', Title='V', Year='1990', EID='p1', References='Smith J., T (1990) Nature, 1; Doe K., V (1990) Cell', **{'Source title': 'Cell', 'Index Keywords': 'k2'}),
      'Q0': dict(Authors='Roe R.', Title='W', Year='1995', EID='q0', References='Smith J., T (1990) Nature, 12, p. 5; Doe K., V (1990) Cell, 2'),
      'Q1': dict(Authors='Roe R., Poe P.', Title='X', Year='1996', EID='q1', References='Doe K., T (1990) Nature; Zoe, (1991) Cell')}


def scopus(spec):
    return ScopusRecord(collections.OrderedDict((k, v) for k, v in SC[spec].items()))


def collections_of(case, same=False):
    """same: one object is source and target"""
    S = b.rc([rec(x) for x in case[0]], 'S')
    if same:
        return S, S
    return S, b.rc([rec(x) for x in case[1]], 'T')


def matches(S, T, allAuthors):
    """{target record: [set of sources matching each of its citations]}"""
    sc = {s: (set(s.createCitation(multiCite=True)) if allAuthors else {s.createCitation()}) for s in S}
    out = {}
    for t in T:
        out[t] = [[s for s in S if any(k == c for k in sc[s])] for c in (t.get('citations') or [])]
    return out


def ids(R, kind, chars=False):
    """documented node values of a record; chars: the recorded defect"""
    v = R if kind == 'raw' else R.get(kind)
    if v is None or v == [] or v == '':
        return []
    if chars and not isinstance(v, list):
        return list(v) if not isinstance(v, int) else [v]
    return list(v) if isinstance(v, list) else [v]


def dump(G):
    N = {n: dict(d) for n, d in G.nodes(data=True)}
    E = {}
    for e in (G.edges(keys=True, data=True) if G.is_multigraph() else G.edges(data=True)):
        E[tuple(e[:-1])] = dict(e[-1])
    return N, E, G.is_directed(), G.is_multigraph()


def want_graph(S, T, m, sT, tT, weighted, label, chars):
    N, E = {}, {}
    for s in S:
        for v in ids(s, sT, chars):
            N.setdefault(v, {'source': True, 'target': False})
    for t in T:
        lab = None
        if label is not None:
            lab = t.get({'PY': 'year', 'YEAR': 'year', 'AF': 'authorsFull', 'DE': 'authKeyWords'}.get(label, label))
            if lab is None:
                continue
            lab = [str(x) for x in (lab if isinstance(lab, list) else [lab])]
        for tv in ids(t, tT, chars):
            if tv in N:
                N[tv]['target'] = True
            else:
                N[tv] = {'source': False, 'target': True}
            for srcs in m[t]:
                for sv in dict.fromkeys(v for s in srcs for v in ids(s, sT, chars)):
                    for l in lab or [None]:
                        e = (sv, tv) if label is None else (sv, tv, l)
                        d = E.setdefault(e, {} if label is None else {'key': l})
                        if weighted:
                            d['weight'] = d.get('weight', 0) + 1
    return N, E, True, label is not None


GOPT = [(s, t, w, l) for s in ('AU', 'WC', 'CR', 'TI', 'raw', 'authorsFull') for t in ('AF', 'WC', 'UT', 'raw', 'AU') for w in (True, False) for l in (None, 'PY', 'WC', 'authorsFull')]


def pools(tier):
    src = ['s%d' % i for i in range(len(SRC))]
    tgt = ['t%d' % i for i in range(len(TGT))]
    for k in range(len(src) + 1):
        for s in itertools.combinations(src, k):
            for m in range(4 if tier == 'thorough' else 3):
                for t in itertools.combinations(tgt, m):
                    if tier == 'thorough' or k + m < 5:
                        yield [list(s), list(t)]
            yield [list(s), list(s)]
            yield [list(s), list(s[:1]) + ['t1']]


def g_cases(tier):
    for c in pools(tier):
        for n in range(len(GOPT)):
            if tier == 'thorough' or len(c[0]) + len(c[1]) <= 2 or n % 3 == (len(c[0]) + 2 * len(c[1])) % 3:
                yield c + [n]


SGOPT = [(s, t, w, l) for s, t in (('authorsShort', 'authorsFull'), ('keywords', 'authorsShort'), ('authorsFull', 'citations'), ('citations', 'keywords')) for w in (True, False) for l in (None, 'year', 'PY', 'YEAR', 'keywords', 'authorsFull', 'AF', 'journal')]


def sg_cases(tier):
    pool = ['P0', 'P1', 's0', 'Q0']
    for k in (1, 2, 3):
        for s in itertools.combinations(pool, k):
            for m in (1, 2, 3) if tier == 'thorough' else (1, 2):
                for t in itertools.combinations(['Q0', 'Q1', 't1', 'P1', 't2'], m):
                    for n in range(len(SGOPT)):
                        yield [list(s), list(t), -1 - n]


def graph(ctx, case, same=False):
    if case[0] == case[1] and not same:
        graph(ctx, case, True)
    sT, tT, w, l = GOPT[case[2]] if case[2] >= 0 else SGOPT[-1 - case[2]]
    S, T = collections_of(case, same)
    G = mk.diffusionGraph(S, T, weighted=w, sourceType=sT, targetType=tT, labelEdgesBy=l)
    ctx.step()
    m = matches(S, T, False)
    got = dump(G)
    what = '{} source={} target={} weighted={} label={}'.format(case[:2], sT, tT, w, l)
    want = want_graph(S, T, m, sT, tT, w, l, False)
    if got != want:
        single = [k for k in (sT, tT) if k in ('raw', 'TI', 'UT')]
        key = None
        if single and got == want_graph(S, T, m, sT, tT, w, l, True):
            key = 'single-valued-node-types'
        raise Violation('{}: got {} expected {}'.format(what, got, want), key)
    ctx.checks += 1
    ctx.state((case[:2], sorted(map(repr, got[1].items()))))


def errors(ctx, case):
    S, T = b.rc([rec('s0')]), b.rc([rec('t1')])
    ctx.raises(RuntimeError, lambda: mk.diffusionGraph(S, T, **{case[0]: case[1]}), 'diffusionGraph {}'.format(case)) if case[0] != 'count' else \
        ctx.raises(RuntimeError, lambda: mk.diffusionCount(*[{'S': S, 'L': list(S), 'N': None}[x] for x in case[1]]), 'diffusionCount {}'.format(case))
    ctx.step()


def e_cases(tier):
    for k in ('sourceType', 'targetType', 'labelEdgesBy'):
        for v in ('bogus', 'ZZZ', ''):
            yield [k, v]
    for p in ('SL', 'LS', 'LL', 'SN', 'NS'):
        yield ['count', p]


# counts ----------------------------------------------------------------------
def want_count(S, T, sT, extra, allAuthors, mapping):
    m = matches(S, T, allAuthors)
    C = {}
    for s in S:
        for v in ids(s, sT):
            C[v] = {'TargetCount': 0}
    for t in T:
        vals = []
        if extra is not None:
            vals = t.get(extra)
            vals = [] if vals is None else vals if isinstance(vals, list) else [vals]
            vals = [mapping(v) for v in vals]
        for srcs in m[t]:
            for v in dict.fromkeys(v for s in srcs for v in ids(s, sT)):
                C[v]['TargetCount'] += 1
                for x in vals:
                    C[v][x] = C[v].get(x, 0) + 1
    return C


COPT = [(s, x, a, mp) for s in ('raw', 'WC', 'TI', 'authorsShort', 'year', 'citations', 'id') for x in (None, 'PY', 'year', 'WC', 'authorsFull') for a in (True, False) for mp in ((0, 1, 2) if x else (0,))]
MAPS = [lambda x: x, lambda x: 'm{}'.format(str(x)[:1]), lambda x: str(x) > '2000' and str(x) != 'w1']


def c_cases(tier):
    for c in pools(tier):
        for n in range(len(COPT)):
            if tier == 'thorough' or len(c[0]) + len(c[1]) <= 2 or n % 2 == (len(c[0]) + len(c[1])) % 2:
                yield c + [n]


def sc_cases(tier):
    pool = ['P0', 'P1', 's0', 'Q0']
    for k in (1, 2, 3):
        for s in itertools.combinations(pool, k):
            for m in (1, 2):
                for t in itertools.combinations(['Q0', 'Q1', 't1', 'P1', 't2'], m):
                    for n in range(len(COPT)):
                        if COPT[n][0] in ('raw', 'authorsShort', 'year', 'id', 'keywords'):
                            yield [list(s), list(t), n]


def flat(C, extra):
    return C if extra is not None else {k: v['TargetCount'] for k, v in C.items()}


def table(d, ctx, what):
    cols = sorted(d)
    lens = {k: len(v) for k, v in d.items()}
    ctx.true(len(set(lens.values())) <= 1, what + ' columns of different lengths {}'.format(lens))
    return cols


def counts(ctx, case, same=False):
    if case[0] == case[1] and not same:
        counts(ctx, case, True)
    sT, extra, allA, mp = COPT[case[2]]
    S, T = collections_of(case, same)
    mapping = MAPS[mp]
    kw = dict(sourceType=sT, extraValue=extra, useAllAuthors=allA)
    if mp:
        kw['extraMapping'] = mapping
    W = want_count(S, T, sT, extra, allA, mapping)
    L = want_count(S, S, sT, extra, allA, mapping)
    what = '{} {}'.format(case[:2], kw)
    got = mk.diffusionCount(S, T, **kw)
    ctx.eq(got, flat(W, extra), what)
    both = mk.diffusionCount(S, T, compareCounts=True, **kw)
    w, l = flat(W, extra), flat(L, extra)
    ctx.eq(both, {k: (w[k], l[k]) for k in w}, what + ' compareCounts')
    ctx.step(2)
    for compare in (False, True):
        for na in (True, False):
            d = mk.diffusionCount(S, T, pandasFriendly=True, compareCounts=compare, numAuthors=na, **kw)
            ctx.step()
            w2 = what + ' table compare={} numAuthors={}'.format(compare, na)
            cols = table(d, ctx, w2)
            n = len(d['TargetCount'])
            rows = []
            for v, c in W.items():
                for x, k in (c.items() if extra is not None else [(None, c['TargetCount'])]):
                    rows.append((v, x, k, L[v].get(x if extra is not None else 'TargetCount', 0)))
            ctx.eq(n, len(rows), w2 + ' number of rows')
            wantcols = {'TargetCount'} | ({'SourceCount'} if compare else set()) | ({extra} if extra else set())
            if sT == 'raw':
                tags = {t for v in W for t in v.keys()} - {extra}
                wantcols |= tags | ({'numAuthors'} if na else set())
                ctx.eq(set(cols), wantcols, w2 + ' columns')
                def cell(v, t):
                    return repr(v.get(t))
                exp = sorted(repr(([cell(v, t) for t in sorted(tags)], x, k, l if compare else None, len(v.get('authorsShort', [])) if na else None)) for v, x, k, l in rows)
                act = sorted(repr(([repr(d[t][i]) for t in sorted(tags)], d[extra][i] if extra else None, d['TargetCount'][i], d['SourceCount'][i] if compare else None, d['numAuthors'][i] if na else None)) for i in range(n))
            else:
                ctx.eq(set(cols), wantcols | {sT}, w2 + ' columns')
                if sT == extra:
                    continue        # the two columns share a name
                exp = sorted(repr((str(v), x, k, l if compare else None)) for v, x, k, l in rows)
                act = sorted(repr((str(d[sT][i]), d[extra][i] if extra else None, d['TargetCount'][i], d['SourceCount'][i] if compare else None)) for i in range(n))
            ctx.eq(act, exp, w2)
    ctx.state((case, sorted(map(repr, got.items()))))


# counts added to graphs ------------------------------------------------------
def a_cases(tier):
    for c in pools(tier):
        for tag in ('WC', 'authorsShort', 'TI', 'year'):
            for extra in (None, 'PY', 'WC'):
                for keys in (None, ['2001', 'w1', 2001]):
                    for given in (False, True):
                        if tier == 'thorough' or (len(c[0]) + len(c[1]) + bool(keys) + given) % 2 == 0:
                            yield c + [tag, extra, keys, given]


def added(ctx, case):
    s, t, tag, extra, keys, given = case
    S, T = collections_of(case)
    G = b.rc([rec(x) for x in ['s0', 's2', 's4'] + s]).networkOneMode(tag)
    before = {n: dict(d) for n, d in G.nodes(data=True)}
    edges = sorted(map(repr, G.edges(data=True)))
    W = want_count(S, T, tag, extra, True, lambda x: x)
    kw = {}
    if keys:
        kw['extraKeys'] = list(keys)
    cd = None
    if given:
        cd = mk.diffusionCount(S, T, sourceType=tag, extraValue=extra)
        kw['countsDict'] = cd
    for label in (None, 'X'):
        if label:
            kw['diffusionLabel'] = label
        H = G.copy()
        ret = mk.diffusionAddCountsFromSource(H, S, T, nodeType=tag, extraType=extra, **kw)
        ctx.step()
        what = '{} label={}'.format(case, label)
        ctx.eq(ret, {str(k): v for k, v in flat(W, extra).items()}, what + ' returned counts')
        if given:
            ctx.eq(cd, flat(W, extra), what + ' changed the given counts')
        want = {}
        named = {str(k): v for k, v in W.items()}
        for n, d in before.items():
            d = dict(d)
            d[label or 'DiffusionCount'] = 0
            if extra is not None:
                for k in keys or []:
                    d[k] = 0
            for k, v in named.get(n, {}).items():
                if k == 'TargetCount':
                    d[label or 'DiffusionCount'] = v
                elif k:
                    d[k] = v
            want[n] = d
        ctx.eq({n: dict(d) for n, d in H.nodes(data=True)}, want, what)
        ctx.eq(sorted(map(repr, H.edges(data=True))), edges, what + ' changed the edges')
    ctx.state(case)


# sizes -----------------------------------------------------------------------
def z_cases(tier):
    for n in sizes(1025 if tier == 'thorough' else 513):
        for shape in ('sources', 'targets', 'repeat', 'late', 'authors'):
            yield [shape, n]
    for n in sizes(129 if tier == 'thorough' else 51):
        yield ['values', n]


def sized(ctx, sh):
    shape, n = sh
    own = lambda i, **kw: b.wos('s%d' % i, **dict(ct.HEADS[ct.H0 + i][0], WC=['w%d' % (i % 5)], **kw))
    cite = lambda i: ct.C[ct.M0 + i]
    tgt = lambda i, cs, **kw: b.wos('t%d' % i, CR=cs, **dict(dict(AU=['K%d, K' % (i % 3)], PY=[str(2000 + i % 4)], WC=['x; y']), **kw))
    allA = False
    if shape == 'sources':
        S, T, cited = [own(i) for i in range(n)], [tgt(0, [cite(i) for i in range(n)]), tgt(1, [cite(n - 1)])], [list(range(n)), [n - 1]]
    elif shape == 'targets':
        S, T, cited = [own(0), own(1)], [tgt(i, [cite(i % 2)]) for i in range(n)], [[i % 2] for i in range(n)]
    elif shape == 'repeat':
        S, T, cited = [own(0), own(1)], [tgt(0, [cite(0)] * n + [cite(1)])], [[0] * n + [1]]
    elif shape == 'late':
        S, T, cited = [own(0)], [tgt(i, None) for i in range(n)] + [tgt(n, [cite(5)] * n + [cite(0)])], [[]] * n + [[0]]
    elif shape == 'authors':
        S = [b.wos('s0', AU=[word(i) + ', Q' for i in range(n)], PY=['1990'], J9=['JONE'], WC=['w1'])]
        T, cited = [tgt(0, [word(n - 1) + ' Q, 1990, JONE', word(n // 2) + ' Q, 1990, JONE']), tgt(1, [word(0) + ' Q, 1990, JONE'])], [[0, 0], [0]]
        allA = True
    else:
        S = [own(0, DE=['; '.join(word(i) for i in range(n))])]
        T, cited = [tgt(0, [cite(0)], DE=['; '.join(word(i, 'T') for i in range(n))])], [[0]]
    m = {t: [[S[i]] for i in cs] for t, cs in zip(T, cited)}
    A, B = b.rc(S, 'S'), b.rc(T, 'T')
    what = 'diffusion of {} '.format(sh)
    if not allA:
        for sT, tT, l in (('AU', 'AF', None), ('WC', 'AU', 'PY'), ('AU', 'WC', 'WC')) if shape != 'values' else (('DE', 'DE', None), ('DE', 'WC', 'PY')):
            G = mk.diffusionGraph(A, B, sourceType=sT, targetType=tT, labelEdgesBy=l)
            ctx.step()
            ctx.eq(dump(G), want_graph(S, T, m, sT, tT, True, l, False), what + '{} {} label={}'.format(sT, tT, l))
    for sT, extra in (('raw', None), ('AU', 'PY'), ('WC', 'WC')):
        C = {}
        for s in S:
            for v in ids(s, sT):
                C[v] = {'TargetCount': 0}
        for t in T:
            x = t.get(extra) if extra else []
            x = x if isinstance(x, list) else [x]
            for srcs in m[t]:
                for v in dict.fromkeys(v for s in srcs for v in ids(s, sT)):
                    for k in ['TargetCount'] + x:
                        C[v][k] = C[v].get(k, 0) + 1
        kw = dict(sourceType=sT, extraValue=extra, useAllAuthors=allA)
        ctx.step(2)
        ctx.eq(mk.diffusionCount(A, B, **kw), flat(C, extra), what + 'count {}'.format(kw))
        d = mk.diffusionCount(A, B, pandasFriendly=True, **kw)
        table(d, ctx, what)
        ctx.eq(sorted(d['TargetCount']), sorted(k for v in C.values() for k in v.values()), what + 'count table {}'.format(kw))
    ctx.state(sh)


SCENARIOS = [
    Scenario('size', z_cases, sized, 'n sources, n targets, n citations of one source, n authors of a source, n values of source and target; n around 4, 5, 8, 10, 16, ... up to 513 (thorough 1025), values 51 (129)', timeout=240),
    Scenario('graph', g_cases, graph, 'source sets of 5 records (shared and colliding citations, no authors, no journal) x targets (up to 2 (3) of 5, the sources themselves) x 6 source and 5 target node types, weights and edge labels'),
    Scenario('scopus-graph', sg_cases, graph, '1-3 sources and 1-2 (3) targets from Scopus and WOS, 4 pairs of node types, weights and 8 edge labels (tags and names in any case)'),
    Scenario('errors', e_cases, errors, 'invalid types and arguments'),
    Scenario('counts', c_cases, counts, 'the same pools x 7 node types, 5 extra values, mappings, author matching, comparison and table forms'),
    Scenario('scopus', sc_cases, counts, 'Scopus and WOS records mixed'),
    Scenario('added', a_cases, added, 'counts added to graphs of 4 tags, extra values, keys and given counts'),
]
