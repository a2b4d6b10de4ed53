"""C11: co-citation networks against an independent construction."""
import itertools
from collections import Counter
from mc.core import Scenario
from mc import build as b
from mc import cites as ct
from mc.sizes import sizes
from props import c10


def oracle(case, nodeType, f):
    core = {ct.ident(ct.HEADS[h][1]) for h, _ in case}
    nodes, edges, src = Counter(), Counter(), {}
    for h, cs in case:
        ids = []
        for i in cs or []:
            s = ct.C[i]
            p = ct.POOL[s]
            if ct.keep(p, s, nodeType, f, core):
                n = ct.node(p, s, nodeType)
                nodes[n] += 1
                src.setdefault(n, []).append((p, s))
                ids.append(n)
        for u, v in itertools.combinations(ids, 2):
            edges[tuple(sorted((u, v), key=str))] += 1
    return nodes, edges, src


def cases(tier):
    yield []
    for c in ct.citing_cases((0,), 7, 3):
        yield c
    for hs in ((0, 1), (4, 2), (0, 0)):
        for c in ct.citing_cases(hs, 7, 3 if tier == 'thorough' else 2, dup=False):
            yield c
    for c in ct.citing_cases((0, 1), 4, 2):
        yield c
    for h in (5, 6):
        for c in ct.citing_cases((h,), 5, 3):
            yield c
    for hs in ((5, 6), (0, 5), (5, 7, 8), (6, 8), (1, 7)):
        for c in ct.citing_cases(hs, 5, 2, dup=False):
            yield c
    for c in ct.citing_cases((0, 1, 2), 4, 2 if tier == 'quick' else 3, dup=False):
        yield c


def run(ctx, case):
    b.journals(ct.TABLE)
    recs = ct.collection(case)
    RC = b.rc(recs)
    for nodeType in c10.TYPES:
        for f in ct.FILTERS:
            nodes, edges, src = oracle(case, nodeType, f)
            for weighted, count in itertools.product((True, False), repeat=2):
                kw = dict(dict(dropAnon=False), **dict(f, nodeType=nodeType, weighted=weighted, count=count))
                G = RC.networkCoCitation(detailedCore=bool(f.get('coreOnly')), **kw)
                c10.check(ctx, G, nodes, edges, lambda e: {}, weighted, count, False, 'networkCoCitation({})'.format(kw))
        nodes, edges, src = oracle(case, nodeType, {})
        for kw in c10.INFOS:
            G = RC.networkCoCitation(nodeType=nodeType, dropAnon=False, **kw)
            what = 'networkCoCitation(nodeType={}, {})'.format(nodeType, kw)
            c10.check(ctx, G, nodes, edges, lambda e: {}, True, True, False, what)
            c10.info(ctx, G, src, case, recs, nodeType, kw, what)
        ctx.state(b.graph_dump(G))
    G = RC.networkCoCitation()
    nodes, edges, src = oracle(case, 'full', {'dropAnon': True})
    c10.check(ctx, G, nodes, edges, lambda e: {}, True, True, False, 'networkCoCitation() (anonymous dropped by default)')
    from metaknowledge.mkExceptions import RCValueError
    ctx.raises(RCValueError, lambda: RC.networkCoCitation(nodeType='nope'), 'unknown node type')


SCENARIOS = [Scenario('co-citation', cases, run, 'all citing structures of 1 record with up to 3 of 7 citations (repeats allowed), 2 records with up to 2 (3), 3 records with up to 2 (3) of 4; 5 node types x 7 filters x weighted x count, 10 annotation settings; the same with records from Scopus, Medline and ProQuest')]


def exp_run(ctx, case):
    b.journals(ct.TABLE)
    RC = b.rc(ct.collection(case))
    for nodeType, weighted in itertools.product(('full', 'original', 'author'), (True, False)):
        c10.expanded(ctx, lambda e: RC.networkCoCitation(expandedCore=e, nodeType=nodeType, weighted=weighted, dropAnon=False), case, False, nodeType, 'networkCoCitation(expandedCore, nodeType={}, weighted={})'.format(nodeType, weighted))
    ctx.state(b.graph_dump(RC.networkCoCitation(expandedCore=True)))


SCENARIOS.append(Scenario('expanded-core', c10.exp_cases, exp_run, 'as for the citation networks of C10'))


# ---------------------------------------------------------------------- sizes
def size_cases(tier):
    for n in sizes(1025 if tier == 'thorough' else 513):
        for shape in ('repeat', 'star', 'late'):
            yield [shape, n]
    for n in sizes(513 if tier == 'thorough' else 201):
        yield ['long', n]
        yield ['shared', n]


def size_run(ctx, sh):
    b.journals(ct.TABLE)
    case = ct.sized(*sh)
    recs = ct.collection(case)
    RC = b.rc(recs)
    for nodeType in c10.TYPES if sh[1] < 65 else ('full', 'journal', 'year'):
        for f in ({}, {'dropNonJournals': True}, {'keyWords': ['zaaa', 'zaab']}):
            nodes, edges, src = oracle(case, nodeType, f)
            G = RC.networkCoCitation(nodeType=nodeType, dropAnon=False, **f)
            what = 'networkCoCitation(nodeType={}, {}) of {}'.format(nodeType, f, sh)
            c10.check(ctx, G, nodes, edges, lambda e: {}, True, True, False, what)
    nodes, edges, src = oracle(case, 'full', {})
    kw = dict(fullInfo=True, detailedCore=True, addCR=True)
    c10.info(ctx, RC.networkCoCitation(**kw), src, case, recs, 'full', kw, 'networkCoCitation({}) of {}'.format(kw, sh))
    ctx.state(sh)


SCENARIOS.append(Scenario('size', size_cases, size_run, c10.SIZES.format('4, 5, 8, 10, 16, ... 512, 1000', '513 (thorough 1025; many distinct citations 201, thorough 513)'), timeout=300))
