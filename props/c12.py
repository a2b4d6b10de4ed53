"""C12: bibliographic coupling against an independent count, under every processing order."""
import itertools
from collections import Counter
from mc.core import Scenario
from mc import build as b
from mc import cites as ct
from mc.sizes import sizes

HEADSETS = [(), (0,), (4,), (0, 1), (0, 2), (1, 4), (0, 0), (3, 1), (0, 1, 2), (1, 2, 3), (0, 1, 4), (5,), (6,), (5, 6), (6, 0), (5, 7), (5, 6, 0), (5, 6, 8)]


def cases(tier):
    for hs in HEADSETS:
        if len(hs) < 3:
            g = ct.citing_cases(hs, 7, 3 if tier == 'thorough' or len(hs) < 2 else 2, dup=True)
        else:
            g = ct.citing_cases(hs, 5, 2 if tier == 'quick' else 3, dup=False)
        for c in g:
            yield c
    for c in ct.citing_cases((0, 1, 2, 3), 4, 2 if tier == 'thorough' else 1, dup=False):
        yield c


def run(ctx, case):
    b.journals(ct.TABLE)
    recs = ct.collection(case)
    RC = b.rc(recs)
    cited = {}
    nodes = set()
    core = {ct.ident(ct.HEADS[h][1]) for h, _ in case}
    for h, cs in case:
        if cs:
            me = ct.ident(ct.HEADS[h][1])
            nodes.add(me)
            ids = {ct.ident(ct.POOL[ct.C[i]]) for i in cs}
            cited.setdefault(me, set()).update(ids)
            nodes |= ids & core
    edges = {}
    for u, v in itertools.combinations(sorted(cited), 2):
        n = len(cited[u] & cited[v])
        if n:
            edges[(u, v)] = n
    for weighted, full, addCR in itertools.product((True, False), repeat=3):
        G = RC.networkBibCoupling(weighted=weighted, fullInfo=full, addCR=addCR)
        what = 'networkBibCoupling(weighted={}, fullInfo={}, addCR={})'.format(weighted, full, addCR)
        ctx.step()
        ctx.eq(type(G).__name__, 'Graph', what)
        ctx.eq(sorted(G.nodes()), sorted(nodes), what + ' nodes')
        got = {tuple(sorted((u, v))): dict(d) for u, v, d in G.edges(data=True)}
        ctx.eq(got, {e: ({'weight': w} if weighted else {}) for e, w in edges.items()}, what + ' edges')
        for n, d in G.nodes(data=True):
            ctx.true(('fullCite' in d) == full and ('citations' in d) == addCR, what + ' annotations of {}: {}'.format(n, d))
    ctx.state(b.graph_dump(G))


def size_cases(tier):
    for n in sizes(1025 if tier == 'thorough' else 513):
        for shape in ('long', 'repeat', 'chain', 'shared', 'late'):
            yield [shape, n]
    for n in sizes(513 if tier == 'thorough' else 201):
        yield ['star', n]


def size_run(ctx, sh):
    run(ctx, ct.sized(*sh))


SCENARIOS = [Scenario('coupling', cases, run, 'all citing structures of 1-2 records with up to 3/2 of 7 citations (repeats allowed), 3 records with up to 2 (3) of 5, 4 records with up to 1 (2) of 4; all options; records from WOS, Scopus, Medline and ProQuest; 8 hash seeds give different processing orders', every_seed=False),
    Scenario('size', size_cases, size_run, 'records with n citations, the same n times, n records in a chain, two sharing n, n without any before one with (n around 4, 5, 8, 10, ... 512, thorough 1000), n records citing the same (201, thorough 513)', timeout=120)]
