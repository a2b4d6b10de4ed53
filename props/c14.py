"""C14: filtering, merging and measuring graphs.

Oracle: the documented inequalities evaluated on plain lists of nodes and edges."""
import contextlib
import io
import itertools
import networkx as nx
import metaknowledge as mk
from metaknowledge import graphHelpers as gh
from mc.core import Scenario
from mc.build import graph_dump

CLASSES = ['Graph', 'DiGraph', 'MultiGraph', 'MultiDiGraph']
INF = float('inf')


def all_edges(directed, n):
    return [(i, j) for i in range(n) for j in range(n) if directed or i <= j]


def build(cls, n, edges, counts=None):
    """edges: [(i, j, weight or None)]; counts: [count or None]"""
    G = getattr(nx, cls)()
    for i in range(n):
        G.add_node('n{}'.format(i), info='i{}'.format(i), **({'count': counts[i]} if counts and counts[i] is not None else {}))
    for k, (i, j, w) in enumerate(edges):
        G.add_edge('n{}'.format(i), 'n{}'.format(j), tag='t{}'.format(k), **({'weight': w} if w is not None else {}))
    return G


def sub(G, nodes=None, edges=None):
    """a copy of G keeping only these (node list / list of edge key tuples)"""
    H = G.copy()
    if nodes is not None:
        H.remove_nodes_from([n for n in G if n not in nodes])
    if edges is not None:
        it = list(G.edges(keys=True)) if G.is_multigraph() else list(G.edges())
        H.remove_edges_from([e for e in it if e not in edges])
    return H


def elist(G):
    return [(e[:-1], e[-1]) for e in (G.edges(keys=True, data=True) if G.is_multigraph() else G.edges(data=True))]


LIMITS = [-INF, 0, 1, 2, 2.5, 3, INF]


def graph_cases(tier, weights=(1, 2, 3, None)):
    """Simple graphs of 2 nodes with all weights, 3 nodes with weights by position; multigraphs with parallel edges."""
    for cls in CLASSES:
        d = 'Di' in cls
        for n in (1, 2):
            pairs = all_edges(d, n)
            for ws in itertools.product((0,) + tuple(weights), repeat=len(pairs)):
                yield [cls, n, [(i, j, w) for (i, j), w in zip(pairs, ws) if w != 0]]
        pairs = all_edges(d, 3)
        for mask in range(1 << len(pairs)):
            for pat in ((1, 2, 3), (2, None, 1)) [:1 if d else 2] if tier != 'thorough' else ((1, 2, 3), (2, None, 1), (3, 3, 0), (None, None, 2)):
                es = [p for b, p in enumerate(pairs) if mask >> b & 1]
                yield [cls, 3, [(i, j, pat[k % 3]) for k, (i, j) in enumerate(es)]]
        if 'Multi' in cls:
            for loops in itertools.product(weights[:2], repeat=2):
                yield [cls, 2, [(0, 0, loops[0]), (0, 0, loops[1]), (0, 1, 2)]]
                yield [cls, 2, [(0, 0, 2), (0, 0, loops[0]), (1, 1, 1), (0, 0, 2), (1, 1, loops[1])]]
            for ws in itertools.product(weights, repeat=3):
                for last in ((0, 1), (1, 0), (0, 0), (1, 1)):
                    yield [cls, 2, [(0, 1, ws[0]), (0, 1, ws[1]), last + (ws[2],)]]
    yield ['Graph', 0, []]


# dropping edges --------------------------------------------------------------
def edges(ctx, case):
    G0 = build(*case)
    E = elist(G0)
    for lo, hi in [(None, None)] + [(a, b) for a in LIMITS for b in LIMITS]:
        for ignore in (False, True):
            for loops in (False, True):
                for par in ('weight', 'other'):
                    G = G0.copy()
                    if par == 'other':
                        if lo not in (None, 2):
                            continue
                        for e in G.edges:
                            if 'weight' in G.edges[e]:
                                G.edges[e]['other'] = G.edges[e].pop('weight')
                    start = G.copy()
                    kw = {} if lo is None else {'minWeight': lo, 'maxWeight': hi}
                    if par != 'weight':
                        kw['parameterName'] = par
                    call = lambda: mk.dropEdges(G, ignoreUnweighted=ignore, dropSelfLoops=loops, **kw)
                    left = [(k, d) for k, d in E if not (loops and k[0] == k[1])]
                    what = '{} {} ignore={} loops={}'.format(case, kw, ignore, loops)
                    ctx.step()
                    active = lo is not None and (lo != -INF or hi != INF)
                    if active and not ignore and any('weight' not in d for k, d in left):
                        ctx.raises(KeyError, call, what)
                        continue
                    keep = [k for k, d in left if not active or 'weight' not in d or lo <= d['weight'] <= hi]
                    call()
                    ctx.eq(graph_dump(G), graph_dump(sub(start, None, keep)), what)
    ctx.state(case)


# dropping nodes --------------------------------------------------------------
def degree(ctx, case):
    G0 = build(*case)
    E = elist(G0)
    nodes = list(G0)
    for use in (True, False):
        for include in (True, False):
            missing = use and any('weight' not in d for k, d in E)
            deg = {n: sum((d.get('weight', 1) if use else 1) for k, d in E if n in k[:2]) for n in nodes}
            for lo, hi in itertools.product(LIMITS + [4, 5], [-INF, 0, 1, 2, 4, INF]):
                G = G0.copy()
                call = lambda: mk.dropNodesByDegree(G, minDegree=lo, maxDegree=hi, useWeight=use, includeUnweighted=include)
                ctx.step()
                what = '{} [{}, {}] useWeight={} includeUnweighted={}'.format(case, lo, hi, use, include)
                if missing and not include:
                    ctx.raises(KeyError, call, what)
                    ctx.eq(graph_dump(G), graph_dump(G0), what + ' failed but changed the graph')
                    continue
                call()
                ctx.eq(graph_dump(G), graph_dump(sub(G0, [n for n in nodes if lo <= deg[n] <= hi])), what)
    G = G0.copy()
    mk.dropNodesByDegree(G)
    ctx.eq(graph_dump(G), graph_dump(G0), '{} default options changed the graph'.format(case))
    for e in G.edges:
        if 'weight' in G.edges[e]:
            G.edges[e]['w2'] = G.edges[e].pop('weight')
    deg = {n: sum(d.get('weight', 1) for k, d in E if n in k[:2]) for n in nodes}
    want = sub(G, [n for n in nodes if 2 <= deg[n]])
    mk.dropNodesByDegree(G, 2, parameterName='w2')
    ctx.eq(graph_dump(G), graph_dump(want), '{} parameterName'.format(case))
    ctx.state(case)


def count_cases(tier):
    for cls in CLASSES:
        for n in range(4 if tier != 'thorough' else 5):
            for cs in itertools.product((None, 0, 1, 2, 3), repeat=n):
                yield [cls, list(cs)]


def count(ctx, case):
    cls, cs = case
    n = len(cs)
    G0 = build(cls, n, [(i, (i + 1) % n, i) for i in range(n)], cs)
    for lo, hi in [(None, None)] + list(itertools.product(LIMITS, LIMITS)):
        for ignore in (False, True):
            for par in (None, 'other'):
                G = G0.copy()
                if par:
                    if lo not in (None, 1):
                        continue
                    for m, d in G.nodes(data=True):
                        if 'count' in d:
                            d['other'] = d.pop('count')
                start = G.copy()
                kw = {} if lo is None else {'minCount': lo, 'maxCount': hi}
                if par:
                    kw['parameterName'] = par
                call = lambda: mk.dropNodesByCount(G, ignoreMissing=ignore, **kw)
                what = '{} {} ignore={}'.format(case, kw, ignore)
                ctx.step()
                if None in cs and not ignore:
                    ctx.raises(KeyError, call, what)
                    ctx.eq(graph_dump(G), graph_dump(start), what + ' failed but changed the graph')
                    continue
                call()
                keep = ['n{}'.format(i) for i, c in enumerate(cs) if lo is None or c is None or lo <= c <= hi]
                ctx.eq(graph_dump(G), graph_dump(sub(start, keep)), what)
    ctx.state(case)


# merging ---------------------------------------------------------------------
NODE = [None, {}, {'count': 2}, {'count': 5, 'x': 'p'}, {'x': 'q', 'y': 'r'}]
EDGE = [None, {}, {'weight': 3}, {'weight': 1, 'z': 'p'}]


def merge_cases(tier):
    for cls in CLASSES:
        for a in range(len(NODE)):
            for b in range(len(NODE)):
                # node n0 in both forms, n1 in the target only, n2 in the added graph only
                yield [cls, 'nodes', a, b]
        for a in range(len(EDGE)):
            for b in range(len(EDGE)):
                for rev in (False, True):
                    for loop in (False, True):
                        yield [cls, 'edges', a, b, rev, loop]
        if 'Multi' in cls:
            for ka, kb in itertools.product(((), (0,), (0, 1), ('k',), ('k', 0)), repeat=2):
                yield [cls, 'keys', list(ka), list(kb)]
        yield [cls, 'self']


def merge(ctx, case):
    cls = case[0]
    A, B = getattr(nx, cls)(), getattr(nx, cls)()
    if case[1] == 'nodes':
        A.add_node('n1', count=7, x='t')
        B.add_node('n2', count=9, x='u')
        if NODE[case[2]] is not None:
            A.add_node('n0', **NODE[case[2]])
        if NODE[case[3]] is not None:
            B.add_node('n0', **NODE[case[3]])
    elif case[1] == 'edges':
        u, v = ('n0', 'n0') if case[5] else ('n0', 'n1')
        for G in (A, B):
            G.add_node('n0', count=1)
            G.add_node('n1', count=1)
        A.add_edge('n0', 'n2', weight=5)
        B.add_edge('n1', 'n3', weight=6)
        if EDGE[case[2]] is not None:
            A.add_edge(u, v, **EDGE[case[2]])
        if EDGE[case[3]] is not None:
            B.add_edge(*((v, u) if case[4] else (u, v)), **EDGE[case[3]])
    elif case[1] == 'keys':
        for G, ks in ((A, case[2]), (B, case[3])):
            for i, k in enumerate(ks):
                G.add_edge('n0', 'n1', key=k, weight=i + 1 + 10 * (G is B))
    else:
        A.add_node('n0', count=3)
        A.add_edge('n0', 'n1', weight=2)
        B = A
    for iN in ('count', None, 'x'):
        for iE in ('weight', None):
            T, S = A.copy(), B.copy()
            what = '{} {} {}'.format(case, iN, iE)
            if case[1] == 'self':
                S = T
            elif iN == 'x' and case[1] != 'nodes':
                continue
            want = A.copy()
            for n, d in B.nodes(data=True):
                if n not in A:
                    want.add_node(n, **d)
                elif iN and iN in d:
                    if iN in A.nodes[n]:
                        want.nodes[n][iN] = A.nodes[n][iN] + d[iN]
                    elif iN == 'count':
                        want.nodes[n][iN] = d[iN]
                    else:
                        break
            else:
                for e, d in elist(B):
                    if not A.has_edge(*e):
                        want.add_edge(*e, **d)
                    elif iE and iE in d:
                        want.edges[e][iE] = A.edges[e].get(iE, 0) + d[iE]
                before = graph_dump(S)
                mk.mergeGraphs(T, S, incrementedNodeVal=iN, incrementedEdgeVal=iE)
                ctx.step()
                ctx.eq(graph_dump(T), graph_dump(want), what)
                if S is not T:
                    ctx.eq(graph_dump(S), before, what + ' changed the added graph')
    ctx.state(case)


# the networks of two parts of a collection merge into the network of the whole
def part_cases(tier):
    cr = [[], ['A, 1990, J'], ['A, 1990, J', 'B, 1991, K'], ['B, 1991, K', 'C, 1992, L', 'A, 1990, J']]
    for k in itertools.product(range(len(cr)), repeat=3):
        for cut in (1, 2):
            yield [list(k), cut]


def parts(ctx, case):
    from mc import build as b
    cr = [[], ['A, 1990, J'], ['A, 1990, J', 'B, 1991, K'], ['B, 1991, K', 'C, 1992, L', 'A, 1990, J']]
    recs = [b.wos(i, AU=['X{}, Y'.format(i % 2), 'Z, Z'], AF=['X{}, Y'.format(i % 2), 'Z, Z'], CR=cr[k] or None) for i, k in enumerate(case[0])]
    for net in ('networkCoCitation', 'networkCoAuthor'):
        whole = getattr(b.rc(recs), net)()
        one = getattr(b.rc(recs[:case[1]]), net)()
        two = getattr(b.rc(recs[case[1]:]), net)()
        mk.mergeGraphs(one, two)
        ctx.step()
        ctx.eq(graph_dump(one), graph_dump(whole), '{} of {} merged from parts'.format(net, case))
    ctx.state(case)


# statistics ------------------------------------------------------------------
STATS = ['nodes', 'edges', 'isolates', 'loops', 'density', 'transitivity']


def oracle_stats(cls, n, es):
    directed = 'Di' in cls
    m = len(es)
    s = {'nodes': n, 'edges': m, 'loops': sum(i == j for i, j, w in es),
         'isolates': sum(all(x not in (i, j) for i, j, w in es) for x in range(n))}
    s['density'] = 0 if m == 0 or n <= 1 else m / (n * (n - 1)) * (1 if directed else 2)
    return s


def stat_cases(tier):
    for cls in CLASSES:
        d = 'Di' in cls
        for n in range(4 if d or tier != 'thorough' else 5):
            pairs = all_edges(d, n)
            for mask in range(1 << len(pairs)):
                yield [cls, n, [p + (1,) for b, p in enumerate(pairs) if mask >> b & 1]]


def stats(ctx, case):
    cls, n, es = case
    G = build(*case)
    want = oracle_stats(*case)
    before = graph_dump(G)
    names = STATS[:5] if 'Multi' in cls else STATS
    if 'Multi' not in cls:
        try:
            want['transitivity'] = nx.transitivity(G)
        except nx.NetworkXNotImplemented:
            names = STATS[:5]
    if cls == 'Graph':
        adj = {(i, j) for i, j, w in es if i != j} | {(j, i) for i, j, w in es if i != j}
        tri = sum((a, b) in adj and (b, c) in adj and (a, c) in adj for a, b, c in itertools.permutations(range(n), 3))
        trip = sum((a, b) in adj and (b, c) in adj for a, b, c in itertools.permutations(range(n), 3))
        want['transitivity'] = tri / trip if tri else 0
    label = {'nodes': 'Nodes: {:G}', 'edges': 'Edges: {:G}', 'isolates': 'Isolates: {:G}', 'loops': 'Self loops: {:G}', 'density': 'Density: {:G}', 'transitivity': 'Transitivity: {:G}'}
    sent = {'nodes': '{:G} nodes', 'edges': '{:G} edges', 'isolates': '{:G} isolates', 'loops': '{:G} self loops', 'density': 'a density of {:G}', 'transitivity': 'a transitivity of {:G}'}
    combos = [tuple(names)] + [(a,) for a in names] + [(a, b) for a in names for b in names] + [('edges', 'loops', 'edges'), ()]
    for st in combos:
        for kind in (tuple, list):
            got = mk.graphStats(G, stats=kind(st), makeString=False)
            ctx.eq([round(x, 9) for x in got], [round(want[s], 9) for s in st], '{} stats {}'.format(case, st))
        ctx.eq(isinstance(got, tuple), True, 'type of the stats')
        asked = [s for s in STATS if s in st]
        ctx.eq(mk.graphStats(G, stats=st), '\n'.join(label[s].format(want[s]) for s in asked), '{} lines {}'.format(case, st))
        p = [sent[s].format(want[s]) for s in asked]
        ctx.eq(mk.graphStats(G, stats=st, sentenceString=True), 'The graph has ' + (', '.join(p[:-1]) + ' and ' + p[-1] if len(p) > 1 else ''.join(p)), '{} sentence {}'.format(case, st))
        ctx.step(4)
    if len(names) == 6:
        ctx.eq(mk.graphStats(G), '\n'.join(label[s].format(want[s]) for s in STATS), '{} default'.format(case))
    ctx.raises(RuntimeError, lambda: mk.graphStats(G, stats=('nodes', 'bogus')), 'unknown statistic')
    ctx.eq(graph_dump(G), before, '{} statistics changed the graph'.format(case))
    ctx.state(case)


# degrees and weights ----------------------------------------------------------
def deg_tables(ctx, case):
    G = build(*case)
    E = elist(G)
    for ws in ('weight', None, False, 'absent'):
        for strict in (False, True):
            for kind in ('bi', 'in', 'out', 'bogus'):
                if kind in ('in', 'out') and not G.is_directed():
                    continue
                w = [d.get(ws, 1) if ws else 1 for k, d in E]
                call = lambda: gh.getNodeDegrees(G, weightString=ws, strictMode=strict, edgeType=kind)
                ctx.step()
                what = '{} {} strict={} {}'.format(case, ws, strict, kind)
                if E and strict and ws and any(ws not in d for k, d in E):
                    ctx.raises(KeyError, call, what) if kind != 'bogus' else ctx.raises((KeyError, ValueError), call, what)
                    continue
                if kind == 'bogus':
                    if E:
                        ctx.raises(ValueError, call, what)
                    continue
                want = {n: sum(x * ((k[0] == n) * (kind != 'in') + (k[1] == n) * (kind != 'out')) for (k, d), x in zip(E, w)) for n in G}
                ctx.eq(call(), want, what)
                if len(G):
                    dist = gh.getDegreeDistribution(G, weightParameter=ws, strictWeightNames=strict, directionalType=kind)
                    vals = list(want.values())
                    ctx.eq(dist, [vals.count(i) for i in range(max(vals) + 1)], what + ' distribution')
    for (k, d) in E:
        if 'weight' in d and not G.is_multigraph():
            ctx.eq((gh.getWeight(G, k[0], k[1]), gh.getWeight(G, k[0], k[1], returnType=float), gh.getWeight(G, k[0], k[1], None)), (d['weight'], float(d['weight']), 1), 'getWeight')
    ctx.state(case)


# sizes around those at which the filters report their progress
def size_cases(tier):
    for verbose in (False, True):
        for n in (9999, 10000, 10001) + ((20001, ) if tier == 'thorough' else ()):
            yield ['nodes', n, verbose]
        for n in (99999, 100000, 100001) if tier == 'thorough' else (100001,):
            yield ['edges', n, verbose]


def size(ctx, case):
    kind, n, verbose = case
    G = nx.DiGraph()
    what = str(case)
    mk.VERBOSE_MODE = verbose
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            if kind == 'nodes':
                for i in range(n):
                    G.add_node(i, count=i % 5)
                for i in range(n - 1):
                    G.add_edge(i, i + 1, weight=i % 3)
                A, B, C = G.copy(), G.copy(), G.copy()
                mk.dropNodesByCount(A, minCount=1, maxCount=3)
                ctx.eq(list(A), [i for i in range(n) if 1 <= i % 5 <= 3], what + ' by count')
                mk.dropNodesByDegree(B, minDegree=3)
                deg = lambda i: (i % 3 if i < n - 1 else 0) + ((i - 1) % 3 if i else 0)
                ctx.eq(list(B), [i for i in range(n) if deg(i) >= 3], what + ' by degree')
                mk.dropNodesByDegree(C, maxDegree=1, useWeight=False)
                ctx.eq(list(C), [0, n - 1], what + ' by number of edges')
                ctx.step(3)
            else:
                side = 317
                k = 0
                for i in range(side):
                    for j in range(side):
                        if k < n:
                            G.add_edge(i, j, weight=k % 7)
                            k += 1
                want = [(u, v) for u, v, d in G.edges(data=True) if 2 <= d['weight'] <= 5 and u != v]
                mk.dropEdges(G, minWeight=2, maxWeight=5, dropSelfLoops=True)
                ctx.eq(list(G.edges()), want, what + ' dropEdges')
                ctx.step()
    finally:
        mk.VERBOSE_MODE = False
    ctx.state(case)


SCENARIOS = [
    Scenario('dropEdges', graph_cases, edges, 'graphs of 1-2 nodes with every weight on every edge, 3 nodes with every edge set, parallel edges, 4 graph classes; 50 bound pairs at and around every weight and every option'),
    Scenario('dropNodesByDegree', graph_cases, degree, 'the same graphs; 54 bound pairs, weighted or not'),
    Scenario('dropNodesByCount', count_cases, count, 'all count assignments of up to 3 (4) nodes; 50 bound pairs'),
    Scenario('merge', merge_cases, merge, 'all combinations of present, absent and partial attributes of a shared node or edge, edge keys of multigraphs, merging with itself'),
    Scenario('mergeParts', part_cases, parts, 'networks of both parts of all collections of 3 records over 4 citation lists'),
    Scenario('stats', stat_cases, stats, 'every graph of up to 3 (4) nodes and 4 classes; every single and pair of statistics and output form'),
    Scenario('size', size_cases, size, 'paths of 9999-10001 (20001) nodes and graphs of 100001 (99999-100001) edges, display on and off', timeout=120),
    Scenario('degrees', graph_cases, deg_tables, 'degree tables, distributions and weights of the same graphs'),
]
