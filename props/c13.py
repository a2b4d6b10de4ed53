"""C13: graphs written to files and read back; tnet files."""
import contextlib
import csv
import io
import itertools
import os
import networkx as nx
import metaknowledge as mk
from mc.core import Scenario
from mc.sizes import sizes
from mc.build import graph_dump

IDS = [['a', 'b', 'c'], ['a,b', 'say "hi"', 'two\nlines'], ['', ' ', '\u65e5 \u0141'], ['cr\r\nlf', 'it\'s', '1'], ['Source', 'Target', 'ID']]
VALS = [1, 0, 2.5, -3, True, None, '', 'x', 'a,b', 'q"q', 'l1\nl2', 'c\rd', '\u00e9\u65e5', ['p', 'q'], ('r',), 'None', ' padded ']
# node/edge attribute patterns: element number -> attributes
PATTERNS = [
    lambda i, v: {},
    lambda i, v: {'count': i + 1},
    lambda i, v: {'count': i + 1, 'info, x': v},
    lambda i, v: {'count': i} if i % 2 == 0 else {},
    lambda i, v: {'a': v} if i == 0 else {'b': i, 'c': v},
    lambda i, v: {'weight': v} if i < 1 else {'weight': i, 'extra"': 'z'},
]


def all_edges(directed, n):
    return [(i, j) for i in range(n) for j in range(n) if directed or i <= j]


def make(directed, n, mask, np, ep, ids, val):
    G = nx.DiGraph() if directed else nx.Graph()
    for i in range(n):
        G.add_node(IDS[ids][i], **PATTERNS[np](i, VALS[val]))
    k = 0
    for b, (i, j) in enumerate(all_edges(directed, n)):
        if mask >> b & 1:
            G.add_edge(IDS[ids][i], IDS[ids][j], **PATTERNS[ep](k, VALS[val]))
            k += 1
    return G


def txt(v):
    return '' if v is None else str(v)


def want_graph(G, nodes=True, edgeInfo=True):
    """(nodes, edges) as text; with a missing attribute blank"""
    nk = sorted({k for n, d in G.nodes(data=True) for k in d})
    ek = sorted({k for u, v, d in G.edges(data=True) for k in d}) if edgeInfo else []
    N = {str(n): ({k: txt(d.get(k)) for k in nk} if nodes else {}) for n, d in G.nodes(data=True)}
    if not nodes:
        N = {str(n): {} for u, v in G.edges() for n in (u, v)}
    E = {}
    for u, v, d in G.edges(data=True):
        e = (str(u), str(v)) if G.is_directed() else frozenset((str(u), str(v)))
        E[e] = {k: txt(d.get(k)) for k in ek}
    return N, E


def got_graph(G):
    return ({n: dict(d) for n, d in G.nodes(data=True)},
            {((u, v) if G.is_directed() else frozenset((u, v))): dict(d) for u, v, d in G.edges(data=True)})


def same_keys(items):
    return len({frozenset(d) for d in items}) <= 1


def rt_cases(tier):
    deep = tier == 'thorough'
    for directed in (False, True):
        for n in (0, 1, 2, 3):
            m = len(all_edges(directed, n))
            for mask in range(1 << m):
                if n < 3 or deep:
                    pats = itertools.product(range(len(PATTERNS)), repeat=2)
                elif directed:
                    pats = [(2, 4), (3, 3)] if mask % 3 == 0 else [(4, 2)]
                else:
                    pats = [(i, (i + j) % len(PATTERNS)) for i in range(len(PATTERNS)) for j in (0, 2, 5)]
                for np, ep in pats:
                    yield [directed, n, mask, np, ep, 0, 0]
            if n:
                full = (1 << m) - 1
                for ids in range(len(IDS)):
                    for val in range(len(VALS)):
                        for np, ep in itertools.product(range(len(PATTERNS)), repeat=2):
                            if deep or (np, ep) in ((2, 2), (4, 4), (5, 2), (1, 5), (3, 4)):
                                yield [directed, n, full, np, ep, ids, val]


def rt(ctx, case):
    G = make(*case)
    before = graph_dump(G)
    base = ctx.path('g')
    what = '{}'.format(case)
    for edgeInfo in (True, False):
        mk.writeGraph(G, base, edgeInfo=edgeInfo)
        ctx.step()
        ctx.eq(graph_dump(G), before, what + ' writing changed the graph')
        ctx.eq(sorted(os.listdir(ctx.dir)), ['g_edgeList.csv', 'g_nodeAttributes.csv'], what + ' files')
        with open(base + '_nodeAttributes.csv', newline='') as f:
            ctx.eq(next(csv.reader(f), [])[:1], ['ID'], what + ' first column of the nodes')
        for nodes in (True, False):
            H = mk.readGraph(base + '_edgeList.csv', base + '_nodeAttributes.csv' if nodes else None, directed=case[0])
            ctx.step()
            ctx.eq(H.is_directed(), case[0], what + ' directedness')
            ctx.eq(got_graph(H), want_graph(G, nodes, edgeInfo), what + ' edgeInfo={} nodes={}'.format(edgeInfo, nodes))
    # the parts written one by one are the same
    mk.writeEdgeList(G, ctx.path('e.csv'))
    mk.writeNodeAttributeFile(G, ctx.path('n.csv'))
    H = mk.readGraph(ctx.path('e.csv'), ctx.path('n.csv'), directed=case[0])
    ctx.eq(got_graph(H), want_graph(G), what + ' parts')
    # allSameAttribute refuses exactly when the attributes differ
    es = [d for u, v, d in G.edges(data=True)]
    ns = [d for n, d in G.nodes(data=True)]
    for fn, items, f, args in ((mk.writeEdgeList, es, 'e.csv', lambda p: (p, ctx.path('n.csv'))), (mk.writeNodeAttributeFile, ns, 'n.csv', lambda p: (ctx.path('e.csv'), p))):
        p = ctx.path('s' + f)
        if same_keys(items):
            fn(G, p, allSameAttribute=True)
            H = mk.readGraph(*args(p), directed=case[0])
            ctx.eq(got_graph(H), want_graph(G), what + ' allSameAttribute ' + f)
        else:
            ctx.raises((ValueError, KeyError), lambda: fn(G, p, allSameAttribute=True), what + ' allSameAttribute ' + f)
    ctx.step(4)
    ctx.eq(graph_dump(G), before, what + ' writing changed the graph')
    ctx.state(before)


# names and overwriting
NAMES = [('g', 'g_', ''), ('', '', ''), ('sub/', '', 'sub'), ('sub/g', 'g_', 'sub'), ('./g.x', 'g.x_', ''), ('sub/../h i', 'h i_', '')]


def name_cases(tier):
    for name in range(len(NAMES)):
        for typing in (False, True):
            for directed in (False, True):
                for suffix in ('csv', 'tst', 'a.b', 'none', 'subclass'):
                    for overwrite in (None, True, False):
                        for existing in ((), ('e',), ('n',), ('e', 'n')):
                            for absolute in (False, True):
                                yield [name, typing, directed, suffix, overwrite, list(existing), absolute]


def names(ctx, case):
    ni, typing, directed, suffix, overwrite, existing, absolute = case
    name, prefix, sub = NAMES[ni]
    os.makedirs(os.path.join(ctx.dir, 'sub'))
    d = os.path.join(ctx.dir, sub)
    t = ('_directed' if directed else '_undirected') if typing else ''
    e = os.path.join(d, '{}edgeList{}.{}'.format(prefix, t, suffix))
    n = os.path.join(d, '{}nodeAttributes{}.{}'.format(prefix, t, suffix))
    for k in existing:
        with open({'e': e, 'n': n}[k], 'w') as f:
            f.write('old ' * 500)
    if suffix == 'none':        # nothing to write
        G = (nx.DiGraph if directed else nx.Graph)()
    else:
        G = make(directed, 2, 3, 1, 1, 0, 0)
    if suffix == 'subclass':
        G = type('Other', (type(G),), {})(G)
    kw = {} if overwrite is None else {'overwrite': overwrite}
    os.chdir(ctx.dir)
    if absolute and name != '':
        name = ctx.dir + '/' + name
    call = lambda: mk.writeGraph(G, name, typing=typing, suffix=suffix, **kw)
    def files():
        return sorted(os.path.join(r, f) for r, ds, fs in os.walk(ctx.dir) for f in fs)
    ctx.step()
    what = '{}'.format(case)
    if overwrite is False and existing:
        ctx.raises(OSError, call, what)
        ctx.eq(files(), sorted({'e': e, 'n': n}[k] for k in existing), what + ' refused but wrote something')
        for k in existing:
            ctx.eq(open({'e': e, 'n': n}[k]).read(), 'old ' * 500, what + ' refused but overwrote')
    else:
        call()
        ctx.eq(files(), sorted([e, n]), what + ' files')
        ctx.eq(got_graph(mk.readGraph(e, n, directed=directed)), want_graph(G), what + ' contents')
    ctx.state(case)


# below the home directory
def home_cases(tier):
    for n, mask in ((0, 0), (2, 0), (3, 5), (3, 7)):
        for where in ('~/', '~/sub/', '~/sub/../'):
            for directed in (False, True):
                yield [n, mask, where, directed]


def home(ctx, case):
    n, mask, where, directed = case
    os.makedirs(os.path.join(ctx.dir, 'sub'))
    os.chdir(ctx.dir)
    G = make(directed, n, mask, 2, 4, 0, 0)
    old = os.environ.get('HOME')
    os.environ['HOME'] = ctx.dir
    try:
        mk.writeGraph(G, where + 'g')
        mk.writeEdgeList(G, where + 'e')
        mk.writeNodeAttributeFile(G, where + 'n')
        ctx.step(3)
        d = os.path.join(ctx.dir, where[2:])
        got = sorted(f for f in os.listdir(d) if f != 'sub')
        ctx.eq(got, ['e', 'g_edgeList.csv', 'g_nodeAttributes.csv', 'n'], 'files at {}'.format(where))
        for e, v in ((where + 'e', where + 'n'), (where + 'g_edgeList.csv', os.path.join(d, 'n'))):
            ctx.eq(got_graph(mk.readGraph(e, v, directed=directed)), want_graph(G), 'read from {}'.format(e))
    finally:
        if old is None:
            del os.environ['HOME']
        else:
            os.environ['HOME'] = old
    ctx.state(case)


# columns with other names
def col_cases(tier):
    for s, d, i in itertools.product(('Source', 'from', 'a, b'), ('Target', 'to'), ('ID', 'key')):
        for directed in (False, True):
            yield [s, d, i, directed]


def cols(ctx, case):
    s, d, i, directed = case
    G = make(directed, 3, 11, 2, 4, 0, 8)
    mk.writeEdgeList(G, ctx.path('e'))
    mk.writeNodeAttributeFile(G, ctx.path('n'))
    def rename(f, old, new):
        with open(ctx.path(f), newline='') as h:
            L = h.read().split('\r\n')
        L[0] = L[0].replace('"{}"'.format(old), '"{}"'.format(new))
        with open(ctx.path(f), 'w', newline='') as h:
            h.write('\r\n'.join(L))
    rename('e', 'Source', s), rename('e', 'Target', d), rename('n', 'ID', i)
    ctx.step(2)
    if s != 'Source' or d != 'Target' or i != 'ID':
        ctx.raises(KeyError, lambda: mk.readGraph(ctx.path('e'), ctx.path('n'), directed), 'wrong columns accepted')
    H = mk.readGraph(ctx.path('e'), ctx.path('n'), directed, idKey=i, eSource=s, eDest=d)
    ctx.eq(got_graph(H), want_graph(G), 'columns {}'.format(case))
    R = mk.readGraph(ctx.path('e'), ctx.path('n'), directed, idKey=i, eSource=d, eDest=s)
    ctx.eq(got_graph(R), want_graph(G.reverse() if directed else G), 'swapped columns {}'.format(case))
    ctx.state(case)


# tnet ------------------------------------------------------------------------
TN = ['n1', 'n2', 'n3', 'n4']


def tnet_cases(tier):
    modes = [['A', 'A', 'B', 'B'], ['A', 'B', 'A', 'B'], ['B', 'A', 'A', 'A'], ['A', 'B', 'C', 'B'], ['A', 'A', 'A', 'A'], ['A', 'B', None, 'B'], [1, 2, 1, 2], [0, 1, 1, 0], ['A', 'B', 'B', ''], [None, None, 'A', 'B']]
    for kind in ('Graph', 'DiGraph', 'MultiGraph', 'MultiDiGraph'):
        for m in modes:
            allp = [(i, j) for i in range(4) for j in range(4) if i <= j or 'Di' in kind]
            cross = [p for p in allp if m[p[0]] != m[p[1]]]
            sets = [list(c) for k in range(len(cross) + 1 if len(cross) < 7 else 4) for c in itertools.combinations(cross, k)]
            sets += [[p] for p in allp if p not in cross]
            sets += [[p, cross[0]] for p in allp if p not in cross and cross]
            sets += [[cross[0], p] for p in allp if p not in cross and cross]
            for es in sets:
                for src in (None, 'A', 'B', 1, 0, ''):
                    for weighted, time in ((False, None), (True, None), (True, 'when'), (False, 'when')):
                        if tier == 'thorough' or (len(es) + bool(src) + weighted) % 2 or len(es) < 2:
                            yield [kind, m, es, src, weighted, time]


def tnet(ctx, case):
    kind, m, es, src, weighted, time = case
    G = getattr(nx, kind)()
    for i, n in enumerate(TN):
        G.add_node(n, **({} if m[i] is None else {'mode': m[i]}))
    rows = []
    for k, (i, j) in enumerate(es):
        G.add_edge(TN[i], TN[j], weight=k + 3, when='T{}'.format(k))
        rows.append((i, j, k + 3, 'T{}'.format(k)))
        if G.is_multigraph() and k == 0:
            G.add_edge(TN[i], TN[j], weight=99, when='T99')
            rows.append((i, j, 99, 'T99'))
    p = ctx.path('t')
    call = lambda: mk.writeTnetFile(G, p, 'mode', weighted=weighted, sourceMode=src, timeString=time)
    ctx.step()
    present = [x for i, x in enumerate(m)]
    bad = None in m or len(set(m)) != 2 or any(m[i] == m[j] for i, j in es)
    what = '{}'.format(case)
    if not es and src is not None and src not in m and len(set(m)) == 1:
        return          # no edges and one mode: nothing to refuse, nothing to write
    if bad:
        ctx.raises(mk.RCValueError, call, what)
        ctx.state('refused')
        return
    if src is not None and src not in m:
        ctx.raises(mk.RCValueError, call, what)
        ctx.state('refused')
        return
    call()
    ids = {n: d['tnet-ID'] for n, d in G.nodes(data=True)}
    ctx.eq(sorted(ids.values()), [1, 2, 3, 4], what + ' node ids')
    ctx.eq([{k: v for k, v in G.nodes[n].items() if k != 'tnet-ID'} for n in TN], [{'mode': x} for x in m], what + ' node attributes changed')
    got = sorted(open(p).read().splitlines())
    wants = []
    for first in ([src] if src is not None else sorted(set(m), key=str)):
        w = []
        for i, j, wt, t in rows:
            a, b = (i, j) if m[i] == first else (j, i)
            w.append('{}{} {}{}'.format('"{}" '.format(t) if time else '', ids[TN[a]], ids[TN[b]], ' {}'.format(wt) if weighted else ''))
        wants.append(sorted(w))
    ctx.true(got in wants, what + ' wrote {} expected {}'.format(got, wants))
    # the ids are those of this writing, whatever the nodes had before
    for gone in (TN[0], TN[2], None):
        H = G.copy()
        if gone is None:
            for n in H:
                H.nodes[n]['tnet-ID'] = 2
        else:
            H.remove_node(gone)
            H.add_node('n5', mode=m[0])
        try:
            mk.writeTnetFile(H, p, 'mode', sourceMode=src)
        except mk.RCValueError:
            continue            # one of the modes is gone
        ctx.step()
        ids = {n: d['tnet-ID'] for n, d in H.nodes(data=True)}
        ctx.eq(sorted(ids.values()), list(range(1, len(H) + 1)), what + ' node ids written again without {}'.format(gone))
        pairs = sorted(tuple(sorted((ids[a], ids[b]))) for a, b, *k in H.edges)
        ctx.eq(sorted(tuple(sorted(int(x) for x in l.split())) for l in open(p)), pairs, what + ' edges written again without {}'.format(gone))
    ctx.state((case, got))


# tnet files of two-mode networks of a collection: the keys of the edges are the times
def two_cases(tier):
    for es in itertools.product(range(4), repeat=3):
        yield list(es)


def two(ctx, case):
    from mc import build as b
    RC = b.rc([b.wos(i, AF=['A{}'.format(k & 1)], WC=['W{}'.format(k >> 1)], PY=[str(1990 + i)]) for i, k in enumerate(case)])
    G = RC.networkTwoMode('AF', 'WC', edgeAttribute='PY')
    ctx.step(2)
    p = ctx.path('t')
    mk.writeTnetFile(G, p, 'type', weighted=True, sourceMode='AF', timeString='key')
    ids = {d['tnet-ID']: n for n, d in G.nodes(data=True)}
    got = []
    for l in open(p).read().splitlines():
        t, a, c, w = l.split(' ')
        got.append((t, ids[int(a)], ids[int(c)], w))
    want = sorted(('"{}"'.format(1990 + i), 'A{}'.format(k & 1), 'W{}'.format(k >> 1), '1') for i, k in enumerate(case))
    ctx.eq(sorted(got), want, 'tnet of {}'.format(case))
    ctx.state(case)


# sizes around those at which the writers report their progress
def size_cases(tier):
    for verbose in (False, True):
        for cls in ('Graph', 'DiGraph'):
            for n in (99, 100, 101, 200, 201):
                yield [cls, n, n - 1, verbose]
            for m in (999, 1000, 1001, 2000, 2001) if tier != 'thorough' else range(990, 1012):
                yield [cls, 70, m, verbose]


def size(ctx, case):
    cls, n, m, verbose = case
    G = getattr(nx, cls)()
    for i in range(n):
        G.add_node('n%d' % i, count=i, mode='ab'[i % 2], **({'late': 'x%d' % i} if i + 1 in (99, 100, n) else {}))
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n) if (i + j) % 2]
    for k, (i, j) in enumerate(pairs[:m]):
        G.add_edge('n%d' % i, 'n%d' % j, weight=k, **({'late': 'y%d' % k} if k + 1 in (999, 1000, m) else {}))
    m = min(m, len(pairs))
    before = graph_dump(G)
    what = str(case)
    out = io.StringIO()
    mk.VERBOSE_MODE = verbose
    try:
        with contextlib.redirect_stdout(out):
            for edgeInfo in (True, False):
                mk.writeGraph(G, ctx.path('g'), edgeInfo=edgeInfo)
                H = mk.readGraph(ctx.path('g_edgeList.csv'), ctx.path('g_nodeAttributes.csv'), directed=cls == 'DiGraph')
                ctx.step(2)
                ctx.eq(got_graph(H), want_graph(G, True, edgeInfo), what + ' edgeInfo={}'.format(edgeInfo))
            ctx.eq(graph_dump(G), before, what + ' writing changed the graph')
            mk.writeTnetFile(G, ctx.path('t'), 'mode', weighted=True)
    finally:
        mk.VERBOSE_MODE = False
    ids = {d['tnet-ID']: v for v, d in G.nodes(data=True)}
    ctx.eq(len(ids), n, what + ' tnet ids')
    with open(ctx.path('t')) as f:
        rows = [l.split(' ') for l in f.read().splitlines()]
    modes = {G.nodes[ids[int(r[0])]]['mode'] for r in rows}
    ctx.true(len(modes) <= 1, what + ' the first column is one mode')
    ctx.eq(sorted((sorted((ids[int(a)], ids[int(b)])), int(w)) for a, b, w in rows), sorted((sorted((u, v)), d['weight']) for u, v, d in G.edges(data=True)), what + ' tnet rows')
    ctx.step()
    ctx.state(case)


def some_cases(tier):
    for n in sizes(2001 if tier == 'thorough' else 1025):
        for shape in ('nodes', 'edges', 'text', 'ids', 'keys', 'late', 'lines'):
            if shape != 'keys' or n < 520:
                yield [shape, n]
    for n in (8191, 8192, 8193, 65535, 65536, 65537, 131071, 131072, 131073, 200000):
        for shape in ('text', 'ids', 'lines'):
            yield [shape, n]


def some(ctx, case):
    shape, n = case
    what = str(case)
    for cls in (nx.Graph, nx.DiGraph):
        G = cls()
        if shape in ('nodes', 'late'):
            for i in range(n):
                G.add_node('n%d' % i, **({'count': i} if shape == 'nodes' or i == n - 1 else {}))
            G.add_edge('n0', 'n%d' % (n - 1), weight=2)
        elif shape == 'edges':
            for i in range(n):
                G.add_edge('n%d' % (i % 70), 'n%d' % (i // 70 + 71), weight=i)
        elif shape == 'keys':
            G.add_node('a', **{'k%d' % i: i for i in range(n)})
            G.add_edge('a', 'b', **{'e%d' % i: i for i in range(n)})
        elif shape == 'ids':
            G.add_edge('i' * n, 'i' * (n - 1) + 'j', weight=1)
            G.add_node('k' * n, count=1)
        else:
            v = 'x' * n if shape == 'text' else 'l\n' * (n // 2) + '"' * (n % 50)
            G.add_node('a', info=v, count=1)
            G.add_edge('a', 'b', info='y' + v)
        mk.writeGraph(G, ctx.path('g'))
        H = mk.readGraph(ctx.path('g_edgeList.csv'), ctx.path('g_nodeAttributes.csv'), directed=G.is_directed())
        ctx.step(2)
        ctx.eq(got_graph(H) == want_graph(G), True, what + ' read back')
    ctx.state(case)


SCENARIOS = [
    Scenario('some', some_cases, some, 'n nodes, edges, attributes, a first attribute at the n-th node, values and ids of n characters and lines; n around 4, 5, 8, 10, 16, ... up to 1025 (thorough 2001), texts up to 200000 characters', timeout=120),
    Scenario('size', size_cases, size, 'graphs of 99-201 nodes and 999-2001 edges (990-1011 thorough), attributes only on the last elements, display on and off', timeout=120),
    Scenario('home', home_cases, home, '4 graphs written and read at 3 places below ~'),
    Scenario('roundtrip', rt_cases, rt, 'every directed and undirected graph (with loops) of up to 3 nodes, {} node and edge attribute patterns, {} id sets, {} attribute values, every writer and reader option'.format(len(PATTERNS), len(IDS), len(VALS))),
    Scenario('names', name_cases, names, 'all name forms, typing, suffixes, overwrite settings and sets of files in the way'),
    Scenario('columns', col_cases, cols, 'renamed and swapped columns'),
    Scenario('tnet', tnet_cases, tnet, '9 mode assignments of 4 nodes, all edge sets between modes (up to 3 edges when there are many) and every single edge inside a mode, 4 graph classes, weight, time and source options'),
    Scenario('twomode', two_cases, two, 'tnet files of two-mode networks of all collections of 3 records over 2x2 values'),
]
