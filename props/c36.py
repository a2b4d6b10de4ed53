"""C36: the plots of metaknowledge.contour.

The drawn artists are read back from the figure; the layout algorithm of networkx
is watched at the library boundary."""
import inspect
import itertools
import sys
import networkx as nx
import metaknowledge as mk
from mc.core import Scenario
from mc.build import graph_dump


def lib():
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import numpy as np
    import scipy.ndimage as ndi
    from metaknowledge import contour
    return plt, np, ndi, contour


class Layouts:
    """remembers what nx.spring_layout was asked for and gave"""

    NAMES = 'spring_layout', 'fruchterman_reingold_layout'

    def __enter__(self):
        self.real, self.calls = nx.spring_layout, []
        sig = inspect.signature(self.real)

        def watch(*args, **kw):
            pos = self.real(*args, **kw)
            known = dict(sig.bind(*args, **kw).arguments)
            self.calls.append((known, {k: tuple(float(x) for x in v) for k, v in pos.items()}))
            return pos
        from metaknowledge import contour
        mods = [nx, nx.drawing.layout, nx.drawing, sys.modules[contour.quickVisual.__module__]]
        self.old = [(m, n, getattr(m, n)) for m in mods for n in self.NAMES if hasattr(m, n)]
        for m, n, f in self.old:
            setattr(m, n, watch)
        return self

    def __exit__(self, *a):
        for m, n, f in self.old:
            setattr(m, n, f)


def r(p):
    return tuple(round(float(x), 6) for x in p[:2])


# quickVisual ------------------------------------------------------------------
def pairs(directed, n):
    return [(i, j) for i in range(n) for j in range(n) if (i != j if directed else i < j)]


def visual_cases(tier):
    for cls in ('Graph', 'DiGraph'):
        for n in range(4):
            m = len(pairs(cls == 'DiGraph', n))
            for types in itertools.product((None, 'a', 'b'), repeat=n):
                for mask in range(1 << m) if tier == 'thorough' else sorted({0, (1 << m) - 1, 1 << m >> 1, (1 << m) // 3}):
                    yield [cls, list(types), mask]
    for cls in ('Graph', 'DiGraph'):
        for types in ['abcdefgh', 'aabbccddeeffgghh', 'hgfedcba', 'abcdefghi', 'a' * 9]:
            yield [cls, list(types), 5]
        for k in range(10):
            for t, u in (('a', None), (None, 'a')):
                yield [cls, [t] * k + [u] + [t] * (9 - k), 3]


def name(i):
    return 'n%d' % i + ', a longer name' * (i % 3)


def run_visual(ctx, case):
    plt, np, ndi, contour = lib()
    cls, types, mask = case
    G = getattr(nx, cls)()
    for i, t in enumerate(types):
        G.add_node(name(i), count=i, **({} if t is None else {'type': t}))
    for b, (i, j) in enumerate(pairs(cls == 'DiGraph', len(types))):
        if mask >> b & 1:
            G.add_edge(name(i), name(j), weight=b)
    before = graph_dump(G)
    known = [t for t in types if t is not None]
    for label in (None, True, False):
        what = 'quickVisual(%s%s)' % (case, '' if label is None else ', %s' % label)
        np.random.seed(0)
        plt.close('all')
        call = lambda: contour.quickVisual(G) if label is None else contour.quickVisual(G, showLabel=label)
        ctx.step()
        if known and len(known) < len(types):
            ctx.raises(RuntimeError, call, what)
            ctx.eq(graph_dump(G), before, what + ' graph')
            continue
        with Layouts() as L:
            call()
        ctx.eq(graph_dump(G), before, what + ' graph')
        ctx.eq(len(plt.get_fignums()), 1, what + ' figures')
        axes = plt.gcf().axes
        ctx.eq(len(axes), 1, what + ' axes')
        ax = axes[0]
        if not types:
            ctx.eq([len(c.get_offsets()) for c in ax.collections if type(c).__name__ == 'PathCollection' and len(c.get_offsets())], [], what + ' nodes')
            continue
        ctx.eq(len(L.calls), 1, what + ' layouts')
        pos = {k: r(v) for k, v in L.calls[0][1].items()}
        dots = [c for c in ax.collections if type(c).__name__ == 'PathCollection']
        got = [(r(o), tuple(float(x) for x in c.get_facecolor()[i % len(c.get_facecolor())])) for c in dots for i, o in enumerate(c.get_offsets())]
        ctx.eq(sorted(o for o, c in got), sorted(pos.values()), what + ' every node is drawn once at its place')
        colour = {o: c for o, c in got}
        for (i, t), (j, u) in itertools.combinations(enumerate(types), 2):
            same = colour[pos[name(i)]] == colour[pos[name(j)]]
            if t == u:
                ctx.true(same, what + ' nodes of the same type have one colour')
            elif len(set(types)) <= 8:
                ctx.true(not same, what + ' nodes of different types have different colours')
        lines = []
        for c in ax.collections:
            if type(c).__name__ == 'LineCollection':
                lines += [frozenset((r(s[0]), r(s[-1]))) for s in c.get_segments()]
        for p in ax.patches:
            a, b = p._posA_posB
            lines.append((r(a), r(b)))
        ctx.eq(sorted(map(sorted, lines)) if cls == 'Graph' else sorted(lines),
               sorted(sorted((pos[u], pos[v])) for u, v in G.edges()) if cls == 'Graph' else sorted((pos[u], pos[v]) for u, v in G.edges()), what + ' every edge is drawn once')
        ctx.eq(sorted((t.get_text(), r(t.get_position())) for t in ax.texts), sorted(pos.items()) if label else [], what + ' labels')
        ctx.true(not ax.axison, what + ' axis lines')
    plt.close('all')
    ctx.state(case)


# graphDensityContourPlot --------------------------------------------------------
SPOTS = [-1, -.6, 0, .5, 1]
OPTS = [{}, {'overlay': True}, {'graphType': 'solid'}, {'graphType': 'solid', 'overlay': True}, {'blurringFactor': .3}, {'contours': 4, 'graphType': 'coloured'}]


def density_cases(tier):
    pts = list(itertools.product(range(len(SPOTS)), repeat=2))
    for n in (5, 9):
        for f in (1, 2.5):
            yield [n, f, [], 0]
            for p in pts:
                for o in range(len(OPTS)):
                    yield [n, f, [p], o]
    for p, q in itertools.product(pts, repeat=2):
        for n, f, o in [(5, 1, 1)] if tier == 'quick' else [(5, 1, 1), (9, 2.5, 3), (5, .25, 4)]:
            if tier == 'thorough' or p <= q:
                yield [n, f, [p, q], o]
    if tier == 'thorough':
        for p, q, s in itertools.combinations_with_replacement(pts, 3):
            yield [5, 1, [p, q, s], 1]
    for o in range(len(OPTS)):
        yield [None, 1, [(0, 1), (3, 4), (4, 0)], o]


class Surfaces:
    def __enter__(self):
        from mpl_toolkits.mplot3d import Axes3D
        self.cls, self.real, self.calls = Axes3D, {}, []
        for name in ('contourf', 'plot_surface'):
            self.real[name] = real = getattr(Axes3D, name)

            def watch(ax, X, Y, Z, *args, _name=name, _real=real, **kw):
                self.calls.append((_name, X.copy(), Y.copy(), Z.copy(), args[0] if args else kw.get('levels')))
                return _real(ax, X, Y, Z, *args, **kw)
            setattr(Axes3D, name, watch)
        return self

    def __exit__(self, *a):
        for n, f in self.real.items():
            setattr(self.cls, n, f)


def surface(ctx, plt, np, ndi, S, cells, n, opts, what):
    """cells: the grid coordinates of every node"""
    ctx.eq([c[0] for c in S.calls], ['plot_surface' if opts.get('graphType') == 'solid' else 'contourf'], what + ' drawn once')
    name, X, Y, Z, levels = S.calls[0]
    grid = np.zeros([n, n], dtype=np.float32)
    for x, y in cells:
        grid[int(round(y))][int(round(x))] += 1
    b = opts.get('blurringFactor', .1)
    want = ndi.gaussian_filter(grid, (b * n, b * n))
    ctx.eq(Z.shape, (n, n), what + ' size')
    ctx.eq([[round(float(v), 5) for v in row] for row in Z], [[round(float(v), 5) for v in row] for row in want], what + ' density')
    ctx.eq(([float(x) for x in X[0]], [float(y[0]) for y in Y]), ([float(i) for i in range(n)],) * 2, what + ' coordinates')
    if name == 'contourf':
        ctx.eq(levels, opts.get('contours', 15), what + ' contours')
    axes = plt.gcf().axes
    ctx.eq(len(axes), 1, what + ' axes')
    ax = axes[0]
    dots = [tuple(round(float(v), 4) for v in (x, y)) for c in ax.collections if type(c).__name__ == 'Path3DCollection' for x, y in zip(*c._offsets3d[:2])]
    ctx.eq(sorted(dots), sorted(tuple(round(float(v), 4) for v in c) for c in cells) if opts.get('overlay') else [], what + ' overlay')
    ctx.true(ax.get_xlabel() and ax.get_ylabel() and ax.get_zlabel(), what + ' labels')


def graph(n, edges=True):
    G = nx.Graph()
    for i in range(n):
        G.add_node('n%d' % i, type='a')
    if edges:
        for i in range(n - 1):
            G.add_edge('n%d' % i, 'n%d' % (i + 1), weight=i)
    return G


def run_density(ctx, case):
    plt, np, ndi, contour = lib()
    n, f, pts, o = case
    kw = dict(OPTS[o])
    G = graph(len(pts))
    layout = {'n%d' % i: np.array([SPOTS[x] * f, SPOTS[y] * f]) for i, (x, y) in enumerate(pts)}
    kept = {k: tuple(v) for k, v in layout.items()}
    before = graph_dump(G)
    plt.close('all')
    what = str(case)
    if n is None:
        n = 101
        kw['axisSamples'] = 101
    else:
        kw['axisSamples'] = n
    if f != 1:
        kw['layoutScaleFactor'] = f
    with Surfaces() as S:
        contour.graphDensityContourPlot(G, layout=layout, **kw)
    ctx.step()
    surface(ctx, plt, np, ndi, S, [tuple((SPOTS[c] + 1) / 2 * (n - 1) for c in p) for p in pts], n, OPTS[o], what)
    ctx.eq({k: tuple(v) for k, v in layout.items()}, kept, what + ' changed the layout')
    ctx.eq(graph_dump(G), before, what + ' changed the graph')
    plt.close('all')
    ctx.state(case)


def own_cases(tier):
    for size in (0, 1, 2, 3, 5):
        for edges in (True, False):
            for n in (7, None):
                for iters in (None, 3):
                    for o in range(len(OPTS)):
                        yield [size, edges, n, iters, o]


def run_own(ctx, case):
    plt, np, ndi, contour = lib()
    size, edges, n, iters, o = case
    G = graph(size, edges)
    before = graph_dump(G)
    kw = dict(OPTS[o])
    if n:
        kw['axisSamples'] = n
    else:
        n = 100
    if iters:
        kw['iters'] = iters
    what = 'own layout %s' % case
    plt.close('all')
    np.random.seed(1)
    with Surfaces() as S, Layouts() as L:
        contour.graphDensityContourPlot(G, **kw)
    ctx.step()
    ctx.eq(len(L.calls), 1, what + ' layouts')
    k, pos = L.calls[0]
    ctx.eq(k.get('iterations', 50), iters or 50, what + ' iterations')
    s, c = k.get('scale', 1), k.get('center')
    c = (0, 0) if c is None else c
    cells = [tuple((v - m + s) / (2 * s) * (n - 1) for v, m in zip(p, c)) for p in pos.values()]
    if not any(abs(v % 1 - .5) < 1e-3 for p in cells for v in p):
        surface(ctx, plt, np, ndi, S, cells, n, OPTS[o], what)
    else:       # on the border of two cells either will do
        ctx.eq(round(float(S.calls[0][3].sum()), 3), float(size), what + ' sum')
    ctx.eq(graph_dump(G), before, what + ' changed the graph')
    plt.close('all')
    ctx.state(case)


def bad_cases(tier):
    yield from ('list', 'none', 'text', 'layout list', 'layout text')


def run_bad(ctx, case):
    plt, np, ndi, contour = lib()
    G = graph(2)
    plt.close('all')
    if case.startswith('layout'):
        ctx.raises(TypeError, lambda: contour.graphDensityContourPlot(G, layout=[(0, 0)] if 'list' in case else 'x'), case)
    else:
        ctx.raises(TypeError, lambda: contour.graphDensityContourPlot({'list': [1], 'none': None, 'text': 'G'}[case]), case)
    ctx.step()
    ctx.eq(plt.get_fignums(), [], case + ' no figure')
    ctx.state(case)


SCENARIOS = [
    Scenario('visual', visual_cases, run_visual, bounds='graphs of up to 3 nodes, 2 classes, every assignment of 2 types or none, 4 (all thorough) edge sets; 8 and 9 types; one node without a type at every place; labels', timeout=120),
    Scenario('density', density_cases, run_density, bounds='layouts of 1 node at 25 places x 2 grids x 2 scales x 6 options, of every 2 (3 thorough) nodes', timeout=120),
    Scenario('own-layout', own_cases, run_own, bounds='5 sizes, iterations, 2 grids, 6 options', timeout=120),
    Scenario('refused', bad_cases, run_bad, bounds='wrong graphs and layouts'),
]
