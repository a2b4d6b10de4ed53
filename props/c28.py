"""C28: the progress display never affects results and always ends.

The bar's display thread runs under mc.sched: every line of progressBar.py and
every sleep, join and write is a scheduling point; all schedules with a bounded
number of preemptions are run."""
import copy
import io
import itertools
import os
import re
import sys
import threading
import networkx as nx
import metaknowledge as mk
import metaknowledge.progressBar as pb
from mc import build as b
from mc import files
from mc import names
from mc import sched
from mc.core import Scenario, Violation, explore

names.install()
FILES = ('progressBar.py',)
real_size = os.get_terminal_size


class Out(object):
    def __init__(self, tty):
        self.log, self.tty = [], tty

    def write(self, s):
        self.log.append(s)
        sched.point()
        return len(s)

    def flush(self):
        sched.point()

    def fileno(self):
        if self.tty is None:
            raise io.UnsupportedOperation('fileno')
        return 77

    def isatty(self):
        return self.tty is not None

    def text(self):
        return ''.join(self.log)


class Boom(Exception):
    pass


def screen(text):
    """Rows of a terminal that is wide enough."""
    rows, x = [''], 0
    for c in text:
        if c == '\r':
            x = 0
        elif c == '\n':
            rows.append('')
            x = 0
        else:
            r = rows[-1]
            rows[-1] = r[:x] + c + r[x + 1:]
            x += 1
    return rows


def sizes(widths):
    """get_terminal_size answering with these widths, the last one for ever"""
    left = list(widths)

    def f(*a):
        if a and a[0] != 77:
            return real_size(*a)
        w = left.pop(0) if len(left) > 1 else left[0]
        if w is None:
            raise OSError(25, 'not a terminal')
        return os.terminal_size((w, 24))
    return f


def execute(ch, script, tty, dt, opcodes):
    """One schedule.  Returns what was seen."""
    out = Out(tty)
    s = sched.Sched(ch, FILES, opcodes, step=dt)
    os.get_terminal_size = sizes(tty or [None])
    seen = {}

    def work():
        end = script['end']
        bar = pb._ProgressBar(script['start'][0], script['start'][1], output=out)
        try:
            if end[0] == 'plain':
                for u in script['ups']:
                    bar.updateVal(*u)
                bar.finish(end[1])
                seen['after'] = len(out.log)
            else:
                with bar as B:
                    for u in script['ups']:
                        B.updateVal(*u)
                    if end[0] == 'raise':
                        raise Boom()
                    if end[0] == 'finish':
                        B.finish(end[1])
                        seen['finished'] = len(out.log)
                        seen['alive'] = [t.name for t in s.threads if t is not s.main and not t.done]
        finally:
            if end[0] != 'plain':
                seen['after'] = len(out.log)
            seen['left'] = [t.name for t in s.threads if t is not s.main and not t.done]
            seen['bar'] = bar
        return 'value'
    try:
        seen['result'] = s.run(work)
        s.drain()
        seen['end'] = len(out.log)
        seen['errors'] = [repr(t.error) for t in s.threads if t.error is not None]
        seen['threads'] = len(s.threads)
    finally:
        os.get_terminal_size = real_size
        s.close()
    seen['text'] = out.text()
    seen['points'] = s.points
    return seen


def run_bar(ctx, case):
    script, tty, dt, bound, opcodes = case
    end = script['end']
    n = 0

    def one(ch):
        nonlocal n
        n += 1
        ctx.step()
        try:
            r = execute(ch, script, tty, dt, opcodes)
        except sched.Stuck as e:
            raise Violation('%s in schedule %r of %r' % (e, [c[0] for c in ch.taken], case))
        w = 'schedule %r of %r' % ([c[0] for c in ch.taken], case)
        val, exc = r['result']
        if end[0] == 'raise':
            ctx.true(type(exc) is Boom, '%s: the exception, got %r' % (w, exc))
        else:
            ctx.true(exc is None and val == 'value', '%s: got %r' % (w, exc))
        ctx.eq(r['errors'], [], w + ': display thread')
        ctx.eq(r['left'], [], w + ': threads left running')
        ctx.eq(r['end'], r['after'], w + ': written after the end')
        if 'finished' in r:
            ctx.eq(r['alive'], [], w + ': threads running after finish')
            ctx.eq(r['after'], r['finished'], w + ': written after finish')
        text = r['text']
        ctx.true(text.endswith('\n') and text.count('\n') == 1, '%s: lines of %r' % (w, text))
        if end[0] in ('finish', 'plain'):
            width = 80 if tty is None or tty[-1] is None else tty[-1]
            rows = screen(text)
            ctx.eq(rows[-1], '', w)
            row, msg = rows[0], str(end[1])
            # on a terminal that got narrower old characters cannot be told from those of the last line
            last = text[:-1].rsplit('\r', 1)[-1]
            same = tty is None or len(set(tty)) == 1
            if width >= 20:
                m = re.match(r'^(.*?) *([-+0-9.E]+s)$', row if same else last, re.DOTALL)
                ctx.true(m is not None, '%s: last line %r' % (w, row))
                if len(msg) < width - 6:
                    ctx.eq(m.group(1), msg.rstrip(), w + ': message in the last line')
                else:
                    got = m.group(1).rstrip()
                    head, dots, tail = got.partition('...')
                    ctx.true(dots and head and tail and msg.startswith(head) and msg.rstrip().endswith(tail), '%s: shortened message %r' % (w, got))
                if 0 <= dt < 1000:
                    ctx.true(len(last) <= width, '%s: the last line has %d characters on a terminal with %d' % (w, len(last), width))
        ctx.state((text.count('\r'), r['points']))
        return None
    for _ in explore(one, bound):
        pass
    ctx.true(n > 1 or not bound, 'schedules explored')


MSG = 'done'
LONG = 'a long last message ' * 8 + 'ends here'


def scripts():
    yield {'start': [0, 'start'], 'ups': [], 'end': ['finish', MSG]}
    yield {'start': [0, 'start'], 'ups': [[.5, 'half']], 'end': ['finish', MSG]}
    yield {'start': [0, 'start'], 'ups': [[.5, None], [1, 'all of it']], 'end': ['finish', LONG]}
    yield {'start': [0, ' '], 'ups': [[1, '']], 'end': ['finish', '']}
    yield {'start': [0, LONG], 'ups': [[.3, 'short'], [.6, LONG]], 'end': ['finish', MSG]}
    yield {'start': [0, 'start'], 'ups': [[.5, 'half']], 'end': ['plain', MSG]}
    yield {'start': [0, 'start'], 'ups': [[.5, 'half']], 'end': ['exit']}
    yield {'start': [0, 'start'], 'ups': [], 'end': ['exit']}
    yield {'start': [0, 'start'], 'ups': [[.5, 'half']], 'end': ['raise']}
    yield {'start': [0, 'start'], 'ups': [], 'end': ['raise']}


def bar_cases(tier):
    S = list(scripts())
    b1, b2 = (3, 4) if tier == 'thorough' else (2, 3)
    for s in S:
        for tty in (None, [80], [20]):
            yield [s, tty, 0.1, b2, False]
    for s in S:
        for tty in ([0], [5], [9], [13], [14], [21], [40], [200], [80, 30], [30, 80], [None]):
            yield [s, tty, 0.1, b1, False]
        for dt in (0, 50, 1e7, -5):
            yield [s, [80], dt, b1, False]
    for s in S:
        yield [s, None, 0.1, b1 - 1 if tier == 'quick' else 2, True]
    # every length of the last message around the width
    for w in (20, 21, 80):
        for n in range(0, w + 12):
            yield [{'start': [0, 'start'], 'ups': [[.5, 'u' * n]], 'end': ['finish', ('abcdefghij' * 20)[:n]]}, [w], 0.1, 0 if tier == 'quick' else 1, False]
    for p in (0, .001, .5, .999, 1):
        yield [{'start': [p, 'x'], 'ups': [[p, '']], 'end': ['finish', 'y']}, [40], 0.1, b1, False]


# ---- the library operations with the display on
def recs():
    out = []
    for n in range(3):
        out.append(b.wos(n, AU=['A, B', 'C%d, D' % n], AF=['A, B', 'C%d, D' % n], TI=['Title %d' % n], SO=['SRC'], J9=['SRC'], PY=[str(1990 + n)], VL=['1'], BP=['2'],
                         AB=['words of it'], CR=['A B, 1990, SRC, V1, P2', 'Z Z, 1970, SRC'], DE=['k1; k2'], WC=['w'], C1=['[A, B] Univ, City, Country']))
    return out


def coll():
    return b.rc(recs())


def grants(p):
    mk.VERBOSE_MODE, v = False, mk.VERBOSE_MODE
    try:
        return mk.GrantCollection(os.path.dirname(putg(p)))
    finally:
        mk.VERBOSE_MODE = v


def graph():
    G = nx.Graph()
    G.add_edge('a', 'b', weight=1)
    G.add_edge('b', 'c', weight=3)
    for n in G:
        G.nodes[n]['count'] = 2
    return G


def dump(v, d):
    if isinstance(v, nx.Graph):
        return b.graph_dump(v)
    if isinstance(v, (mk.RecordCollection, mk.GrantCollection)):
        return sorted(repr(x) for x in v), v.name.replace(d, '')
    if isinstance(v, dict):
        return sorted((repr(k), repr(sorted(x.items()) if isinstance(x, dict) else x)) for k, x in v.items())
    if isinstance(v, tuple):
        return tuple(dump(x, d) for x in v)
    return repr(v)


def boom(*a, **k):
    raise Boom()


OPS = {
    'coAuthor': lambda p: coll().networkCoAuthor(),
    'coAuthor bad': lambda p: coll().networkCoAuthor(weighted=boom),
    'coCitation': lambda p: coll().networkCoCitation(),
    'coCitation none': lambda p: b.rc([]).networkCoCitation(),
    'citation': lambda p: coll().networkCitation(),
    'citation bad': lambda p: coll().networkCitation(nodeType='no'),
    'coupling': lambda p: coll().networkBibCoupling(),
    'oneMode': lambda p: coll().networkOneMode('keywords'),
    'oneMode bad': lambda p: coll().networkOneMode('keywords', stemmer=boom),
    'twoMode': lambda p: coll().networkTwoMode('keywords', 'year'),
    'multiLevel': lambda p: coll().networkMultiLevel('keywords', 'year'),
    'nMode': lambda p: coll().networkMultiMode('keywords', 'year', 'title'),
    'nMode bad': lambda p: coll().networkMultiMode('keywords', 'year', stemmer=boom),
    'forNLP': lambda p: coll().forNLP(),
    'forNLP bad': lambda p: coll().forNLP(stemmer=boom),
    'forBurst': lambda p: coll().forBurst('title'),
    'timeSeries': lambda p: coll().timeSeries('year'),
    'rpys': lambda p: coll().rpys(),
    'writeFile': lambda p: coll().writeFile(p + '/w'),
    'writeCSV': lambda p: coll().writeCSV(p + '/w'),
    'writeBib': lambda p: coll().writeBib(p + '/w'),
    'cooccur': lambda p: coll().cooccurrenceCounts('keywords', 'year'),
    'read file': lambda p: mk.RecordCollection(put(p, 'one.isi')),
    'read missing': lambda p: mk.RecordCollection(p + '/none.isi'),
    'read dir': lambda p: mk.RecordCollection(os.path.dirname(put(p, 'one.isi', 'two.isi'))),
    'read cached': lambda p: mk.RecordCollection(os.path.dirname(put(p, 'one.isi', 'two.isi')), cached=True),
    'read bad dir': lambda p: mk.RecordCollection(os.path.dirname(put(p, 'bad.isi')), extension='.isi'),
    'read grants': lambda p: mk.GrantCollection(os.path.dirname(putg(p))),
    'read grants missing': lambda p: mk.GrantCollection(p + '/none.csv'),
    'coInvestigator': lambda p: grants(p).networkCoInvestigator(),
    'coInstitution': lambda p: grants(p).networkCoInvestigatorInstitution(),
    'dropEdges': lambda p: inplace(mk.dropEdges, 2),
    'dropNodesByDegree': lambda p: inplace(mk.dropNodesByDegree, 2),
    'dropNodesByCount': lambda p: inplace(mk.dropNodesByCount, 2),
    'dropEdges bad': lambda p: inplace(mk.dropEdges, 2, parameterName='no'),
    'mergeGraphs': lambda p: merge(),
    'writeGraph': lambda p: mk.writeGraph(graph(), p + '/g'),
    'writeGraph type': lambda p: mk.writeGraph(graph(), p + '/g', typing=True),
    'writeGraph empty': lambda p: mk.writeGraph(nx.Graph(), p + '/g'),
    'readGraph': lambda p: rw(p),
    'readGraph missing': lambda p: mk.readGraph(p + '/none.csv'),
    'edge list': lambda p: mk.writeEdgeList(graph(), p + '/e.csv'),
    'edge list empty': lambda p: mk.writeEdgeList(nx.Graph(), p + '/e.csv'),
    'edge list bad': lambda p: mk.writeEdgeList(uneven(), p + '/e.csv', allSameAttribute=True),
    'edge list nowhere': lambda p: mk.writeEdgeList(graph(), p + '/no/e.csv'),
    'node list': lambda p: mk.writeNodeAttributeFile(graph(), p + '/n.csv'),
    'node list empty': lambda p: mk.writeNodeAttributeFile(nx.Graph(), p + '/n.csv'),
    'node list bad': lambda p: mk.writeNodeAttributeFile(uneven(), p + '/n.csv', allSameAttribute=True),
    'tnet': lambda p: mk.writeTnetFile(coll().networkTwoMode('keywords', 'year'), p + '/t.tnet', 'type'),
    'diffusionCount': lambda p: mk.diffusionCount(coll(), coll()),
    'diffusionCount compare': lambda p: mk.diffusionCount(coll(), coll(), compareCounts=True, sourceType='year'),
    'diffusionCount pandas': lambda p: mk.diffusionCount(coll(), coll(), pandasFriendly=True, extraValue='year', sourceType='title'),
    'diffusionCount bad': lambda p: mk.diffusionCount(coll(), coll(), extraValue='year', extraMapping=boom),
    'diffusionCount none': lambda p: mk.diffusionCount(b.rc([]), b.rc([])),
    'diffusionGraph': lambda p: mk.diffusionGraph(coll(), coll()),
    'diffusionAdd': lambda p: addcounts(),
    'nodes by year': lambda p: coll().yearSplit(1990, 1991),
    'tnet bad': lambda p: mk.writeTnetFile(graph(), p + '/t.tnet', 'zz'),
    'stats': lambda p: coll().localCiteStats(),
}


# the same on nothing
for _n, _f in {'coAuthor': lambda R, p: R.networkCoAuthor(), 'citation': lambda R, p: R.networkCitation(), 'coupling': lambda R, p: R.networkBibCoupling(),
               'oneMode': lambda R, p: R.networkOneMode('keywords'), 'twoMode': lambda R, p: R.networkTwoMode('keywords', 'year'),
               'multiLevel': lambda R, p: R.networkMultiLevel('keywords', 'year'), 'nMode': lambda R, p: R.networkMultiMode('keywords', 'year', 'title'),
               'forNLP': lambda R, p: R.forNLP(), 'forBurst': lambda R, p: R.forBurst('title'), 'timeSeries': lambda R, p: R.timeSeries('year'),
               'rpys': lambda R, p: R.rpys(), 'writeFile': lambda R, p: R.writeFile(p + '/w'), 'writeCSV': lambda R, p: R.writeCSV(p + '/w'),
               'writeBib': lambda R, p: R.writeBib(p + '/w'), 'cooccur': lambda R, p: R.cooccurrenceCounts('keywords', 'year'),
               'stats': lambda R, p: R.localCiteStats(), 'getCitations': lambda R, p: R.getCitations()}.items():
    OPS[_n + ' of nothing'] = lambda p, f=_f: f(b.rc([]), p)
OPS['getCitations'] = lambda p: coll().getCitations()
OPS['coInvestigator of nothing'] = lambda p: mk.GrantCollection().networkCoInvestigator()
OPS['coInstitution of nothing'] = lambda p: mk.GrantCollection().networkCoInvestigatorInstitution()


def inplace(f, *a, **k):
    G = graph()
    f(G, *a, **k)
    return G


def uneven():
    G = graph()
    G.edges['a', 'b']['other'] = 2
    G.nodes['a']['other'] = 2
    return G


def merge():
    G = graph()
    mk.mergeGraphs(G, graph())
    return G


def rw(p):
    mk.VERBOSE_MODE, v = False, mk.VERBOSE_MODE
    try:
        mk.writeGraph(graph(), p + '/g')
    finally:
        mk.VERBOSE_MODE = v
    return mk.readGraph(p + '/g_edgeList.csv', p + '/g_nodeAttributes.csv')


def addcounts():
    G = coll().networkCoAuthor()
    mk.diffusionAddCountsFromSource(G, coll(), coll(), nodeType='authorsFull')
    return G


def put(p, *names):
    os.makedirs(p + '/data', exist_ok=True)
    for n, f in enumerate(names):
        with open(p + '/data/' + f, 'wb') as o:
            o.write(b'nothing known\n' if f.startswith('bad') else files.RECORDS['wos']([(10 * n + k, 'T%d' % k) for k in range(2)], True))
    return p + '/data/' + names[-1]


def putg(p):
    os.makedirs(p + '/data', exist_ok=True)
    for f in ('one.csv', 'two.csv'):
        with open(p + '/data/NSERC_' + f, 'wb') as o:
            o.write(files.GRANTS['nserc']([(1, 'One'), (2, 'Two')] if f == 'one.csv' else [(3, 'Three')], True))
    return p + '/data/NSERC_one.csv'


def tree(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            if not f.endswith('DirCache') and f != 'screen':
                out[os.path.relpath(os.path.join(r, f), d)] = open(os.path.join(r, f), 'rb').read()
    return out


class Stdout(object):
    """The real standard output goes to a file meanwhile."""

    def __init__(self, path):
        self.path = path

    def __enter__(self):
        sys.stdout.flush()
        sys.__stdout__.flush()
        self.saved = os.dup(1)
        f = os.open(self.path, os.O_CREAT | os.O_TRUNC | os.O_WRONLY | os.O_APPEND)
        os.dup2(f, 1)
        os.close(f)
        return self

    def text(self):
        sys.stdout.flush()
        sys.__stdout__.flush()
        with open(self.path, newline='') as f:
            return f.read()

    def __exit__(self, *a):
        sys.stdout.flush()
        sys.__stdout__.flush()
        os.dup2(self.saved, 1)
        os.close(self.saved)


def attempt(f, d):
    try:
        return ('value', dump(f(d), d))
    except Exception as e:
        return ('raised', type(e).__name__)


def fresh(d):
    import shutil
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)


def run_op(ctx, case):
    name, bound = case
    f = OPS[name]
    d = ctx.path('d')
    fresh(d)
    mk.VERBOSE_MODE = False
    with Stdout(ctx.path('quiet')) as o:
        want = attempt(f, d)
        quiet = o.text()
    files_ = tree(d)

    def one(ch):
        ctx.step()
        fresh(d)
        w = '%s, schedule %r' % (name, [c[0] for c in ch.taken])
        s = sched.Sched(ch, FILES)
        mk.VERBOSE_MODE = True
        try:
            with Stdout(ctx.path('screen')) as o:
                try:
                    got, exc = s.run(lambda: attempt(f, d))
                except sched.Stuck as e:
                    raise Violation('%s: %s' % (w, e))
                finally:
                    modes = mk.VERBOSE_MODE, mk.FAST_CITES
                    mk.VERBOSE_MODE = False
                left = [t.name for t in s.threads if t is not s.main and not t.done]
                before = o.text()
                s.drain()
                after = o.text()
                errors = [repr(t.error) for t in s.threads if t.error is not None]
        finally:
            s.close()
        if exc is not None:
            raise exc
        w = '%s, schedule %r' % (name, [c[0] for c in ch.taken])
        ctx.eq(got, want, w)
        ctx.eq(modes, (True, False), w + ': the settings')
        ctx.eq(tree(d), files_, w + ': files')
        ctx.eq(errors, [], w + ': display thread')
        ctx.eq(left, [], w + ': threads left running')
        ctx.eq(after, before, w + ': written after the end')
        bars = len(s.threads) - 1
        ctx.true(bars == 0 or before.endswith('\n'), '%s: screen %r' % (w, before))
        ctx.eq(before.count('\n'), bars + quiet.count('\n'), '%s: one line for each of %d bars: %r' % (w, bars, before))
        if want[0] == 'value' and bars:
            ctx.true(all(l.split('\r')[-1].strip() for l in before[:-1].split('\n')), '%s: last line of %r' % (w, before))
        ctx.state((name, s.points))
        return None
    for _ in explore(one, bound):
        pass


def op_cases(tier):
    for n in OPS:
        yield [n, 2 if tier == 'thorough' else 1]


# ---- every option, with the display on
def rich():
    """Records in which every option makes a difference."""
    out = recs()
    out.append(b.wos(7, PT=['B'], AU=['E, F', 'A, B'], AF=['E, F', 'A, B'], TI=['Seven, the runner (c) 2001'], SO=['SRC'], J9=['SRC'], PY=['1991'], AB=['Running words. (C) 2001 Elsevier'],
                     CR=['A B, 1990, SRC, V1, P2', '[ANONYMOUS], 1991, BOOK', 'D0 D, 1990, SRC', 'Z Z, 1980'], DE=['k1; k3'], WC=['w'], ID=['plus; k1'], C1=['[A, B] Univ, City, Country', '[E, F] Other Univ, Town']))
    out.append(b.wos(8, AU=['E, F'], AF=['E, F'], TI=['Eight of the Titles'], DE=['k3; k4'], CR=['Z Z, 1970, SRC', 'Nn O, 2001, JTEN, V3', 'E F, 1991, SRC', 'C0 D, 1990, SRC']))
    out.append(b.wos(9, AU=['G, H', 'I, J'], AF=['Gg, Hh', 'Ii, Jj'], PY=['1992'], J9=['SRC'], TI=['Nine   9 lives'], CR=['Gg Hh, 1992, SRC', 'G H, 1992, SRC', 'I J, 1992, SRC'], DE=['Same; SAME; other'], WC=['x']))
    out.append(b.badwos('spoilt'))
    return b.rc(out)


def some():
    R = rich()
    return R, b.rc([x for x in R if x.get('year') != 1991 and not x.bad])


def first(v):
    return str(v)[:1]


def weighted(d=nx.Graph):
    G = d()
    for i, (u, v) in enumerate([('a', 'b'), ('b', 'c'), ('c', 'd'), ('d', 'd'), ('a', 'e')]):
        G.add_edge(u, v, weight=i + 1, w2=5 - i, when='T%d' % i)
    for i, n in enumerate(sorted(G)):
        G.nodes[n].update(count=i, c2=4 - i, mode='AB'[i % 2])
    G.add_node('z', c2=0, mode='A')
    G.add_edge('e', 'z', w2=1, when='T9')
    return G


def with_graph(f):
    def go(p, **kw):
        G = weighted()
        r = f(G, p, **kw)
        return G, r
    return go


def written(f):
    return lambda p, **kw: f(rich(), p, **kw)


# the operation -> (the call, option -> values)
OPTIONS = {
    'diffusionCount': (lambda p, **k: mk.diffusionCount(*some(), **k), {'sourceType': ['authorsFull', 'year'], 'extraValue': ['year', 'keywords'], 'pandasFriendly': [True], 'compareCounts': [True], 'numAuthors': [False], 'useAllAuthors': [False], 'extraMapping': [lambda v: 'm%s' % (v,)]}),
    'diffusionGraph': (lambda p, **k: mk.diffusionGraph(*some(), **k), {'weighted': [False], 'sourceType': ['authorsFull', 'keywords'], 'targetType': ['keywords', 'AF'], 'labelEdgesBy': ['year', 'keywords']}),
    'diffusionAdd': (lambda p, **k: (lambda G: (mk.diffusionAddCountsFromSource(G, *some(), **k), G))(rich().networkCitation() if 'nodeType' not in k else rich().networkCoAuthor()), {'nodeType': ['authorsFull'], 'extraType': ['year'], 'diffusionLabel': ['DD'], 'extraKeys': [[1990]], 'countsDict': [{}], 'extraMapping': [str]}),
    'coAuthor': (lambda p, **k: rich().networkCoAuthor(**k), {'detailedInfo': [True, ['title', 'year']], 'weighted': [False], 'dropNonJournals': [True], 'count': [False], 'useShortNames': [True], 'citeProfile': [True]}),
    'coCitation': (lambda p, **k: rich().networkCoCitation(**k), {'dropAnon': [False], 'nodeType': ['author', 'year'], 'nodeInfo': [False], 'fullInfo': [True], 'weighted': [False], 'dropNonJournals': [True], 'count': [False], 'keyWords': ['src'], 'detailedCore': [True, ['AF']], 'detailedCoreAttributes': [True], 'coreOnly': [True], 'expandedCore': [True], 'addCR': [True]}),
    'citation': (lambda p, **k: rich().networkCitation(**k), {'dropAnon': [True], 'nodeType': ['author'], 'nodeInfo': [False], 'fullInfo': [True], 'weighted': [False], 'dropNonJournals': [True], 'count': [False], 'directed': [False], 'keyWords': ['a'], 'detailedCore': [False], 'detailedCoreAttributes': [True], 'coreOnly': [True], 'expandedCore': [True], 'recordToCite': [False], 'addCR': [True]}),
    'coupling': (lambda p, **k: rich().networkBibCoupling(**k), {'weighted': [False], 'fullInfo': [True], 'addCR': [True]}),
    'oneMode': (lambda p, **k: rich().networkOneMode('keywords', **k), {'nodeCount': [False], 'edgeWeight': [False], 'stemmer': [first], 'edgeAttribute': ['year', 'keywords'], 'nodeAttribute': ['year', 'AF']}),
    'twoMode': (lambda p, **k: rich().networkTwoMode('keywords', 'AF', **k), {'directed': [True], 'recordType': [False], 'nodeCount': [False], 'edgeWeight': [False], 'stemmerTag1': [first], 'stemmerTag2': [first], 'edgeAttribute': ['year']}),
    'multiLevel': (lambda p, **k: rich().networkMultiLevel('keywords', 'AF', 'year', **k), {'nodeCount': [False], 'edgeWeight': [False], 'stemmer': [first], 'edgeAttribute': ['year'], 'nodeAttribute': ['year']}),
    'nMode': (lambda p, **k: rich().networkMultiMode('keywords', 'AF', 'year', **k), {'recordType': [False], 'nodeCount': [False], 'edgeWeight': [False], 'stemmer': [first], 'edgeAttribute': ['year']}),
    'forNLP': (written(lambda R, p, **k: R.forNLP(p + '/n.csv', **k)), {'extraColumns': [['AF', 'year']], 'dropList': [['the', 'of']], 'lower': [False], 'removeNumbers': [False], 'removeNonWords': [False], 'removeWhitespace': [False], 'removeCopyright': [True], 'stemmer': [str.upper]}),
    'forBurst': (written(lambda R, p, **k: R.forBurst('title', p + '/b.csv', **k)), {'dropList': [['the', 'of']], 'lower': [False], 'removeNumbers': [False], 'removeNonWords': [False], 'removeWhitespace': [False], 'stemmer': [str.upper]}),
    'rpys': (written(lambda R, p, **k: R.rpys(**k)), {'minYear': [1975], 'maxYear': [1985], 'dropYears': [[1970]], 'rankEmptyYears': [True]}),
    'writeCSV': (written(lambda R, p, **k: R.writeCSV(p + '/w', **k)), {'splitByTag': ['year'], 'onlyTheseTags': [['UT', 'AF', 'PY']], 'numAuthors': [False], 'genderCounts': [False], 'longNames': [True], 'firstTags': [['TI', 'UT']], 'csvDelimiter': [';'], 'csvQuote': ["'"], 'listDelimiter': ['/']}),
    'timeSeries': (written(lambda R, p, **k: R.timeSeries('keywords', outputFile=p + '/t', **k)), {'giveYears': [False], 'greatestFirst': [False], 'limitTo': [['k1']], 'pandasMode': [False]}),
    'rankedSeries': (written(lambda R, p, **k: R.rankedSeries('keywords', outputFile=p + '/t', **k)), {'giveCounts': [False], 'giveRanks': [True], 'greatestFirst': [False], 'limitTo': [['k1']], 'pandasMode': [False]}),
    'makeDict': (written(lambda R, p, **k: R.makeDict(**k)), {'onlyTheseTags': [['UT', 'AF', 'PY']], 'longNames': [True], 'raw': [True], 'numAuthors': [False], 'genderCounts': [False]}),
    'stats': (written(lambda R, p, **k: R.localCiteStats(**k)), {'pandasFriendly': [True], 'keyType': ['author', 'year']}),
    'getCitations': (written(lambda R, p, **k: R.getCitations(**k)), {'field': ['year', 'author'], 'values': [[1970, 'Z Z']], 'pandasFriendly': [False], 'counts': [False]}),
    'coInvestigator': (lambda p, **k: grants(p).networkCoInvestigator(**k), {'targetTags': [['ProjectLead'], ['Name-Nom']], 'tagSeperator': [' '], 'count': [False], 'weighted': [False]}),
    'coInstitution': (lambda p, **k: grants(p).networkCoInvestigatorInstitution(**k), {'targetTags': [['Institution-Établissement']], 'tagSeperator': [' '], 'count': [False], 'weighted': [False]}),
    'writeEdgeList': (with_graph(lambda G, p, **k: mk.writeEdgeList(G, p + '/e', **k)), {'extraInfo': [False], 'allSameAttribute': [True]}),
    'writeNodeAttributeFile': (with_graph(lambda G, p, **k: mk.writeNodeAttributeFile(G, p + '/e', **k)), {'allSameAttribute': [True]}),
    'writeGraph': (with_graph(lambda G, p, **k: mk.writeGraph(G, p + '/e', **k)), {'edgeInfo': [False], 'typing': [True], 'suffix': ['x'], 'overwrite': [False]}),
    'writeTnetFile': (lambda p, **k: mk.writeTnetFile(rich().networkTwoMode('keywords', 'AF'), p + '/e', 'type', **k), {'weighted': [True], 'sourceMode': ['keywords', 'AF', 'no'], 'weightString': ['no']}),
    'dropEdges': (with_graph(lambda G, p, **k: mk.dropEdges(G, **k)), {'minWeight': [2], 'maxWeight': [3], 'parameterName': ['w2'], 'ignoreUnweighted': [True], 'dropSelfLoops': [True]}),
    'dropNodesByDegree': (with_graph(lambda G, p, **k: mk.dropNodesByDegree(G, **k)), {'minDegree': [2], 'maxDegree': [2], 'useWeight': [False], 'parameterName': ['w2'], 'includeUnweighted': [False]}),
    'dropNodesByCount': (with_graph(lambda G, p, **k: mk.dropNodesByCount(G, **k)), {'minCount': [2], 'maxCount': [3], 'parameterName': ['c2'], 'ignoreMissing': [True]}),
    'mergeGraphs': (lambda p, **k: (lambda G: (mk.mergeGraphs(G, graph(), **k), G))(weighted()), {'incrementedNodeVal': ['c2'], 'incrementedEdgeVal': ['w2']}),
    'readGraph': (lambda p, **k: rw2(p, **k), {'directed': [True], 'idKey': ['count'], 'eSource': ['weight'], 'eDest': ['Source']}),
    'cooccurrenceCounts': (written(lambda R, p, **k: (R.cooccurrenceCounts('keywords', *k.get('tags', ['AF'])))), {'tags': [['year', 'AF'], ['citations']]}),
    'citeFilter': (written(lambda R, p, **k: R.citeFilter(**k)), {'keyString': ['src', 'Z Z'], 'field': ['author', 'journal'], 'reverse': [True], 'caseSensitive': [True]}),
    'yearSplit': (written(lambda R, p, **k: R.yearSplit(1990, 1991, **k)), {'dropMissingYears': [False]}),
    'read': (lambda p, **k: mk.RecordCollection(os.path.dirname(put(p, 'one.isi', 'two.isi', 'bad.isi')), **k), {'name': ['given'], 'extension': ['.isi', 'o'], 'cached': [True], 'quietStart': [True]}),
    'read list': (lambda p, **k: mk.RecordCollection(recs(), **k), {'name': ['given'], 'extension': ['.isi'], 'cached': [True], 'quietStart': [True]}),
    'read grants': (lambda p, **k: mk.GrantCollection(os.path.dirname(putg(p)), **k), {'name': ['given'], 'extension': ['.csv', 'no'], 'cached': [True], 'quietStart': [True]}),
}


def rw2(p, **k):
    mk.VERBOSE_MODE, v = False, mk.VERBOSE_MODE
    try:
        mk.writeGraph(weighted(), p + '/g')
    finally:
        mk.VERBOSE_MODE = v
    return mk.readGraph(p + '/g_edgeList.csv', p + '/g_nodeAttributes.csv', **k)


def option_cases(tier):
    """All combinations of up to two (three) options, and all of them together."""
    for n, (f, opts) in OPTIONS.items():
        names = sorted(opts)
        top = 3 if tier == 'thorough' else 2
        for k in range(top + 1):
            for c in itertools.combinations(names, k):
                for vs in itertools.product(*[range(len(opts[o])) for o in c]):
                    yield [n, [list(x) for x in zip(c, vs)]]
        if len(names) > top:
            yield [n, [[o, 0] for o in names]]
            for skip in names:
                yield [n, [[o, 0] for o in names if o != skip]]


def run_option(ctx, case):
    n, given = case
    f, opts = OPTIONS[n]
    kw = {o: opts[o][i] for o, i in given}
    call = lambda d: f(d, **copy.deepcopy(kw))
    OPS['?'] = call
    b.journals({'SRC': ['The Source']})
    run_op(ctx, ['?', 0])


def wrap(run):
    def go(ctx, case):
        sched.install()
        return run(ctx, case)
    return go


SCENARIOS = [
    Scenario('options', option_cases, wrap(run_option), bounds='%d operations with every combination of up to two (thorough three) options set to something else than their default, with all, and with all but one of them: the same with the display on as off' % len(OPTIONS), timeout=120),
    Scenario('bar', bar_cases, wrap(run_bar), bounds='10 scripts (finish, exit, exception; 0-2 updates) x terminals of 12 widths, none, resized, x 5 clocks: every schedule of worker and display thread with <=3 (4 thorough) preemptions at source lines for three terminals, <=2 (3) for the others, <=1 (2) at byte codes', timeout=600),
    Scenario('operations', op_cases, wrap(run_op), bounds='79 library operations, also failing ones and on empty inputs, with the display on: every schedule with <=1 (2 thorough) preemptions at lines of the bar', timeout=600),
]
