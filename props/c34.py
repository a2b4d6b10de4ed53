"""C34: a failing disk is reported, never mistaken for the end of a file.

Every file is read and written through mc.faults.Disk, which counts the bytes
transferred over all openings of the watched files and fails the transfer at
one of them; every such point is tried.  The oracle is the run on a working
disk (itself compared with the known contents by the other properties)."""
import gc
import io
import itertools
import os
import pickle
import networkx as nx
import metaknowledge as mk
from mc import build as b
from mc import files
from mc.core import Scenario
from mc.faults import Disk

FORMATS = dict(files.RECORDS, **files.GRANTS)
REFUSED = (OSError, mk.mkExceptions.mkException)
RECS = [(1, 'One'), (2, 'Two')]
ERRORS = {'fails': lambda: None, 'fails once': lambda: None, 'is interrupted': lambda: KeyboardInterrupt('now'), 'is closed': lambda: ValueError('I/O operation on closed file')}


def content(kind, ok):
    data = FORMATS[kind](RECS, ok is not False)
    if ok == 'middle':      # a damaged first record
        data = data.replace(*{'wos': (b'TI One\n', b'TI One\nLONGTAG x\nAB more\n'), 'medline': (b'TI  - One\n', b'TI  - One\nx\n'), 'scopus': (b'"One"', b'"One" x"'),
                              'proquest': (b'ProQuest document ID: 1\n', b'')}[kind])
    return data


def cls(kind):
    return mk.RecordCollection if kind in files.RECORDS else mk.GrantCollection


def fname(kind, i=1):
    return files.GRANTNAME[kind].format(i) if kind in files.GRANTS else 'f%d.txt' % i


def entries(C):
    return sorted((files.entry(R) for R in C), key=repr)


def attempt(ctx, disk, fn):
    """('ok', result) or ('refused', error); anything but a reported failure is passed on"""
    ctx.step()
    with disk:
        try:
            return 'ok', fn()
        except KeyboardInterrupt as e:
            if disk.error is not e:
                raise
            return 'interrupted', e
        except REFUSED as e:
            return 'refused', e
        except Exception as e:
            if disk.error is not e:
                raise
            return 'refused', e


# ------------------------------------------------------------------- reading
def read_cases(tier):
    for kind in FORMATS:
        for ok in (True, False, 'middle') if kind in files.RECORDS else (True, False):
            for how in ('file', 'dir', 'ext', 'one of two'):
                for chunk in (1, 64):
                    for part in range(4):
                        yield dict(kind=kind, ok=ok, how=how, chunk=chunk, part=part, error='fails')
            for error in list(ERRORS)[1:]:
                for how in ('file', 'dir') if tier == 'thorough' or error == 'fails once' else ('file',):
                    for part in range(4):
                        yield dict(kind=kind, ok=ok, how=how, chunk=1, part=part, error=error)


def read(ctx, case):
    kind, how, chunk = case['kind'], case['how'], case['chunk']
    C = cls(kind)
    d = os.path.realpath(ctx.path('d'))
    os.mkdir(d)
    p = os.path.join(d, fname(kind))
    with open(p, 'wb') as f:
        f.write(content(kind, case['ok']))
    if how == 'one of two':
        with open(os.path.join(d, fname(kind, 2)), 'wb') as f:
            f.write(FORMATS[kind]([(3, 'Three'), (4, 'Four')], True))
    ext = os.path.splitext(p)[1]
    load = {'file': lambda: C(p), 'dir': lambda: C(d), 'ext': lambda: C(d, extension=ext), 'one of two': lambda: C(d)}[how]
    clean = load()
    want = files.dump(clean)
    good = [e for e in want['entries'] if not e[2]]
    dry = Disk(d, None, chunk, lambda q: q == p)
    state, got = attempt(ctx, dry, load)
    ctx.eq((state, files.dump(got)), ('ok', want), 'through the working disk {}'.format(case))
    total = dry.used
    step = 4 if ctx.tier == 'thorough' or chunk > 1 else 20
    points = range(case['part'] * (step // 4), total, step)
    outcomes = set()
    for n in points:
        what = 'reading {} ({}), the disk {} after {} of {} bytes'.format(kind, case, case['error'], n, total)
        disk = Disk(d, n, chunk, lambda q: q == p, ERRORS[case['error']](), case['error'] != 'fails')
        state, got = attempt(ctx, disk, load)
        ctx.true(state == 'interrupted' or case['error'] != 'is interrupted', what + ': the interrupt was ignored')
        if state == 'ok':
            now = files.dump(got)
            if now != want:
                ctx.true(got.bad and p in got.errors, what + ': a part was taken for the file: {} of {} entries'.format(now['n'], want['n']))
                #of a file no more than is in it, the other files are whole
                kept = [e for e in now['entries'] if not e[2]]
                ctx.true(all(e in good for e in kept), what + ': made up {!r}'.format([e for e in kept if e not in good]))
                lost = [e for e in good if e not in kept and e[5] != p]
                ctx.eq(lost, [], what + ': lost from another file')
                outcomes.add('flagged')
            else:
                outcomes.add('whole')
        else:
            outcomes.add('refused')
        del got
    gc.collect()
    ctx.eq(files.dump(load()), want, 'reading again after the failures {}'.format(case))
    ctx.state((kind, how, case['ok'], tuple(sorted(outcomes))))


# ------------------------------------------------------------------- writing
def wosrc():
    return mk.RecordCollection([b.wos(n, AU=['Aa, B', 'Cc, D'], AF=['Aa, Bob', 'Cc, Dan'], PY=['200%d' % n], TI=['Title %d' % n], AB=['Some words %d' % n], J9=['JONE'], PT=['J'],
                                      CR=['Xx Y, 1990, JONE, V2, P3']) for n in (1, 2)], name='coll')


def medrc():
    return mk.RecordCollection([b.MedlineRecord(dict(PMID=['%d' % n], AU=['Aa B'], TI=['T%d' % n], DP=['1999'])) for n in (1, 2)], name='coll')


def graph(kind='Graph'):
    G = getattr(nx, kind)()
    for i, n in enumerate('abcd'):
        G.add_node(n, mode='AB'[i % 2], note='x y')
    G.add_edge('a', 'b', weight=2)
    G.add_edge('c', 'd', weight=3)
    G.add_edge('a', 'd', weight=1)
    return G


def numbered():
    G = graph()
    for i, n in enumerate(G, 1):
        G.nodes[n]['tnet-ID'] = i        # writeTnetFile saves its numbers in the graph
    return G


def writers(d):
    """name -> (what is written, call)"""
    def o(n):
        return os.path.join(d, n)
    W = {
        'writeFile': (wosrc, lambda x: x.writeFile(o('w.isi'))),
        'writeFile medline': (medrc, lambda x: x.writeFile(o('w.med'))),
        'writeCSV': (wosrc, lambda x: x.writeCSV(o('w.csv'), genderCounts=False)),
        'writeCSV tags': (wosrc, lambda x: x.writeCSV(o('w.csv'), genderCounts=False, onlyTheseTags=['UT', 'TI'])),
        'writeCSV split': (wosrc, lambda x: x.writeCSV(o('w.csv'), genderCounts=False, splitByTag='PY')),
        'writeBib': (wosrc, lambda x: x.writeBib(o('w.bib'))),
        'forBurst': (wosrc, lambda x: x.forBurst('TI', outputFile=o('w.csv'))),
        'forNLP': (wosrc, lambda x: x.forNLP(o('w.csv'))),
        'rankedSeries': (wosrc, lambda x: x.rankedSeries('AF', outputFile=o('w.csv'))),
        'timeSeries': (wosrc, lambda x: x.timeSeries('AF', outputFile=o('w.csv'))),
        'writeGraph': (graph, lambda x: mk.writeGraph(x, o('w'))),
        'writeEdgeList': (graph, lambda x: mk.writeEdgeList(x, o('w'))),
        'writeEdgeList of nothing': (nx.Graph, lambda x: mk.writeEdgeList(x, o('w'))),
        'writeNodeAttributeFile': (graph, lambda x: mk.writeNodeAttributeFile(x, o('w'))),
        'writeNodeAttributeFile of nothing': (nx.Graph, lambda x: mk.writeNodeAttributeFile(x, o('w'))),
        'writeTnetFile': (numbered, lambda x: mk.writeTnetFile(x, o('w'), 'mode', weighted=True)),
    }
    return W


def write_cases(tier):
    for name in writers('x'):
        for chunk in (1, 16, 8192):
            yield dict(writer=name, chunk=chunk, error='fails')
        for error in ('fails once', 'is interrupted'):
            yield dict(writer=name, chunk=1, error=error)


def contents(d):
    out = {}
    for f in sorted(os.listdir(d)):
        with open(os.path.join(d, f), 'rb') as h:
            out[f] = h.read()
    return out


def wipe(d):
    for f in os.listdir(d):
        os.remove(os.path.join(d, f))


def state_of(x):
    return b.graph_dump(x) if isinstance(x, nx.Graph) else files.dump(x)


def write(ctx, case):
    d = os.path.realpath(ctx.path('out'))
    os.mkdir(d)
    make, call = writers(d)[case['writer']]
    x = make()
    before = state_of(x)
    dry = Disk(d, None, case['chunk'])
    state, _ = attempt(ctx, dry, lambda: call(x))
    ctx.eq(state, 'ok', 'on a working disk')
    total, want = dry.used, contents(d)
    ctx.true(total > 0 and dry.opened > 0 or not dry.opened, 'something is written')
    step = 1 if ctx.tier == 'thorough' or total < 400 else 7
    for n in range(0, total, step):
        wipe(d)
        what = '{}, the disk {} after {} of {} bytes, collected by {}'.format(case['writer'], case['error'], n, total, case['chunk'])
        state, _ = attempt(ctx, Disk(d, n, case['chunk'], None, ERRORS[case['error']](), case['error'] != 'fails'), lambda: call(x))
        ctx.eq(state, 'interrupted' if case['error'] == 'is interrupted' else 'refused', what)
        gc.collect(0)
        ctx.eq(state_of(x), before, what + ' left what it wrote alone')
        if n % 5 == 0:
            #with room again all is written, over the remains
            call(x)
            ctx.eq(contents(d), want, what + ' then with enough room')
        ctx.step()
    wipe(d)
    call(x)
    ctx.eq(contents(d), want, 'afterwards')
    ctx.state((case['writer'], total))


# --------------------------------------------------------------------- cache
def cache_cases(tier):
    for kind in FORMATS:
        for part in range(4):
            yield dict(kind=kind, part=part, side='read')
            yield dict(kind=kind, part=part, side='write')


def cache(ctx, case):
    C = cls(case['kind'])
    d = os.path.realpath(ctx.path('d'))
    os.mkdir(d)
    for i in (1, 2):
        with open(os.path.join(d, fname(case['kind'], i)), 'wb') as f:
            f.write(FORMATS[case['kind']]([(2 * i, 'Even'), (2 * i + 1, 'Odd')], True))
    data = sorted(os.listdir(d))
    want = files.dump(C(d))
    is_cache = lambda q: os.path.basename(q) not in data
    side = case['side']

    def clear():
        for f in os.listdir(d):
            if f not in data:
                os.remove(os.path.join(d, f))
    if side == 'read':
        C(d, cached=True)
    dry = Disk(d, None, 1, is_cache)
    state, got = attempt(ctx, dry, lambda: C(d, cached=True))
    ctx.eq((state, files.dump(got)), ('ok', want), 'cached')
    total = dry.used
    step = 4 * (1 if ctx.tier == 'thorough' else max(1, total // 400))
    for n in range(case['part'] * (step // 4), total, step):
        clear()
        if side == 'read':
            C(d, cached=True)
        what = 'cache of {}, disk failing after {} of {} bytes ({})'.format(case['kind'], n, total, side)
        state, got = attempt(ctx, Disk(d, n, 1, is_cache), lambda: C(d, cached=True))
        if state == 'ok':
            ctx.eq(files.dump(got), want, what)
        ctx.eq(files.dump(C(d, cached=True)), want, what + ', next load')
        ctx.step()
    ctx.eq([f for f in sorted(os.listdir(d)) if f in data], data, 'the files are still there')
    ctx.state((case['kind'], side))


# -------------------------------------------------------------------- graphs
def graph_cases(tier):
    for which in ('edges', 'nodes', 'both'):
        for chunk in (1, 16):
            yield dict(which=which, chunk=chunk)


def graphs(ctx, case):
    d = os.path.realpath(ctx.path('d'))
    os.mkdir(d)
    e, n = os.path.join(d, 'e.csv'), os.path.join(d, 'n.csv')
    mk.writeEdgeList(graph(), e)
    mk.writeNodeAttributeFile(graph(), n)
    load = lambda: mk.readGraph(e, n if case['which'] != 'edges' else None)
    want = b.graph_dump(load())
    watch = {'edges': [e], 'nodes': [n], 'both': [e, n]}[case['which']]
    dry = Disk(d, None, case['chunk'], lambda q: q in watch)
    state, G = attempt(ctx, dry, load)
    ctx.eq((state, b.graph_dump(G)), ('ok', want), 'on a working disk')
    for k in range(dry.used):
        what = 'readGraph, {} failing after {} of {} bytes'.format(case['which'], k, dry.used)
        state, G = attempt(ctx, Disk(d, k, case['chunk'], lambda q: q in watch), load)
        ctx.eq(state, 'refused', what)
    ctx.eq(b.graph_dump(load()), want, 'afterwards')
    ctx.state(case)


SCENARIOS = [
    Scenario('read', read_cases, read, '8 formats x whole or damaged x file, directory, with extension, beside a second file: the disk fails at every 5th (every) byte of all that is read, transfers of 1 or 64 bytes; failing for good, once, interrupted, or with another error', timeout=120),
    Scenario('write', write_cases, write, '16 writers, the disk full at every 7th (every) byte, all bytes of files below 400; collected by 1, 16 or 8192 bytes; failing for good, once, interrupted, or with another error', timeout=120),
    Scenario('cache', cache_cases, cache, '8 formats: reading and writing the cache fails at each of 400 (every) byte', timeout=120),
    Scenario('graphs', graph_cases, graphs, 'edge and node lists failing at every byte'),
]
