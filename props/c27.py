"""C27: the journal abbreviation store keeps what it is given.

Model: {database: {abbreviation: set of names}}; the WOS pages are served by a
stand-in for urlopen, the databases are those of the scratch-installed package."""
import io
import itertools
import os
import shutil
import urllib.error
import urllib.request
import metaknowledge
from metaknowledge import Citation, filterNonJournals
from metaknowledge.journalAbbreviations import backend as be
from mc.core import Scenario
from mc.sizes import sizes

DIR = os.path.dirname(os.path.abspath(be.__file__))
assert not DIR.startswith('/repo/'), DIR
MAN, WOS = be.manualDBname, be.abrevDBname

# pages: versions of what the server lists, {letter: [(name, abbreviation)]}
V1 = {'A': [('ALPHA LETTERS', 'ALPHA L'), ('ALPHA LETT B', 'ALPHA L'), ('ATOM', 'ATOM')], 'S': [('SIGMA', 'SIGMA')]}
V2 = {'A': [('ALPHA LETTERS', 'ALPHA L'), ('ALPHA NEW', 'ALPHA L')], 'Z': [('ZETA', 'ZETA'), ('ATOM SECTION Z', 'ATOM')]}
V3 = {'S': [('SIGMA', 'SIGMA'), ('SIGMA', 'SIGMA')], 'T': [('SIGMA T', 'SIGMA')], '0-9': [('4OR', '4OR')]}
PAGES = {1: V1, 2: V2, 3: V3}
# a page always lists something
FILL = 'Q J %s'


def listing(pages):
    out = {}
    for l in URLS:
        for n, a in pages.get(l, []) or [(FILL % l, FILL % l)]:
            out.setdefault(a, set()).add(n)
    return out


def page(rows):
    s = '<HTML><BODY>\n<DL>\n'
    first = True
    for n, a in rows:
        s += ('<A NAME="X"></A><DT>%s\n' % n) if first else ('</B><DT>%s\n' % n)
        s += '<B><DD>\t%s\n' % a
        first = False
    return (s + '</B></DL>\n</BODY></HTML>\n').encode('utf-8')


URLS = ['0-9'] + [chr(c) for c in range(65, 91)]


def serve(pages, fail=None):
    """fail: (letter, kind): what happens at that page"""
    def urlopen(url, *a, **k):
        l = url.split('/')[-1].split('_')[0]
        if fail and fail[0] == l:
            if fail[1] == 'url':
                raise urllib.error.URLError('no network')
            if fail[1] == 'interrupt':
                raise KeyboardInterrupt()
            if fail[1] == 'http':
                raise urllib.error.HTTPError(url, 503, 'busy', {}, io.BytesIO(b''))
            if fail[1] == 'page':
                return io.BytesIO(b'<HTML>\nNot here\n</HTML>\n')
            if fail[1] == 'bytes':
                return io.BytesIO(page([('X', 'X')]) + b'\xff\xfe')
        if pages is None:
            raise urllib.error.URLError('no network')
        return io.BytesIO(page(pages.get(l, []) or [(FILL % l, FILL % l)]))
    urllib.request.urlopen = urlopen


ABBRS = ['ALPHA L', 'ATOM', 'SIGMA', 'ZETA', '4OR', 'NEW J', 'ÉTUD J', 'NOWHERE']
CITES = {a: 'Doe J, 1999, %s, V1, P2' % a for a in ABBRS}


class Store(object):
    def __init__(self, ctx, man):
        self.ctx = ctx
        self.real = urllib.request.urlopen
        for f in os.listdir(DIR):
            if f.endswith(('.dat', '.dir', '.bak')):
                os.remove(os.path.join(DIR, f))
        serve(V1)
        be.updatej9DB()
        self.wos = listing(V1)
        self.man = {}
        if man:
            be.addToDB()
            self.man[MAN] = {}
        self.cites = {a: Citation(t) for a, t in CITES.items()}
        self.cites['none'] = Citation('Doe J, 1999')

    def close(self):
        urllib.request.urlopen = self.real

    def table(self, mode, man=MAN):
        d = {}
        if mode in ('both', 'WOS'):
            d.update(self.wos)
        if mode in ('both', 'manual'):
            d.update(self.man.get(man, {}))
        return d

    def names(self, got, what):
        out = {}
        for k, v in got.items():
            self.ctx.true(isinstance(v, list) and len(set(v)) == len(v), '%s: names of %r are %r' % (what, k, v))
            out[k] = set(v)
        return out

    def check(self, what):
        ctx = self.ctx
        for man in [MAN] + [m for m in self.man if m != MAN]:
            for mode in ('both', 'WOS', 'manual'):
                w = '%s, %s %s' % (what, mode, man)
                if mode == 'manual' and man not in self.man:
                    ctx.raises((metaknowledge.mkException,), lambda: be.getj9dict(manualDB=man, returnDict=mode), w)
                    continue
                want = self.table(mode, man)
                ctx.eq(self.names(be.getj9dict(manualDB=man, returnDict=mode), w), want, w)
                for a, c in self.cites.items():
                    ns = want.get(a, set())
                    ctx.eq(bool(c.isJournal(manualDB=man, returnDict=mode)), bool(ns - {''}), '%s: isJournal of %s' % (w, a))
                    ctx.eq(bool(c.isJournal(manualDB=man, returnDict=mode, checkIfExcluded=True)), ns == {''}, '%s: excluded %s' % (w, a))
        ctx.eq(self.names(be.getj9dict(), what), self.table('both'), what)
        want = self.table('both')
        js = []
        for a, c in self.cites.items():
            ns = want.get(a, set()) - {''}
            n = c.FullJournalName()
            ctx.true(n in ns if ns else n is None, '%s: full name of %s is %r, stored are %r' % (what, a, n, ns))
            if ns:
                js.append(a)
        order = list(self.cites)
        for lst in (order, order[::-1] + order[:2]):
            cs = [self.cites[a] for a in lst]
            ctx.eq([str(c) for c in filterNonJournals(cs)], [str(self.cites[a]) for a in lst if a in js], what + ': journals')
            ctx.eq([str(c) for c in filterNonJournals(cs, invert=True)], [str(self.cites[a]) for a in lst if a not in js], what + ': others')
            ctx.eq(len(cs), len(lst), what + ': the list is kept')

    def put(self, d, man=MAN):
        self.man.setdefault(man, {}).update(d)

    def merge(self, pages):
        for a, ns in listing(pages).items():
            self.wos[a] = self.wos.get(a, set()) | ns

    def op(self, op):
        k, ctx = op[0], self.ctx
        if k == 'add':
            a = op[1]
            be.addToDB(a) if len(op) < 3 else be.addToDB(a, dbname=op[2])
            self.put({a: {a}} if isinstance(a, str) else {x: set(n.split('|')) for x, n in (a or {}).items()}, *op[2:])
        elif k == 'exclude':
            a = op[1]
            if len(op) > 2 and op[2] == 'tuple':
                be.excludeFromDB(tuple(a))
            elif len(op) > 2:
                be.excludeFromDB(a, dbname=op[2])
            else:
                be.excludeFromDB(a)
            self.put({x: {''} for x in ([a] if isinstance(a, str) else a or [])}, *([] if len(op) < 3 or op[2] == 'tuple' else [op[2]]))
        elif k == 'cite':
            c = Citation(CITES[op[1]])
            kw = dict(op[2])
            c.addToDB(**kw)
            n = {''} if kw.get('invert') else set(kw['manualName'].split('|')) if kw.get('manualName') else {op[1]}
            self.put({op[1]: n}, *([kw['manualDB']] if 'manualDB' in kw else []))
        elif k == 'nojournal':
            ctx.raises((KeyError,), lambda: Citation('Doe J, 1999').addToDB(), 'citation without a journal')
        elif k == 'bad':
            self.put({})
            ctx.raises((TypeError,), lambda: (be.addToDB if op[1] == 'add' else be.excludeFromDB)(5), 'a number as abbreviation')
        elif k == 'update':
            serve(PAGES[op[1]])
            be.updatej9DB()
            self.merge(PAGES[op[1]])
        elif k == 'raw':
            serve(PAGES[op[1]])
            cwd = os.getcwd()
            be.updatej9DB(saveRawHTML=True)
            ctx.eq(os.getcwd(), cwd, 'working directory')
            self.merge(PAGES[op[1]])
        elif k == 'fail':
            serve(PAGES[op[1]], (op[2], op[3]))
            try:
                be.updatej9DB()
                ctx.true(False, 'the failed update is reported')
            except (Exception, KeyboardInterrupt) as e:
                if type(e).__name__ == 'Violation':
                    raise
                if op[3] in ('url', 'http'):
                    ctx.true(isinstance(e, urllib.error.URLError), 'without a connection the update says so, not {!r}'.format(e))
        # nothing is fetched unless asked for
        serve(None)


OPS = [
    ['add', 'ATOM'], ['add', {'ATOM': 'Atom One|Atom Two', 'NEW J': 'New Journal'}], ['add', {'SIGMA': ''}], ['add', {'ÉTUD J': 'Études|Ünï'}], ['add', None],
    ['add', {'NEW J': 'Other'}, 'otherJ9'],
    ['exclude', 'ATOM'], ['exclude', ['NEW J', 'ALPHA L']], ['exclude', ['ATOM'], 'tuple'], ['exclude', 'NEW J', 'otherJ9'],
    ['cite', 'ATOM', {}], ['cite', 'NEW J', {'manualName': 'Named'}], ['cite', 'ALPHA L', {'invert': True}], ['cite', 'ATOM', {'manualName': 'In Other', 'manualDB': 'otherJ9'}],
    ['update', 2], ['update', 3], ['fail', 2, 'Z', 'url'],
    ['bad', 'add'], ['bad', 'exclude'], ['nojournal'],
]


def run(ctx, case):
    man, ops = case
    s = Store(ctx, man)
    try:
        serve(None)
        if not ops:
            s.check('new')
        for n, op in enumerate(ops):
            ctx.step()
            s.op(op)
            # what came before has been checked in a shorter history; looking up in between matters for what is remembered
            s.check('after %r' % (ops[:n + 1],))
        ctx.state(repr((sorted((a, sorted(n)) for a, n in s.wos.items() if not a.startswith('Q J')), sorted((m, sorted((a, sorted(n)) for a, n in d.items())) for m, d in s.man.items()))))
    finally:
        s.close()


def cases(tier):
    for man in (True, False):
        yield [man, []]
        for n in (1, 2):
            for ops in itertools.product(OPS, repeat=n):
                yield [man, list(ops)]
    core = OPS[:3] + OPS[5:8] + OPS[10:13] + OPS[14:17]
    for ops in itertools.product(OPS if tier == 'thorough' else core, repeat=3):
        yield [True, list(ops)]


def run_update(ctx, case):
    kind, letter, v, before = case
    s = Store(ctx, True)
    try:
        s.op(['add', {'ATOM': 'Mine'}])
        if before:
            s.check('before')
        ctx.step()
        s.op(['fail', v, letter, kind])
        s.check('after a %s failure at %s' % (kind, letter))
        s.op(['update', v])
        s.check('after updating again')
        ctx.state((kind, letter))
    finally:
        s.close()


def update_cases(tier):
    for kind in ('url', 'http', 'interrupt', 'page', 'bytes'):
        for l in URLS:
            for v in (2, 3):
                for before in ((True, False) if tier == 'thorough' else (True,)):
                    yield [kind, l, v, before]


def run_pages(ctx, case):
    """The database is what the pages list, whatever page and place an entry is on."""
    first, second = case
    s = Store(ctx, True)
    try:
        s.wos = {}
        for f in os.listdir(DIR):
            if f.startswith(WOS):
                os.remove(os.path.join(DIR, f))
        for pages in (first, second):
            if pages is None:
                continue
            serve(pages)
            ctx.step()
            # the first one is made when it is asked for
            if pages is first:
                be.getj9dict()
                be.addToDB()
            else:
                be.updatej9DB()
            s.merge(pages)
            s.check('pages %r' % (pages,))
        ctx.state(repr(sorted((a, sorted(n)) for a, n in s.wos.items() if not a.startswith('Q J'))))
    finally:
        s.close()


ENTRIES = [('ATOM', 'ATOM'), ('ATOM B', 'ATOM'), ('SIGMA', 'SIGMA')]


def page_sets(n):
    for es in itertools.product(range(3), repeat=n):
        for ls in itertools.product(('A', 'S'), repeat=n):
            p = {}
            for e, l in zip(es, ls):
                p.setdefault(l, []).append(ENTRIES[e])
            yield p


def page_cases(tier):
    for n in (1, 2, 3) + ((4,) if tier == 'thorough' else ()):
        for p in page_sets(n):
            yield [p, None]
    for p in page_sets(1):
        for q in page_sets(2):
            yield [p, q]
            yield [q, p]


def run_raw(ctx, case):
    v, = case
    shutil.rmtree(os.path.join(DIR, 'j9Raws'), ignore_errors=True)
    s = Store(ctx, True)
    try:
        s.op(['raw', v])
        s.check('saving the pages')
        raw = os.path.join(DIR, 'j9Raws')
        ds = os.listdir(raw)
        ctx.eq(len(ds), 1, 'one set of pages')
        got = {f: open(os.path.join(raw, ds[0], f), 'rb').read() for f in os.listdir(os.path.join(raw, ds[0]))}
        ctx.eq(sorted(got.values()), sorted(page(PAGES[v].get(l, []) or [(FILL % l, FILL % l)]) for l in URLS), 'the pages')
    finally:
        s.close()


def size_cases(tier):
    for n in sizes(1025 if tier == 'thorough' else 257):
        for shape in ('page', 'names', 'manual', 'single', 'exclude', 'long'):
            if shape != 'single' or n <= 65:
                yield [shape, n]


def run_size(ctx, case):
    shape, n = case
    s = Store(ctx, True)
    try:
        serve(None)
        ctx.step()
        if shape == 'page':
            p = {'A': [('NAME %d' % i, 'ABBR %d' % i) for i in range(n)] + [('LAST', 'ATOM')]}
        elif shape == 'names':
            p = {'A': [('NAME %d' % i, 'ATOM') for i in range(n)], 'S': [('NAME %d' % i, 'ZETA') for i in range(n, 0, -1)]}
        elif shape == 'long':
            p = {'A': [('N' * n, 'B' * n), ('M ' * n + 'X', 'ZETA')], 'B': [('L' * n, 'B' * n)]}
        if shape in ('page', 'names', 'long'):
            for i in range(2):
                serve(p)
                be.updatej9DB()
                s.merge(p)
        elif shape == 'manual':
            s.op(['add', {'ABBR %d' % i: 'Name %d|Name' % i for i in range(n)}])
            s.op(['add', {'ZETA': '|'.join('Name %d' % i for i in range(n))}])
        elif shape == 'single':
            for i in range(n):
                s.op(['add', 'ABBR %d' % i])
                s.op(['add', {'ZETA': 'Name %d' % i}])
        else:
            s.op(['exclude', ['ABBR %d' % i for i in range(n)] + ['ATOM']])
        serve(None)
        for a in ('ABBR 0', 'ABBR %d' % (n - 1), 'ABBR %d' % n, 'B' * n):
            s.cites[a] = Citation('Doe J, 1999, %s, V1, P2' % a)
        s.check('%s of size %d' % (shape, n))
        ctx.state(tuple(case))
    finally:
        s.close()


SCENARIOS = [
    Scenario('size', size_cases, run_size, bounds='n entries on a page, n names of an abbreviation, n entries added at once and one by one, n excluded, names of n characters; n around 4, 5, 8, 10, 16, ... up to 257 (thorough 1025)', timeout=240),
    Scenario('histories', cases, run, bounds='every history of length <=2 over 20 operations with and without a manual database, every history of length 3 over 12 of them (20 thorough); all look ups compared after every operation'),
    Scenario('failed updates', update_cases, run_update, bounds='each of the 27 pages x 5 kinds of failure x 2 page sets, then a working update'),
    Scenario('pages', page_cases, run_pages, bounds='every placement of <=3 (4 thorough) of 3 entries on two pages, and every pair of a one and a two entry listing in both orders'),
    Scenario('raw pages', lambda tier: iter([[1], [2], [3]]), run_raw, bounds='three page sets, the saved pages and the working directory'),
]
