"""C16: a cached directory read always equals a fresh read.

The oracle is always the same constructor without cached=True on the same
directory at that moment, plus the bytes of the files in it."""
import builtins
import os
import pickle
import subprocess
import sys
import metaknowledge as mk
from metaknowledge import RecordCollection, GrantCollection
from mc import files
from mc.core import Scenario, histories
from mc.sizes import sizes

#kind -> class, damaged allowed formats
CLS = {'R': RecordCollection, 'G': GrantCollection}
NAMES = {'R': {'A': ('a.isi', 'wos'), 'B': ('b.txt', 'medline'), 'C': ('c.isi', 'scopus')},
         'G': {'A': ('NSERC_a.csv', 'nserc'), 'B': ('b.xml', 'nsf'), 'C': ('cihr_c.csv', 'cihr')}}
EXTS = {'R': ['', '.isi'], 'G': ['', '.csv']}
VERSIONS = {0: ([(1, 'One')], True), 1: ([(1, 'One'), (2, 'Two')], True), 2: ([(1, 'Changed')], True), 3: ([(3, 'Three')], False)}


def content(kind, slot, ver):
    name, fmt = NAMES[kind][slot]
    recs, ok = VERSIONS[ver]
    base = {'A': 100, 'B': 200, 'C': 300}[slot]
    return (files.RECORDS if kind == 'R' else files.GRANTS)[fmt]([(base + n, t) for n, t in recs], ok)


class Dir(object):
    def __init__(self, ctx, kind):
        self.ctx, self.kind, self.clock = ctx, kind, 1000000.0
        self.d = ctx.path('data')
        os.makedirs(self.d)

    def caches(self):
        return sorted(f for f in os.listdir(self.d) if f.endswith('DirCache'))

    def put(self, slot, ver, delta=10.0):
        p = os.path.join(self.d, NAMES[self.kind][slot][0])
        with open(p, 'wb') as f:
            f.write(content(self.kind, slot, ver))
        self.clock += abs(delta)
        os.utime(p, (self.clock, self.clock) if delta > 0 else (1000000.0 - self.clock, 1000000.0 - self.clock))

    def remove(self, slot):
        os.remove(os.path.join(self.d, NAMES[self.kind][slot][0]))

    def data(self):
        out = {}
        for f in os.listdir(self.d):
            if not f.endswith('DirCache'):
                p = os.path.join(self.d, f)
                out[f] = (open(p, 'rb').read(), os.stat(p).st_mtime)
        return out

    def read(self, what, ext='', name='', cls=None):
        """cached read == fresh read, data untouched"""
        cls = cls or CLS[self.kind]
        before = self.data()
        self.ctx.step(2)
        kw = {'extension': ext, 'name': name}
        got = attempt(lambda: cls(self.d, cached=True, **kw))
        self.ctx.eq(self.data(), before, what + ': data files after a cached read')
        want = attempt(lambda: cls(self.d, **kw))
        self.ctx.eq(got, want, what + ': cached read against fresh read')
        return got


def attempt(fn):
    try:
        return files.dump(fn())
    except mk.mkException as e:
        return (type(e).__name__, str(e))


# ------------------------------------------------------------------ histories

DAMAGE = ['delete', 'empty', 'half', 'garbage', 'append', 'old version', 'swap']


def ops(kind, tier):
    out = [('read', e, n) for e in EXTS[kind] for n in ('', 'N')]
    out += [('put', s, v) for s in ('A', 'B') for v in ((0, 1) if tier == 'quick' else (0, 1, 2, 3))]
    out += [('putold', 'A', 2), ('remove', 'A'), ('remove', 'B'), ('replace', 'A', 'C'), ('putbad', 'A', 3)]
    out += [('damage', d) for d in DAMAGE]
    return out


def model(kind):
    """state: (files {slot: (ver, stamp)}, caches {ext: (name, snapshot) or 'damaged'})"""
    def apply(st, op):
        fs, cs = dict(st[0]), dict(st[1])
        if op[0] == 'read':
            snap = tuple(sorted((s, v) for s, v in fs.items() if NAMES[kind][s][0].endswith(op[1])))
            cs[op[1]] = (op[2], snap)
        elif op[0] in ('put', 'putold', 'putbad'):
            stamp = fs.get(op[1], (0, 0))[1] + 1
            fs[op[1]] = (op[2], stamp if op[0] != 'putold' else -1)
        elif op[0] == 'remove':
            if op[1] not in fs:
                return None
            del fs[op[1]]
        elif op[0] == 'replace':
            if op[1] not in fs or op[2] in fs:
                return None
            fs[op[2]] = fs.pop(op[1])
        else:
            if not cs:
                return None
            if op[1] == 'swap' and len(cs) < 2:
                return None
            cs = {k: ('x', op[1]) for k in cs} if op[1] != 'delete' else {}
        return (fs, cs)

    def canon(st):
        #what matters: for every cache whether it is current, stale or damaged
        fs, cs = st
        cur = []
        for e, c in sorted(cs.items()):
            snap = tuple(sorted((s, v) for s, v in fs.items() if NAMES[kind][s][0].endswith(e)))
            if isinstance(c[1], str):
                cur.append((e, c[1]))
            else:
                diff = tuple((s, s in dict(snap), s in dict(c[1]), dict(snap).get(s) == dict(c[1]).get(s)) for s in 'ABC')
                cur.append((e, c[0], diff))
        return (tuple(sorted((s, v[0]) for s, v in fs.items())), tuple(cur))
    return apply, canon


def history_cases(tier):
    for kind in 'RG':
        apply, canon = model(kind)
        O = ops(kind, tier)
        init = ({'A': (0, 0), 'B': (0, 0)}, {})
        for h in histories(init, lambda st: O, apply, canon, 5 if tier == 'quick' else 7, 4):
            #histories that end in anything else than a read check nothing new
            if h[-1][0] == 'read':
                yield {'kind': kind, 'ops': [list(o) for o in h]}


def run_history(ctx, case):
    D = Dir(ctx, case['kind'])
    D.put('A', 0)
    D.put('B', 0)
    for i, op in enumerate(case['ops']):
        what = '{} step {} {}'.format(case['ops'], i, op)
        if op[0] == 'read':
            D.read(what, op[1], op[2])
        elif op[0] == 'put' or op[0] == 'putbad':
            #within the same second, and later
            D.put(op[1], op[2], 2 ** -10 if op[1] == 'A' else 10.0)
        elif op[0] == 'putold':
            D.put(op[1], op[2], -10.0)
        elif op[0] == 'remove':
            D.remove(op[1])
        elif op[0] == 'replace':
            p = os.path.join(D.d, NAMES[D.kind][op[1]][0])
            m = os.stat(p).st_mtime
            D.remove(op[1])
            D.put(op[2], 1)
            os.utime(os.path.join(D.d, NAMES[D.kind][op[2]][0]), (m, m))
        else:
            damage(D, op[1])
        ctx.state((case['kind'], sorted(D.data()), D.caches()))


def damage(D, how):
    caches = [os.path.join(D.d, c) for c in D.caches()]
    raw = [open(c, 'rb').read() for c in caches]
    if how == 'swap':
        raw = raw[1:] + raw[:1]
    for c, r in zip(caches, raw):
        if how == 'delete':
            os.remove(c)
            continue
        if how == 'empty':
            r = b''
        elif how == 'half':
            r = r[:len(r) // 2]
        elif how == 'garbage':
            r = b'\x00garbage' + r[::-1]
        elif how == 'append':
            r = r + b'more'
        elif how == 'old version':
            r = r.replace(b'metaknowledge Version', b'metaknowledge version')
        with open(c, 'wb') as f:
            f.write(r)


# ------------------------------------------------------------ torn cache files

FMTS = {'R': ['wos', 'medline', 'scopus', 'proquest'], 'G': ['cihr', 'nserc', 'nsf', 'other']}


def all_formats(ctx, kind, ok=True, sub='data'):
    d = ctx.path(sub)
    os.makedirs(d)
    for i, f in enumerate(FMTS[kind]):
        name = '{}.src'.format(f) if kind == 'R' else files.GRANTNAME[f].format(f)
        p = os.path.join(d, name)
        with open(p, 'wb') as h:
            h.write((files.RECORDS if kind == 'R' else files.GRANTS)[f]([(10 * i + 1, 'One'), (10 * i + 2, 'Two')], ok))
        os.utime(p, (1000000 + i, 1000000 + i))
    return d


def torn_cases(tier):
    block = 64
    for kind in 'RG':
        for ok in (True, False):
            for b in range(0, 200):
                if tier == 'quick' and not ok and b % 4:
                    continue
                yield {'kind': kind, 'ok': ok, 'lo': b * block, 'hi': (b + 1) * block}


def run_torn(ctx, case):
    d = all_formats(ctx, case['kind'], case['ok'])
    cls = CLS[case['kind']]
    want = files.dump(cls(d))
    ctx.eq(files.dump(cls(d, cached=True)), want, 'first cached read')
    cache, = [os.path.join(d, f) for f in os.listdir(d) if f.endswith('DirCache')]
    full = open(cache, 'rb').read()
    ctx.eq(files.dump(cls(d, cached=True)), want, 'second cached read')
    if len(full) > 200 * 64:
        raise RuntimeError('cache larger than the enumerated bound')
    for n in range(case['lo'], min(case['hi'], len(full))):
        with open(cache, 'wb') as f:
            f.write(full[:n])
        ctx.step()
        try:
            got = files.dump(cls(d, cached=True))
        except Exception as e:
            got = repr(e)
        ctx.eq(got, want, 'cache cut after {} of {} bytes'.format(n, len(full)))
        #the damaged cache must have been replaced by a whole one
        ctx.true(not os.path.exists(cache) or open(cache, 'rb').read() != full[:n], 'cache cut after {} bytes was not replaced'.format(n))


# -------------------------------------------------------- foreign cache content

def foreign_cases(tier):
    for kind in 'RG':
        for what in ['None', 'int', 'pair', 'dicts', 'list', 'text', 'other kind', 'other directory', 'other name', 'other version', 'version last', 'version middle', 'version first', 'version prefix', 'version longer', 'other extension', 'record', 'renamed directory', 'moved directory', 'copied directory']:
            yield {'kind': kind, 'what': what}


def run_foreign(ctx, case):
    kind, w = case['kind'], case['what']
    cls = CLS[kind]
    d = all_formats(ctx, kind)
    cls(d, cached=True)
    cache, = [os.path.join(d, f) for f in os.listdir(d) if f.endswith('DirCache')]
    full = open(cache, 'rb').read()
    new = None
    try:
        dat, RC = pickle.loads(full)
        known = isinstance(dat, dict) and isinstance(RC, cls)
    except Exception:
        known = False
    if not known and (w in ('record', 'other kind', 'other name', 'other version', 'other extension') or w.startswith('version')):
        return          # the cache has another layout than the one these cases edit
    if w in ('None', 'int', 'pair', 'dicts', 'list', 'text'):
        new = {'None': None, 'int': 3, 'pair': (1, 2), 'dicts': ({}, {}), 'list': [], 'text': 'ab'}[w]
    elif w == 'record':
        new = (dat, RC.peek())
    elif w == 'other kind':
        new = (dat, (GrantCollection if kind == 'R' else RecordCollection)())
    elif w == 'other directory':
        d2 = all_formats(ctx, kind, False, 'more')
        cls(d2, cached=True)
        c2, = [os.path.join(d2, f) for f in os.listdir(d2) if f.endswith('DirCache')]
        new = pickle.loads(open(c2, 'rb').read())
    elif w.startswith('version'):
        if not isinstance(dat.get('metaknowledge Version'), str):
            return
        v = dat['metaknowledge Version'].split('.')
        v = {'version last': v[:-1] + [v[-1] + '9'], 'version middle': v[:1] + ['99'] + v[2:], 'version first': ['9'] + v[1:], 'version prefix': v[:-1], 'version longer': v + ['1']}[w]
        dat['metaknowledge Version'] = '.'.join(v)
        RC.name = 'wrong'
        new = (dat, RC)
    elif w.startswith('other '):
        k = {'other name': 'Collection Name', 'other version': 'metaknowledge Version', 'other extension': 'File Extension'}[w]
        if k not in dat:
            return
        dat[k] = 'else'
        RC.name = 'wrong'
        new = (dat, RC)
    else:
        import shutil
        d2 = ctx.path('renamed' if w == 'renamed directory' else 'sub/data')
        os.makedirs(os.path.dirname(d2), exist_ok=True)
        if w == 'copied directory':
            shutil.copytree(d, d2)
            for i, f in enumerate(sorted(os.listdir(d2))):
                os.utime(os.path.join(d2, f), (1000000 + i, 1000000 + i))
        else:
            os.rename(d, d2)
        d = d2
    if new is not None:
        with open(cache, 'wb') as f:
            pickle.dump(new, f)
    for n in range(2):
        ctx.step()
        got = attempt(lambda: cls(d, cached=True))
        ctx.eq(got, attempt(lambda: cls(d)), '{}: cached read {} against fresh read'.format(case, n))


# -------------------------------------------- single files and other inputs

def single_cases(tier):
    for kind in 'RG':
        for f in FMTS[kind]:
            for ok in (True, False):
                yield {'kind': kind, 'fmt': f, 'ok': ok}


def run_single(ctx, case):
    kind = case['kind']
    cls = CLS[kind]
    d = ctx.path('x')
    os.makedirs(d)
    name = '{}.src'.format(case['fmt']) if kind == 'R' else files.GRANTNAME[case['fmt']].format('q')
    p = os.path.join(d, name)
    with open(p, 'wb') as f:
        f.write((files.RECORDS if kind == 'R' else files.GRANTS)[case['fmt']]([(1, 'One'), (2, 'Two')], case['ok']))
    for src in ('file', 'iterable', 'nothing'):
        arg = {'file': lambda: p, 'iterable': lambda: list(cls(p)), 'nothing': lambda: None}[src]
        ctx.step()
        try:
            got = files.dump(cls(arg(), cached=True))
        except Exception as e:
            got = repr(e)
        ctx.eq(got, files.dump(cls(arg())), '{} cached with a {}'.format(case, src))
        ctx.eq(os.listdir(d), [name], '{}: files next to the input'.format(case))


# ---------------------------------------------- changes while the read goes on

def race_cases(tier):
    for kind in 'RG':
        for cached_before in (False, True):
            for at in range(40):
                for ev in (('put', 'A', 2), ('put', 'B', 1), ('put', 'C', 0), ('put', 'A', 3)):
                    yield {'kind': kind, 'before': cached_before, 'at': at, 'event': list(ev)}


def run_race(ctx, case):
    """Perform the change just before the n-th time the read opens a file, then
    read again: both must agree afterwards."""
    D = Dir(ctx, case['kind'])
    D.put('A', 0)
    D.put('B', 0)
    cls = CLS[case['kind']]
    if case['before']:
        cls(D.d, cached=True)
        D.put('B', 2)
    real, n, done = builtins.open, [0], []

    def opener(file, *a, **k):
        if isinstance(file, str) and file.startswith(D.d):
            if n[0] == case['at'] and not done:
                done.append(file)
                builtins.open = real
                D.put(*case['event'][1:])
                builtins.open = opener
            n[0] += 1
        return real(file, *a, **k)
    builtins.open = opener
    try:
        cls(D.d, cached=True)
    finally:
        builtins.open = real
    if not done:
        return
    ctx.state((case['kind'], case['before'], case['at'], case['event'][1]))
    D.read('{} changed before opening {}'.format(case, os.path.basename(done[0])))


# ----------------------------------------------------- another Python process

CHILD = '''
import sys
sys.path.insert(0, sys.argv[1])
import metaknowledge as mk
mk.VERBOSE_MODE = False
cls = getattr(mk, sys.argv[3])
RC = cls(sys.argv[2], cached=True)
for R in RC:
    for k in R:
        R[k]
    hash(R)
    for c in R.get('citations', None) or ():
        hash(c)
import pickle
open(sys.argv[4], 'wb').write(pickle.dumps(RC))
'''


def process_cases(tier):
    for kind in 'RG':
        for ok in (True, False):
            yield {'kind': kind, 'ok': ok}


def run_process(ctx, case):
    d = all_formats(ctx, case['kind'], case['ok'])
    cls = CLS[case['kind']]
    out = ctx.path('out.pickle')
    env = dict(os.environ, PYTHONHASHSEED='12345', PYTHONDONTWRITEBYTECODE='1')
    subprocess.run([sys.executable, '-W', 'ignore', '-c', CHILD, os.path.dirname(os.path.dirname(mk.__file__)), d, cls.__name__, out], check=True, env=env, timeout=60)
    ctx.step()
    fresh = cls(d)
    for how, RC in (('cache', cls(d, cached=True)), ('pickle', pickle.loads(open(out, 'rb').read()))):
        what = '{} of another process, {}'.format(how, case)
        ctx.eq(files.dump(RC), files.dump(fresh), what)
        ctx.true(RC == fresh and hash(RC) == hash(fresh), what + ' differs from a fresh read')
        ctx.eq(len(RC | fresh), len(fresh), what + ' joined with a fresh read')
        mine = {R.id: R for R in RC}
        for R in fresh:
            Q = mine[R.id]
            ctx.true(R == Q and hash(R) == hash(Q) and Q in fresh and R in RC, what + ' record {}'.format(R.id))
            for k in R:
                a, b = R[k], Q[k]
                ctx.true(a == b, what + ' {} {}: {!r} against {!r}'.format(R.id, k, b, a))
            for x, y in zip(R.get('citations', None) or (), Q.get('citations', None) or ()):
                ctx.true(x == y and hash(x) == hash(y) and len({x, y}) == 1, what + ' citation {}'.format(x))


# ---------------------------------------------------------------------- sizes

def size_cases(tier):
    for n in sizes(301 if tier == 'thorough' else 65):
        for kind in 'RG':
            yield [kind, n]


def sized(ctx, case):
    """Directories of n files of which one is added, changed, touched, replaced or removed between cached reads, and a file of n records"""
    kind, n = case
    d = ctx.path('data')
    os.makedirs(d)
    cls = CLS[kind]

    def put(i, t, recs=None, ok=True, when=0):
        f = FMTS[kind][i % 4] if recs is None else FMTS[kind][0]
        name = '{}.src'.format(i) if kind == 'R' else files.GRANTNAME[f].format(i)
        p = os.path.join(d, name)
        with open(p, 'wb') as h:
            h.write((files.RECORDS if kind == 'R' else files.GRANTS)[f](recs or [(1000 + i, t)], ok))
        os.utime(p, (1000000 + i + when, 1000000 + i + when))
        return p

    def both(what, again=False):
        ctx.step(2)
        got = files.dump(cls(d, cached=True))
        ctx.eq(got, files.dump(cls(d)), '{} of {} files: cached read against fresh read'.format(what, n))
    for i in range(n):
        put(i, 'One')
    both('new')
    both('again')
    for i in sorted({0, n // 2, n - 2, n - 1}):
        p = put(i, 'Two', when=500)
        both('changed file {}'.format(i))
        put(i, 'New', when=500.25)
        both('changed file {} in the same second'.format(i))
        put(i, 'Six', when=-500)
        both('changed to an older file {}'.format(i))
        with open(p, 'rb') as f:
            old = f.read()
        os.remove(p)
        both('removed file {}'.format(i))
        both('still removed file {}'.format(i))
        with open(p, 'wb') as f:
            f.write(old)
        both('added file {}'.format(i))
    put(n, 'x', [(5000 + i, 'T %d' % i) for i in range(n)])
    both('a file of as many records and')
    put(n, 'x', [(5000 + i, 'T %d' % i) for i in range(n - 1)] + [(4999 + n, 'U')], when=5)
    both('its last record changed and')
    both('that again and')
    ctx.state(tuple(case))


SCENARIOS = [
    Scenario('size', size_cases, sized, 'directories of n files with the first, middle or last changed (newer and older), removed, added; a file of n records; n around 4, 5, 8, 10, 16, ... up to 65 (thorough 301)', timeout=240),
    Scenario('histories', history_cases, run_history, 'all histories ending in a read over 15-19 operations (reads with 2 extensions x 2 names, changes with newer (within the same second or not) and older times, removals, same-size replacements, 7 kinds of cache damage) up to length 4, then one per (model state, operation) up to length 5 (7)', timeout=60),
    Scenario('torn', torn_cases, run_torn, 'a cache of every record / grant format cut after every byte'),
    Scenario('foreign', foreign_cases, run_foreign, '20 kinds of cache content that is not the cache of this read (other versions, names, kinds, directories)'),
    Scenario('single', single_cases, run_single, 'cached=True with files of every format, iterables and nothing'),
    Scenario('race', race_cases, run_race, 'a file added or changed just before each file open of a cached read'),
    Scenario('process', process_cases, run_process, 'caches and pickles written by a process with another hash seed', timeout=120),
]
