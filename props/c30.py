"""C30: every file is read as what it is, and a directory is the union of its files."""
import collections
import contextlib
import itertools
import os
import metaknowledge as mk
from metaknowledge.mkExceptions import BadInputFile, RCTypeError, GrantCollectionException
from mc import files
from mc.sizes import sizes
from mc.core import Scenario

TYPE = {'wos': 'WOSRecord', 'medline': 'MedlineRecord', 'scopus': 'ScopusRecord', 'proquest': 'ProQuestRecord',
        'cihr': 'CIHRGrant', 'nserc': 'NSERCGrant', 'nsf': 'NSFGrant', 'other': 'FallbackGrant'}
UNKNOWN = {'empty': b'', 'text': b'Just\nsome\nnotes\nhere\n', 'oneline': b'x', 'binary': bytes(range(256)) * 3, 'bom': b'\xef\xbb\xbf', 'bomline': b'\xef\xbb\xbfa,b,c\n1,2,3\n',
           'blank': b'\n\n\n\n', 'bar': (files.BAR + '\n').encode(), 'bar2': (files.BAR + '\n\n').encode(), 'bar3': (files.BAR + '\n\nReport from nobody\n\n').encode(),
           'fn': b'FN X\n', 'vr2': b'FN X\nVR 2.0\nPT J\nUT WOS:1\nER\n\nEF\n', 'pmid': b'PMID 12\nTI  - x\n', 'utf16': 'FN X\nVR 1.0\n'.encode('utf-16'), 'nul': b'\0' * 40,
           'bad8': b'\xff\xfe\xfd\nVR\n\x80\n', 'json': b'{"PMID- ": 1}\n', 'mkcsv': b'id,title\nWOS:1,x\n'}
TITLES = ['Plain', 'Using VR 1.0 headsets', 'VR 1.0', 'PMID- 1', 'EF', 'Report Information from ProQuest', 'FN Search', 'a, b', 'ER', '\u00e9t\u00e9', 'VR 1.0 and PMID- 3', files.BAR]
NAMES = ['a.txt', 'a.isi', 'a.csv', 'a', 'cihr_a.csv', 'NSERC_a.csv', 'a.xml', 'wos.medline', 'PMID- .scopus', 'VR 1.0', '.hidden', 'a b\u00e9.TXT', 'a.mkRecordDirCache.txt']


def ids(kind, recs):
    return sorted({'wos': 'WOS:{}', 'medline': 'PMID:{}', 'scopus': 'EID:2-s2.0-{}', 'proquest': 'PROQUEST:{}'}[kind].format(n) for n, t in recs)


def titles(RC):
    return sorted(str(R.get('title')) for R in RC)


#---- one file

def one_cases(tier):
    for kind in files.RECORDS:
        for name in NAMES:
            for n in (1, 2, 3):
                yield dict(kind=kind, name=name, recs=[[i, 'Plain'] for i in range(n)], eol='\n')
        for eol in ('\n', '\r\n'):
            for t in TITLES:
                if kind == 'proquest' and t == files.BAR:
                    #that is the separator of its records
                    continue
                yield dict(kind=kind, name='a.txt', recs=[[1, t]], eol=eol)
                yield dict(kind=kind, name='a.txt', recs=[[1, 'Plain'], [2, t]], eol=eol)
            if tier == 'thorough':
                for t, u in itertools.product(TITLES[:-1], repeat=2):
                    yield dict(kind=kind, name='a.txt', recs=[[1, t], [2, u]], eol=eol)


def variants(kind, data):
    """Ways the same file may have been saved."""
    yield 'as written', data
    if kind == 'wos':
        yield 'without byte order mark', data[3:]
    if kind == 'medline':
        yield 'without a blank first line', data.lstrip(b'\n')
    if kind == 'scopus':
        head, rest = data[3:].split(b'\n', 1)
        cols = head.split(b',')
        for c in ([i for i, x in enumerate(cols) if x in (b'Correspondence Address', b'Editors', b'Source')]):
            rows = [head] + rest.rstrip(b'\n').split(b'\n')
            if b'a, b' in data:
                continue
            yield 'without a column', b'\xef\xbb\xbf' + b'\n'.join(b','.join(x for i, x in enumerate(r.split(b',')) if i != c) if j == 0 else b','.join(x for i, x in enumerate(splitrow(r)) if i != c) for j, r in enumerate(rows)) + b'\n'


def splitrow(r):
    import csv
    return [b'"' + x.encode('utf-8') + b'"' for x in next(csv.reader([r.decode('utf-8')]))]


def one(ctx, case):
    kind = case['kind']
    recs = [tuple(r) for r in case['recs']]
    data = files.RECORDS[kind](recs, True)
    for label, d in variants(kind, data):
        d = d.replace(b'\n', case['eol'].encode())
        p = ctx.write(case['name'], d)
        what = '{} file {!r} {} with titles {}'.format(kind, case['name'], label, [t for n, t in recs])
        RC = mk.RecordCollection(p)
        ctx.step()
        ctx.eq(sorted({type(R).__name__ for R in RC}), [TYPE[kind]], 'record types of the ' + what)
        ctx.eq(sorted(R.id for R in RC), ids(kind, recs), 'ids of the ' + what)
        ctx.eq((RC.bad, RC.errors, [R.bad for R in RC if R.bad]), (False, {}, []), 'damage reported for the ' + what)
        ctx.eq(titles(RC), sorted(t for n, t in recs), 'titles of the ' + what)
        ctx.eq(RC.name, os.path.splitext(case['name'])[0], 'name of the ' + what)
        ctx.eq(mk.RecordCollection(p, name='given').name, 'given', 'given name')
        #the directory it is in
        RD = mk.RecordCollection(ctx.dir)
        ctx.eq(files.dump(RD)['entries'], files.dump(RC)['entries'], 'the directory of the ' + what)
        ext = os.path.splitext(case['name'])[1]
        if ext:
            ctx.eq(files.dump(mk.RecordCollection(p, extension=ext))['entries'], files.dump(RC)['entries'], 'with its extension, the ' + what)
        ctx.raises(RCTypeError, lambda: mk.RecordCollection(p, extension='.nope'), 'another extension, the ' + what)
        ctx.state((kind, label, tuple(recs)))


def unknown_cases(tier):
    for u in UNKNOWN:
        for name in NAMES:
            yield dict(unknown=u, name=name)


def unknown(ctx, case):
    p = ctx.write(case['name'], UNKNOWN[case['unknown']])
    what = 'the unrecognised file {!r} ({})'.format(case['name'], case['unknown'])
    e = ctx.raises(BadInputFile, lambda: mk.RecordCollection(p), what)
    ctx.true(case['name'] in str(e), 'the error names ' + what)
    RC = mk.RecordCollection(ctx.dir)
    ctx.eq((len(RC), RC.bad, RC.errors), (0, False, {}), 'a directory of ' + what)
    ext = os.path.splitext(case['name'])[1]
    if ext:
        e = ctx.raises(BadInputFile, lambda: mk.RecordCollection(ctx.dir, extension=ext), 'extension requested, ' + what)
        ctx.true(case['name'] in str(e), 'extension requested, the error names ' + what)
    for bad in ('/nowhere', '/nowhere.isi'):
        ctx.raises(RCTypeError, lambda: mk.RecordCollection(ctx.dir + bad), 'a path to nothing')
        ctx.raises(GrantCollectionException, lambda: mk.GrantCollection(ctx.dir + bad), 'a path to nothing')


#---- directories

#(kind, ok, extension, record numbers)
ENTRIES = [('wos', True, '.txt', [1, 2]), ('wos', True, '.isi', [3]), ('wos', False, '.txt', [4]), ('medline', True, '.txt', [1, 2]), ('medline', False, '.isi', [3]),
           ('scopus', True, '.csv', [1, 2]), ('scopus', False, '.txt', [3]), ('proquest', True, '.txt', [1, 2]), ('proquest', False, '.isi', [3]),
           ('?text', None, '.txt', []), ('?empty', None, '.isi', []), ('?binary', None, '', []), ('?bomline', None, '.csv', []),
           ('dir', None, '.txt', []), ('cache', None, '', []), ('link', None, '.txt', []), ('broken', None, '.txt', []), ('wos', True, '.ISI', [5])]
GENTRIES = [('cihr', True, '.csv', [1, 2]), ('cihr', False, '.csv', [3]), ('nserc', True, '.csv', [1, 2]), ('nserc', False, '.csv', [3]), ('nsf', True, '.xml', [1]),
            ('nsf', False, '.xml', [2]), ('other', True, '.csv', [1, 2]), ('wos', True, '.txt', [1]), ('scopus', True, '.csv', [1]), ('?text', None, '.txt', []),
            ('?empty', None, '.csv', []), ('?binary', None, '.xml', []), ('dir', None, '.csv', []), ('gcache', None, '', [])]
EXTS = ['', '.txt', '.isi', 'csv', '.nope', '.TXT', 'isi']


def dir_cases(tier):
    for n in range(4):
        for c in itertools.combinations_with_replacement(range(len(ENTRIES)), n):
            if n == 3 and tier == 'quick' and len(set(c)) < 3:
                continue
            yield dict(entries=list(c))
    if tier == 'thorough':
        for c in itertools.combinations(range(len(ENTRIES)), 4):
            yield dict(entries=list(c))


def grant_cases(tier):
    for n in range(4 if tier == 'quick' else 5):
        for c in itertools.combinations(range(len(GENTRIES)), n):
            yield dict(grants=True, entries=list(c))


@contextlib.contextmanager
def listing(order):
    """Directories list their entries in this order."""
    real = os.listdir
    key = {n: i for i, n in enumerate(order)}

    def f(*a):
        return sorted(real(*a), key=lambda n: key.get(n, len(key)))
    os.listdir = f
    try:
        yield
    finally:
        os.listdir = real


def make(ctx, d, i, entry, table):
    """Write the i-th entry, returning its name"""
    kind, ok, ext, nums = entry
    recs = [(10 * i + n, 'Title {}'.format(10 * i + n)) for n in nums]
    name = files.GRANTNAME[kind].format(i) if kind in files.GRANTNAME else 'f{}{}'.format(i, ext)
    p = os.path.join(d, name)
    if kind in table:
        data = table[kind](recs, ok)
    elif kind in files.RECORDS:
        data = files.RECORDS[kind](recs, ok)
    elif kind[0] == '?':
        data = UNKNOWN[kind[1:]]
    elif kind == 'dir':
        os.mkdir(p)
        p, data = os.path.join(p, 'inner' + ext), (files.wos([(99, 'inner')]) if table is files.RECORDS else files.othercsv([(99, 'inner')]))
    elif kind == 'cache':
        name = 'f{}.[].mkRecordDirCache'.format(i)
        p, data = os.path.join(d, name), files.wos([(98, 'cached')])
    elif kind == 'gcache':
        name = 'f{}.[].mkGrantDirCache'.format(i)
        p, data = os.path.join(d, name), files.othercsv([(98, 'cached')])
    elif kind == 'broken':
        os.symlink(os.path.join(d, 'nothing here'), p)
        return name
    elif kind == 'link':
        t = os.path.join(os.path.dirname(d), 'target{}.txt'.format(i))
        with open(t, 'wb') as f:
            f.write(files.RECORDS['wos']([(10 * i + 7, 'linked')]))
        os.symlink(t, p)
        return name
    with open(p, 'wb') as f:
        f.write(data)
    return name


def directory(ctx, case):
    grants = case.get('grants', False)
    cls = mk.GrantCollection if grants else mk.RecordCollection
    table = files.GRANTS if grants else files.RECORDS
    pool = GENTRIES if grants else ENTRIES
    d = ctx.path('d')
    os.mkdir(d)
    entries = [pool[i] for i in case['entries']]
    names = [make(ctx, d, i, e, table) for i, e in enumerate(entries, 1)]
    what = 'directory of {}'.format([(e[0] + (' damaged' if e[1] is False else ''), n) for e, n in zip(entries, names)])
    #each alone
    single = {}
    for e, n in zip(entries, names):
        p = os.path.join(d, n)
        if e[0] in table or e[0] == 'link':
            single[n] = cls(os.path.realpath(p))
            for R in single[n]:
                ctx.eq(type(R).__name__, TYPE.get(e[0], 'WOSRecord'), 'type of what is in {} of the {}'.format(n, what))
            ctx.eq(len(single[n]) >= (len(e[3]) if e[1] else 0), True, 'a file has all its records')
    unknown = [n for e, n in zip(entries, names) if e[0][0] == '?' or (grants and e[0] in ('wos', 'scopus'))]
    skip = [n for e, n in zip(entries, names) if e[0] in ('dir', 'cache', 'gcache', 'broken')]
    for ext in EXTS:
        orders = list(itertools.permutations(names))
        for order in (orders if ext == '' or ctx.tier == 'thorough' else (orders[0], orders[-1])):
            ctx.step()
            w = 'extension {!r}, listed as {}, {}'.format(ext, list(order), what)
            matching = [n for n in names if n.endswith(ext) and n not in skip]
            with listing(order):
                if ext and any(n in unknown for n in matching):
                    err = ctx.raises(BadInputFile, lambda: cls(d, extension=ext), w)
                    ctx.true(any(n in str(err) for n in unknown if n in matching) and not any(n in str(err) for n in names if n not in unknown), 'the refused file is named, not {!r}, {}'.format(str(err), w))
                    continue
                C = cls(d, extension=ext)
                G = cls(d, extension=ext, name='given')
            parts = [single[n] for n in matching if n in single]
            #a link is read under its own name, so its records say they are from there
            links = {os.path.realpath(os.path.join(d, n)): n for n in names}
            ctx.eq(sorted((where(R, d, {}) for R in C if not R.bad), key=repr), sorted((where(R, d, links) for P in parts for R in P if not R.bad), key=repr), 'records, ' + w)
            #damaged records without an id can be equal
            ctx.eq({where(R, d, {})[:5] for R in C if R.bad}, {where(R, d, links)[:5] for P in parts for R in P if R.bad}, 'damaged records, ' + w)
            ctx.eq(C.bad, any(P.bad for P in parts), 'damage, ' + w)
            ctx.eq({k: type(v).__name__ for k, v in C.errors.items()}, {os.path.join(d, n): type(v).__name__ for n in matching if n in single for v in single[n].errors.values()}, 'errors, ' + w)
            for n in matching:
                if n in single and single[n].bad:
                    ctx.eq([str(v) for k, v in C.errors.items() if k == os.path.join(d, n)], [str(v) for v in single[n].errors.values()], 'error of {}, {}'.format(n, w))
            ctx.eq(C.name, '{}-files-from-{}'.format(ext, d) if ext else 'files-from-{}'.format(d), 'name, ' + w)
            ctx.eq(G.name, 'given', 'given name, ' + w)
            ctx.eq({type(R) for R in C}, {type(R) for P in parts for R in P}, 'types, ' + w)
        #however the path is written
        for path in ((d + '/', os.path.join(d, '..', 'd')) if ext == '' else ()):
            C = cls(path, extension=ext)
            ctx.eq({R.id for R in C}, {R.id for P in single.values() for R in P}, 'ids from {}, {}'.format(path[len(ctx.dir):], what))
    ctx.eq(sorted(os.listdir(d)), sorted(names), 'the directory is as it was')
    ctx.state(tuple(case['entries']))


def where(R, d, names):
    e = files.entry(R)
    src = e[5]
    if src in names:
        src = os.path.join(d, names[src])
    return e[:5] + (src,) + e[6:]


def shared_cases(tier):
    kinds = list(files.RECORDS)
    for kind in kinds:
        for split in itertools.product(range(1, 8), repeat=2):
            yield dict(kind=kind, split=list(split))
    if tier == 'thorough':
        for kind in kinds:
            for split in itertools.product(range(1, 8), repeat=3):
                yield dict(kind=kind, split=list(split))


def shared(ctx, case):
    """The same records in several files are one each."""
    d = ctx.path('d')
    os.mkdir(d)
    sets = []
    for i, m in enumerate(case['split']):
        recs = [(n, 'Title {}'.format(n)) for n in range(3) if m & (1 << n)]
        sets.append(set(ids(case['kind'], recs)))
        with open(os.path.join(d, 'f{}.txt'.format(i)), 'wb') as f:
            f.write(files.RECORDS[case['kind']](recs, True))
    for order in itertools.permutations(sorted(os.listdir(d))):
        with listing(order):
            RC = mk.RecordCollection(d)
        ctx.step()
        ctx.eq(sorted(R.id for R in RC), sorted(set.union(*sets)), 'ids of {} records split as {}'.format(case['kind'], case['split']))
        ctx.eq(titles(RC), sorted('Title {}'.format(i.split(':')[-1].replace('2-s2.0-', '')) for i in set.union(*sets)), 'titles')
        for R in RC:
            ctx.true(R.id in sets[int(os.path.basename(R._sourceFile)[1])], 'a record says it is from a file it is in')
    ctx.state((case['kind'], tuple(case['split'])))


#---- recognising

FILLER = {'blank': b'\n', 'note': b'Note: x, y\n', 'semi': b';;;\n'}


def head_cases(tier):
    for kind in files.RECORDS:
        for n in range(0, 5):
            for fill in itertools.product(sorted(FILLER), repeat=n):
                if n > 2 and len(set(fill)) > 1:
                    continue
                yield dict(kind=kind, fill=list(fill))


def head(ctx, case):
    """Lines before the header: within the checked lines the file is recognised, and read or reported."""
    from metaknowledge.WOS import isWOSFile
    from metaknowledge.medline import isMedlineFile
    from metaknowledge.scopus import isScopusFile
    from metaknowledge.proquest import isProQuestFile
    kind = case['kind']
    recs = [(1, 'One'), (2, 'Two')]
    data = files.RECORDS[kind](recs, True)
    bom = data[:3] if data[:3] == b'\xef\xbb\xbf' else b''
    data = data[len(bom):].lstrip(b'\n')
    p = ctx.write('f.txt', bom + b''.join(FILLER[x] for x in case['fill']) + data)
    n = len(case['fill'])
    what = '{} file after the lines {}'.format(kind, case['fill'])
    funcs = {'wos': (isWOSFile, 3, 1), 'medline': (isMedlineFile, 2, 0), 'scopus': (isScopusFile, 2, 0), 'proquest': (isProQuestFile, 2, 0)}
    for k, (f, default, at) in funcs.items():
        ctx.step()
        ctx.eq(f(p), k == kind and n + at < default, 'recognised as {}, {}'.format(k, what))
        for c in range(0, 7):
            want = k == kind and n + at < c
            got = f(p, checkedLines=c)
            if kind == 'proquest' == k and not want:
                # the three lines of its marker may follow the checked one
                continue
            ctx.eq(got, want, 'recognised as {} within {} lines, {}'.format(k, c, what))
    ctx.state((kind, tuple(case['fill'])))
    if n + funcs[kind][2] >= funcs[kind][1]:
        ctx.raises(BadInputFile, lambda: mk.RecordCollection(p), what)
        return
    RC = mk.RecordCollection(p)
    if kind in ('wos', 'scopus') or n == 0 or (kind == 'medline' and case['fill'] == ['blank']):
        ctx.eq((RC.bad, RC.errors), (False, {}), 'damage, ' + what)
        ctx.eq(sorted((R.id, R.bad, R.get('title')) for R in RC), sorted((i, False, t) for i, (m, t) in zip(ids(kind, recs), recs)), 'records, ' + what)
        with open(p, encoding='utf-8-sig') as f:
            lines = f.read().split('\n')
        for R in RC:
            ctx.true(any(R.get('title') in l for l in lines[R._sourceLine - 1:][:9]), 'the line {} of {}, {}'.format(R._sourceLine, R.id, what))
    else:
        ctx.eq((RC.bad, list(RC.errors)), (True, [p]), 'damage, ' + what)
        ctx.true({(R.id, R.get('title')) for R in RC} <= set(zip(ids(kind, recs), (t for m, t in recs))), 'records, ' + what)


def column_cases(tier):
    from metaknowledge.scopus.recordScopus import scopusHeader
    pool = ['Correspondence Address', 'Editors', 'Source', 'CODEN', 'Sponsors', 'Art. No.']
    pool = [c for c in pool if c in scopusHeader]
    for n in range(0, 6):
        for lost in itertools.combinations(pool, n):
            for extra in range(0, 6 - n):
                for place in (('end',) if not extra else ('end', 'start', 'middle')):
                    for line in (0, 1):
                        yield dict(lost=list(lost), extra=extra, place=place, line=line)


def columns(ctx, case):
    """A Scopus file with other columns than the known ones."""
    import csv
    import io
    from metaknowledge.scopus import isScopusFile
    rows = list(csv.reader(io.StringIO(files.scopus([(1, 'One'), (2, 'Two')], True).decode('utf-8-sig'))))
    keep = [i for i, c in enumerate(rows[0]) if c not in case['lost']]
    at = {'start': 0, 'middle': 7, 'end': len(keep)}[case['place']]
    out = [[r[i] for i in keep] for r in rows]
    for j, r in enumerate(out):
        r[at:at] = ['Extra {}'.format(e) if j == 0 else 'extra {} of {}'.format(e, j) for e in range(case['extra'])]
    text = ','.join(out[0]) + '\n' + ''.join(','.join('"{}"'.format(x) if x else '' for x in r) + '\n' for r in out[1:])
    p = ctx.write('f.csv', b'\xef\xbb\xbf' + b'\n' * case['line'] + text.encode('utf-8'))
    d = len(case['lost']) + case['extra']
    what = 'Scopus file without {} and with {} more at the {}, header in line {}'.format(case['lost'], case['extra'], case['place'], case['line'] + 1)
    ctx.step()
    for m in range(0, 7):
        ctx.eq(isScopusFile(p, maxHeaderDiff=m), d <= m, 'recognised with up to {} other columns, {}'.format(m, what))
    ctx.eq(isScopusFile(p), d <= 3, 'recognised, ' + what)
    ctx.state((d, case['line']))
    if d > 3:
        ctx.raises(BadInputFile, lambda: mk.RecordCollection(p), what)
        return
    RC = mk.RecordCollection(p)
    ctx.eq((RC.bad, RC.errors, [R.bad for R in RC]), (False, {}, [False, False]), 'damage, ' + what)
    got = {R.id: dict(R.items(raw=True)) for R in RC}
    want = {'EID:' + dict(zip(out[0], r))['EID']: {k: v for k, v in zip(out[0], r) if v} for r in out[1:]}
    ctx.eq({i: {k: (v if isinstance(v, str) else '; '.join(v)) for k, v in f.items() if v} for i, f in got.items()}, want, 'fields, ' + what)


#---- grants under other names

def grantname_cases(tier):
    for kind in list(files.GRANTS) + ['wos', 'scopus']:
        for name in ('cihr_1.csv', 'NSERC_1.csv', '1.xml', '1.csv', 'cihr_1', 'NSERC_1.xml', 'a.txt', 'acsv', 'xcihr_1.csv', 'nserc_1.csv', '1.XML'):
            yield dict(kind=kind, name=name)


def grantname(ctx, case):
    from metaknowledge.grants import isCIHRfile, isNSERCfile, isNSFfile, isFallbackGrantFile
    kind, name = case['kind'], case['name']
    n = [(1, 'One'), (2, 'Two')][:1 if kind == 'nsf' else 2]
    p = ctx.write(name, (files.GRANTS[kind] if kind in files.GRANTS else files.RECORDS[kind])(n, True))
    what = '{} file named {}'.format(kind, name)
    ctx.step()
    csvlike = kind in ('nserc', 'other')
    ctx.eq(isCIHRfile(p), kind == 'cihr' and name.startswith('cihr_'), 'CIHR, ' + what)
    ctx.eq(isCIHRfile(p, useFileName=False), kind == 'cihr', 'CIHR by content, ' + what)
    ctx.eq(isNSFfile(p), kind == 'nsf' and name.endswith('.xml'), 'NSF, ' + what)
    ctx.eq(isNSFfile(p, useFileName=False), kind == 'nsf', 'NSF by content, ' + what)
    if csvlike:
        ctx.eq(isNSERCfile(p), name.startswith('NSERC_'), 'NSERC, ' + what)
        ctx.eq(isNSERCfile(p, useFileName=False), True, 'NSERC by content, ' + what)
        ctx.eq(isFallbackGrantFile(p), name.endswith('csv'), 'other grants, ' + what)
        ctx.eq(isFallbackGrantFile(p, useFileName=False), True, 'other grants by content, ' + what)
    elif not name.startswith('NSERC_'):
        ctx.eq(isNSERCfile(p), False, 'NSERC, ' + what)
    if kind == 'scopus':
        for u in (True, False):
            ctx.eq(isFallbackGrantFile(p, useFileName=u), False, 'a Scopus file is no grants, ' + what)
    if not name.endswith('csv'):
        ctx.eq(isFallbackGrantFile(p), False, 'other grants, ' + what)
    # read as what the first of these says
    want = ('CIHRGrant' if kind == 'cihr' and name.startswith('cihr_') else 'NSFGrant' if kind == 'nsf' and name.endswith('.xml') else
            'NSERCGrant' if csvlike and name.startswith('NSERC_') else 'FallbackGrant' if csvlike and name.endswith('csv') else None)
    if want:
        GC = mk.GrantCollection(p)
        ctx.eq((sorted(type(G).__name__ for G in GC), GC.bad), ([want] * 2 if want != 'NSFGrant' else [want], False), what)
    elif csvlike or (kind == 'nsf' and not name.endswith('csv') and not name.startswith('NSERC_')):
        ctx.raises(BadInputFile, lambda: mk.GrantCollection(p), what)
    ctx.state((kind, name, want))


#---- sizes

def size_cases(tier):
    for n in sizes(513 if tier == 'thorough' else 129):
        for shape in ('records', 'grants', 'many', 'late'):
            yield dict(shape=shape, n=n)


def sized(ctx, case):
    """Directories of n files, files of n records, files of a long name or after n others"""
    n, shape = case['n'], case['shape']
    d = ctx.path('d')
    os.mkdir(d)
    table = files.GRANTS if shape == 'grants' else files.RECORDS
    cls = mk.GrantCollection if shape == 'grants' else mk.RecordCollection
    kinds = list(table)
    want, count = set(), collections.Counter()
    for i in range(n if shape != 'many' else len(kinds)):
        kind = kinds[i % len(kinds)] if shape != 'late' or i == n - 1 else '?'
        nums = [1000 + i] if shape != 'many' else range(1000 * (i + 1), 1000 * (i + 1) + n)
        recs = [(j, 'Title {}'.format(j)) for j in nums]
        name = files.GRANTNAME[kind].format(i) if kind in files.GRANTNAME else 'f{}.txt'.format(i)
        with open(os.path.join(d, name), 'wb') as f:
            f.write(UNKNOWN[sorted(UNKNOWN)[i % len(UNKNOWN)]] if kind == '?' else table[kind](recs, True))
        if kind != '?':
            C = cls(os.path.join(d, name))
            ctx.eq((C.bad, len(C)), (False, len(recs)), 'file {} of {}'.format(name, case))
            want |= {(type(R).__name__, R.id, os.path.join(d, name)) for R in C}
            count[kind] += len(recs)
            if shape == 'many':
                ctx.eq(titles(C), sorted('Title {}'.format(j) for j in nums), 'titles in a file of {} records'.format(n))
                ctx.eq(sorted(R.id for R in C), sorted(ids(kind, recs)), 'ids in a file of {} records'.format(n))
    names = sorted(os.listdir(d))
    for order in (names, names[::-1]):
        with listing(order):
            C = cls(d)
        ctx.step()
        ctx.eq((C.bad, C.errors), (False, {}), 'damage in {}'.format(case))
        ctx.eq({(type(R).__name__, R.id, R._sourceFile) for R in C}, want, 'records of {}'.format(case))
        ctx.eq(len(C), sum(count.values()), 'number of records of {}'.format(case))
    ctx.state((shape, n))


#---- extensions: any end of the file name
ENDS = ['a.isi', 'b.isi', 'a.b.isi', 'c-b.isi', 'isi', '.isi', 'a.ISI', 'a.isi.txt', 'a isi', 'a.isi.', 'xisi', 'mkRecordDirCache', 'a.\u00e9']


def ext_cases(tier):
    for kind in list(files.RECORDS) + ['cihr']:
        for e in sorted({n[i:] for n in ENDS for i in range(len(n))} | {'/a.isi', 'none'}) + ['']:
            yield [kind, e]


def ext_run(ctx, case):
    kind, ext = case
    grants = kind not in files.RECORDS
    make, cls = (files.GRANTS if grants else files.RECORDS)[kind], mk.GrantCollection if grants else mk.RecordCollection
    names = [n for n in ENDS if not n.endswith('DirCache')] if kind != 'cihr' else ['cihr_' + n for n in ENDS if not n.endswith('DirCache')]
    for i, n in enumerate(names):
        ctx.write(n, make([(i, 'T%d' % i)], True))
    ctx.write('mkRecordDirCache', b'nothing')
    what = 'files {} with the extension {!r}'.format(names, ext)
    key = lambda C: sorted((R.id, os.path.basename(R.sourceFile)) for R in C)
    read = lambda p: cls(p)
    want = sorted(k for n in names if ('/' + n).endswith(ext) for k in key(read(ctx.path(n))))
    C = cls(ctx.dir, extension=ext)
    ctx.step()
    ctx.eq(key(C), want, what)
    ctx.eq((C.bad, C.errors), (False, {}), what + ' flags')
    for n in names:
        if ('/' + n).endswith(ext):
            ctx.eq(key(cls(ctx.path(n), extension=ext)), key(read(ctx.path(n))), '{} with the extension {!r}'.format(n, ext))
        else:
            ctx.raises((mk.mkException,), lambda: cls(ctx.path(n), extension=ext), '{} with the extension {!r}'.format(n, ext))
    ctx.state(case)


#---- the same path with other contents

REWRITES = [(k, ok, t) for k in files.RECORDS for ok in (True, False) for t in ('One', 'Two')] + [(k, True, 4002) for k in files.RECORDS] + [('?text', None, 4002), ('?text', None, None), ('?empty', None, None), ('gone', None, None)]
GREWRITES = [(k, ok, t) for k in files.GRANTS for ok in (True, False) for t in ('One', 'Two')] + [(k, True, 4002) for k in list(files.GRANTS) + ['wos']] + [('?text', None, 4002), ('wos', True, 'One'), ('?text', None, None), ('?empty', None, None), ('gone', None, None)]
NEW = itertools.count()


def rewrite_cases(tier):
    for grants, L, fs in ((False, REWRITES, ['a.txt']), (True, GREWRITES, ['cihr_a.csv', 'NSERC_a.csv', 'a.xml', 'a.csv'])):
        for f in fs:
            for c in itertools.product(range(len(L)), repeat=2):
                yield dict(grants=grants, name=f, steps=list(c))
            if tier == 'thorough':
                for c in itertools.product(range(len(L)), repeat=3):
                    yield dict(grants=grants, name=f, steps=list(c))


def seen(C, path):
    """All a user sees of reading path, which is the folder of the file or the file itself"""
    try:
        C = C(path)
    except (BadInputFile, RCTypeError, GrantCollectionException) as e:
        return (type(e).__name__, str(e).replace(path, '@'))
    return repr(files.dump(C)).replace(path, '@')


def content(kinds, kind, ok, t):
    if t != 4002:
        return UNKNOWN[kind[1:]] if ok is None else kinds[kind]([(1, t)], ok)
    #all of these are of one size
    make = (lambda t: UNKNOWN[kind[1:]] + t.encode()) if ok is None else lambda t: kinds[kind]([(1, t)], ok)
    n = 0
    while len(make('x' * n)) < t:
        n += max(1, (t - len(make("x" * n))) // 8)
    out = make('x' * n)
    return out


def rewrite(ctx, case):
    L, kinds, C = (GREWRITES, files.GRANTS, mk.GrantCollection) if case['grants'] else (REWRITES, files.RECORDS, mk.RecordCollection)
    name = case['name']
    d = ctx.path('same')
    os.makedirs(d, exist_ok=True)
    for i, step in enumerate(case['steps']):
        kind, ok, t = L[step]
        #a path that was never read before
        other = ctx.path('new{}'.format(next(NEW)))
        other = os.path.join(other, 'same')
        os.makedirs(other)
        for p in (d, other):
            p = os.path.join(p, name)
            if kind == 'gone':
                if os.path.exists(p):
                    os.remove(p)
                continue
            with open(p, 'wb') as f:
                f.write(content(dict(files.RECORDS, **kinds), *L[step]))
        what = 'where {} was before'.format([L[s] for s in case['steps'][:i]]) if i else 'read first'
        ctx.step(2)
        ctx.eq(seen(C, os.path.join(d, name)), seen(C, os.path.join(other, name)), '{} as {} {}'.format(L[step], name, what))
        ctx.eq(seen(C, d), seen(C, other), 'the directory of {} as {} {}'.format(L[step], name, what))
        ctx.state((name, step))


SCENARIOS = [
    Scenario('extensions', ext_cases, ext_run, '12 file names x every end of any of them as the extension x 5 formats: the directory and each file'),
    Scenario('size', size_cases, sized, 'directories of n files, n unreadable files before one, files of n records; n around 4, 5, 8, 10, 16, ... up to 129 (thorough 513)', timeout=240),
    Scenario('header', head_cases, head, '4 formats, up to 4 lines before the header, 0 to 6 checked lines, each recogniser'),
    Scenario('columns', column_cases, columns, 'Scopus files with up to 5 columns lost or added x place x header line x 0-6 allowed differences'),
    Scenario('grant-names', grantname_cases, grantname, '6 kinds of file x 11 names, with and without using the name'),
    Scenario('rewritten', rewrite_cases, rewrite, 'all sequences of 2 (3 in depth) of {} contents (some of one size) of one path of records, of {} under 4 names of grants, the file gone included: every read as that of the same contents at a path never read before'.format(len(REWRITES), len(GREWRITES))),
    Scenario('one', one_cases, one, '4 formats x 13 file names x 1-3 records; 12 titles containing the markers of other formats x line endings x position; saved variants'),
    Scenario('unknown', unknown_cases, unknown, '18 unrecognisable files x 13 names'),
    Scenario('directory', dir_cases, directory, 'all directories of up to 3 entries (4 in depth) of 18 kinds x 7 extensions x all listing orders'),
    Scenario('grants', grant_cases, directory, 'all directories of up to 3 entries (4 in depth) of 14 kinds x 7 extensions x all listing orders'),
    Scenario('shared', shared_cases, shared, 'all ways of having 3 records in 2 files (3 in depth) x 4 formats x listing orders'),
]
