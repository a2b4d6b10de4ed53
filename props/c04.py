"""C04: damage to a WOS file loses only the damaged part and is reported.

The oracle is a strict line grammar for the format.  A text the grammar accepts
must be read exactly and unflagged; for any other text, every record that ended
before the first deviation must be read intact, every undamaged-looking record
returned must be literally in the file, and the damage must be reported (error
of the collection or a record flagged bad)."""
import itertools
import os
from mc.core import Scenario
from mc.sizes import sizes
import metaknowledge as mk

HEAD = ['FN Thomson Reuters Web of Science\u2122', 'VR 1.0']
BASE = [
    ('PT J', 'AU A, A', '   B, B', 'TI One', 'UT WOS:1', 'ER'),
    ('PT J', 'TI Two', '   more', 'AU C, C', 'CR X, 1990, J', '   Y, 1991, K', 'UT WOS:2', 'Z9 1', 'ER'),
    ('UT WOS:3', 'TI Three', 'ER'),
]


def base_text(blank=True, bom='\ufeff', last_newline=False):
    L = list(HEAD)
    for r in BASE:
        L.extend(r)
        if blank:
            L.append('')
    L.append('EF')
    return bom + '\n'.join(L) + ('\n' if last_newline else '')


def grammar(text):
    """(recognised, records, well formed); records = list of [(tag, [lines])...]
    that end before the first deviation from the grammar."""
    text = text[1:] if text.startswith('\ufeff') else text
    lines = text.split('\n')
    term = [l + '\n' for l in lines[:-1]] + ([lines[-1]] if lines[-1] else [])
    heads = [n for n, l in enumerate(term[:3]) if l.startswith('VR 1.0')]
    if not heads:
        return False, [], False
    i = heads[0] + 1
    records = []
    while True:
        if i >= len(term):
            return True, records, False
        if term[i].isspace():
            i += 1
            continue
        if term[i].startswith('EF'):
            return True, records, i == len(term) - 1
        rec = []
        while True:
            if i >= len(term):
                return True, records, False
            l = term[i]
            if l.startswith('ER') and not rec:
                return True, records, False
            if l.startswith('ER'):
                if len(l) < 3:          # the file is cut inside the end mark
                    return True, records, False
                i += 1
                break
            if len(l) < 3 or l[2] != ' ' or not l.endswith('\n'):
                return True, records, False
            if l.startswith('   '):
                if not rec:
                    return True, records, False
                rec[-1][1].append(l[3:-1])
            else:
                rec.append((l[:2], [l[3:-1]]))
            i += 1
        tags = [t for t, v in rec]
        if len(set(tags)) != len(tags) or 'UT' not in tags:
            return True, records, False
        records.append(rec)


UNI = [
    ('PT J', 'AU \u00c5, \u00c9', 'TI \u65e5\u672c', '   \U0001d538', 'UT WOS:11', 'ER'),
    ('TI ascii', 'UT WOS:12', 'ER'),
    ('AU \u00df, A', 'CR \u0141, 1990, \u00dc', 'UT WOS:13', 'ER'),
]


def byte_cases():
    """Every undecodable byte inserted or overwritten at, and every cut after,
    every byte of a file with multi byte characters."""
    for blank in (True, False):
        lines = [('head', None, l) for l in HEAD]
        for r in UNI:
            uid = dict(x.split(' ', 1) for x in r if x[0] != ' ' and x != 'ER')['UT']
            for l in r:
                lines.append(('end' if l == 'ER' else 'rec', uid, l))
            if blank:
                lines.append(('blank', None, ''))
        lines.append(('EF', None, 'EF'))
        uids = ['WOS:11', 'WOS:12', 'WOS:13']
        full = '\n'.join(l for k, u, l in lines).encode('utf-8')
        pos = 0
        for n, (kind, uid, l) in enumerate(lines):
            b = l.encode('utf-8') + (b'\n' if n + 1 < len(lines) else b'')
            ended = [u for u in uids if any(k == 'end' and x == u for k, x, t in lines[:n])]
            first = kind == 'rec' and lines[n - 1][1] != uid
            for off in range(len(b) + (0 if n + 1 < len(lines) else 1)):
                at = pos + off
                for mode in ('ins', 'set', 'cut'):
                    if mode == 'cut':
                        data = full[:at]
                    elif mode == 'ins':
                        data = full[:at] + b'\xff' + full[at:]
                    else:
                        data = full[:at] + b'\xff' + full[at + 1:]
                        if at >= len(full):
                            continue
                    what = '{} at byte {} ({} line {!r}) blank={}'.format(mode, at, kind, l, blank)
                    head = data.decode('utf-8', 'surrogateescape').split('\n')[:3]
                    refuse = not any(h.startswith('VR 1.0') for h in head)
                    if mode != 'cut' and kind == 'rec' and (mode == 'ins' or off + 1 < len(b)):
                        intact = [u for u in uids if u != uid]
                        report = True
                    elif mode == 'cut':
                        intact = ended
                        report = at < len(full)
                    else:
                        intact = ended
                        report = kind in ('blank',) or (kind == 'rec')
                    yield {'kind': 'bytes', 'what': what, 'data': list(data), 'refuse': refuse,
                           'report': report and not refuse, 'intact': [] if refuse else intact}
            pos += len(b)


ALLRECS = {dict(r)['UT'][0]: [(t, list(v)) for t, v in r] for r in grammar('\n'.join(HEAD + [l for r in UNI for l in r] + ['EF']))[1]}
RECS = {dict(r)['UT'][0]: r for r in grammar(base_text())[1]}


def raw(R):
    return [(t, list(v)) for t, v in R.items(raw=True)]


def text_of(rec):
    out = []
    for tag, lines in rec:
        for i, l in enumerate(lines):
            out.append((tag + ' ' if i == 0 else '   ') + l + '\n')
    return ''.join(out) + 'ER'


def check(ctx, text, what, others=()):
    ok, recs, wf = grammar(text)
    p = ctx.write('f.isi', text)
    ctx.step()
    if not ok:
        ctx.raises(mk.BadInputFile, lambda: mk.RecordCollection(p), what + ' unrecognisable file')
        d = mk.RecordCollection(ctx.dir)
        ctx.eq(len(d), 0, what + ' unrecognisable file in a directory')
        ctx.state('refused')
        return
    RC = mk.RecordCollection(p)
    good = {}
    bad = 0
    for R in RC:
        if R.bad:
            bad += 1
            ctx.true(R.error is not None, what + ' bad record without an error')
        else:
            good.setdefault(R.id, raw(R))
    want = {}
    for r in recs:
        want.setdefault(dict(r)['UT'][0], []).append(r)
    if wf:
        ctx.eq(bool(RC.bad), False, what + ' well formed but flagged: {}'.format(RC.errors))
        ctx.eq(RC.errors, {}, what + ' well formed but has errors')
        ctx.eq(bad, 0, what + ' well formed but has bad records')
        ctx.eq(sorted(good), sorted(want), what + ' records read')
    else:
        ctx.true(RC.bad or bad, what + ' damage not reported; read {}'.format(sorted(good)))
    ctx.eq(bool(RC.bad), bool(RC.errors), what + ' flag and errors disagree')
    if RC.bad:
        ctx.eq(list(RC.errors), [os.path.realpath(p)], what + ' error not attributed to the file')
        ctx.true(isinstance(list(RC.errors.values())[0], (Exception, Warning)), what + ' error is not an exception')
    for uid, alts in want.items():
        ctx.true(uid in good, what + ' record {} ended before the damage but is lost'.format(uid))
        ctx.true(good[uid] in alts, what + ' record {} changed: {}'.format(uid, good[uid]))
    for uid in others:
        ctx.eq(good.get(uid), [(l[0], list(l[1])) for l in RECS[uid]], what + ' undamaged record {}'.format(uid))
    for uid, g in good.items():
        ctx.true(text_of(g) in text, what + ' record {} is not in the file: {}'.format(uid, g))
    # the same file inside a directory gives the same
    D = mk.RecordCollection(ctx.dir)
    ctx.eq(sorted(map(repr, D)), sorted(map(repr, RC)), what + ' directory read differs')
    ctx.eq((bool(D.bad), {k: str(v) for k, v in D.errors.items()}), (bool(RC.bad), {k: str(v) for k, v in RC.errors.items()}), what + ' directory read flags differ')
    ctx.state((sorted(good.items()), bad, bool(RC.bad)))


def run(ctx, case):
    k = case['kind']
    if k == 'text':
        check(ctx, case['text'], case['what'], case.get('others', ()))
    elif k == 'bytes':
        data = bytes(case['data'])
        p = ctx.write('f.isi', data)
        ctx.step()
        what = case['what']
        if case['refuse']:
            ctx.raises(mk.BadInputFile, lambda: mk.RecordCollection(p), what)
            ctx.state('refused bytes')
            return
        RC = mk.RecordCollection(p)
        if case['report']:
            ctx.true(RC.bad or any(r.bad for r in RC), what + ' not reported')
        good = {R.id: raw(R) for R in RC if not R.bad}
        for uid in case['intact']:
            ctx.eq(good.get(uid), ALLRECS[uid], what + ' undamaged record {}'.format(uid))
        for uid, g in good.items():
            ctx.true(text_of(g).encode('utf-8', 'backslashreplace') in data, what + ' record {} is not in the file: {}'.format(uid, g))
        ctx.state((sorted(good.items()), bool(RC.bad)))
    elif k == 'big':
        n, at = case['n'], case['at']
        L = list(HEAD)
        ends = []
        for i in range(n):
            L += ['PT J', 'TI ' + 'word ' * 40, 'UT WOS:%d' % i, 'ER', '']
        L.append('EF')
        data = '\n'.join(L).encode('utf-8')
        data = data[:at] + b'\xff' + data[at:]
        p = ctx.write('f.isi', data)
        ctx.step()
        RC = mk.RecordCollection(p)
        ctx.true(RC.bad, 'undecodable byte at {} of a long file not reported'.format(at))
        safe = data[:at].count(b'\nER\n')
        got = {r.id for r in RC if not r.bad}
        for i in range(n):
            if i != safe:
                ctx.true('WOS:%d' % i in got, 'record {} is undamaged by the byte at {} but is lost'.format(i, at))
        ctx.true('WOS:%d' % safe not in got, 'the record with the undecodable byte at {} is not flagged'.format(at))
        ctx.state((len(got), at))


NEWLINES = ['', 'X', 'XY', 'XYZ', 'XYZ extra', 'ER', 'EF', '   continued', '  ', '   ', 'UT WOS:77', 'TI Dup', 'TI', 'VR 1.0', 'ER trailing', 'EF x', ' T odd', '\ufeffFN y']


def single_faults(text):
    yield ('unchanged', text)
    for n in range(len(text)):
        yield ('cut after {} characters'.format(n), text[:n])
    L = text.split('\n')
    for i in range(len(L)):
        yield ('line {} deleted'.format(i), '\n'.join(L[:i] + L[i + 1:]))
        yield ('line {} doubled'.format(i), '\n'.join(L[:i + 1] + L[i:]))
        if i + 1 < len(L):
            yield ('lines {} swapped'.format(i), '\n'.join(L[:i] + [L[i + 1], L[i]] + L[i + 2:]))
        for x in NEWLINES:
            yield ('line {} replaced by {!r}'.format(i, x), '\n'.join(L[:i] + [x] + L[i + 1:]))
            yield ('{!r} inserted before line {}'.format(x, i), '\n'.join(L[:i] + [x] + L[i:]))
    for i in range(len(L)):
        for c in range(min(4, len(L[i]))):
            yield ('character {} of line {} deleted'.format(c, i), '\n'.join(L[:i] + [L[i][:c] + L[i][c + 1:]] + L[i + 1:]))
            for x in ('?', ' '):
                yield ('character {} of line {} set to {!r}'.format(c, i, x), '\n'.join(L[:i] + [L[i][:c] + x + L[i][c + 1:]] + L[i + 1:]))
    for i in range(len(L)):
        for j in range(i + 2, len(L) + 1):
            yield ('lines {} to {} deleted'.format(i, j), '\n'.join(L[:i] + L[j:]))


def cases(tier):
    for blank, nl in ((True, False), (True, True), (False, False)):
        for what, t in single_faults(base_text(blank, last_newline=nl)):
            yield {'kind': 'text', 'what': what, 'text': t}
    # damage confined to the inside of one record leaves all the others intact
    for blank in (True, False):
        L = base_text(blank).split('\n')
        pos = len(HEAD)
        for k, r in enumerate(BASE):
            others = ['WOS:%d' % (m + 1) for m in range(len(BASE)) if m != k]
            for i in range(pos, pos + len(r) - 1):
                for x in NEWLINES:
                    if x[:2] not in ('ER', 'EF', 'UT'):
                        yield {'kind': 'text', 'what': 'line {} replaced by {!r}'.format(i, x), 'text': '\n'.join(L[:i] + [x] + L[i + 1:]), 'others': others}
                        yield {'kind': 'text', 'what': '{!r} inserted before line {}'.format(x, i), 'text': '\n'.join(L[:i] + [x] + L[i:]), 'others': others}
                yield {'kind': 'text', 'what': 'line {} deleted'.format(i), 'text': '\n'.join(L[:i] + L[i + 1:]), 'others': others}
            pos += len(r) + (1 if blank else 0)
    t = base_text()
    if True:
        # two faults: every cut of every structural fault of the short file
        small = '\ufeff' + '\n'.join(HEAD + list(BASE[0]) + [''] + list(BASE[2]) + ['', 'EF'])
        L = small.split('\n')
        pick = ['', 'XYZ extra', 'ER', 'EF', '   c', 'UT WOS:77']
        for i in range(2, len(L)):
            for x in pick + [None]:
                one = L[:i] + ([x] if x is not None else []) + L[i + 1:]
                for j in range(2, len(one)):
                    for y in (pick + [None] if tier == 'thorough' else ['', 'XYZ extra', 'EF', None]):
                        two = one[:j] + ([y] if y is not None else []) + one[j + 1:]
                        yield {'kind': 'text', 'what': 'lines {},{} -> {!r},{!r}'.format(i, j, x, y), 'text': '\n'.join(two)}
                for n in range(len('\n'.join(one))) if tier == 'thorough' else ():
                    yield {'kind': 'text', 'what': 'line {} -> {!r} and cut {}'.format(i, x, n), 'text': '\n'.join(one)[:n]}
    for c in byte_cases():
        yield c
    for at in (9000, 20000, 40000, 60000, 65536, 80000):
        yield {'kind': 'big', 'n': 400, 'at': at}


def size_cases(tier):
    for n in sizes(1025 if tier == 'thorough' else 301):
        for where in ('first', 'middle', 'last', 'all', 'long', 'values', 'unended', 'twice'):
            yield [where, n]


def sized(ctx, case):
    """n records, or a record of n lines, with damage in one or all of them"""
    where, n = case
    rec = lambda i, more=(): ['PT J', 'AU A%d, B' % i] + list(more) + ['TI Title %d' % i, 'UT WOS:%d' % i, 'ER', '']
    if where in ('long', 'values'):
        more = ['X%d v%d' % (i % 10, i) if i < 10 else '   v%d' % i for i in range(n)] if where == 'values' else ['CR c0'] + ['   c%d' % i for i in range(1, n)]
        recs = [rec(0), rec(1, more), rec(2)]
        hit = {1: recs[1].index(more[-1])}
        n = 3
    else:
        recs = [rec(i) for i in range(n)]
        hit = {i: 1 for i in {'first': [0], 'middle': [n // 2], 'last': [n - 1], 'unended': [n - 1], 'twice': [0, n - 1], 'all': range(n)}[where]}
    for x in ('X', 'XYZ extra', 'TI Dup', None):
        L = [list(r) for r in recs]
        for i, at in hit.items():
            if x is None:
                del L[i][L[i].index('UT WOS:%d' % i)]
            else:
                L[i][at] = x
        if where == 'unended':
            L[-1] = L[-1][:2]
        else:
            L.append(['EF'])
        p = ctx.write('f.isi', '\ufeff' + '\n'.join(HEAD + [l for r in L for l in r]))
        what = '{} damaged by {!r}'.format(case, x)
        ctx.step()
        D = mk.RecordCollection(p)
        good, bad = {}, []
        for R in D:
            if R.bad:
                bad.append(R)
            else:
                good[R.id] = raw(R)
        want = {dict(r)['UT'][0]: r for r in grammar('\n'.join(HEAD + [l for i, r in enumerate(recs) if i not in hit for l in r] + ['EF']))[1]}
        ctx.eq({i: good.get(i) for i in want}, want, what + ': the other records')
        ctx.true(D.bad or bad, what + ': reported')
        ctx.eq(all(R.error is not None for R in bad), True, what + ': errors of the damaged records')
        if x is None and where != 'unended':
            # only the id is lost: all of them are there, flagged, with the rest of their fields
            ctx.eq(sorted(map(raw, bad)), sorted([(t, list(v)) for t, v in r if t != 'UT'] for i, r in enumerate(grammar('\n'.join(HEAD + [l for r in recs for l in r] + ['EF']))[1]) if i in hit), what + ': the damaged records')
        text = '\n'.join(HEAD + [l for r in L for l in r])
        for i in good:
            ctx.true(i in want or text_of(good[i]) in text, what + ': record {} is not in the file: {}'.format(i, good[i]))
        ctx.eq(list(D.errors), [os.path.realpath(p)] if D.bad else [], what + ': errors')
        E = mk.RecordCollection(ctx.dir)
        ctx.eq((sorted(map(repr, E)), E.bad), (sorted(map(repr, D)), D.bad), what + ': in a directory')
    ctx.state(tuple(case))


SCENARIOS = [
    Scenario('size', size_cases, sized, 'n records with the first, middle, last or all damaged, cut or without id, records of n lines damaged at the last; n around 4, 5, 8, 10, 16, ... up to 301 (thorough 1025)', timeout=240),
    Scenario('faults', cases, run, {'quick': 'all character cuts, all single line/character faults, all line range deletions of three 3-record files, line fault pairs of a 2-record file', 'thorough': 'plus every cut of every single line fault'})]
