"""C20: grant files are read completely and merged without loss.

Every file is generated from rows / elements chosen by enumeration; these rows
are the oracle.  Faults (cuts, missing columns, bad bytes) are applied at every
position."""
import collections
import csv
import io
import itertools
import os
import metaknowledge as mk
from metaknowledge import GrantCollection, MedlineGrant
from metaknowledge.grants.scopusGrant import ScopusGrant
from metaknowledge.grants.nsfGrant import parserNSFfile
from metaknowledge.grants.baseGrant import FallbackGrant
from metaknowledge.grants.cihrGrant import CIHRGrant
from mc.core import Scenario, explore
from mc.sizes import sizes

VALS = ['', 'a', 'b c', 'x,y', 'say "hi"', 'l1\nl2', '\u00e9t\u00e9; s', ' pad ', '0']
COLS = {'cihr': ['PI Names', 'Institution Paid', 'Amount'], 'nserc': ['Cle', 'Name-Nom', 'Institution-\u00c9tab', 'Amount'], 'other': ['key', 'Who', 'Where']}
CIHRHEAD = 'Search Criteria:,,,,,,,,,\nfor: x,,,,,,,,,\n,,,,,,,,,\n'
FILE = {'cihr': 'cihr_f.csv', 'nserc': 'NSERC_f.csv', 'other': 'f.csv'}


def row_text(row, quote, end='\n'):
    out = io.StringIO()
    csv.writer(out, lineterminator=end, quoting=csv.QUOTE_ALL if quote else csv.QUOTE_MINIMAL).writerow(row)
    return out.getvalue()


def table(fmt, rows, quote=False, end='\n', blank=False, last=True, cols=None):
    """(text, [(first line, text of the row)])"""
    t = (CIHRHEAD if fmt == 'cihr' else '') + row_text(cols or COLS[fmt], quote)
    info = []
    for r in rows:
        if blank:
            t += '\n'
        rt = row_text(r, quote)
        info.append((t.count('\n') + 1, rt))
        t += rt
    if not last and t.endswith('\n'):
        t = t[:-1]
        if info:
            info[-1] = (info[-1][0], info[-1][1][:-1])
    return t.replace('\n', end), info


def csv_cases(tier):
    for fmt in COLS:
        n = len(COLS[fmt])
        for quote in (False, True):
            for row in itertools.product(VALS, repeat=n if n < 4 else 0) if n < 4 else (('7',) + r for r in itertools.product(VALS, repeat=3)):
                if not any(row):
                    continue
                yield {'fmt': fmt, 'rows': [list(row)], 'quote': quote, 'end': '\n', 'blank': False, 'last': True}
    rows = {'cihr': [['A, B', 'Uni', '1'], ['', 'l1\nl2', '2'], ['A, B', 'Uni', '1'], ['C; D', '', 'x "q"\nz']],
            'nserc': [['1', 'A, B', 'Uni', '1'], ['', 'n\nm', 'Inst', '2'], ['2', '', '', ''], ['3', 'E\nE', 'F, G', '5']],
            'other': [['1', 'A, B', 'l1\nl2'], ['', '', 'z'], ['1', 'A, B', 'l1\nl2'], ['k', 'w', '0']]}
    for fmt in COLS:
        for n in (1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5):
            for pick in itertools.product(range(4), repeat=n):
                if fmt == 'nserc' and any(rows[fmt][i][0] and pick.count(i) > 1 for i in pick):
                    continue        # equal keys: see the merge scenario
                for quote, end, blank, last in itertools.product((False, True), ('\n', '\r\n'), (False, True), (True, False)):
                    yield {'fmt': fmt, 'rows': [rows[fmt][i] for i in pick], 'quote': quote, 'end': end, 'blank': blank, 'last': last}


def expect(fmt, rows, info, cols=None):
    """[(fields, original, line, bad)]"""
    out = []
    for r, (line, text) in zip(rows, info):
        bad = fmt in ('cihr', 'nserc') and r[0] == ''
        out.append((list(zip(cols or COLS[fmt], r)), text, line, bad))
    return out


def seen(G):
    return (list(G.items()), G.original, G._sourceLine, G.bad)


def split(s):
    return [x.strip() for x in s.split(';')]


def check_people(ctx, fmt, G, what):
    d = dict(G.items())
    if fmt == 'nserc':
        ctx.eq(G.getInvestigators(), split(d['Name-Nom']), what + ' investigators')
        ctx.eq(G.getInstitutions(), split(d['Institution-\u00c9tab']), what + ' institutions')
    elif fmt == 'cihr':
        ctx.eq((G.getInvestigators(), G.getInvestigators('PI Names'), G.getInstitutions(['Institution Paid', 'No'])), ([], split(d['PI Names']), split(d['Institution Paid'])), what + ' people')
    else:
        ctx.eq((G.getInvestigators(), G.getInvestigators(['Who']), G.getInstitutions('Where', seperator=' ')), ([], split(d['Who']), [x.strip() for x in d['Where'].split(' ')]), what + ' people')


KIND = {'cihr': 'CIHRGrant', 'nserc': 'NSERCGrant', 'other': 'FallbackGrant', 'nsf': 'NSFGrant'}


def csv_run(ctx, case):
    fmt = case['fmt']
    text, info = table(fmt, case['rows'], case['quote'], case['end'], case['blank'], case['last'])
    p = ctx.write(FILE[fmt], text, 'latin-1')
    what = '{} {!r}'.format(fmt, text)
    ctx.step()
    GC = GrantCollection(p)
    ctx.eq((GC.bad, GC.errors, GC._collectedTypes), (False, {}, {KIND[fmt]}), what + ' flags')
    want = []
    for e in expect(fmt, case['rows'], info):
        #flagged entries without an id compare by their fields (documented), so equal ones are one
        if not (e[3] and any(e[0] == w[0] for w in want)):
            want.append(e)
    ctx.eq(sorted(map(seen, GC), key=repr), sorted(want, key=repr), what)
    for G in GC:
        ctx.eq((type(G).__name__, G._sourceFile, G.error is not None), (KIND[fmt], p, G.bad), what + ' type, file and error')
        ctx.true(G in GC, what + ' the collection contains its members')
        check_people(ctx, fmt, G, what)
    if fmt == 'nserc':
        ctx.eq(sorted(G.id for G in GC if not G.bad), sorted('NSERC:' + r[0] for r in case['rows'] if r[0]), what + ' ids')
    ctx.eq(len({G.id for G in GC}), len(want), what + ' distinct ids')
    ctx.eq((GrantCollection(p) == GC), True, what + ' second read')


# ------------------------------------------------------------------- merging

SOURCES = {  # file -> (columns, possible rows)
    'NSERC_A.csv': (['Cle', 'Name-Nom', 'Amount'], [['1', 'Ann', '10'], ['2', 'Bob', '']]),
    'NSERC_CO.csv': (['Cle', 'CoApplicantName-Nom', 'CoAppInstitution-E'], [['1', 'Cy', 'U1'], ['1', 'Di', 'U2'], ['3', 'Ed', ''], ['1', '', 'U4']]),
    'NSERC_P.csv': (['Cle', 'PartInstitution-E', 'Amount'], [['1', 'P1', '10'], ['2', 'P2', '5'], ['', 'lost', '1']]),
}


def merge_cases(tier):
    names = sorted(SOURCES)
    subsets = []
    for n in names:
        rows = SOURCES[n][1]
        opts = []
        for k in range(0, len(rows) + 1):
            opts += [list(o) for o in itertools.permutations(range(len(rows)), k)]
        subsets.append(opts)
    for combo in itertools.product(*subsets):
        used = [n for n, c in zip(names, combo) if c]
        for order in itertools.permutations(used):
            yield {'rows': {n: c for n, c in zip(names, combo) if c}, 'order': list(order)}


def merge_run(ctx, case):
    d = ctx.path('g')
    os.makedirs(d)
    want, bad = {}, 0
    for n, pick in case['rows'].items():
        cols, rows = SOURCES[n]
        text = row_text(cols, False) + ''.join(row_text(rows[i], False) for i in pick)
        ctx.write('g/' + n, text, 'latin-1')
        for i in pick:
            if rows[i][0] == '':
                bad += 1
                continue
            g = want.setdefault('NSERC:' + rows[i][0], {})
            for c, v in zip(cols, rows[i]):
                vals = g.setdefault(c, collections.Counter())
                if v:
                    vals[v] += 1
    ctx.step()
    real = os.listdir
    os.listdir = lambda p='.': list(case['order']) if os.path.realpath(p) == os.path.realpath(d) else real(p)
    try:
        GC = GrantCollection(d)
    finally:
        os.listdir = real
    what = '{}'.format(case)
    ctx.eq((GC.bad, GC.errors), (False, {}), what + ' flags')
    got, gotbad = {}, 0
    for G in GC:
        ctx.true(G in GC, what + ' the collection contains its members')
        if G.bad:
            gotbad += 1
            continue
        ctx.true(G.id not in got, what + ' twice ' + G.id)
        got[G.id] = {k: collections.Counter(x for x in v.split('; ') if x) for k, v in G.items()}
        #the lists made of them
        people = [x for k, v in G.items() if 'name-' in k.lower() for x in v.split('; ')]
        inst = [x for k, v in G.items() if 'institution' in k.lower() for x in v.split('; ')]
        ctx.eq((sorted(G.getInvestigators()), sorted(G.getInstitutions())), (sorted(people), sorted(inst)), what + ' people of ' + G.id)
    #a field that is only ever empty may be there or not
    full = lambda d: {i: {k: c for k, c in g.items() if c} for i, g in d.items()}
    ctx.eq((full(got), gotbad), (full(want), bad), what)
    ctx.state((sorted(case['rows'].items()), case['order']))


# ------------------------------------------------------- rows without an ID

KEYLESS = [['1', 'Ann', '10'], ['', 'Bob', '2'], ['', 'Cy', '']]


def keyless_cases(tier):
    for n in range(1, 5 if tier == 'quick' else 7):
        for pick in itertools.product(range(len(KEYLESS)), repeat=n):
            for cut in range(n + 1):
                yield {'pick': list(pick), 'cut': cut}


def keyless_run(ctx, case):
    """Rows without an ID say nothing about which grant they belong to: equal
    ones are one flagged grant (as they compare by their fields), others stay
    apart, and all are still members of the collection they are in."""
    os.makedirs(ctx.path('g'))
    cols = SOURCES['NSERC_A.csv'][0]
    parts = [case['pick'][:case['cut']], case['pick'][case['cut']:]]
    for i, part in enumerate(parts):
        if part:
            ctx.write('g/NSERC_%d.csv' % i, row_text(cols, False) + ''.join(row_text(KEYLESS[r], False) for r in part), 'latin-1')
    ctx.step()
    GC = GrantCollection(ctx.path('g'))
    what = str(case)
    want = sorted([dict(zip(cols, KEYLESS[r])) for r in set(case['pick']) if not KEYLESS[r][0]], key=repr)
    ctx.eq((GC.bad, sorted([dict(G) for G in GC if G.bad], key=repr)), (False, want), what + ' without an ID')
    n = case['pick'].count(0)
    ctx.eq([dict(G) for G in GC if not G.bad], [{'Cle': '; '.join(['1'] * n), 'Name-Nom': '; '.join(['Ann'] * n), 'Amount': '; '.join(['10'] * n)}] if n else [], what + ' with an ID')
    ctx.true(all(G in GC for G in GC), what + ' contains its members')
    for G in list(GC):
        left = len(GC)
        GC.discard(G)
        ctx.eq(len(GC), left - 1, what + ' discard')
    ctx.state(case)


# ------------------------------------------------- one column, Grant.update

CELLS = ['a', ' ', '\t', ' \t ', '0', '"', 'l\nm', '\n', '\n\nx', ',', '\u00e9']


def column_cases(tier):
    for n in (1, 2, 3):
        for pick in itertools.product(range(len(CELLS)), repeat=n):
            yield list(pick)


def column_run(ctx, case):
    rows = [[CELLS[i]] for i in case]
    for quote, blank, last in itertools.product((False, True), repeat=3):
        text, info = table('other', rows, quote, '\n', blank, last, ['key'])
        GC = GrantCollection(ctx.write('one.csv', text, 'latin-1'))
        ctx.step()
        ctx.eq((GC.bad, GC.errors), (False, {}), '{!r} flags'.format(text))
        ctx.eq(sorted(map(seen, GC), key=repr), sorted(expect('other', rows, info, ['key']), key=repr), '{!r}'.format(text))
    ctx.state(case)


NEW = {'a': ['x', '', '0', None], 'b': ['y', '', None], 'c': [None, 'z', '']}


def update_cases(tier):
    one = list(itertools.product(*(range(len(NEW[k])) for k in sorted(NEW))))
    for kind in ('other', 'cihr', 'medline'):
        for p, q in itertools.product(one, repeat=2):
            yield [kind, list(p), list(q)]


def update_run(ctx, case):
    """update() of a grant: the fields of the other are added and take precedence"""
    kind = case[0]
    dicts = [{k: NEW[k][i] for k, i in zip(sorted(NEW), pick) if NEW[k][i] is not None} for pick in case[1:]]
    make = {'other': lambda d: FallbackGrant(repr(d), dict(d)), 'cihr': lambda d: CIHRGrant(repr(d), dict(d, **({'PI Names': 'P'} if 'a' in d else {})), 'f', 1), 'medline': lambda d: MedlineGrant('/'.join([d.get('a', ''), 'AG', 'US'][:3 if 'b' in d else 1]))}[kind]
    A, B = make(dicts[0]), make(dicts[1])
    a, b, bad = dict(A), dict(B), A.bad or B.bad
    A.update(B)
    ctx.step()
    a.update(b)
    ctx.eq((dict(A), A.bad, A.error is not None, dict(B)), (a, bad, bad, b), str(case))
    ctx.state(case)


# ----------------------------------------------------------------------- NSF

def nsf_gen(ch):
    n = ch.pick([1, 0, 2])
    inv = [ch.pick([('Jane', 'Doe', 'j@x'), ('Jane', 'Doe', None), (None, 'Solo', 'S'), ('R', 'Roe', ''), ('Q', ' ', '\n')]) for i in range(n)]
    case = {'id': ch.pick(['12', '', None]), 'title': ch.pick(['T & <x>', '\u00e9 \u65e5', '', None]), 'amount': ch.pick(['100', None]), 'inv': [list(x) for x in inv],
            'swapname': ch.pick([False, True]),
            'inst': ch.pick([[['Uni', 'City']], [['Uni', None]], [], [['Uni', 'C'], ['Two', 'D']], [None], [None, ['Uni', 'C']], [['Uni', 'C'], None], ['leaf', ['Uni', 'C']], [['Uni', 'C'], 'leaf']]),
            'org': ch.pick([[['Dir', 'Div']], [], [['Dir', None]], [[None, 'Div']], [['Dir', 'Div'], ['D2', 'V2']], [['', '']]]),
            'repeat': ch.pick([[], ['one'], ['one', 'two'], ['one', None, 'two'], [None], [None, 'one'], ['one', 'one'], ['one', 'two', 'one']])}
    return case


def nsf_cases(tier):
    return explore(nsf_gen, 3 if tier == 'quick' else 6)


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;')


def el(tag, text):
    return '<{}/>'.format(tag) if text is None else '<{0}>{1}</{0}>'.format(tag, esc(text))


def nsf_text(c):
    x = ''
    if c['title'] is not None:
        x += el('AwardTitle', c['title'])
    for d, v in c['org']:
        x += '<Organization><Code>1</Code>' + (el('Directorate', None) if d is None else '<Directorate>' + el('LongName', d) + '</Directorate>') \
            + ('' if v is None else '<Division>' + el('LongName', v) + '</Division>') + '</Organization>'
    if c['amount'] is not None:
        x += el('AwardAmount', c['amount'])
    if c['id'] is not None:
        x += el('AwardID', c['id'] or None)
    for f, l, o in c['inv']:
        parts = [el('FirstName', f), el('LastName', l)]
        if c['swapname']:
            parts.reverse()
        x += '<Investigator>' + ''.join(parts) + ('' if o is None else el('Email', o)) + '</Investigator>'
    for i in c['inst']:
        if i is None or isinstance(i, str):
            x += el('Institution', i)
        else:
            x += '<Institution>' + el('Name', i[0]) + el('CityName', i[1]) + '</Institution>'
    for r in c['repeat']:
        x += el('Note', r)
    return '<?xml version="1.0" encoding="UTF-8"?>\n<rootTag>\n<Award>' + x + '</Award></rootTag>\n'


def nsf_want(c):
    w = {}
    if c['title'] is not None:
        w['AwardTitle'] = c['title'] or None
    if c['amount'] is not None:
        w['AwardAmount'] = c['amount']
    if c['id'] is not None:
        w['AwardID'] = c['id'] or None
    if any(d for d, v in c['org']):
        w['Directorate'] = [d for d, v in c['org'] if d]
    if any(v for d, v in c['org']):
        w['Division'] = [v for d, v in c['org'] if v]
    if c['inv']:
        w['Investigator'] = ['{}; {}'.format(' '.join(x for x in (f, l) if x), o or '') for f, l, o in c['inv']]
    vals = ['; '.join(x for x in i if x) if isinstance(i, list) else i for i in c['inst']]
    if any(isinstance(i, list) for i in c['inst']):
        w['Institution'] = [v for v in vals if v is not None]
    elif vals:
        w['Institution'] = vals[0]
    rep = [r for r in c['repeat'] if r is not None]
    if c['repeat']:
        w['Note'] = None if not rep else rep[0] if len(rep) == 1 else rep
    return w


def nsf_run(ctx, case):
    text = nsf_text(case)
    p = ctx.write('a.xml', text)
    what = repr(text[64:])
    ctx.step()
    GC = GrantCollection(p)
    ctx.eq((GC.bad, len(GC), GC._collectedTypes), (False, 1, {'NSFGrant'}), what)
    G = GC.peek()
    w = nsf_want(case)
    ctx.eq(dict(G.items()), w, what + ' fields')
    ctx.eq((G.bad, G.error is not None), (not case['id'], not case['id']), what + ' flag')
    ctx.eq(G.id, 'NSF:' + (case['id'] or 'a.xml'), what + ' id')
    ctx.eq(G.getInvestigators(), [i.split(';')[0].strip() for i in w.get('Investigator', [])], what + ' investigators')
    inst = w.get('Institution')
    ctx.eq(G.getInstitutions(), [] if inst is None else [inst] if isinstance(inst, str) else [i.split(';')[0].strip() for i in inst], what + ' institutions')
    for sep in (' ', ',', 'e; ', '@'):
        ctx.eq(G.getInvestigators(seperator=sep), [i.split(sep)[0].strip() for i in w.get('Investigator', [])], what + ' investigators separated by ' + repr(sep))
        ctx.eq(G.getInstitutions(seperator=sep), [] if inst is None else [x.strip() for x in inst.split(sep)] if isinstance(inst, str) else [i.split(sep)[0].strip() for i in inst], what + ' institutions separated by ' + repr(sep))
    ctx.eq(GrantCollection(p) == GC, True, what + ' second read')


# -------------------------------------------------------------------- faults

def fault_files():
    out = {}
    rows = {'cihr': [['A, B', 'l1\nl2', '1'], ['C', 'U "q"', '2'], ['D', '', '3']], 'nserc': [['1', 'A, B', 'l1\nl2', '1'], ['2', 'C', 'U "q"', '2'], ['3', 'D', '', '3']],
            'other': [['1', 'A, B', 'l1\nl2'], ['2', 'U "q"', '2'], ['3', 'D', '']]}
    for fmt in rows:
        for quote in (False, True):
            out[fmt + ('-q' if quote else '')] = (fmt, rows[fmt], quote)
    return out


FAULT = fault_files()
NSFCASE = {'id': '12', 'title': 'T & \u00e9', 'amount': '100', 'inv': [['Jane', 'Doe', 'j@x']], 'swapname': False, 'inst': [['Uni', 'City']], 'org': [['Dir', 'Div']], 'repeat': []}


def fault_cases(tier):
    for key in FAULT:
        fmt, rows, quote = FAULT[key]
        n = len(table(fmt, rows, quote)[0])
        for at in range(n + 1):
            yield {'key': key, 'fault': 'cut', 'at': at}
        for i in range(len(rows)):
            for f in ('short', 'long', 'noid', 'huge', 'quote', 'null', 'word'):
                yield {'key': key, 'fault': f, 'at': i}
    t = nsf_text(NSFCASE).encode('utf-8')
    for at in range(len(t) + 1):
        yield {'key': 'nsf', 'fault': 'cut', 'at': at}
        for b in (0xff, 0, ord('<'), ord('&')):
            if at < len(t):
                yield {'key': 'nsf', 'fault': 'byte', 'at': at, 'byte': b}
    for w in ('two awards', 'no award', 'other root', 'empty award', 'entity'):
        yield {'key': 'nsf', 'fault': w, 'at': 0}


def read(ctx, p, ext=''):
    """GrantCollection or None when refused"""
    ctx.step()
    try:
        return GrantCollection(p, extension=ext)
    except mk.mkExceptions.BadInputFile as e:
        ctx.true(os.path.basename(p) in str(e) or os.path.isdir(p), 'the refusal does not name the file: {}'.format(e))
        return None


def fault_run(ctx, case):
    what = '{}'.format(case)
    if case['key'] == 'nsf':
        t = nsf_text(NSFCASE).encode('utf-8')
        f, at = case['fault'], case['at']
        if f == 'cut':
            data = t[:at]
        elif f == 'byte':
            data = t[:at] + bytes([case['byte']]) + t[at + 1:]
        elif f == 'two awards':
            data = t.replace(b'</Award>', b'</Award><Award><AwardID>2</AwardID></Award>')
        elif f == 'no award':
            data = b'<rootTag><Other/></rootTag>'
        elif f == 'other root':
            data = t.replace(b'rootTag', b'x')
        elif f == 'empty award':
            data = b'<rootTag><Award/></rootTag>'
        else:
            data = t.replace(b'Jane', b'&unknown;')
        p = ctx.write('d/a.xml', data)
        GC = read(ctx, p)
        #the parser itself reports instead of raising
        got, err = parserNSFfile(p) if GC is not None or f in ('cut', 'entity') else (None, None)
        ctx.true(err is None or isinstance(err, mk.mkExceptions.BadGrant) and 'a.xml' in str(err), what + ' parser error {!r}'.format(err))
        if GC is not None:
            ctx.eq((err, [repr(list(G.items())) for G in got]), (None, [repr(list(G.items())) for G in GC]), what + ' parser')
        elif f in ('cut', 'entity'):
            ctx.true(err is not None or at in (0, len(t) - 1), what + ' parser took a broken file')
        if GC is not None:
            whole = data.rstrip().endswith(b'</rootTag>') or f in ('byte', 'other root', 'empty award')
            ctx.true(whole and len(GC) == 1, what + ': a broken file was accepted')
            if f == 'empty award':
                ctx.true(GC.peek().bad, what + ' not flagged')
        else:
            ctx.true(f != 'cut' or case['at'] < len(t) - 1, what + ' refused a whole file')
        dirs(ctx, p, GC, '.xml', what)
        return
    fmt, rows, quote = FAULT[case['key']]
    text, info = table(fmt, rows, quote)
    i = case['at']
    must, flagged = [], 0
    if case['fault'] == 'cut':
        text = text[:i]
        done = [n for n, (line, t) in enumerate(info) if len(''.join(x[1] for x in info[:n + 1])) + len(table(fmt, [], quote)[0]) <= i]
        must = [expect(fmt, rows, info)[n] for n in done]
        refusable = len(done) < len(rows)
    else:
        rows2 = [list(r) for r in rows]
        f = case['fault']
        must = [e for n, e in enumerate(expect(fmt, rows, info)) if n != i]
        refusable = True
        if f == 'short':
            rows2[i] = rows2[i][:1]
        elif f == 'long':
            rows2[i] += ['more', 'most']
        elif f == 'noid':
            rows2[i][0] = ''
            refusable, flagged = False, int(fmt != 'other')
        elif f == 'huge':
            rows2[i][-1] = 'x' * 140000
        elif f == 'null':
            rows2[i][-1] = 'a\x00b'
        elif f == 'word':
            rows2[i] = ['garbage line']
        text, info2 = table(fmt, rows2, quote)
        if f == 'quote':
            line, t = info2[i]
            at = text.index(t)
            text = text[:at] + '"' + text[at:]
            must = [e for n, e in enumerate(expect(fmt, rows, info)) if n < i]
    p = ctx.write('d/' + FILE[fmt], text, 'latin-1')
    GC = read(ctx, p)
    if GC is None:
        ctx.true(refusable, what + ': a readable file was refused')
    else:
        got = [(l, o, bad) for l, o, line, bad in map(seen, GC) if isinstance(o, str)]
        for l, o, line, bad in must:
            n = sum(1 for g in got if g[0] == l)
            ctx.true(n == 1 or GC.bad, '{}: undamaged row {} read {} times'.format(what, l, n))
        if case['fault'] != 'cut' and case['fault'] != 'quote':
            ctx.true(len(GC) >= len(rows) or GC.bad, what + ': rows vanished unreported')
        ctx.true(sum(1 for G in GC if G.bad) >= flagged, what + ' was not flagged')
        for G in GC:
            G.getInvestigators()
            G.getInstitutions()
            G.getInvestigators(list(k for k in G.keys() if k))
        ctx.eq((GC.bad, bool(GC.errors)), (bool(GC.errors), GC.bad), what + ' flag and errors')
    dirs(ctx, p, GC, '.csv', what)


def dirs(ctx, p, GC, ext, what):
    """The directory: as the file, skipped or refused by name."""
    d = os.path.dirname(p)
    D = read(ctx, d)
    ctx.true(D is not None, what + ' directory refused')
    ctx.eq(sorted((repr(list(G.items())) for G in D)), [] if GC is None else sorted(repr(list(G.items())) for G in GC), what + ' directory')
    try:
        E = GrantCollection(d, extension=ext)
    except mk.mkExceptions.BadInputFile as e:
        ctx.true(GC is None and os.path.basename(p) in str(e), what + ' directory with extension: {}'.format(e))
    else:
        ctx.true(GC is not None and len(E) == len(GC), what + ' directory with extension accepted')
        for C, w in ((D, ' directory'), (E, ' directory with extension')):
            ctx.eq((C.bad, [(os.path.basename(k), type(v), str(v)) for k, v in C.errors.items()]), (GC.bad, [(os.path.basename(k), type(v), str(v)) for k, v in GC.errors.items()]), what + w + ' flag and errors')


# -------------------------------------------------- grants inside records

PART = ['', 'R01 CA1', 'CA', 'x/y', '12']
TAIL = ['NIH HHS', 'Wellcome Trust', 'MRC, UK']
COUNTRY = ['United States', 'UK']


def text_cases(tier):
    for num, code, ag, co in itertools.product(['', 'R01 CA1', 'P/123', 'A/B/C', 'S/CA/1', '12345'], ['', 'CA', 'HG'], TAIL, COUNTRY):
        yield {'kind': 'medline', 'num': num, 'code': code, 'agency': ag, 'country': co}
    for t in ('', 'nothing', 'no slash, at all'):
        yield {'kind': 'badmedline', 'text': t}
    for n, a, f in itertools.product(['', '614', 'DGE-1'], ['', 'NSF', 'N S F'], ['National Fund', 'Fund', 'X; Y']):
        if n and not a:
            continue
        yield {'kind': 'scopus', 'parts': [x for x in (n, a, f) if x], 'n': n, 'a': a, 'f': f}
    lines = ['R01 CA1/CA/NIH HHS/US', 'HG/NIH/UK', 'plain', 'X/US', 'A/B/C/HG/N/US']
    for k in (1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5):
        for c in itertools.product(lines, repeat=k):
            yield {'kind': 'record', 'lines': list(c)}
    for k in (1, 2, 3):
        for c in itertools.product(['1, NSF, Fund', 'NSF, Fund', 'Fund', '2, A, B'], repeat=k):
            yield {'kind': 'scopusrecord', 'lines': list(c)}


def text_run(ctx, case):
    ctx.step()
    k = case['kind']
    if k == 'medline':
        t = '/'.join([x for x in (case['num'], case['code']) if x] + [case['agency'], case['country']])
        G = MedlineGrant(t)
        want = {'country': case['country'], 'agency': case['agency']}
        if case['code']:
            want['code'] = case['code']
        if case['num']:
            want['number'] = case['num']
        ctx.eq((dict(G.items()), G.original, G.bad, G.error), (want, t, False, None), 'medline grant {!r}'.format(t))
        ctx.true(G == MedlineGrant(t) and hash(G) == hash(MedlineGrant(t)), 'equal to itself')
        for num, code, ag, co in itertools.product(['', 'R01 CA1', 'P/123'], ['', 'CA'], TAIL[:2], COUNTRY):
            H = MedlineGrant('/'.join([x for x in (num, code) if x] + [ag, co]))
            differs = (num, code, co) != (case['num'], case['code'], case['country']) or (not num and ag != case['agency'])
            if differs:
                ctx.true(G != H, '{!r} equals {!r}'.format(t, H.original))
    elif k == 'badmedline':
        G = MedlineGrant(case['text'])
        ctx.true(G.bad and G.error is not None and G.original == case['text'], '{!r} not flagged'.format(case['text']))
    elif k == 'scopus':
        t = ', '.join(case['parts'])
        G = ScopusGrant(t)
        want = {'agency': case['f']}
        if case['a']:
            want['agencyCode'] = case['a']
        if case['n']:
            want['code'] = case['n']
        ctx.eq((dict(G.items()), G.original, G.bad), (want, t, False), 'scopus grant {!r}'.format(t))
        ctx.true(G == ScopusGrant(t), 'equal to itself')
        for o in (['1', 'NSF', 'Fund'], ['NSF', 'Fund'], ['Fund'], ['NSF', 'National Fund'], ['614', 'NSF', 'Fund']):
            if o != case['parts']:
                ctx.true(G != ScopusGrant(', '.join(o)), '{!r} equals {!r}'.format(t, o))
    elif k == 'record':
        R = mk.MedlineRecord(collections.OrderedDict([('PMID', ['1']), ('GR', case['lines'])]))
        for key in ('GR', 'GrantNumber'):
            gs = R[key]
            ctx.eq([(type(g).__name__, g.original, dict(g.items())) for g in gs], [('MedlineGrant', l, dict(MedlineGrant(l).items())) for l in case['lines']], 'grants of {}'.format(case))
    else:
        R = mk.ScopusRecord(collections.OrderedDict([('EID', 'e1'), ('Funding Details', '; '.join(case['lines']))]))
        ctx.eq([(type(g).__name__, g.original) for g in R['Funding Details']], [('ScopusGrant', l) for l in case['lines']], 'grants of {}'.format(case))


# --------------------------------------------------------------------- sizes

def size_cases(tier):
    for n in sizes(2001 if tier == 'thorough' else 513):
        for fmt in COLS:
            for shape in ('rows', 'text', 'lines', 'people', 'quotes', 'short', 'long'):
                yield [shape, fmt, n]
        yield ['nsf', 'nsf', n]
        yield ['merge', 'nserc', n]
    for n in (8191, 8192, 8193, 32768, 65535, 65536, 65537, 131071, 131072, 131073, 200000):
        for fmt in COLS:
            for shape in ('text', 'people'):
                yield [shape, fmt, n]
        yield ['nsf', 'nsf', n // 8]


def size_run(ctx, case):
    shape, fmt, n = case
    ctx.state(tuple(case))
    if shape == 'nsf':
        return nsf_run(ctx, {'id': '1' * n, 'title': 't ' * n + 'x', 'amount': '1', 'inv': [['J%d' % i, 'Doe', 'j%d@x' % i] for i in range(min(n, 3000))], 'swapname': False,
                             'inst': [['Uni %d' % i, 'City'] for i in range(min(n, 3000))], 'org': [['Dir %d' % i, 'Div %d' % i] for i in range(min(n, 3000))], 'repeat': ['r%d' % i for i in range(min(n, 3000))]})
    if shape == 'merge':
        names = sorted(SOURCES)
        d = ctx.path('g')
        os.makedirs(d)
        rows = {'NSERC_A.csv': [['7', 'Ann', '10']], 'NSERC_CO.csv': [['7', 'N%d' % i, 'U%d' % i] for i in range(n)], 'NSERC_P.csv': [['7', 'P%d' % i, '10'] for i in range(n)]}
        for f in names:
            ctx.write('g/' + f, row_text(SOURCES[f][0], False) + ''.join(row_text(r, False) for r in rows[f]), 'latin-1')
        ctx.step()
        GC = GrantCollection(d)
        ctx.eq((GC.bad, GC.errors, [G.id for G in GC]), (False, {}, ['NSERC:7']), '{}'.format(case))
        G = GC.peek()
        got = {k: collections.Counter(v.split('; ')) for k, v in G.items()}
        want = {}
        for f in names:
            for r in rows[f]:
                for c, v in zip(SOURCES[f][0], r):
                    want.setdefault(c, collections.Counter())[v] += 1
        ctx.eq(got, want, '{}: values'.format(case))
        ctx.eq(sorted(G.getInvestigators()), sorted(['Ann'] + ['N%d' % i for i in range(n)]), '{}: investigators'.format(case))
        return
    fill = lambda i, x, y='y': {'cihr': [x, y, str(i)], 'nserc': [str(i + 1), x, y, '1'], 'other': [str(i), x, y]}[fmt]
    if shape in ('short', 'long'):
        #a damaged row after n good ones
        good = [fill(i, 'P %d' % i) for i in range(n)]
        text, info = table(fmt, good, False)
        end = fill(n, 'last')
        for tail in ([], [fill(n + 1, 'more')]):
            p = ctx.write(FILE[fmt], text + ''.join(row_text(r, False) for r in [end[:-1] if shape == 'short' else end + ['x', 'y']] + tail), 'latin-1')
            GC = read(ctx, p)
            if GC is None:
                continue
            ctx.eq((GC.bad, bool(GC.errors)), (bool(GC.errors), GC.bad), '{} flag and errors'.format(case))
            got = [e[0] for e in map(seen, GC)]
            for l, o, line, bad in expect(fmt, good, info):
                ctx.true(GC.bad or l in got, '{}: lost an undamaged row'.format(case))
            ctx.true(len(GC) == n + 1 + len(tail) or GC.bad, '{}: rows vanished unreported'.format(case))
            ctx.true(fmt != 'other' or shape == 'short' or GC.bad, '{}: a damaged file without a known format was accepted'.format(case))
        return
    if shape == 'rows':
        rows = [fill(i, 'P %d' % i) for i in range(n)]
    else:
        v = {'text': 'v' * n, 'lines': '\n'.join('l%d' % i for i in range(n)), 'people': '; '.join('Person %d' % i for i in range(min(n, 9000))) + 'e' * (n if n > 9000 else 0), 'quotes': '"' * n + ', x'}[shape]
        rows = [fill(0, 'first'), fill(1, v, v), fill(2, 'last')]
    for quote in (False, True):
        csv_run(ctx, {'fmt': fmt, 'rows': rows, 'quote': quote, 'end': '\n', 'blank': False, 'last': True})


SCENARIOS = [
    Scenario('size', size_cases, size_run, 'n rows, a short or long row after n others, values of n characters, lines or quotes, n people; NSF documents and merged NSERC files with n people; n around 4, 5, 8, 10, 16, ... up to 513 (thorough 2001), values around 8192, 65536 and 131072 characters', timeout=240),
    Scenario('csv', csv_cases, csv_run, 'every row over 9 values in 3 columns for CIHR, NSERC and other csv files, minimal and full quoting; all files of up to 4 (5) of 4 rows with every line ending, blank lines and missing final newline'),
    Scenario('merge', merge_cases, merge_run, 'every ordered selection of up to 8 rows over three NSERC files in every listing order'),
    Scenario('keyless', keyless_cases, keyless_run, 'every sequence of up to 4 (6) rows over one with and two without an ID, split at every point into two files'),
    Scenario('one-column', column_cases, column_run, 'files of one column and up to 3 rows over {} values: blanks, quotes, line breaks'.format(len(CELLS))),
    Scenario('update', update_cases, update_run, 'every pair of grants of 3 kinds over present, empty and missing fields'),
    Scenario('nsf', nsf_cases, nsf_run, 'NSF documents: all combinations of up to 3 (6) deviations over 9 element choices'),
    Scenario('faults', fault_cases, fault_run, 'cut after every byte, bad bytes at every position (xml), 7 row faults at every row, alone and through the directory with and without extension'),
    Scenario('text', text_cases, text_run, 'Medline and Scopus grant texts over all combinations of their parts, records with up to 4 (5) grants'),
]
