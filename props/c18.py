"""C18: Scopus CSV files: reading, decoding, write/read round trip and damage.

Oracle: an independent forward scanner of a CSV line (`scan`): a well formed line
has exactly one field per column, every field empty, unquoted without quotes, or
quoted with inner quotes doubled (kept doubled, as documented)."""
import itertools
import os
import metaknowledge as mk
from metaknowledge import RecordCollection, ScopusRecord
from metaknowledge.scopus.recordScopus import scopusHeader
from mc.core import Scenario
from mc.chars import CHARS as ODD, placed
from mc.sizes import sizes, word

COLS = ['Authors', 'Title', 'Year', 'Source title', 'Volume', 'Issue', 'Art. No.', 'Page start', 'Page end', 'Page count', 'Cited by', 'DOI', 'Link',
        'Affiliations', 'Authors with affiliations', 'Abstract', 'Author Keywords', 'Index Keywords', 'Molecular Sequence Numbers', 'Chemicals/CAS',
        'Tradenames', 'Manufacturers', 'Funding Details', 'Funding Text', 'References', 'Correspondence Address', 'Editors', 'Sponsors', 'Publisher',
        'Conference name', 'Conference date', 'Conference location', 'Conference code', 'ISSN', 'ISBN', 'CODEN', 'PubMed ID',
        'Language of Original Document', 'Abbreviated Source Title', 'Document Type', 'Source', 'EID']
OLD = [c for c in COLS if c != 'Funding Text']
INT = {'Year', 'Page count', 'Cited by', 'Conference code'}
SEMISPACE = {'Authors with affiliations', 'Author Keywords', 'Index Keywords', 'Tradenames', 'Manufacturers', 'Correspondence Address', 'ISBN', 'Language of Original Document'}
STRING = {'Title', 'Source title', 'Volume', 'Issue', 'Art. No.', 'Page start', 'Page end', 'DOI', 'Link', 'Affiliations', 'Abstract', 'Molecular Sequence Numbers', 'Chemicals/CAS',
          'Funding Text', 'Editors', 'Publisher', 'Conference name', 'Conference date', 'Conference location', 'ISSN', 'CODEN', 'PubMed ID', 'Abbreviated Source Title', 'Document Type', 'Source', 'EID'}
SPECIALS = {'year': 'Year', 'volume': 'Volume', 'beginningPage': 'Page start', 'j9': 'Abbreviated Source Title', 'citations': 'References', 'authorsShort': 'Authors', 'authorsFull': 'Authors',
            'title': 'Title', 'journal': 'Source title', 'keywords': 'Index Keywords', 'abstract': 'Abstract'}


def field(v, style):
    """v: raw text (quotes doubled) or None"""
    if v is None:
        return '""' if style == 'q' else ''
    if style == 'u' and ',' not in v and '"' not in v and v:
        return v
    return '"' + v + '"'


def row_text(vals, style='q', cols=COLS):
    return ','.join(field(vals.get(c), style) for c in cols)


def file_text(rows, styles=('q',), cols=COLS, end='\n', header=None):
    out = '\ufeff' + ','.join(header or cols) + '\n'
    out += '\n'.join(row_text(r, styles[i % len(styles)], cols) for i, r in enumerate(rows)) + end
    return out


def decode(c, v):
    if c in INT:
        return int(v)
    if c == 'Authors':
        return v.split(', ')
    if c in SEMISPACE:
        return v.split('; ')
    if c == 'Sponsors':
        return v.split(';')
    if c in ('References', 'Funding Details'):
        return v.split('; ')
    return v


def shown(c, got):
    if c == 'References':
        return [str(x) for x in got]
    if c == 'Funding Details':
        return [x.original for x in got]
    return got


def check_record(ctx, R, vals, what):
    vals = {c: v for c, v in vals.items() if v is not None and v != ''}
    ctx.eq((R.bad, R.error), (False, None), what + ' flagged')
    ctx.eq(R.id, 'EID:' + vals['EID'], what + ' id')
    ctx.eq({k: v for k, v in R.items(raw=True)}, vals, what + ' raw values')
    for c, v in vals.items():
        ctx.eq(shown(c, R[c]), decode(c, v), what + ' value of ' + c)
        ctx.true(c in R, what + ' membership of ' + c)
    for s, c in SPECIALS.items():
        ctx.eq(s in R, c in vals, what + ' membership of ' + s)
        if c in vals:
            ctx.eq(shown(c, R[s]), decode(c, vals[c]), what + ' value of ' + s)
    for c in COLS:
        if c not in vals:
            ctx.eq((c in R, R.get(c, 'none')), (False, 'none'), what + ' missing ' + c)


def check_file(ctx, RC, rows, what, first=None):
    ctx.eq((bool(RC.bad), dict(RC.errors)), (False, {}), what + ' collection flagged')
    ctx.eq(len(RC), len(rows), what + ' number of records')
    for r in rows:
        R = RC.getID('EID:' + r['EID'])
        ctx.true(R is not None, what + ' lost ' + r['EID'])
        check_record(ctx, R, r, what)
    if first is not None:
        ctx.eq([RC.getID('EID:' + r['EID']).sourceLine for r in rows], list(range(first, first + len(rows))), what + ' lines')


def write_and_read(ctx, RC, rows, what, fname):
    p = ctx.path(fname)
    RC.writeFile(p)
    ctx.step()
    back = RecordCollection(p)
    ctx.step()
    check_file(ctx, back, rows, what + ' after writing and reading back')
    ctx.true(back == RC and RC == back and hash(back) == hash(RC), what + ' differs after writing and reading back')
    return back


def base(n, **kw):
    d = {'Authors': 'Smith J., Doe K.', 'Title': 'T{}'.format(n), 'Year': '2001', 'EID': '2-s2.0-{}'.format(n)}
    d.update(kw)
    return d


# ---------------------------------------------------------------- value shapes
PIECES = ['a', ',', '""', ' ', ', ', '; ', '|', '$']
SPOTS = ['Title', 'Authors', 'Abstract', 'Source', 'DOI']


def value_cases(tier):
    n = 3 if tier == 'quick' else 4
    for k in range(1, n + 1):
        for c in itertools.product(range(len(PIECES)), repeat=k):
            yield list(c)


def values(ctx, case):
    v = ''.join(PIECES[i] for i in case)
    for spot in SPOTS:
        for style in 'qu':
            row = base(1, **{spot: v})
            p = ctx.write('in.csv', file_text([row], (style,)))
            RC = RecordCollection(p)
            ctx.step()
            what = '{} = {!r} {}'.format(spot, v, style)
            check_file(ctx, RC, [row], what, 2)
    row = base(1, Title=v, Authors=v, Abstract=v, **{'Source title': v, 'References': v})
    p = ctx.write('in2.csv', file_text([row, base(2)], ('q', 'u')))
    RC = RecordCollection(p)
    check_file(ctx, RC, [row, base(2)], 'neighbouring {!r}'.format(v))
    back = write_and_read(ctx, RC, [row, base(2)], 'neighbouring {!r}'.format(v), 'out.csv')
    ctx.state(case)


# ------------------------------------------------------------------- columns
MULTI = {'References': 'Smith, J., T (2001) Nature, 12, pp. 1-5; Not a journal thing; Doe, K. (1999) Science', 'Funding Details': 'AB12, NSF, National Science Foundation; NIH', 'Year': '1999',
         'Page count': '12', 'Cited by': '0', 'Conference code': '123', 'Authors': 'A B., C D.', 'Sponsors': 'x;y', 'EID': '2-s2.0-77'}


def col_cases(tier):
    for c in COLS:
        yield [c]
    for a, b in itertools.combinations(COLS, 2):
        yield [a, b]
    if tier == 'thorough':
        for t in itertools.combinations(COLS, 3):
            yield list(t)


def columns(ctx, case):
    row = {'EID': '2-s2.0-77'}
    for c in case:
        row[c] = MULTI.get(c, 'one; two, three;four')
    other = base(2)
    for cols, styles in ((COLS, 'qu'), (OLD, 'uq')):
        if 'Funding Text' in row and cols is OLD:
            continue
        p = ctx.write('in.csv', file_text([row, other], styles, cols))
        RC = RecordCollection(p)
        ctx.step()
        check_file(ctx, RC, [row, other], 'columns {}'.format(case))
        write_and_read(ctx, RC, [row, other], 'columns {}'.format(case), 'out.csv')
    ctx.state(case)


def layout_cases(tier):
    yield ['reversed']
    for i in range(len(COLS) - 1):
        yield ['swap', i]
        yield ['drop', i]
    yield ['extra', 0]
    yield ['extra', len(COLS) // 2]
    yield ['renamed', 3]


def layouts(ctx, case):
    cols = list(COLS)
    if case[0] == 'reversed':
        cols.reverse()
    elif case[0] == 'swap':
        i = case[1]
        cols[i], cols[i + 1] = cols[i + 1], cols[i]
    elif case[0] == 'drop':
        del cols[case[1]]
    elif case[0] == 'extra':
        cols.insert(case[1], 'New column')
    elif case[0] == 'renamed':
        cols[case[1]] = 'New column'
    rows = [{c: MULTI.get(c, 'v{} of, {}'.format(c, n)) for c in cols if c != 'New column'} for n in range(2)]
    for n, r in enumerate(rows):
        r['EID'] = '2-s2.0-{}'.format(n)
    p = ctx.write('in.csv', file_text(rows, 'qu', cols))
    RC = RecordCollection(p)
    ctx.step()
    check_file(ctx, RC, rows, 'layout {}'.format(case), 2)
    for junk in ('', 'Exported', 'a,b,c'):
        p = ctx.write('in3.csv', '\ufeff' + junk + '\n' + file_text(rows, 'qu', cols)[1:])
        check_file(ctx, RecordCollection(p), rows, 'layout {} on the second line'.format(case), 3)
    write_and_read(ctx, RC, rows, 'layout {}'.format(case), 'out.csv')
    if 'New column' in cols:
        for r in rows:
            r['New column'] = 'new, {}'.format(r['EID'])
        RC = RecordCollection(ctx.write('in2.csv', file_text(rows, 'qu', cols)))
        check_file(ctx, RC, rows, 'layout {} with values'.format(case))
        ctx.eq(RC.peek()['New column'], RC.peek().get('New column', raw=True), 'value of an unknown column')
    ctx.state(case)


# --------------------------------------------------------------------- damage
ROWS = [base(1, Abstract='some, text ""q"", end', References='Smith, J. (2001) Nature; B'), base(2, Volume='7', **{'Cited by': '3'}),
        base(3, Title='Plain', **{'Page start': '1', 'Page end': '9'})]
STYLES = ['qqq', 'uuu', 'quq']


def scan(line):
    """fields of a CSV line or None when it is malformed"""
    out = []
    i = 0
    while True:
        if i < len(line) and line[i] == '"':
            j = i + 1
            while True:
                k = line.find('"', j)
                if k < 0:
                    return None
                if line[k:k + 2] == '""':
                    j = k + 2
                    continue
                break
            out.append(line[i + 1:k])
            i = k + 1
        else:
            k = line.find(',', i)
            k = len(line) if k < 0 else k
            if '"' in line[i:k]:
                return None
            out.append(line[i:k])
            i = k
        if i >= len(line):
            return out
        if line[i] != ',':
            return None
        i += 1


def grammar(text):
    """(recognised, [row values or None for a malformed row])"""
    if not text.startswith('\ufeff'):
        return False, []
    lines = text[1:].split('\n')
    if lines[-1] == '':
        lines.pop()
    header = None
    for l in lines[:2]:
        if len(set(l.split(',')) ^ set(COLS)) <= 3:
            header = l.split(',')
            break
    if header is None:
        return False, []
    if header != lines[0].split(','):
        return None, []
    out = []
    for l in lines[1:]:
        f = scan(l)
        if f is None or any('\ud800' <= ch <= '\udfff' for ch in l) or len(f) != len(header) or len(set(header)) != len(header):
            out.append(None)
        else:
            d = {c: v for c, v in zip(header, f) if v != ''}
            out.append(d if 'EID' in d else None)
    return True, out


def damaged():
    for s in range(len(STYLES)):
        t = file_text(ROWS, STYLES[s])
        for i in range(len(t) + 1):
            yield [s, 'cut', i]
    for s in range(2):
        t = file_text(ROWS, STYLES[s])
        first = t.index('\n') + 1
        for i in range(first, len(t)):
            yield [s, 'del', i]
            for c in range(len(CHARS)):
                yield [s, 'put', i, c]
                yield [s, 'ins', i, c]
        for i in range(5):
            yield [s, 'dropline', i]
            yield [s, 'dupline', i]
    b = file_text(ROWS + [UNIROW], STYLES[0]).encode('utf-8')
    for i in range(b.index(b'\n') + 1, len(b) + 1):
        yield [0, 'bcut', i]
        yield [0, 'bins', i]
        yield [0, 'bset', i]


UNIROW = base(9, Authors='\u00c5 B., \u65e5 C.', Title='\U0001d538, \u00df', Publisher='\u0141')
CHARS = ['"', ',', '\n', '\t', '""', ',,']


def mutate(case):
    t = file_text(ROWS, STYLES[case[0]])
    k, i = case[1], case[2]
    if k[0] == 'b':
        b = file_text(ROWS + [UNIROW], STYLES[0]).encode('utf-8')
        b = {'bcut': b[:i], 'bins': b[:i] + b'\xff' + b[i:], 'bset': b[:i] + b'\xff' + b[i + 1:]}[k]
        return b.decode('utf-8', 'surrogateescape')
    if k == 'cut':
        return t[:i]
    if k == 'del':
        return t[:i] + t[i + 1:]
    if k == 'put':
        return t[:i] + CHARS[case[3]] + t[i + 1:]
    if k == 'ins':
        return t[:i] + CHARS[case[3]] + t[i:]
    L = t.split('\n')
    if i >= len(L):
        return t
    if k == 'dropline':
        del L[i]
    else:
        L.insert(i, L[i])
    return '\n'.join(L)


def damage_cases(tier):
    for n, c in enumerate(damaged()):
        yield c


def damage(ctx, case):
    text = mutate(case)
    known, rows = grammar(text)
    p = ctx.write('in.csv', text.encode('utf-8', 'surrogateescape'))
    ctx.step()
    what = '{}'.format(case)
    if known is False:
        ctx.raises(mk.BadInputFile, lambda: RecordCollection(p), what + ' unrecognisable')
        return
    RC = RecordCollection(p)
    if known is None:
        ctx.true(bool(RC.bad) or any(R.bad for R in RC), what + ' damaged header but not flagged')
        return
    good = [r for r in rows if r is not None]
    ids = [r['EID'] for r in good]
    for r in good:
        R = RC.getID('EID:' + r['EID'])
        ctx.true(R is not None, what + ' lost ' + r['EID'])
        if ids.count(r['EID']) == 1:
            try:
                check_record(ctx, R, r, what)
            except ValueError as e:            # damaged number
                ctx.true('int()' in str(e), what + ' {}'.format(e))
    flagged = bool(RC.bad) or any(R.bad for R in RC)
    if len(good) == len(rows):
        ctx.true(not flagged, what + ' well formed but flagged: {} {}'.format(RC.errors, [R.error for R in RC]))
    else:
        ctx.true(flagged, what + ' damaged but not flagged: {}'.format([r for r in rows]))
    sound = {'EID:' + i for i in ids}
    for R in RC:
        if R.bad:
            ctx.true(R.error is not None, what + ' bad record without an error')
        else:
            ctx.true(R.id in sound, what + ' record {} read from a damaged row'.format(R.id))
    ctx.state(case)


# ------------------------------------------------------------------- citations
def cite_cases(tier):
    opts = dict(auth=[None, 'Smith J.', 'Smith J., Doe K.'], title=[None, 'A title', 'The (long), one'], year=[None, '2001'], journal=[None, 'Nature', 'J. Soc. Sci.'],
                vol=[None, '12'], page=[None, '33'])
    for c in itertools.product(*opts.values()):
        yield list(c)


def cites(ctx, case):
    auth, title, year, journal, vol, page = case
    row = {'EID': 'x', 'Authors': auth, 'Title': title, 'Year': year, 'Source title': journal, 'Volume': vol, 'Page start': page}
    R = RecordCollection(ctx.write('in.csv', file_text([row]))).peek()
    ctx.step()
    c = R.createCitation()
    multi = R.createCitation(multiCite=True)
    ctx.true(isinstance(multi, tuple), 'multiCite gives a tuple')
    names = auth.split(', ') if auth else [None]
    ctx.eq(len(multi), len(names), 'one citation per author')
    ctx.eq(str(R['selfCitation']), str(c), 'selfCitation')
    if auth and year and journal and not (vol is None and page):
        for cc, n in [(c, names[0])] + list(zip(multi, names)):
            ctx.eq((cc.bad, cc.author, cc.year, cc.journal, cc.V, cc.P), (False, n.upper(), int(year), journal.upper(), vol, page), 'parts of {!r}'.format(str(cc)))
            ctx.eq(cc.name.strip() if cc.name else None, title and title.replace('(', '').replace(')', '').upper(), 'title in {!r}'.format(str(cc)))
    for cc in (c,) + multi:
        if cc.bad:
            ctx.eq((cc.year, cc.name, cc.journal), (int(year or 0), (title or '').upper(), (journal or '').upper()), 'what is known of {!r}'.format(str(cc)))
        else:
            ctx.eq(cc.year, int(year or 0), 'year of {!r}'.format(str(cc)))
        cc.ID(), cc.Extra(), cc.allButDOI(), cc.isAnonymous()
    ctx.state(case)


# ----------------------------------------------------------------- characters
def char_cases(tier):
    for c in ODD:
        yield c


def characters(ctx, case):
    c = '""' if case == '"' else case
    for v in placed(c):
        for t in ('Title', 'Authors', 'Abstract', 'Sponsors', 'References', 'Publisher', 'Source'):
            for v in (v, 'x' + v, v + 'y', 'x,' + v + ',y'):
                rows = [base(1, **{t: v}), base(2)]
                for style in 'qu':
                    RC = RecordCollection(ctx.write('in.csv', file_text(rows, (style,)).encode('utf-8')))
                    ctx.step()
                    what = '{} = {!r} {}'.format(t, v, style)
                    check_file(ctx, RC, rows, what)
                write_and_read(ctx, RC, rows, what, 'out.csv')
    ctx.state(case)


# ---------------------------------------------------------------------- sizes
def size_cases(tier):
    for n in sizes(2001 if tier == 'thorough' else 513):
        for shape in ('rows', 'lists', 'text', 'quotes'):
            yield [shape, n]
    for n in (4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 131071, 131072, 131073, 200000):
        yield ['text', n]


def sized(ctx, case):
    shape, n = case
    if shape == 'rows':
        rows = [base(i, References='Smith, J., T (20%02d) Nature' % (i % 100)) for i in range(n)]
    elif shape == 'lists':
        rows = [base(1, Authors=', '.join(word(i) + ' Q.' for i in range(n)), References='; '.join('%s Q., T%d (1999) Nature, %d' % (word(i), i, i) for i in range(n)),
                     Sponsors=';'.join(word(i) for i in range(n)), **{'Index Keywords': '; '.join(word(i) for i in range(n)), 'Funding Details': '; '.join('AB%d, NSF, Foundation' % i for i in range(n))}), base(2)]
    elif shape == 'text':
        rows = [base(1, Title='x' * n, Abstract='a, ' * n + 'b'), base(2)]
    else:
        rows = [base(1, Title='""' * n, Abstract='a""b,' * n), base(2)]
    for rs, styles in ((rows, ('q',)), (rows[::-1], ('u', 'q'))):
        RC = RecordCollection(ctx.write('in.csv', file_text(rs, styles)))
        ctx.step()
        check_file(ctx, RC, rs, 'sizes {}'.format(case))
        write_and_read(ctx, RC, rs, 'sizes {}'.format(case), 'out.csv')
    ctx.state(case)


SCENARIOS = [
    Scenario('size', size_cases, sized, 'n rows, list elements, characters, quotes; n around 4, 5, 8, 10, 16, ... up to 513 (thorough 2001), texts up to 200000 characters; read, written, read back', timeout=240),
    Scenario('values', value_cases, values, 'all texts of 1-3 (4) of {} pieces with commas, escaped quotes and list separators, in {} columns, quoted or not; read and written back'.format(len(PIECES), len(SPOTS))),
    Scenario('characters', char_cases, characters, 'every character of mc/chars.py (blanks, controls, quotes, ...) alone, doubled, at each end and inside values of 7 columns, quoted or not; read and written back'),
    Scenario('columns', col_cases, columns, 'all single and pairs (triples) of the {} columns, current and old layout'.format(len(COLS))),
    Scenario('layouts', layout_cases, layouts, 'columns reversed, neighbours swapped, one missing, added or renamed'),
    Scenario('damage', damage_cases, damage, 'a 3 row file in 3 quoting styles: every cut; every character deleted, replaced or preceded by one of {}; lines dropped or duplicated; an undecodable byte inserted or set at, and a cut after, every byte of a file with multi byte characters'.format(len(CHARS))),
    Scenario('citations', cite_cases, cites, 'all combinations of present fields in the citation of a record'),
]
