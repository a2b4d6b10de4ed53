"""C17: Medline files: reading, field decoding, write/read round trip and damage.

Oracle: an independent line grammar of the format (`grammar`) and a table of the
documented decoding of every tag."""
import io
import itertools
import re
import metaknowledge as mk
from metaknowledge import MedlineRecord, RecordCollection
from mc.core import Scenario, Violation, explore
from mc.chars import CHARS, placed
from mc.sizes import sizes, word

ONE = {'PG', 'VI', 'DP', 'TI', 'OTO', 'AB', 'TA', 'JT'}
KNOWN = ('IR FIR PROF PUBM CN MHDA LID EDAT OCI SB DA PMCR PG GS VI UOF OWN ORI MID PMID PMC RIN RPF CIN FPS TT PHST EFR PST SPIN AU FED NM SO IP '
         'OABL CRDT DDIN MH DP GN CRF TI CRI OT ROF OTO OID PT RPI AB EN AD LA TA JT IRAD PS IS PL CTI FAU VTI DCOM BTI CI STAT DRIN RF UIN LR SFM '
         'EIN AID PRIN DEP AUID SI ISBN RN JID GR').split()
NAMES = {'Abstract': 'AB', 'Affiliation': 'AD', 'Author': 'AU', 'FullAuthor': 'FAU', 'AuthorIdentifier': 'AUID', 'Title': 'TI', 'JournalTitle': 'JT',
         'JournalTitleAbbreviation': 'TA', 'DatePublication': 'DP', 'MeSHTerms': 'MH', 'OtherTerm': 'OT', 'Pagination': 'PG', 'Volume': 'VI', 'Issue': 'IP',
         'ISSN': 'IS', 'Language': 'LA', 'PublicationType': 'PT', 'Source': 'SO', 'Status': 'STAT', 'ArticleIdentifier': 'AID', 'CorporateAuthor': 'CN',
         'PubMedUniqueIdentifier': 'PMID', 'GrantNumber': 'GR', 'PlacePublication': 'PL', 'NLMID': 'JID', 'Owner': 'OWN', 'DateCreated': 'DA'}


def line(tag, val):
    return tag.ljust(4) + '- ' + val.replace('\n', '\n      ') + '\n'


def rec_text(fields):
    return ''.join(line(t, v) for t, v in fields)


def expected(fields):
    """(raw values without the author based tags, affiliations, identifiers) of a list of (tag, value)."""
    raw = {}
    auth = None
    ad, auid = [], []
    for t, v in fields:
        if t == 'AU':
            auth = v.split('\n')[0]
        if t == 'AD':
            ad.append((auth, v))
        elif t == 'AUID':
            auid.append((auth, v))
        else:
            raw.setdefault(t, []).append(v)
    return raw, ad, auid


def decode_ad(ad):
    out = {}
    for a, v in ad:
        out.setdefault(str(a), []).append([s for s in v.replace('\n', '').split(';') if s != ''])
    return out


def check_record(ctx, R, fields, what, rewritten=False):
    raw, ad, auid = expected(fields)
    ctx.eq((R.bad, R.error), (False, None), what + ' flagged')
    ctx.eq(R.id, 'PMID:' + raw['PMID'][0], what + ' id')
    got = {t: list(v) for t, v in R.items(raw=True)}
    tags = set(raw) | ({'AD'} if ad else set()) | ({'AUID'} if auid else set())
    ctx.eq(set(got), tags, what + ' tags')
    for t, v in raw.items():
        ctx.eq(got[t], v, what + ' lines of ' + t)
        if t == 'PMID':
            want = 'PMID:' + v[0]
        elif t == 'GR':
            ctx.eq([str(g.original) for g in R[t]], v, what + ' grants')
            continue
        else:
            want = v[0] if t in ONE else v
        ctx.eq(R[t], want, what + ' value of ' + t)
    if ad:
        want = decode_ad(ad)
        # one entry per author; the affiliations of the author's last line
        ctx.eq(set(R['AD']), set(want), what + ' authors with affiliations')
        for a, lists in want.items():
            ctx.true(R['AD'][a] in lists or R['AD'][a] == sum(lists, []), what + ' affiliations of {}: {} not from {}'.format(a, R['AD'][a], lists))
        ctx.eq([s.partition(' : ')[2] for s in got['AD']], [v for a, v in ad], what + ' affiliation lines')
        ctx.eq([s.partition(' : ')[0] for s in got['AD']], [str(a) for a, v in ad], what + ' affiliation authors')
    if auid:
        ctx.eq(R['AUID'], {str(a): v for a, v in auid}, what + ' author identifiers')


def check_file(ctx, RC, recs, what, lines=None, path=None):
    ctx.eq((bool(RC.bad), dict(RC.errors)), (False, {}), what + ' collection flagged')
    ctx.eq(len(RC), len(recs), what + ' number of records')
    for f in recs:
        i = 'PMID:' + dict(f)['PMID']
        R = RC.getID(i)
        ctx.true(R is not None, what + ' lost ' + i)
        check_record(ctx, R, f, what)
        if lines is not None:
            ctx.eq((R.sourceFile, R.sourceLine), (path, lines[i[5:]]), what + ' file and line of ' + i)


def write_and_read(ctx, RC, recs, what, fname):
    p = ctx.path(fname)
    RC.writeFile(p)
    ctx.step()
    back = RecordCollection(p)
    ctx.step()
    check_file(ctx, back, recs, what + ' after writing and reading back')
    ctx.true(back == RC and hash(back) == hash(RC), what + ' differs after writing and reading back')
    return back


# ------------------------------------------------------------------ structure
SHAPES = ['v', '', 'two\nlines', 'a\n\nb', 'x - y', '  lead', 'tail ', 'PMID- 9', 'AU  - Q', 'caf\xe9 \xb5', 'a\nb\nc', 'a : b', "x;y; z", 'PMID- 7\nPMID- 8', 'in\n  dented\n\ttab ']


def shape_cases(tier):
    for t in ('TI', 'OT', 'AB', 'ISBN', 'CN', 'SO', 'LID'):
        for a in range(len(SHAPES)):
            yield [t, [a]]
            for b_ in range(len(SHAPES)):
                yield [t, [a, b_]]
                if tier == 'thorough':
                    for c in range(len(SHAPES)):
                        yield [t, [a, b_, c]]


def shapes(ctx, case):
    t, vs = case
    vals = [SHAPES[i] for i in vs]
    for other in ('before', 'between', 'after'):
        f1 = [('PMID', '1')]
        if other == 'before':
            f1.append(('PT', 'J'))
        for n, v in enumerate(vals):
            if n == 1 and other == 'between':
                f1.append(('PT', 'J'))
            f1.append((t, v))
        if other == 'after':
            f1.append(('PT', 'J'))
        f2 = [('PMID', '2'), (t, 'other')]
        for recs in ([f1], [f1, f2], [f2, f1]):
            for sep, lead, end in (('\n', '\n', ''), ('\n\n', '', '\n\n')):
                p = ctx.write('in.txt', lead + sep.join(rec_text(r) for r in recs) + end, 'latin-1')
                RC = RecordCollection(p)
                ctx.step()
                what = '{} {} {}'.format(t, vals, other)
                lines, at = {}, 1 + len(lead)
                for r in recs:
                    lines[dict(r)['PMID']] = at
                    at += rec_text(r).count('\n') + len(sep)
                check_file(ctx, RC, recs, what, lines, p)
            # last line without newline
            p = ctx.write('in2.txt', '\n' + sep.join(rec_text(r) for r in recs).rstrip('\n'), 'latin-1')
            if recs[-1][-1][1].rstrip('\n ') == recs[-1][-1][1] and recs[-1][-1][1]:
                check_file(ctx, RecordCollection(p), recs, what + ' without final newline')
            write_and_read(ctx, RC, recs, what, 'out.txt')
        R = MedlineRecord(rec_text(f1))
        check_record(ctx, R, f1, what + ' from a string')
        check_record(ctx, MedlineRecord(io.StringIO(rec_text(f1))), f1, what + ' from a stream')
        check_record(ctx, MedlineRecord(dict(R._fieldDict)), f1, what + ' from a dict')
    ctx.state(case)


def tag_cases(tier):
    for t in KNOWN:
        yield t
    for t in ('OAB', 'ED', 'COIS', 'ZZZZ', 'Q'):
        yield t


def tags(ctx, case):
    t = case
    v = ['12/AB/CDE/United States', 'x\ny'] if t == 'GR' else ['first', 'second\nline\nlast']
    f = [('PMID', '1')] + ([(t, v[0]), (t, v[1])] if t not in ('AD', 'AUID', 'PMID') else [('AU', 'X Y'), (t, v[0])] if t != 'PMID' else []) + [('STAT', 'q')]
    p = ctx.write('in.txt', '\n' + rec_text(f), 'latin-1')
    RC = RecordCollection(p)
    ctx.step()
    check_file(ctx, RC, [f], 'tag ' + t)
    write_and_read(ctx, RC, [f], 'tag ' + t, 'o.txt')
    R = RC.peek()
    for n, tag in NAMES.items():
        ctx.eq(n in R, tag in R, 'membership of {} and {}'.format(n, tag))
        if tag in R:
            ctx.eq(repr(R[n]), repr(R[tag]), 'value of {} and {}'.format(n, tag))
            ctx.eq(R.getAltName(n), tag, 'alternative name')
    ctx.state(case)


# -------------------------------------------------------------------- authors
AFFS = [[], ['Uni A, Town'], ['Uni A; Uni B', 'Long line of\nUni C\nand D.'], ['end;'], ['a : b'], ['Uni D\nof E\nin F']]
IDS = [[], ['ORCID: 0000'], ['x : y : z']]
LEAD = [[], ['Uni Z'], ['Uni Z; Uni Y', 'Uni W\nmore\nof it']]


def author_cases(tier):
    n = 3 if tier == 'thorough' else 2
    one = list(itertools.product(range(len(AFFS)), range(len(IDS)), (0, 1)))
    for lead in range(len(LEAD)):
        for k in range(n + 1):
            for c in itertools.product(one, repeat=k):
                if k == 3 and any(x[0] > 2 for x in c):
                    continue
                yield [lead, [list(x) for x in c]]


def author_fields(case, names=('Ab C', 'De F', 'Ce D')):
    lead, auths = case
    f = [('PMID', '5'), ('TI', 't')]
    for v in LEAD[lead]:
        f.append(('AD', v))
    for name, (a, i, full) in zip(names, auths):
        if full:
            f.append(('FAU', name + ' Full'))
        f.append(('AU', name))
        for v in AFFS[a]:
            f.append(('AD', v))
        for v in IDS[i]:
            f.append(('AUID', v))
    f.append(('LA', 'eng'))
    return f


def authors(ctx, case):
    f = author_fields(case)
    p = ctx.write('in.txt', '\n' + rec_text(f), 'latin-1')
    RC = RecordCollection(p)
    ctx.step()
    check_file(ctx, RC, [f], 'authors {}'.format(case))
    back = write_and_read(ctx, RC, [f], 'authors {}'.format(case), 'o.txt')
    write_and_read(ctx, back, [f], 'authors {} second time'.format(case), 'o2.txt')
    R = RC.peek()
    raw, ad, auid = expected(f)
    if 'AU' in raw:
        ctx.eq(R.get('authorsShort'), raw['AU'], 'authorsShort')
        ctx.eq('address' in R, raw['AU'][0] in dict(ad), 'address membership')
        if raw['AU'][0] in dict(ad):
            ctx.true(any(R['address'] == l[0] for l in decode_ad(ad)[raw['AU'][0]]), 'address {!r}'.format(R['address']))
    else:
        ctx.eq(R.get('authorsShort'), None, 'authorsShort')
        ctx.eq(R.get('address'), None, 'address')
    ctx.eq(R.get('authorsFull'), raw.get('FAU'), 'authorsFull')
    ctx.eq(R.authors, raw.get('FAU', raw.get('AU')), 'authors')
    ctx.state(case)


NAMED = ['Ab C', 'Nonet ML', 'None A', 'NONE', 'PMID', 'D', "O'N: X", 'von der\xfc X', 'A-B C, Jr.', 'Ab C:', 'AU - x']


def named_cases(tier):
    for a, c in itertools.product(range(len(NAMED)), repeat=2):
        yield [a, c]


def named(ctx, case):
    """any author names, the full name given before, after or in place of the short one"""
    if case[0] == case[1]:
        return
    for pre, order, where in itertools.product((0, 1), ('full first', 'short first', 'short only'), ((0,), (1,), (0, 1))):
        f = [('PMID', '5')] + [('AD', 'Uni Q')] * pre
        for n, i in enumerate(case):
            name = NAMED[i]
            f += {'full first': [('FAU', name + ', Full'), ('AU', name)], 'short first': [('AU', name), ('FAU', name + ', Full')], 'short only': [('AU', name)]}[order]
            if n in where:
                f += [('AD', 'Uni %d; Inst' % n), ('AUID', 'ORCID: %d' % n)]
        f.append(('LA', 'eng'))
        what = 'authors {} {} {}'.format([NAMED[i] for i in case], order, where)
        RC = RecordCollection(ctx.write('in.txt', rec_text(f), 'latin-1'))
        ctx.step()
        check_file(ctx, RC, [f], what)
        write_and_read(ctx, RC, [f], what, 'o.txt')
        check_record(ctx, MedlineRecord(rec_text(f)), f, what + ' from a string')
    ctx.state(case)


def affiliation_cases(tier):
    for n in range(1, 4):
        for c in itertools.product(range(1, len(AFFS)), repeat=n):
            yield list(c)


def affiliations(ctx, case):
    """one author with several affiliation lines: all of them are decoded"""
    vals = [AFFS[i][-1] for i in case]
    f = [('PMID', '5'), ('AU', 'Ab C')] + [('AD', v) for v in vals] + [('AU', 'De F'), ('AD', 'Uni Q')]
    R = RecordCollection(ctx.write('in.txt', rec_text(f), 'latin-1')).peek()
    ctx.step()
    want = [[s for s in v.replace('\n', '').split(';') if s] for v in vals]
    ctx.eq(R['AD']['De F'], ['Uni Q'], 'affiliations of the second author')
    ctx.eq(set(R['AD']), {'Ab C', 'De F'}, 'authors')
    ctx.state(case)
    got = (R['AD']['Ab C'], R['address'])
    last = len(vals) > 1 and got == (want[-1], want[-1][0])
    ctx.eq(got, (sum(want, []), want[0][0]), 'affiliations {} of one author'.format(vals), key='only-last-affiliation-line' if last else None)


def same_cases(tier):
    for a in range(len(AFFS)):
        for c in range(len(AFFS)):
            yield [a, c]


def same_name(ctx, case):
    """two authors of one record with the same name"""
    a, c = case
    f = author_fields([0, [[a, 0, 1], [1, 0, 1], [c, 0, 1]]], ('Ab C', 'De F', 'Ab C'))
    p = ctx.write('in.txt', '\n' + rec_text(f), 'latin-1')
    RC = RecordCollection(p)
    check_file(ctx, RC, [f], 'same name {}'.format(case))
    ctx.step()
    if a or c:
        ctx.state(case)
        try:
            write_and_read(ctx, RC, [f], 'same name {}'.format(case), 'o.txt')
        except Violation as e:
            raw, ad, auid = expected(f)
            repeated = [n + ' : ' + v for name in raw['AU'] for n, v in ad if n == name]
            if RecordCollection(ctx.path('o.txt')).peek().get('AD', raw=True) == repeated:
                e.key = 'same-name-affiliations-repeated'
            raise


# -------------------------------------------------------------- special fields
SPECIAL = [
    ('DP', '2016 Jan 15', dict(year=2016, month=1)), ('DP', '2015', dict(year=2015, month=None)), ('DP', '1999 Dec-2000 Jan', dict(year=1999, month=12)),
    ('DP', '2001 Feb-Mar', dict(year=2001, month=2)), ('DP', '1998-1999', dict(year=1998)), ('DP', '2011 Aug 3-9', dict(year=2011, month=8)),
    ('VI', '49 Suppl 20', dict(volume='49')), ('VI', '12', dict(volume='12')), ('VI', '', dict(volume='')),
    ('PG', '466-75', dict(beginningPage='466')), ('PG', 'suppl 12-3', dict(beginningPage='12')), ('PG', 'e12; discussion 5', dict(beginningPage='e12')), ('PG', 'A1', dict(beginningPage='A1')),
    ('AID', ['S1 [pii]', '10.1/x [doi]'], dict(DOI='10.1/x')), ('AID', ['S1 [pii]'], dict(DOI=None)), ('AID', ['10.2/y [doi]', 'z [doi]'], dict(DOI='10.2/y')), ('AID', ['S1[doi]x [pii]', '10.1/a[doi]b [doi]'], dict(DOI='10.1/a[doi]b')), ('AID', ['S1 [doi] [pii]'], dict(DOI=None)), ('AID', ['doi [pii]', '[doi]'], dict(DOI=None)),
    ('TA', 'J Abbr', dict(j9='J Abbr')), ('JT', 'Journal of', dict(journal='Journal of')), ('OT', ['k1', 'k2'], dict(keywords=['k1', 'k2'])), ('AB', 'abs\nmore', dict(abstract='abs\nmore')),
    ('TI', 'Title\nmore', dict(title='Title\nmore')), ('AU', ['A B', 'C D'], dict(authorsShort=['A B', 'C D'])), ('FAU', ['Aa, Bb'], dict(authorsFull=['Aa, Bb'])),
]


def special_cases(tier):
    for i in range(len(SPECIAL)):
        yield [i]
        for j in range(i + 1, len(SPECIAL)):
            yield [i, j]


def special(ctx, case):
    f = [('PMID', '3')]
    want = {}
    for i in case:
        t, v, w = SPECIAL[i]
        if t in dict(f):
            return
        f += [(t, x) for x in (v if isinstance(v, list) else [v])]
        want.update(w)
    R = RecordCollection(ctx.write('in.txt', rec_text(f), 'latin-1')).peek()
    ctx.step()
    for k in ('year', 'month', 'volume', 'beginningPage', 'DOI', 'j9', 'journal', 'keywords', 'abstract', 'title', 'authorsShort', 'authorsFull', 'grants', 'address', 'citations'):
        if k == 'month' and 'month' not in want and 'year' in want:
            continue
        ctx.eq(R.get(k), want.get(k), k)
        ctx.eq(k in R, want.get(k) is not None, 'membership of ' + k)
    ctx.eq(R['id'], 'PMID:3', 'id')
    parts = []
    if want.get('authorsShort'):
        parts.append(want['authorsShort'][0])
    if want.get('year'):
        parts.append(str(want['year']))
    if want.get('j9') or want.get('title'):
        parts.append(want.get('j9') or want.get('title'))
    if want.get('volume'):
        parts.append('V' + want['volume'])
    if want.get('beginningPage'):
        parts.append('P' + want['beginningPage'])
    if want.get('DOI'):
        parts.append('DOI ' + want['DOI'])
    ctx.eq(str(R.createCitation()), ', '.join(parts), 'citation of the record')
    ctx.eq(str(R['selfCitation']), ', '.join(parts), 'selfCitation')
    ctx.state(case)


# --------------------------------------------------------------------- damage
BASE = [
    [('PMID', '11'), ('OWN', 'NLM'), ('TI', 'One\nmore'), ('AU', 'A B'), ('AD', 'Uni')],
    [('PMID', '12'), ('TI', 'Two'), ('PG', '1-2')],
    [('PMID', '13'), ('DP', '2001'), ('AB', 'text\nof it')],
]
BASETEXT = '\n' + '\n'.join(rec_text(r) for r in BASE)


def grammar(text):
    """(recognised, records before the first deviation, well formed)"""
    lines = text.splitlines(True) if False else [l + '\n' for l in text.split('\n')[:-1]] + ([text.split('\n')[-1]] if text.split('\n')[-1] else [])
    if not any(l.startswith('PMID- ') for l in lines[:2]):
        return False, [], False
    i = 0
    recs = []
    while True:
        while i < len(lines) and lines[i] == '\n':
            i += 1
        if i >= len(lines):
            return True, recs, True
        if not lines[i].startswith('PMID- '):
            return True, recs, False
        cur = []
        while i < len(lines) and lines[i] != '\n':
            l = lines[i]
            if l.startswith('      ') and cur:
                cur[-1] = (cur[-1][0], cur[-1][1] + '\n' + l[6:].rstrip('\n'))
            elif re.match('[A-Za-z]{1,4} *-', l) and len(l) > 4 and l[4] == '-' and not re.search(' [A-Za-z]', l[:4]):
                t = l[:4].rstrip()
                if t == 'PMID' and cur:
                    return True, recs, False
                cur.append((t, l[6:].rstrip('\n')))
            else:
                return True, recs, False
            i += 1
        recs.append(cur)


def damage_texts():
    t = BASETEXT
    for i in range(len(t) + 1):
        yield ['cut', i]
    n = t.count('\n')
    for i in range(n):
        yield ['drop', i]
        yield ['dup', i]
        for r in range(len(REPL)):
            yield ['repl', i, r]
            yield ['ins', i, r]


REPL = ['', 'PT   - x', 'OT -  x', 'garbage', 'TI', 'TI -x', '      cont', '??  - x', 'PMID- ', 'PMID-', '\t', 'AB  - y', ' ', 'A', 'T1  - v', 'PMID- 99', '\ufffd\x00'.replace('\ufffd', '\xff')]


def apply(case):
    t = BASETEXT
    if case[0] == 'cut':
        return t[:case[1]]
    L = t.split('\n')
    k, i = case[0], case[1]
    if k == 'drop':
        del L[i]
    elif k == 'dup':
        L.insert(i, L[i])
    elif k == 'repl':
        L[i] = REPL[case[2]]
    elif k == 'ins':
        L.insert(i, REPL[case[2]])
    return '\n'.join(L)


def damage_cases(tier):
    for c in damage_texts():
        yield c


def damage(ctx, case):
    judge(ctx, apply(case), '{}'.format(case))
    ctx.state(case)


def judge(ctx, text, what):
    p = ctx.write('in.txt', text, 'latin-1')
    known, recs, good = grammar(text)
    ctx.step()
    if not known:
        ctx.raises(mk.BadInputFile, lambda: RecordCollection(p), what + ' unrecognisable')
        return
    RC = RecordCollection(p)
    by = {}
    for r in recs:
        by.setdefault(dict(r)['PMID'], []).append(r)
    for k, rs in by.items():
        R = RC.getID('PMID:' + k)
        if k == '':
            continue
        ctx.true(R is not None, what + ' lost PMID:{}'.format(k))
        if len(rs) == 1:
            if dict((t, 1) for t, v in rs[0]).get('AU') is None and any(t == 'AD' for t, v in rs[0]):
                continue
            check_record(ctx, R, rs[0], what)
    flagged = bool(RC.bad) or any(R.bad for R in RC)
    empty_id = '' in by
    if good and not empty_id:
        ctx.true(not flagged, what + ' well formed but flagged: {}'.format(RC.errors))
        ctx.eq(len(RC), len(by), what + ' number of records')
    else:
        ctx.true(flagged, what + ' damaged but not flagged')
        ctx.true(all(isinstance(e, Exception) for e in RC.errors.values()), what + ' errors')
    for R in RC:
        if R.bad:
            ctx.true(R.error is not None, what + ' bad record without an error')
    # nothing but the content of the file may come out
    flat = text.replace('\n      ', '\n')
    for R in RC:
        for t, vs in R.items(raw=True):
            for v in vs:
                if t in ('AD', 'AUID'):
                    v = v.partition(' : ')[2]
                ctx.true(v in flat, what + ' invented {!r}'.format(v))


def pair_cases(tier):
    ops = list(damage_texts())
    ops = [o for o in ops if o[0] in ('drop', 'dup') or (o[0] == 'repl' and REPL[o[2]] in ('', 'garbage', 'TI', 'PMID- '))]
    if tier == 'thorough':
        ops = [o for o in damage_texts() if o[0] != 'cut']
    for o in ops:
        yield o


def pairs(ctx, case):
    """two faults: every single line fault followed by every cut at a line end and mid line"""
    t = apply(case)
    cuts = set()
    for n, ch in enumerate(t):
        if ch == '\n' or ctx.tier == 'thorough' or n % 5 == 0:
            cuts.add(n)
    for n in sorted(cuts):
        judge(ctx, t[:n], '{} then cut at {}'.format(case, n))
    ctx.state(case)


# ----------------------------------------------------------------- characters
def char_cases(tier):
    for c in CHARS:
        if ord(c) < 256:
            for t in ('TI', 'AB', 'FAU', 'AU', 'AD', 'AUID', 'SO', 'ZZZZ'):
                yield [c, t]


def characters(ctx, case):
    c, t = case
    for v in placed(c):
        vals = ['x' + v + 'y', v + 'y', 'x\n' + v + 'y']
        if v.strip(' ') == v and t not in ('AU', 'FAU'):
            vals.append('x' + v)
        for v in vals[:2] if t in ('AU', 'FAU') else vals:
            f = [('PMID', '1')] + ([('AU', 'Ab C')] if t in ('AD', 'AUID') else []) + [(t, v), ('PT', 'J')]
            recs = [f, [('PMID', '2'), ('TI', 'other')]]
            RC = RecordCollection(ctx.write('in.txt', ('\n' + '\n'.join(rec_text(r) for r in recs)).encode('latin-1')))
            ctx.step()
            what = '{} = {!r}'.format(t, v)
            check_file(ctx, RC, recs, what)
            write_and_read(ctx, RC, recs, what, 'out.txt')
            check_record(ctx, MedlineRecord(rec_text(f)), f, what + ' from a string')
    ctx.state(case)


# ---------------------------------------------------------------------- sizes
def size_cases(tier):
    for n in sizes(2001 if tier == 'thorough' else 513):
        for shape in ('records', 'authors', 'values', 'lines', 'line', 'affiliations', 'tags'):
            if shape != 'tags' or n < len(KNOWN):
                yield [shape, n]


def sized(ctx, case):
    shape, n = case
    if shape == 'records':
        recs = [[('PMID', str(i)), ('TI', 'Title %d' % i), ('AU', word(i)), ('AD', 'Uni %d' % (i % 5))] for i in range(n)]
    elif shape == 'authors':
        recs = [[('PMID', '1')] + [x for i in range(n) for x in ([('FAU', word(i) + ', Q'), ('AU', word(i) + ' Q')] + ([('AD', 'Uni of\n' + word(i))] if i % 3 == 0 or i == n - 1 else []))], [('PMID', '2'), ('AU', 'Z Z')]]
    elif shape == 'values':
        recs = [[('PMID', '1')] + [('OT', word(i)) for i in range(n)] + [('MH', 'x' + word(i)) for i in range(n)] + [('LA', 'eng')], [('PMID', '2'), ('OT', 'z')]]
    elif shape == 'lines':
        recs = [[('PMID', '1'), ('AB', '\n'.join(word(i) for i in range(n))), ('TI', '\n'.join('t' + word(i) for i in range(n))), ('LA', 'eng')], [('PMID', '2'), ('AB', 'z')]]
    elif shape == 'line':
        recs = [[('PMID', '1'), ('AB', 'x' * n), ('TI', 'a ' * (n // 2) + 'end'), ('OT', 'caf\xe9' * n)], [('PMID', '2'), ('AB', 'z')]]
    elif shape == 'affiliations':
        recs = [[('PMID', '1'), ('AU', 'A B'), ('AD', '; '.join('Uni %d, Town' % i for i in range(n))), ('AU', 'C D'), ('AD', ';'.join('V\nw%d' % i for i in range(n)))], [('PMID', '2')]]
    else:
        recs = [[('PMID', '1')] + [(t, 'v ' + t) for t in KNOWN if t not in ('PMID', 'AD', 'AUID', 'GR')][:n], [('PMID', '2')]]
    for rs in (recs, recs[::-1]):
        RC = RecordCollection(ctx.write('in.txt', '\n' + '\n'.join(rec_text(r) for r in rs), 'latin-1'))
        ctx.step()
        check_file(ctx, RC, rs, 'sizes {}'.format(case))
        write_and_read(ctx, RC, rs, 'sizes {}'.format(case), 'out.txt')
    ctx.state(case)


SCENARIOS = [
    Scenario('size', size_cases, sized, 'n records, authors, values, lines, characters in a line, affiliations, tags; n around 4, 5, 8, 10, 16, ... up to 513 (thorough 2001); read, written, read back', timeout=240),
    Scenario('shapes', shape_cases, shapes, '7 tags x 1-2 (3) values of {} shapes x position x 1-2 records in both orders x separators; read, write, read back'.format(len(SHAPES))),
    Scenario('characters', char_cases, characters, 'every latin-1 character of mc/chars.py (blanks, controls, quotes, ...) alone, doubled, at each end and inside a line of 8 tags'),
    Scenario('tags', tag_cases, tags, 'every tag of the format and 5 unknown ones'),
    Scenario('authors', author_cases, authors, 'up to 2 (3) authors x {} affiliation lists x identifiers x full names x affiliations before the first author; written and read twice'.format(len(AFFS))),
    Scenario('author-names', named_cases, named, 'every pair of {} author names x full name before, after or not given x which have affiliations and identifiers x an affiliation before the first'.format(len(NAMED))),
    Scenario('affiliations', affiliation_cases, affiliations, '1-3 affiliation lines of one author'),
    Scenario('same-name', same_cases, same_name, 'two authors of one name with every pair of affiliation lists'),
    Scenario('special', special_cases, special, 'all pairs of {} fields feeding the common fields'.format(len(SPECIAL))),
    Scenario('damage', damage_cases, damage, 'every cut position, every line dropped, duplicated, replaced by or preceded by one of {} lines'.format(len(REPL))),
    Scenario('damage-pairs', pair_cases, pairs, 'every single line fault followed by a cut'),
]
