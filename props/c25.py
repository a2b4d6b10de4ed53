"""C25: text and burst exports list every record."""
import csv
import itertools
import os
from collections import Counter, OrderedDict as OD
from mc.core import Scenario
from mc import build as b
from mc.sizes import sizes, word
from metaknowledge import MedlineRecord, ScopusRecord, ProQuestRecord, RecordCollection

TOK = ['a', 'The', 'cat2', '12', 'x-y', 'foo_bar', '', 'É']
DROPS = [None, ['a'], ['The', 'a'], ['cat2', '12', 'zz'], []]


def stem(w):
    return w[0].upper() + '*' + w[1:]


def clean(t, drop, lower, nums, nonw, ws, stemmer):
    if drop is not None:
        t = ' '.join(w for w in t.split(' ') if w not in drop)
    if ws:
        out, prev = '', False
        for c in t:
            if c.isspace():
                if not prev:
                    out += ' '
                prev = True
            else:
                out, prev = out + c, False
        t = out
    if lower:
        t = t.lower()
    t = ''.join(c for c in t if c == ' ' or not ((nums and c.isdecimal()) or (nonw and not (c.isalnum() or c == '_'))))
    if stemmer:
        t = ' '.join(stem(w) if w else w for w in t.split(' '))
    return t


def options():
    for drop in range(len(DROPS)):
        for flags in itertools.product((True, False), repeat=4):
            for stemmer in (False, True):
                yield drop, flags, stemmer


def rows_of(path, head):
    with open(path, encoding='utf-8', newline='') as f:
        r = list(csv.reader(f))
    if head:
        return r[0], r[1:]
    return None, r


def kwargs(drop, flags, stemmer):
    kw = {}
    if DROPS[drop] is not None:
        kw['dropList'] = list(DROPS[drop])
    for n, v in zip(('lower', 'removeNumbers', 'removeNonWords', 'removeWhitespace'), flags):
        if not v:
            kw[n] = False
    if stemmer:
        kw['stemmer'] = stem
    return kw


def run_text(ctx, case):
    drop, flags, stemmer, sep, n = case
    texts = [sep.join(c) for c in itertools.product(TOK, repeat=n)]
    kw = kwargs(drop, flags, stemmer)
    if sep == '\n':
        # lines of a Medline abstract, they are parts of one text
        recs = [MedlineRecord(OD([('PMID', [str(i)]), ('AB', [t]), ('DP', ['2000'])])) for i, t in enumerate(texts)]
        texts = [t.replace('\n', ' ') for t in texts]
    else:
        recs = [b.wos(i, AB=[t], PY=['2000']) for i, t in enumerate(texts)]
    RC = b.rc(recs)
    ctx.step(len(texts))
    what = 'forNLP(%r)' % kw
    D = RC.forNLP(**kw)
    got = dict(zip(D['id'], D['abstract']))
    want = {R.id: clean(t, DROPS[drop], *flags, stemmer) for R, t in zip(recs, texts)}
    bad = [k for k in want if got.get(k) != want[k]]
    ctx.true(not bad and len(got) == len(want), what + ': %s' % [(texts[int(k.split(':')[1])], got.get(k), want[k]) for k in bad[:3]])
    ctx.checks += len(texts)
    if sep == '\n' and DROPS[drop]:
        # for burst analysis words beside line ends are kept (documented: only between spaces)
        return
    # the same words, one row each
    D = RC.forBurst('AB', **kw)
    want = Counter(w for t in texts for w in clean(t, DROPS[drop], *flags, stemmer).split(' ') if w)
    ctx.eq(Counter(D['word']), want, 'forBurst(%r)' % kw)
    ctx.eq(set(D['year']), {2000} if want else set(), 'forBurst years')
    for i in range(0, len(texts), 7 if ctx.tier == 'quick' else 1):
        D = b.rc([recs[i]]).forBurst('AB', **kw)
        ctx.eq(D['word'], [w for w in clean(texts[i], DROPS[drop], *flags, stemmer).split(' ') if w], 'forBurst(%r) of %r' % (kw, texts[i]))
    ctx.state(case)


def text_cases(tier):
    for drop, flags, stemmer in options():
        for sep in (' ', '  ') + (('\n',) if flags[3] else ()) + ((' \t', '\n ') if flags[3] and (drop in (0, 4)) else ()):
            for n in (1, 2, 3) + ((4,) if tier == 'thorough' else ()):
                yield [drop, list(flags), stemmer, sep, n]


# ---- whole exports
def make(kind, n):
    if kind == 'full':
        return b.wos(n, AB=['Some text, 3 words'], PY=['2000'], TI=['Title, "one"'], ID=['K1; K2; K1'], AU=['A, B', 'C, D'], VL=['7']), ('WOS:%d' % n, 2000, 'Title, "one"', ['K1', 'K2', 'K1'], 'Some text, 3 words', ['A, B', 'C, D'], '7')
    if kind == 'lines':
        return b.wos(n, AB=['first line', 'the second'], PY=['1998'], TI=['Two', 'lines']), ('WOS:%d' % n, 1998, 'Two lines', [], 'first line the second', None, None)
    if kind == 'noyear':
        return b.wos(n, AB=['No year'], TI=['T']), ('WOS:%d' % n, None, 'T', [], 'No year', None, None)
    if kind == 'empty':
        return b.wos(n), ('WOS:%d' % n, None, None, [], '', None, None)
    if kind == 'med':
        return MedlineRecord(OD([('PMID', [str(n)]), ('TI', ['Med title']), ('DP', ['1999 Jan']), ('AB', ['Med text']), ('OT', ['k3', 'k4']), ('AU', ['Smith J'])])), ('PMID:%d' % n, 1999, 'Med title', ['k3', 'k4'], 'Med text', ['Smith J'], None)
    if kind == 'sco':
        return ScopusRecord(OD([('EID', str(n)), ('Title', 'Sco'), ('Year', '1997'), ('Abstract', 'Sco text'), ('Index Keywords', 'k5; k6'), ('Authors', 'Roe K.'), ('Cited by', '0')])), ('EID:%d' % n, 1997, 'Sco', ['k5', 'k6'], 'Sco text', ['Roe K.'], None)
    if kind == 'pro':
        return ProQuestRecord(OD([('ProQuest document ID', [str(n)]), ('Title', ['Pro']), ('Degree date', ['1996']), ('Abstract', ['Pro text', 'more']), ('Identifier / keyword', ['k7, k8'])])), (None, 1996, 'Pro', ['k7', 'k8'], 'Pro text more', None, None)
    raise KeyError(kind)


KINDS = ['full', 'lines', 'noyear', 'empty', 'med', 'sco', 'pro']
EXTRA = [None, ['AU'], ['id', 'authorsShort', 'VL', 'abstract'], ['nothing', 'year'], ['beginningPage', 'Cited by'], ['AB', 'title', 'TI'], ['copyright', 'AU', 'AU']]


def run_all(ctx, case):
    made = [make(k, n) for n, k in enumerate(case)]
    recs = [m[0] for m in made]
    RC = b.rc(recs)
    os.chdir(ctx.dir)
    info = {R.id: m for R, m in made}
    for extra in EXTRA:
        for raw in (False, True):
            for out in (None, 'o.csv'):
                for cr in (False, True):
                    ctx.step()
                    kw = {}
                    arg = None
                    if extra:
                        arg = kw['extraColumns'] = list(extra)
                    if raw:
                        kw.update(lower=False, removeNumbers=False, removeNonWords=False)
                    if cr:
                        kw['removeCopyright'] = True
                    what = 'forNLP(%r, %r) of %r' % (out, kw, case)
                    D = RC.forNLP(out, **kw) if out else RC.forNLP(**kw)
                    ctx.eq(arg, extra, what + ' leaves its argument alone')
                    cols = ['id', 'year', 'title', 'keywords', 'abstract'] + (['copyright'] if cr else []) + [c for c in dict.fromkeys(extra or []) if c not in ('id', 'year', 'title', 'keywords', 'abstract') + ('copyright',) * cr]
                    ctx.eq(sorted(D), sorted(cols), what + ' columns')
                    ctx.eq({len(v) for v in D.values()}, {len(recs)}, what + ' equal lengths')
                    got = sorted([[str(D[c][i]) for c in cols] for i in range(len(recs))])
                    want = []
                    for R, m in made:
                        row = {'id': R.id, 'year': m[1] if m[1] else '', 'title': m[2] or '', 'keywords': '|'.join(m[3]), 'copyright': '', 'nothing': '',
                               'abstract': m[4] if raw else clean(m[4], None, True, True, True, True, False),
                               'AU': '|'.join(m[5] or []), 'authorsShort': '|'.join(m[5] or []), 'VL': m[6] or '',
                               'beginningPage': '0' if isinstance(R, ProQuestRecord) else '', 'Cited by': '0' if isinstance(R, ScopusRecord) else '',
                               'AB': m[6 + 1] if len(m) > 7 else '\n'.join(R.get('AB', raw=True, default=[])), 'TI': m[2] if 'TI' in R else ''}
                        if 'AU' in cols and not isinstance(R, (MedlineRecord,)) and not R.id.startswith('WOS'):
                            row['AU'] = ''
                        if R.id.startswith('ProQuest') or m[0] is None:
                            row['authorsShort'] = ''
                        want.append([str(row[c]) for c in cols])
                    ctx.eq(got, sorted(want), what)
                    if out:
                        head, rows = rows_of(out, True)
                        ctx.eq(sorted(head), sorted(cols), what + ' file columns')
                        ctx.eq([dict(zip(head, r)) for r in rows], [{c: str(D[c][i]) for c in cols} for i in range(len(recs))], what + ' file')
                        os.remove(out)
    for tag, pos in (('title', 2), ('keywords', 3), ('AU', 5), ('year', 1), ('nothing', None)):
        for out in (None, 'b.csv'):
            ctx.step()
            D = RC.forBurst(tag, out, lower=False, removeNonWords=False, removeNumbers=False) if out else RC.forBurst(tag, lower=False, removeNonWords=False, removeNumbers=False)
            want = Counter()
            for R, m in made:
                if pos is None or m[1] is None or m[pos] in (None, []):
                    continue
                if tag == 'AU' and not (isinstance(R, MedlineRecord) or R.id.startswith('WOS')):
                    continue
                v = ' '.join(m[pos]) if isinstance(m[pos], list) else str(m[pos])
                for w in v.split(' '):
                    want[(m[1], w)] += 1
            what = 'forBurst(%s) of %r' % (tag, case)
            ctx.eq(set(D), {'year', 'word'}, what)
            ctx.eq(Counter(zip(D['year'], D['word'])), want, what)
            ctx.eq(len(D['year']), len(D['word']), what)
            if out:
                _, rows = rows_of(out, False)
                if rows[:1] == [['year', 'word']]:
                    rows = rows[1:]
                ctx.eq(rows, [[str(y), w] for y, w in zip(D['year'], D['word'])], what + ' file')
                os.remove(out)
    ctx.eq(os.listdir('.'), [], 'no other files')
    ctx.state(case)


def all_cases(tier):
    for n in range(0, 5 if tier == 'thorough' else 4):
        for c in itertools.combinations_with_replacement(KINDS, n):
            yield list(c)
            if n == 2 and c[0] != c[1]:
                yield list(reversed(c))


# ---- copyright statements
BODY = ['One sentence.', 'Two parts. The (C) of it.', 'Ends with 2004.', 'No end', 'A part. (C) first. The rest.']
STATEMENTS = ['', ' (C) 2002 Optical Society of America.', ' (c) 2001 Someone Else', ' Copyright 2003 X. All rights.', ' Crown Copyright 2010', ' &COPY; 1999 Y.', ' 2005 Elsevier B.V. All', ' C 2004 Z.', ' Published by Elsevier B.V.', ' Elsevier Ltd. All rights reserved.', ' C. 2004 not one', ' (D) 2004 not one']
KNOWN = range(1, 10)


def run_copy(ctx, case):
    combo = case
    texts = [BODY[i] + STATEMENTS[j] for i, j in combo]
    recs = [b.wos(n, AB=[t], PY=['2000']) for n, t in enumerate(texts)]
    RC = b.rc(recs)
    ctx.step()
    D = RC.forNLP(removeCopyright=True, lower=False, removeNumbers=False, removeNonWords=False)
    plain = RC.forNLP(lower=False, removeNumbers=False, removeNonWords=False)
    ctx.true('copyright' not in plain, 'no copyright column unless asked')
    rows = dict(zip(D['id'], zip(D['abstract'], D['copyright'])))
    ctx.eq(dict(zip(plain['id'], plain['abstract'])), {'WOS:%d' % n: t for n, t in enumerate(texts)}, 'nothing removed unless asked')
    found = set()
    for n, (i, j) in enumerate(combo):
        ab, cr = rows['WOS:%d' % n]
        ctx.eq(ab + cr, texts[n], 'abstract and statement of %r together' % texts[n])
        if (j in KNOWN and BODY[i].endswith('.') and i != 4) or j == 9 and i != 4 or j == 1 and i == 4:
            ctx.eq((ab, cr), (BODY[i], STATEMENTS[j]), 'statement of %r' % texts[n])
        elif BODY[i] in ('One sentence.', 'No end', 'Ends with 2004.') and j in (0, 10, 11):
            ctx.eq((ab, cr), (texts[n], ''), 'no statement in %r' % texts[n])
        if cr:
            found.add(cr)
    l = RC.findProbableCopyright()
    ctx.eq(sorted(l), sorted(found), 'findProbableCopyright')
    ctx.eq(sorted(str(R['AB']) for R in recs), sorted(texts), 'records unchanged')
    ctx.state(case)


def copy_cases(tier):
    one = [[i, j] for i in range(len(BODY)) for j in range(len(STATEMENTS))]
    for a in one:
        yield [a]
    for a, c in itertools.combinations_with_replacement(one, 2):
        yield [a, c]


# ---- sizes
def size_cases(tier):
    for n in sizes(2001 if tier == 'thorough' else 1025):
        for shape in ('records', 'words', 'word', 'late'):
            yield [shape, n]


def run_size(ctx, sh):
    shape, n = sh
    if shape == 'records':
        texts = [(1900 + i % 99, 'Text %s, of %d words' % (word(i), i)) for i in range(n)]
    elif shape == 'words':
        texts = [(2000, ' '.join(word(i) for i in range(n))), (2001, 'x ' * n + 'end')]
    elif shape == 'word':
        texts = [(2000, 'a' * n + ' b ' + 'c' * n), (2001, 'x')]
    else:
        texts = [(None, None)] * n + [(2001, 'the end')]
    recs = [b.wos(i, PY=None if y is None else [str(y)], AB=None if t is None else [t], DE=None if t is None else ['; '.join(t.split(' '))]) for i, (y, t) in enumerate(texts)]
    RC = b.rc(recs)
    os.chdir(ctx.dir)
    D = RC.forNLP('o.csv', extraColumns=['DE'])
    ctx.step(2)
    what = 'forNLP of {}'.format(sh)
    want = sorted((R.id, str(y or ''), clean(t or '', None, True, True, True, True, False)) for R, (y, t) in zip(recs, texts))
    ctx.eq(sorted((i, str(y), a) for i, y, a in zip(D['id'], D['year'], D['abstract'])), want, what)
    head, rows = rows_of('o.csv', True)
    ctx.eq(sorted((r[head.index('id')], r[head.index('year')], r[head.index('abstract')]) for r in rows), want, what + ' file')
    ctx.eq(sorted(zip(D['id'], D['DE'])), sorted((R.id, '|'.join((t or '').lower().split(' ')) if t else '') for R, (y, t) in zip(recs, texts)), what + ' extra column')
    D = RC.forBurst('AB', 'b.csv')
    want = Counter((y, w) for y, t in texts if y for w in clean(t, None, True, True, True, True, False).split(' ') if w)
    what = 'forBurst of {}'.format(sh)
    ctx.eq(Counter(zip(D['year'], D['word'])), want, what)
    _, rows = rows_of('b.csv', False)
    if rows[:1] == [['year', 'word']]:
        rows = rows[1:]
    ctx.eq(rows, [[str(y), w] for y, w in zip(D['year'], D['word'])], what + ' file')
    ctx.state(sh)


SCENARIOS = [
    Scenario('size', size_cases, run_size, bounds='n records, n words, words of that length, n records without text before one with; n around 4, 5, 8, 10, 16, ... up to 1025 (2001 thorough)', timeout=120),
    Scenario('text', text_cases, run_text, bounds='every text of 1-3 (4 thorough) of 8 tokens (words, digits, punctuation, underscore, accents, empty) joined by 2-4 separators x 5 drop lists x 16 flag combinations x stemmer, through forNLP and forBurst'),
    Scenario('exports', all_cases, run_all, bounds='every multiset of 0-3 (4) records of 7 kinds (WOS, Medline, Scopus, ProQuest; with missing fields) x 7 extra columns (with zeros, repeats, names of other columns) x raw/cleaned x file x copyright; burst of 5 tags'),
    Scenario('copyright', copy_cases, run_copy, bounds='every pair of 5 bodies (one with an earlier statement) x 12 closing statements'),
]
