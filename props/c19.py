"""C19: ProQuest files: every listed record with exactly its fields; damage.

A file is generated from a list of records (field name -> lines) following the
layout of the exports; the oracle is that list."""
import metaknowledge as mk
from metaknowledge import RecordCollection
from mc.core import Scenario, explore
from mc.chars import CHARS, placed
from mc.sizes import sizes, word

BAR = '_' * 60
SINGLE = ['Advisor', 'Committee member', 'Copyright', 'Country of publication', 'Database', 'Degree', 'Degree date', 'Department', 'Dissertation/thesis number',
          'Document type', 'ISBN', 'Language', 'Number of pages', 'Place of publication', 'Publication year', 'School code', 'Source', 'Source type',
          'University location', 'University/institution', 'Publication subject']
SPECIAL = {'keywords': 'Identifier / keyword', 'abstract': 'Abstract', 'title': 'Title', 'year': 'Degree date', 'authorsShort': 'Author', 'authorsFull': 'Author'}


def record(n, title, fields=(), author='Doe, Jane', url='http://search.example.com/docview/{}?accountid=1'):
    out = [['Name', [title]], ['Author', [author]], ['url', [url.format(n)]]]
    out += [[k, list(v)] for k, v in fields]
    out += [['ProQuest document ID', [str(n)]], ['Title', [title]]]
    return out


def record_lines(rec, n, total):
    L = ['Document {} of {}'.format(n, total), '']
    for tag, vals in rec:
        vals = list(vals)
        L += [vals[0] if tag in ('Name', 'url') else '{}: {}'.format(tag, vals[0]), '']
        for v in vals[1:]:
            L += [v, '']
    return L + [BAR, '']


def lines(recs):
    """[(text, record number or None, kind)]"""
    out = [(l, None, 'head') for l in [BAR, '', 'Report Information from ProQuest', 'December 08 2015 21:33', BAR, '', '', '', '', BAR, '', 'Table of contents']]
    for n, r in enumerate(recs, 1):
        out += [('', None, 'tocblank'), ('{}. {}'.format(n, dict((t, v) for t, v in r)['Title'][0]), n, 'toc')]
    out += [('', None, 'head2'), ('Bibliography', None, 'head2'), ('', None, 'head2'), (BAR, None, 'head2'), ('', None, 'head2')]
    for n, r in enumerate(recs, 1):
        for l in record_lines(r, n, len(recs)):
            kind = 'body'
            if l.startswith('Document ') and ' of ' in l and l.split(' of ')[0][9:].isdigit():
                kind = 'doc'
            elif l == BAR:
                kind = 'bar'
            elif l.startswith('Title: '):
                kind = 'title'
            elif l.startswith('ProQuest document ID: '):
                kind = 'id'
            elif l == '':
                kind = 'after' if out[-1][2] == 'bar' else 'blank'
            out.append((l, n, kind))
    out += [('Bibliography', None, 'end'), ('', None, 'tail'), ('Citation style: BibTeX', None, 'tail'), ('@article{x, }', None, 'tail'), ('', None, 'tail')]
    return out


def file_text(recs):
    return '\n'.join(l for l, n, k in lines(recs)) + '\n'


def decode(tag, v):
    if tag == 'Classification':
        return [tuple(s.split(': ')) for s in v[0].split('; ')]
    if tag == 'Identifier / keyword':
        return v[0].split(', ')
    if tag == 'Subject':
        return v[0].split('; ')
    if tag in SINGLE or tag in ('Author', 'Title', 'Name', 'ProQuest document ID'):
        return v[0]
    return list(v)


def check_record(ctx, R, rec, what):
    d = {t: list(v) for t, v in rec}
    ctx.eq((R.bad, R.error), (False, None), what + ' flagged')
    ctx.eq(R.id, 'PROQUEST:' + d['ProQuest document ID'][0], what + ' id')
    ctx.eq({k: list(v) for k, v in R.items(raw=True)}, d, what + ' raw fields')
    for t, v in d.items():
        ctx.eq(R[t], decode(t, v), what + ' value of ' + t)
        ctx.true(t in R, what + ' membership of ' + t)
    for s, t in SPECIAL.items():
        ctx.eq(s in R, t in d, what + ' membership of ' + s)
        if t not in d:
            ctx.eq(R.get(s, 'none'), 'none', what + ' missing ' + s)
            continue
        want = decode(t, d[t])
        if s == 'year':
            want = int(want)
        elif s.startswith('authors'):
            want = [want]
        ctx.eq(R[s], want, what + ' value of ' + s)
    ctx.eq((R['beginningPage'], R['id']), (0, R.id), what + ' beginningPage and id')
    for t in SINGLE + ['Links', 'Classification', 'Subject']:
        if t not in d:
            ctx.eq((t in R, R.get(t, 'none')), (False, 'none'), what + ' missing ' + t)
    ctx.raises(mk.RecordsNotCompatible, lambda: R.writeRecord(None), what + ' writeRecord')


def intact(ctx, RC, recs, which, what):
    for n in which:
        R = RC.getID('PROQUEST:' + dict((t, v) for t, v in recs[n - 1])['ProQuest document ID'][0])
        ctx.true(R is not None, what + ' lost record {}'.format(n))
        check_record(ctx, R, recs[n - 1], what + ' record {}'.format(n))


# --------------------------------------------------------------------- reading
TITLES = ['One', 'A. B. title', '3. Numbered', 'Colon: the sub, title', 'Bibliography', 'Caf\u00e9 \u65e5', 'Document 1 of 2', 'x' * 300, ' Leading']
ABSTRACTS = [None, ['First'], ['First', 'second paragraph'], ['1', '2', '3', '4'], ['With: a colon', 'plain. Text, more; end'], ['a', 'https://x.org/?q: b'], ['a', 'http and no colon', 'httpd'], ['a', '  indented, twice', '\tx']]
LINKS = [None, ['http://a.b/c?d=e'], ['http://a.b/c', 'http://a.b/c: d', 'https://e.f']]
CLASSIF = [None, ['0402: Philosophy'], ['0402: Philosophy: old; 1'], ['0402: Philosophy of Science; 0422: Philosophy; 1: x']]
SUBJECT = [None, ['One'], ['One; Two, three; Four']]
KEYWORD = [None, ['one'], ['one, two; three, four']]
UNKNOWN = [None, ['v'], ['v', 'w x', 'y']]
AUTHORS = ['Doe, Jane', 'M\u00fcller, K. von: der', 'Single']


def gen_file(bound):
    def gen(ch):
        n = ch.all([1, 2, 3])
        k = ch.pick(list(range(n)))     # the record that varies
        recs = []
        for i in range(n):
            title = 'Title {}'.format(i)
            f = []
            author = 'Doe, Jane'
            if i == k:
                title = ch.pick(['Title {}'.format(i)] + TITLES)
                author = ch.pick(AUTHORS)
                for tag, opts in (('Abstract', ABSTRACTS), ('Links', LINKS), ('Classification', CLASSIF), ('Identifier / keyword', KEYWORD), ('Subject', SUBJECT), ('New field', UNKNOWN)):
                    v = ch.pick(opts)
                    if v is not None:
                        f.append([tag, v])
                if ch.flag():
                    f.append(['Degree date', [ch.pick(['2014', '1999'])]])
                if ch.flag():
                    f += [[t, ['v{}, w; x: y'.format(m) if t != 'Degree date' else '2001']] for m, t in enumerate(SINGLE) if t != 'Degree date' or not any(g[0] == t for g in f)]
                if ch.flag():
                    f.reverse()
            recs.append(record(100 + i, title, f, author))
        return recs
    return explore(gen, bound)


def read_cases(tier):
    return gen_file(4 if tier == 'thorough' else 3)


def read(ctx, recs):
    p = ctx.write('p.txt', file_text(recs))
    RC = RecordCollection(p)
    ctx.step()
    ctx.eq((bool(RC.bad), RC.errors), (False, {}), 'flagged')
    ctx.eq(len(RC), len(recs), 'number of records')
    intact(ctx, RC, recs, range(1, len(recs) + 1), 'reading')
    D = RecordCollection(ctx.dir)
    ctx.true(D == RC, 'directory read differs')
    ctx.state(recs)


# ---------------------------------------------------------------------- damage
RECS = [record(11, 'First. One', [['Abstract', ['a', 'b']], ['Degree date', ['2001']]]),
        record(12, 'Second: caf\u00e9', [['Links', ['http://x.y']], ['Subject', ['a; b']]], author='\u00c5, \u65e5'),
        record(13, 'Third', [['Classification', ['1: a; 2: b']]])]
NEW = ['', 'junk', 'Document 9 of 3', 'Document x of 3', BAR, 'Bibliography', 'Title: other', 'ProQuest document ID: 12', 'a: b', '4. More', 'http://u: v']


def damage_cases(tier):
    t = file_text(RECS)
    end = t.index('\nBibliography\n', t.index('\nBibliography\n') + 5)
    for i in range(end + 20):
        yield ['cut', i]
    b = t.encode('utf-8')
    for i in range(b.index(b'\nCitation style')):
        for k in ('bcut', 'bins', 'bset'):
            yield [k, i]
    L = lines(RECS)
    for i, (l, n, k) in enumerate(L):
        if k == 'tail':
            continue
        yield ['del', i]
        yield ['dup', i]
        for x in range(len(NEW)):
            yield ['set', i, x]
            yield ['ins', i, x]
        for c in range(min(len(l), 3)):
            yield ['chr', i, c]
        if tier == 'thorough':
            for j in range(i + 2, len(L)):
                yield ['range', i, j]


def damage(ctx, case):
    L = lines(RECS)
    t = [l for l, n, k in L]
    k, i = case[0], case[1]
    text = file_text(RECS)
    data = text.encode('utf-8')
    at = None
    if k == 'cut':
        data = text[:i].encode('utf-8')
        at = text[:i].count('\n')
    elif k == 'bcut':
        at = data[:i].count(b'\n')
        data = data[:i]
    elif k in ('bins', 'bset'):
        at = data[:i].count(b'\n')
        data = data[:i] + b'\xff' + data[i + (k == 'bset'):]
    else:
        at = i
        if k == 'del':
            del t[i]
        elif k == 'dup':
            t.insert(i, t[i])
        elif k == 'set':
            t[i] = NEW[case[2]]
        elif k == 'ins':
            t.insert(i, NEW[case[2]])
        elif k == 'chr':
            t[i] = t[i][:case[2]] + '?' + t[i][case[2] + 1:]
        elif k == 'range':
            del t[i:case[2]]
        data = ('\n'.join(t) + '\n').encode('utf-8')
    same = data == text.encode('utf-8')
    p = ctx.write('p.txt', data)
    ctx.step()
    what = '{} ({})'.format(case, L[at] if at < len(L) else 'end')
    try:
        RC = RecordCollection(p)
    except mk.BadInputFile:
        ctx.true(at < 4, what + ' refused')
        ctx.state('refused')
        return
    if same:
        intact(ctx, RC, RECS, (1, 2, 3), what)
        ctx.eq(bool(RC.bad), False, what + ' unchanged but flagged')
        return
    line, num, kind = L[at] if at < len(L) else ('', None, 'tail')
    ended = [m for m in (1, 2, 3) if any(x == m and y == 'bar' for l, x, y in L[:at])]
    flagged = bool(RC.bad) or any(R.bad for R in RC)
    for R in RC:
        if R.bad:
            ctx.true(R.error is not None, what + ' bad record without an error')
    ctx.eq(bool(RC.bad), bool(RC.errors), what + ' flag and errors')
    intact(ctx, RC, RECS, ended, what)
    if k in ('cut', 'bcut') and kind not in ('tail',) and not (kind == 'end' and data.endswith(b'Bibliography\n')):
        ctx.true(flagged, what + ' cut file not flagged')
    if k in ('bins', 'bset') and kind in ('toc', 'body', 'bar', 'title', 'id'):
        ctx.true(flagged, what + ' undecodable byte not flagged')
    if k == 'del' and kind in ('toc', 'doc', 'bar', 'title', 'id', 'end'):
        ctx.true(flagged, what + ' not flagged')
    if k == 'chr' and kind in ('toc', 'doc', 'bar', 'title', 'id', 'end'):
        ctx.true(flagged, what + ' not flagged')
    if k == 'set' and kind in ('toc', 'doc', 'bar', 'title', 'id') and NEW[case[2]] not in ('ProQuest document ID: 12',):
        ctx.true(flagged, what + ' not flagged')
    if k in ('set', 'ins', 'del', 'dup', 'chr') and kind in ('body', 'blank') and (len(case) < 3 or k == 'chr' or NEW[case[2]] not in (BAR, 'ProQuest document ID: 12', 'Title: other')):
        # damage confined to a record's own fields: the other records are unaffected
        others = [m for m in (1, 2, 3) if m != num]
        if not flagged or any(R.bad for R in RC):
            intact(ctx, RC, RECS, others, what)
    ctx.state((sorted((R.id, R.bad) for R in RC), bool(RC.bad)))


# -------------------------------------------------------- characters and names
def char_cases(tier):
    for c in CHARS:
        yield [c]
    for t in ('httpfield', 'https', 'Title (German)', 'a.b', 'X', 'Document', 'Bibliography', 'author', '1. Field', 'F ', 'two  words', '\u65e5'):
        yield ['field', t]
    for k in range(1, 4):
        for d in range(4):
            yield ['again', k, d]


def characters(ctx, case):
    if case[0] == 'field':
        files = [[record(1, 'One', [[case[1], v], ['Degree', ['d']]]), record(2, 'Two')] for v in (['v'], ['v', 'w'], ['v: w; x', 'http://y: z'])]
    elif case[0] == 'again':
        #the same record listed more than once, as in exports made by hand
        recs = [record(1, 'One', [['Abstract', ['a']]]), record(2, 'Two'), record(3, 'Three')]
        for i in range(case[1]):
            recs.insert(case[2], recs[case[2] % 3])
        RC = RecordCollection(ctx.write('in.txt', file_text(recs)))
        ctx.step()
        ctx.eq((bool(RC.bad), len(RC)), (False, 3), 'records listed again {}'.format(case))
        intact(ctx, RC, recs, range(1, len(recs) + 1), 'records listed again {}'.format(case))
        ctx.state(case)
        return
    else:
        files = []
        for v in placed(case[0]):
            v = 'x' + v + 'y'
            files.append([record(1, v, [['Abstract', [v, v]], ['Degree', [v]], ['New field', [v]], ['Subject', [v]]], author=v), record(2, 'Two')])
            if v[1:].lstrip() == v[1:]:
                v = v[1:]
                if not v.startswith((' ', '\t')):
                    files.append([record(1, 'One', [['Abstract', [v, v]], ['Degree', [v]]]), record(2, 'Two')])
    for recs in files:
        RC = RecordCollection(ctx.write('in.txt', file_text(recs).encode('utf-8')))
        ctx.step()
        what = '{} {!r}'.format(case, recs[0])
        ctx.eq((bool(RC.bad), RC.errors, len(RC)), (False, {}, 2), what + ' flagged')
        intact(ctx, RC, recs, (1, 2), what)
    ctx.state(case)


# ---------------------------------------------------------------------- sizes
def size_cases(tier):
    for n in sizes(2001 if tier == 'thorough' else 513):
        for shape in ('records', 'lines', 'text', 'lists', 'links'):
            yield [shape, n]


def sized(ctx, case):
    shape, n = case
    one = lambda *f: [record(100, 'Title 0', f), record(101, 'Title 1', [['Abstract', ['short']]])]
    if shape == 'records':
        recs = [record(1000 + i, 'Title {}'.format(i), [['Abstract', ['text %d' % i]]]) for i in range(n)]
    elif shape == 'lines':
        recs = one(['Abstract', ['paragraph %d' % i for i in range(n)]], ['New field', ['v%d' % i for i in range(n)]])
    elif shape == 'text':
        recs = one(['Abstract', ['x' * n, 'y ' * n + 'z']], ['Degree', ['d' * n]])
    elif shape == 'lists':
        recs = one(['Classification', ['; '.join('%04d: %s' % (i, word(i)) for i in range(n))]], ['Identifier / keyword', [', '.join(word(i) for i in range(n))]], ['Subject', ['; '.join(word(i) for i in range(n))]])
    else:
        recs = one(['Links', ['http://a.b/c%d' % i for i in range(n)]])
    for rs in (recs, recs[::-1]):
        RC = RecordCollection(ctx.write('in.txt', file_text(rs)))
        ctx.step()
        ctx.eq((bool(RC.bad), len(RC)), (False, len(rs)), 'sizes {}: flagged, number of records'.format(case))
        intact(ctx, RC, rs, range(1, len(rs) + 1), 'sizes {}'.format(case))
    ctx.state(case)


SCENARIOS = [
    Scenario('size', size_cases, sized, 'n records, lines, characters, list elements, links; n around 4, 5, 8, 10, 16, ... up to 513 (thorough 2001)', timeout=240),
    Scenario('read', read_cases, read, 'all files of 1-3 records with up to 3 (4) deviations in title, author, abstract, links, lists, unknown and single-line fields and their order'),
    Scenario('characters', char_cases, characters, 'every character of mc/chars.py alone, doubled, at each end and inside titles, authors and fields; 12 unusual field names; records listed 2-4 times'),
    Scenario('damage', damage_cases, damage, 'a 3 record file: cut after every character and byte, undecodable byte inserted or set at every byte; every line deleted, doubled, replaced or preceded by one of {} lines, first characters changed (thorough: every range of lines deleted)'.format(len(NEW))),
]
