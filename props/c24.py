"""C24: BibTeX output keeps every value whole."""
import itertools
import os
from collections import OrderedDict as OD
from mc.core import Scenario, Violation
from mc import build as b
from mc import default
from mc.sizes import sizes, word
import metaknowledge as mk
from metaknowledge import MedlineRecord, ScopusRecord, RecordCollection


class Bad(Exception):
    pass


def parse(text):
    """Strict reader of the entries of a BibTeX file: [(type, key, [(name, [parts])])]"""
    out, i = [], 0

    def ws(i):
        while i < len(text) and text[i].isspace():
            i += 1
        return i

    def braced(i):
        depth, j = 0, i
        while j < len(text):
            if text[j] == '{':
                depth += 1
            elif text[j] == '}':
                depth -= 1
                if depth == 0:
                    return text[i + 1:j], j + 1
            j += 1
        raise Bad('unbalanced braces at %d' % i)

    def quoted(i):
        depth, j = 0, i + 1
        while j < len(text):
            if text[j] == '{':
                depth += 1
            elif text[j] == '}':
                depth -= 1
                if depth < 0:
                    raise Bad('unbalanced string at %d' % i)
            elif text[j] == '"' and depth == 0:
                return text[i + 1:j], j + 1
            j += 1
        raise Bad('unterminated string at %d' % i)
    while True:
        i = ws(i)
        if i >= len(text):
            return out
        if text[i] == '%':
            i = text.find('\n', i)
            i = len(text) if i < 0 else i
            continue
        if text[i] != '@':
            raise Bad('text between entries: %r' % text[i:i + 20])
        j = text.index('{', i)
        typ = text[i + 1:j].strip()
        if not typ.isalpha():
            raise Bad('type %r' % typ)
        i = ws(j + 1)
        j = i
        while j < len(text) and text[j] != ',' and text[j] != '}' and not text[j].isspace():
            j += 1
        key = text[i:j]
        if not key:
            raise Bad('no key')
        i = ws(j)
        fields = []
        while True:
            if text[i] == '}':
                i += 1
                break
            if text[i] != ',':
                raise Bad('comma expected after %r' % text[max(0, i - 20):i])
            i = ws(i + 1)
            if text[i] == '}':
                continue
            j = i
            while text[j] not in '=,{}"#% \n\t':
                j += 1
            name = text[i:j]
            if not name:
                raise Bad('field name at %r' % text[i:i + 20])
            i = ws(j)
            if text[i] != '=':
                raise Bad('= expected at %r' % text[i:i + 20])
            parts = []
            while True:
                i = ws(i + 1)
                if text[i] == '{':
                    p, i = braced(i)
                    parts.append(('{', p))
                elif text[i] == '"':
                    p, i = quoted(i)
                    parts.append(('"', p))
                else:
                    raise Bad('value at %r' % text[i:i + 20])
                i = ws(i)
                if text[i] != '#':
                    break
            fields.append((name, parts))
        out.append((typ, key, fields))


def joined(parts):
    return ''.join(p for _, p in parts)


def text_of(v, sep=' and '):
    return sep.join(str(x) for x in v) if isinstance(v, list) else str(v)


def listed(v, limit):
    """What the listed findings (C24 tail and quotes) make of a value longer than the limit"""
    v = v.replace('"', '')
    return v[:len(v) // limit * limit]


LONG = {'PT': 'pubType', 'UT': 'wosString', 'TI': 'title', 'AF': 'authorsFull', 'AU': 'authorsShort', 'PY': 'year', 'CR': 'citations', 'ID': 'keywords', 'PD': 'month', 'AB': 'abstract'}


def check_entry(ctx, R, entry, opts, what, findings):
    """R: the record an entry must describe"""
    limit, wos, restricted, nice = opts
    typ, key, fields = entry
    ctx.true(typ in ('misc', 'article') and (typ == 'misc' or R.get('PT') == 'J'), what + ' type ' + typ)
    if nice:
        if R.get('year'):
            ctx.true(str(R['year']) in key, what + ' key has the year: ' + key)
        if R.get('authorsFull'):
            a = ''.join(c for c in R['authorsFull'][0].lower() if c.isalnum())
            ctx.true(''.join(c for c in key.lower() if c.isalnum()).startswith(a), what + ' key has the author: ' + key)
        if not R.get('title') and not R.get('authorsFull'):
            ctx.true(str(R.id) in key, what + ' key of a record without author and title: ' + key)
    elif not wos:
        ctx.eq(key, str(R.id), what + ' key')
    elif R.id.startswith('WOS:'):
        ctx.eq(key, 'ISI:' + R.id[4:], what + ' key')
    ctx.eq(fields[0][0], 'author', what + ' first field')
    ctx.eq(joined(fields[0][1]).strip('{}'), text_of(R.get('authorsFull') or ['None']), what + ' authors')
    if restricted:
        want = [(k, R[k]) for k in mk.commonRecordFields if k in R]
    else:
        want = [(k, R[k]) for k in R]
    rest = fields[1:]
    ctx.eq(sorted(n if restricted else LONG.get(n, n) for n, _ in rest), sorted(n if restricted else LONG.get(n, n) for n, _ in want), what + ' fields')
    want = dict((LONG.get(n, n), v) for n, v in want)
    for n, parts in rest:
        v = want[LONG.get(n, n)]
        got = joined(parts)
        if wos:
            ctx.eq(len(parts), 1, what + ' %s in one piece' % n)
            ctx.true(got.startswith('{') and got.endswith('}'), what + ' %s has double braces' % n)
            ctx.eq(' '.join(got[1:-1].split()), ' '.join(text_of(v, ' ').split()), what + ' ' + n)
            if isinstance(v, list):
                ctx.eq([x.strip() for x in got[1:-1].split('\n')], [x.strip() for x in text_of(v, '\n').split('\n')], what + ' members of ' + n)
            continue
        full = text_of(v)
        ctx.true(all(len(p.replace('\\', '')) <= limit for q, p in parts), what + ' %s pieces within the limit' % n)
        if len(full) <= limit and full.count('{') == full.count('}'):
            ctx.eq(got.count('\\{') - full.count('\\{'), got.count('\\}') - full.count('\\}'), what + ' %s braces marked on both sides' % n)
        if got.replace('\\{', '{').replace('\\}', '}') == full:
            ctx.checks += 1
            if len(full) > limit:
                ctx.true(len(parts) > 1, what + ' %s is split' % n)
            continue
        if len(full) > limit and got == listed(full, limit):
            lost_quotes = '"' in full
            findings.setdefault('quotes' if lost_quotes else 'tail', '%s field %s: %r written as %r' % (what, n, full, got))
            continue
        ctx.eq(got, full, what + ' ' + n)


def finish(findings):
    for k in ('tail', 'quotes'):
        if k in findings:
            raise Violation(findings[k], k)


# ---- one value of every length, with quotes at every place, at small limits
def run_value(ctx, case):
    tag, n, quotes, limit = case
    v = list('abcdefghijklmnopqrstuvwxyz'[:n])
    for q in quotes:
        v[q] = '"'
    v = ''.join(v)
    R = b.wos('1', **{tag: [v]}) if tag != 'AU' else b.wos('1', AU=[v, 'Zz'])
    findings = {}
    for wos in (False, True):
        ctx.step()
        what = 'limit %d WOSMode %s %s=%r' % (limit, wos, tag, v)
        es = parse(R.bibString(maxLength=limit, WOSMode=wos))
        ctx.eq(len(es), 1, what)
        check_entry(ctx, R, es[0], (limit, wos, False, True), what, findings)
    ctx.state((n % limit, len(quotes)))
    finish(findings)


def value_cases(tier):
    for limit in (5, 9):
        for n in range(1, 24):
            yield ['ZZ' if n % 2 else 'SO', n, [], limit]
            yield ['AU', n, [], limit]
            yield ['TI', n, [], limit]
            for q in range(n):
                yield ['SO', n, [q], limit]
            if tier == 'thorough' or n < 13:
                for q in itertools.combinations(range(n), 2):
                    yield ['SO', n, list(q), limit]


# ---- whole files
TITLES = ['Plain', 'Networks, Crowds, and Markets', 'A {balanced} name', 'Quote "inside"', 'x' * 30, 'Tab\tnew, {x}', 'Émile = 5%', 'Of "{A} b" {c}']


def make(kind, n):
    if kind == 'bad':
        return b.badwos('broken %d' % n)
    if kind == 'empty':
        return b.wos(n)
    if kind == 'book':
        return b.wos(n, PT=['B'], TI=['Book'], AU=['A, B'], AF=['A, Bee', 'C, Dee'], PY=['2001'])
    if kind == 'cites':
        return b.wos(n, AF=['Last, First M.'], PY=['1999'], PD=['MAR'], CR=['AA B, 2000, JONE', 'XX Y, 1990, JTWO'], ID=['K1; K2'], AB=['Words of the abstract'])
    if kind == 'notitle':
        return b.wos(n, PY=['1990'])
    if kind == 'med':
        return MedlineRecord(OD([('PMID', [str(n) * 8]), ('TI', ['Med title']), ('FAU', ['Smith, John']), ('AU', ['Smith J']), ('DP', ['1999 Jan']), ('AB', ['Text'])]))
    if kind == 'badmed':
        return MedlineRecord(OD([('TI', ['Med title'])]))
    if kind == 'sco':
        return ScopusRecord(OD([('EID', '2-s2.0-%d' % n), ('Title', 'Sco title, more'), ('Authors', 'Smith J., Roe K.'), ('Year', '1999'), ('Abstract', 'Text')]))
    return b.wos(n, TI=[TITLES[int(kind[1:])]], PY=['2000'])


KINDS = ['t%d' % i for i in range(len(TITLES))] + ['bad', 'empty', 'book', 'cites', 'notitle', 'med', 'badmed', 'sco']
OPTS = [(l, w, r, n) for l in (1000, 7) for w in (False, True) for r in (False, True) for n in (False, True)]


def run_file(ctx, case):
    kinds = case
    recs = [make(k, n) for n, k in enumerate(kinds)]
    RC = RecordCollection(list(recs), name='nm', quietStart=True)
    os.chdir(ctx.dir)
    findings = {}
    braces = {'t2', 't5', 't7'} & set(kinds)
    for limit, wos, restricted, nice in OPTS:
        if braces and limit == 7:       # see scenario documented, braces
            limit = 999
        ctx.step()
        what = 'writeBib max=%d wosMode=%s reduced=%s nice=%s of %r' % (limit, wos, restricted, nice, kinds)
        kw = dict(maxStringLength=limit, wosMode=wos, reducedOutput=restricted, niceIDs=nice)
        if limit == 1000:
            del kw['maxStringLength']
            RC.writeBib(**kw)
            f = 'nm.bib'
        else:
            f = 'o.x'
            RC.writeBib(f, **kw)
        text = open(f, encoding='utf-8', newline='').read()
        try:
            es = parse(text)
        except (Bad, IndexError, ValueError) as e:
            ctx.true(False, what + ' is not well formed: %s' % e)
        good = [R for R in recs if not R.bad]
        ctx.eq(len(es), len(good), what + ' entries')
        # every record has the entry that its own bibString gives
        todo = list(es)
        for R in good:
            own = parse(R.bibString(maxLength=limit, WOSMode=wos, restrictedOutput=restricted, niceID=nice))[0]
            ctx.true(own in todo, what + ' has the entry of %s' % R.id)
            todo.remove(own)
            check_entry(ctx, R, own, (limit, wos, restricted, nice), what + ' ' + str(R.id), findings)
        for R in recs:
            if R.bad:
                ctx.raises(mk.BadRecord, lambda: R.bibString(), what + ' bad record')
    ctx.eq(sorted(os.listdir('.')), ['nm.bib', 'o.x'], 'files written')
    ctx.state(kinds)
    finish(findings)


def file_cases(tier):
    yield []
    for n in (1, 2):
        for c in itertools.product(KINDS, repeat=n):
            yield list(c)
    for c in itertools.combinations(KINDS, 3):
        if tier == 'thorough' or 'bad' in c:
            yield list(c)


# ---- what the documentation says about names and types
def run_doc(ctx, case):
    n, key = case
    R = b.wos('1', PT=[['J'], ['B'], ['S']][n], TI=['T'], AU=['A, B'], PY=['2000'])
    e = parse(R.bibString())[0]
    if key == 'type':
        want = 'article' if n == 0 else 'misc'
        if e[0] == 'misc':
            ctx.eq(e[0], want, 'type of a journal article', 'type')
        ctx.eq(e[0], want, 'type')
    elif key == 'braces':
        v = ['A {balanced} name', '{A} {b}', 'ab{cdefghi}'][n]
        s = b.wos('1', AB=[v]).bibString(maxLength=7)
        line = [l.strip() for l in s.split('\n') if l.strip().startswith('AB = ')][0]
        pieces = [v[i:i + 7] for i in range(0, len(v) // 7 * 7, 7)]
        if line == 'AB = %s,' % ' # '.join('"%s"' % p for p in pieces):
            ctx.true(all(p.count('{') == p.count('}') for p in pieces), '%r is split inside braces: %s' % (v, line), 'braces')
        ctx.eq([joined(p) for f, p in parse(s)[0][2] if f in ('AB', 'abstract')], [v], 'value with braces')
    else:
        names = [f for f, _ in e[2][1:]]
        if names == ['PT', 'TI', 'AU', 'PY', 'UT']:
            ctx.eq(names, [LONG[x] for x in ('PT', 'TI', 'AU', 'PY', 'UT')], 'long names', 'names')
        ctx.eq(names, [LONG[x] for x in ('PT', 'TI', 'AU', 'PY', 'UT')], 'long names')


def doc_cases(tier):
    for n in range(3):
        yield [n, 'type']
        yield [n, 'names']
        if n != 1:
            yield [n, 'braces']


def run_default(ctx, case):
    def check(f, what):
        es = parse(open(f, encoding='utf-8', newline='').read())
        ctx.eq(len(es), 2, what + ' entries')
    default.run(ctx, case, '.bib', lambda RC: RC.writeBib(), check)


# ---- sizes
def size_cases(tier):
    for n in sizes(2001 if tier == 'thorough' else 1025):
        for shape in ('records', 'values', 'text', 'pieces', 'same'):
            if shape != 'values' or n <= 1025:  # more citations are longer than the limit, see the scenario value
                yield [shape, n]


def run_size(ctx, sh):
    shape, n = sh
    limit = 32000
    if shape == 'records':
        recs = [b.wos(i, TI=['Title %d, of' % i], AF=['Last%s, First' % word(i)], PY=[str(1900 + i % 99)]) for i in range(n)]
    elif shape == 'same':      # same author, year and title: the keys must still name each record's entry
        recs = [b.wos(i, TI=['Same'], AF=['Last, First'], PY=['1999']) for i in range(n)]
    elif shape == 'values':
        recs = [b.wos(0, AF=[word(i) + ', Q' for i in range(n)], AU=[word(i) for i in range(n)], CR=['%s, 1990, J%d' % (word(i), i) for i in range(n)], PY=['1990']), b.wos(1, TI=['x'])]
    elif shape == 'text':
        recs = [b.wos(0, TI=['word ' * n + 'end'], ZZ=['z' * n], AB=['a', 'b ' * n + 'c']), b.wos(1, TI=['x'])]
    else:                      # a value of three pieces exactly
        recs = [b.wos(0, TI=['x' * n + 'y' * n + 'z' * n])]
        limit = n
    RC = RecordCollection(list(recs), name='nm', quietStart=True)
    os.chdir(ctx.dir)
    for wos, restricted, nice in ((False, False, True), (True, False, False), (False, True, True)):
        RC.writeBib('o.bib', maxStringLength=limit, wosMode=wos, reducedOutput=restricted, niceIDs=nice)
        what = 'writeBib(wosMode=%s, reduced=%s) of %s' % (wos, restricted, sh)
        ctx.step()
        try:
            es = parse(open('o.bib', encoding='utf-8', newline='').read())
        except (Bad, IndexError, ValueError) as e:
            ctx.true(False, what + ' is not well formed: %s' % e)
        ctx.eq(len(es), len(recs), what + ' entries')
        own = [parse(R.bibString(maxLength=limit, WOSMode=wos, restrictedOutput=restricted, niceID=nice))[0] for R in recs]
        ctx.eq(sorted(es, key=repr), sorted(own, key=repr), what + ' entries')
        findings = {}
        for R, e in zip(recs, own):
            check_entry(ctx, R, e, (limit, wos, restricted, nice), what + ' ' + R.id, findings)
        ctx.eq(findings, {k: v for k, v in findings.items() if shape == 'pieces' and 'field TI' not in v and 'field title' not in v}, what)
    ctx.state(sh)


SCENARIOS = [
    Scenario('size', size_cases, run_size, bounds='n records (also all alike), n authors and citations, texts of n words, values of exactly 3 pieces of n; n around 4, 5, 8, 10, 16, ... up to 1025 (2001 thorough)', timeout=240),
    Scenario('default-names', default.cases, run_default, default.BOUNDS),
    Scenario('value', value_cases, run_value, bounds='one value of every length 1-23 at limits 5 and 9, alone, in lists, with a quote at every place and at every pair of places; both modes; strict BibTeX reader'),
    Scenario('file', file_cases, run_file, bounds='every sequence of 1-2 and triples with a bad record (every triple thorough) of 15 kinds of WOS, Medline, Scopus and bad records x 16 option combinations'),
    Scenario('documented', doc_cases, run_doc, bounds='entry types and field names of 3 publication types; values with braces longer than the limit'),
]
