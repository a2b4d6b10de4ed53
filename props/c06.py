"""C06: WOS fields decode to their documented form for any lines."""
import itertools
from mc.core import Scenario
from mc import build as b
from mc.sizes import sizes, word
import metaknowledge as mk

# tag -> (long name, decoding)
TABLE = {
    'PT': ('pubType', 'first'), 'AF': ('authorsFull', 'lines'), 'GP': ('group', 'first'), 'BE': ('editedBy', 'lines'),
    'AU': ('authorsShort', 'lines'), 'BA': ('bookAuthor', 'lines'), 'BF': ('bookAuthorFull', 'lines'), 'CA': ('groupName', 'first'),
    'ED': ('editors', 'lines'), 'TI': ('title', 'join'), 'SO': ('journal', 'join-upper'), 'SE': ('seriesTitle', 'join'),
    'BS': ('seriesSubtitle', 'join'), 'LA': ('language', 'comma-join'), 'DT': ('docType', 'first'), 'CT': ('confTitle', 'join'),
    'CY': ('confDate', 'first'), 'HO': ('confHost', 'join'), 'CL': ('confLocation', 'join'), 'SP': ('confSponsors', 'comma-list'),
    'DE': ('authKeywords', 'semi-lower'), 'ID': ('keywords', 'semi-upper'), 'AB': ('abstract', 'text'), 'C1': ('authAddress', 'address'),
    'RP': ('reprintAddress', 'first'), 'EM': ('email', 'semi'), 'RI': ('ResearcherIDnumber', 'semi'), 'OI': ('orcID', 'semi'),
    'FU': ('funding', 'semi'), 'FX': ('fundingText', 'join'), 'CR': ('citations', 'cites'), 'NR': ('citedRefsCount', 'int'),
    'TC': ('wosTimesCited', 'int'), 'Z9': ('totalTimesCited', 'int'), 'PU': ('publisher', 'join-upper'), 'PI': ('publisherCity', 'join-upper'),
    'PA': ('publisherAddress', 'join'), 'SC': ('subjectCategory', 'semi'), 'SN': ('ISSN', 'first'), 'EI': ('eISSN', 'first'),
    'BN': ('ISBN', 'semi'), 'J9': ('j9', 'first'), 'JI': ('isoAbbreviation', 'join-upper'), 'PD': ('month', 'month'), 'PY': ('year', 'year'),
    'VL': ('volume', 'strip'), 'IS': ('issue', 'first'), 'PN': ('partNumber', 'first'), 'SU': ('supplement', 'join'),
    'SI': ('specialIssue', 'first'), 'MA': ('meetingAbstract', 'first'), 'BP': ('beginningPage', 'strip'), 'EP': ('endingPage', 'strip'),
    'AR': ('articleNumber', 'first'), 'PG': ('pageCount', 'int'), 'WC': ('subjects', 'semi'), 'DI': ('DOI', 'first'), 'D2': ('bookDOI', 'first'),
    'GA': ('documentDeliveryNumber', 'first'), 'UT': ('wosString', 'first'), 'PM': ('pubMedID', 'first'),
}
TEXT = ['a', 'B c', 'end,', 'x; y', 'x;y', 'p, q', ' lead ', '', '[A, A; B, B] Dept, City', '[A] X] Y', '12', 'É ß', 'Smith J, 1990, NATURE, V1, P2', 'SMITH J, 1990, Nature, v1, p2', '0012', '3 ']
INTS = ['0', '7', '12', '007', '1999']
MONTHS = {'JAN': 1, 'FEB': 2, 'MAR': 3, 'APR': 4, 'MAY': 5, 'JUN': 6, 'JUL': 7, 'AUG': 8, 'SEP': 9, 'OCT': 10, 'NOV': 11, 'DEC': 12,
          'SPR': 3, 'SUM': 6, 'FAL': 9, 'WIN': 12}
MON = [m + t for m in list(MONTHS) + ['Jan', 'dec'] for t in ('', ' 12', '-FEB', '-APR', ' 3 2001', ' 2012')]
YEARS = ['1900', '2015', '0999']


def decode(kind, v):
    if kind == 'first':
        return v[0]
    if kind == 'strip':
        return v[0].strip()
    if kind == 'lines':
        return list(v)
    if kind == 'join':
        return ' '.join(v)
    if kind == 'join-upper':
        return ' '.join(v).upper()
    if kind == 'comma-join':
        return ', '.join(v)
    if kind == 'comma-list':
        return ', '.join(v).split(', ')
    if kind == 'semi':
        return ' '.join(v).split('; ')
    if kind == 'semi-lower':
        return [x.lower() for x in ' '.join(v).split('; ')]
    if kind == 'semi-upper':
        return [x.upper() for x in ' '.join(v).split('; ')]
    if kind == 'text':
        return '\n'.join(v)
    if kind in ('int', 'year'):
        return int(v[0])
    if kind == 'address':
        return [x.split('] ', 1)[1] if x.startswith('[') and '] ' in x else ('' if x.startswith('[') else x) for x in v]
    if kind == 'month':
        return MONTHS[v[0].split(' ')[0].split('-')[0].upper()]
    raise KeyError(kind)


def run(ctx, case):
    tag, v = case['tag'], case['lines']
    name, kind = TABLE[tag]
    uid = v if tag == 'UT' else ['WOS:1']
    fields = [(tag, list(v))] + ([] if tag == 'UT' else [('UT', ['WOS:1'])])
    for key in (tag, name):
        R = mk.WOSRecord(dict(fields))
        ctx.step()
        other = name if key == tag else tag
        if kind == 'cites':
            got = R[key]
            ctx.eq([type(c) for c in got], [mk.Citation] * len(v), 'citations type')
            ctx.eq([str(c) for c in got], list(v), 'citations of {}'.format(v))
            ctx.true(R[other] is got or R[other] == got, 'other name gives other citations')
        else:
            want = decode(kind, v)
            got = R[key]
            ctx.eq((got, type(got)), (want, type(want)), '{} of {}'.format(key, v))
            ctx.eq(R[other], want, '{} after {} of {}'.format(other, key, v))
            ctx.eq(R.get(key), want, 'get({})'.format(key))
            ctx.eq(mk.WOSRecord(dict(fields)).get(key), want, 'get({}) on a fresh record'.format(key))
            ctx.state((kind, repr(want)))
        ctx.eq(R.get(tag, raw=True), list(v), 'raw lines')
        ctx.eq(R.get(name, raw=True), list(v), 'raw lines by name')
        ctx.true(tag in R and name in R, 'membership')


def run_unknown(ctx, case):
    tag, v = case['tag'], case['lines']
    R = mk.WOSRecord({tag: list(v), 'UT': ['WOS:1']})
    ctx.step()
    ctx.eq(R[tag], list(v), 'unknown tag')
    ctx.state((tag, v))


def run_names(ctx, case):
    """No two tags share a name: a record with every tag has them all, separately readable."""
    fields = {}
    for tag, (name, kind) in TABLE.items():
        fields[tag] = ['1990'] if kind in ('int', 'year') else ['MAY'] if kind == 'month' else ['v ' + tag]
    for order in (list(TABLE), list(reversed(TABLE))):
        R = mk.WOSRecord({t: fields[t] for t in order})
        ctx.step()
        for t in (order if case['by'] == 'tag' else [TABLE[t][0] for t in order]):
            R[t]
        for tag, (name, kind) in TABLE.items():
            if kind != 'cites':
                ctx.eq(R[name], decode(kind, fields[tag]), name)
                ctx.eq(R[tag], decode(kind, fields[tag]), tag)
        ctx.eq(sorted(R.keys()), sorted(TABLE), 'keys')
        RC = b.rc([R])
        ctx.eq(sorted(RC.tags()), sorted(TABLE), 'tags of the collection')
    ctx.eq(mk.WOSRecord({'PT': ['J'], 'UT': ['WOS:9']}).get('month', 'none'), 'none', 'absent name')
    ctx.state(case['by'])


def alphabet(kind):
    return {'int': INTS, 'month': MON, 'year': YEARS}.get(kind, TEXT)


def cases(tier):
    for tag, (name, kind) in TABLE.items():
        A = alphabet(kind)
        for n in (1, 2, 3):
            if n == 3 and kind in ('int', 'month', 'year'):
                continue
            if n == 3 and kind == 'first' and tier == 'quick':
                continue
            if n == 2 and kind == 'month':
                continue
            for v in itertools.product(A if n < 3 or tier == 'thorough' else A[:9], repeat=n):
                yield {'tag': tag, 'lines': list(v)}
        yield {'tag': tag, 'lines': [A[i % len(A)] for i in range(60)]}


def unknown_cases(tier):
    for tag in ('U1', 'ZZ', 'HC', 'X1'):
        for n in (1, 2):
            for v in itertools.product(TEXT, repeat=n):
                yield {'tag': tag, 'lines': list(v)}


def name_cases(tier):
    yield {'by': 'tag'}
    yield {'by': 'name'}


def size_cases(tier):
    for tag, (name, kind) in TABLE.items():
        A = alphabet(kind)
        for n in sizes(2001 if tier == 'thorough' else 513):
            yield {'tag': tag, 'lines': [A[-1 - i % len(A)] for i in range(n)]}
            if kind in ('int', 'year', 'month'):
                if kind == 'int':
                    yield {'tag': tag, 'lines': [str(n)]}
                continue
            yield {'tag': tag, 'lines': [word(0) * n]}
            yield {'tag': tag, 'lines': ['; '.join(word(i) for i in range(n)) + ';', ', '.join(word(i) for i in range(n))]}
            yield {'tag': tag, 'lines': ['x ' * n + word(i) for i in range(3)]}


SCENARIOS = [
    Scenario('size', size_cases, run, 'every tag with n lines, lines of n words, values and list elements, n around 4, 5, 8, 10, 16, ... up to 513 (thorough 2001)', timeout=120),
    Scenario('tags-by-lines', cases, run, {'tags': len(TABLE), 'lines': '<=3 (and 60) over {} texts'.format(len(TEXT))}),
    Scenario('unknown-tags', unknown_cases, run_unknown, {'tags': 4, 'lines': '<=2'}),
    Scenario('all-tags-at-once', name_cases, run_names, {'orders': 2}),
]
