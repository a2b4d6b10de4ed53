"""Citing structures: an alphabet of records and citations whose parts are given here, not parsed."""
import itertools
from collections import Counter
from mc import build as b
from mc.sizes import word

# citation string -> (author, year, journal, extra (V/P/misc, no DOI))
POOL = {
    'AA B, 2000, JONE, V1, P1': ('Aa B', 2000, 'JONE', ['V1', 'P1']),
    'XX Y, 1990, JONE, V2, P3': ('Xx Y', 1990, 'JONE', ['V2', 'P3']),
    'Xx Y, 1990, JONE, V9': ('Xx Y', 1990, 'JONE', ['V9']),
    '[ANONYMOUS], 1991, BOOK': ('[Anonymous]', 1991, 'BOOK', []),
    'Zz Y, JTWO': ('Zz Y', None, 'JTWO', []),
    'CC D, 2001, JTWO, DOI 10.1/X': ('Cc D', 2001, 'JTWO', []),
    'Xx Y, 1995': ('Xx Y', 1995, None, []),
}
# Scopus: (author, year, journal, extra, ID); None for the author also means not an author at all
SCOPUS = {
    'Aa B., Title, of one (2000) JONE': ('AA B.', 2000, 'JONE', []),
    'Xx Y., Qq R., Other (1990) JTWO, 2 (3), pp. 4-5': ('XX Y.', 1990, 'JTWO', ['QQ R., ', '2', '3', '4-5']),
    'XX Y., (1990) JTWO, 9': ('XX Y.', 1990, 'JTWO', ['9']),
    'A Book without its author and year': (None, None, None, [], 'A Book without its author and year'),
    'Zz Y., Unknown (1995) JTEN, p. 7': ('ZZ Y.', 1995, 'JTEN', ['7']),
}
POOL.update(SCOPUS)
POOL['Nn O, 0, JTWO, V5'] = ('Nn O', 0, 'JTWO', ['V5'])      # the last: a year of zero
C = list(POOL)
NWOS = 7
S0 = NWOS                      # the first of the Scopus citations
NOBODY = 'A Book without its author and year'
TABLE = {'JONE': ['Journal One'], 'JTWO': ['Journal Two', 'J Two'], 'EXCL': ['']}

# records: (fields, own citation parts); the order is fixed so that record i of a case uses HEADS[i]
HEADS = [
    (dict(AU=['Aa, B'], AF=['Aa, Bob'], PY=['2000'], J9=['JONE'], TI=['One, first']), ('Aa B', 2000, 'JONE')),
    (dict(AU=['Cc, D', 'Ee, F'], AF=['Cc, Dan', 'Ee, Fay'], PY=['2001'], J9=['JTWO'], TI=['Two']), ('Cc D', 2001, 'JTWO')),
    (dict(AU=['[ANONYMOUS]'], PY=['2002'], J9=['BOOK']), ('[Anonymous]', 2002, 'BOOK')),
    (dict(PY=['2003'], J9=['JONE']), (None, 2003, 'JONE')),
    (dict(), (None, None, None)),
    # Scopus
    (dict(EID='2-s2', Authors='Aa B.', Title='Of one', Year='2000', Volume='7', **{'Source title': 'JONE', 'Page start': '11'}), ('AA B.', 2000, 'JONE', ['7', '11'])),
    (dict(EID='2-s3', Authors='Cc D., Ee F.', Title='Two (second)', Year='2001', Volume='4', **{'Source title': 'JTEN', 'Page start': '6'}), ('CC D.', 2001, 'JTEN', ['4', '6'])),
    # Medline, no citations
    (dict(PMID=['77'], AU=['Aa B', 'Gg H'], FAU=['Aa, Bob', 'Gg, Hal'], DP=['2000 Jan'], TA=['Jone'], JT=['The Journal'], TI=['Seven'], VI=['3 Pt 1'], PG=['5-8']), ('Aa B', 2000, 'JONE', ['V3', 'P5'])),
    # ProQuest, no citations
    (dict(Name=['x'], Title=['A thesis'], Author=['Cc, Dan'], **{'Degree date': ['2001'], 'ProQuest document ID': ['99']}), ('Cc Dan', 2001, 'A THESIS')),
    # WOS, three authors
    (dict(AU=['Tt, R', 'Uu, S', 'Vv, T'], PY=['1999'], J9=['JONE'], VL=['2']), ('Tt R', 1999, 'JONE', ['V2'])),
]
# what the tags of the records that are not from WOS are: authorsFull, authorsShort, year, title, journal, volume, beginningPage, id
OTHER = {
    5: (['Aa B.'], ['Aa B.'], 2000, 'Of one', 'JONE', '7', '11', '2-s2'),
    6: (['Cc D.', 'Ee F.'], ['Cc D.', 'Ee F.'], 2001, 'Two (second)', 'JTEN', '4', '6', '2-s3'),
    7: (['Aa, Bob', 'Gg, Hal'], ['Aa B', 'Gg H'], 2000, 'Seven', 'The Journal', '3', '5', 'PMID:77'),
    8: (['Cc, Dan'], ['Cc, Dan'], 2001, 'A thesis', None, None, 0, 'PROQUEST:99'),
}
OWN = {5: 'Aa B., Of one (2000) JONE, 7, PP. 11', 6: 'Cc D., Two second (2001) JTEN, 4, PP. 6', 7: 'Aa B, 2000, Jone, V3, P5', 8: 'Cc Dan, 2001, A thesis'}

# many more citations and records: citation M0+i names what record H0+i is
M0, H0, MANY = len(C), len(HEADS), 1100
for i in range(MANY):
    p = (word(i) + ' Q', 1900 + i * 7 % 100, ('JONE', 'JTWO', 'BOOK')[i % 3])
    s = '{}, {}, {}, V{}, P{}'.format(*p, i % 9 + 1, i + 1)
    POOL[s] = p + (['V{}'.format(i % 9 + 1), 'P{}'.format(i + 1)],)
    C.append(s)
    HEADS.append((dict(AU=[word(i) + ', Q'], AF=[word(i) + ', Quentin'], PY=[str(p[1])], J9=[p[2]], TI=['T{}'.format(i)]), p))


def sized(shape, n):
    """A citing structure of the given shape and size (see collection)."""
    if shape == 'long':      # one record, n citations
        return [[H0 + 1099, [M0 + i for i in range(n)]]]
    if shape == 'repeat':    # one record, the same citation n times, then another
        return [[H0, [M0 + 1] * n + [M0 + 2]]]
    if shape == 'star':      # n records citing the same
        return [[H0 + i, [M0 + 1098]] for i in range(n)]
    if shape == 'chain':     # n records, each citing the next
        return [[H0 + i, [M0 + i + 1]] for i in range(n)]
    if shape == 'shared':    # two records sharing n citations, a third sharing the last of them
        cs = [M0 + i for i in range(n)]
        return [[H0 + 1096, cs], [H0 + 1097, list(reversed(cs))], [H0 + 1095, cs[-1:]]]
    if shape == 'late':      # n records without citations, then one with
        return [[H0 + i, None] for i in range(n)] + [[H0 + 1097, [M0 + 1098, M0]]]
    raise KeyError(shape)


def view(h, R):
    """(authorsFull, authorsShort, year, title, journal, volume, beginningPage, id) of a record"""
    if h in OTHER:
        return OTHER[h]
    F = HEADS[h][0]
    return (F.get('AF'), F.get('AU'), int(F['PY'][0]) if 'PY' in F else None, F.get('TI', [None])[0], None, F.get('VL', [None])[0], None, R.id)


def ident(parts):
    if len(parts) > 4:
        return parts[4]
    return ', '.join(str(x) for x in parts[:3] if x or x == 0)


def own_string(i):
    if i in OWN:
        return OWN[i]
    F, p = HEADS[i]
    return ', '.join(str(x) for x in [p[0] and F['AU'][0].replace(',', ''), p[1], p[2]] + list(p[3] if len(p) > 3 else []) if x)


def node(parts, string, nodeType):
    if nodeType == 'full':
        return ident(parts)
    if nodeType == 'original':
        return string
    return parts[('author', 'year', 'journal').index(nodeType)]


def keep(parts, string, nodeType, f, core):
    if nodeType != 'full' and not node(parts, string, nodeType):
        return False
    if f.get('dropNonJournals') and parts[2] not in ('JONE', 'JTWO'):
        return False
    if f.get('dropAnon') and (parts[0] == '[Anonymous]' or string == NOBODY):
        return False
    if f.get('coreOnly') and ident(parts) not in core:
        return False
    kw = f.get('keyWords')
    if kw:
        for k in ([kw] if isinstance(kw, str) else kw):
            if k.upper() in string.upper():
                return False
    return True


FILTERS = [{}, {'dropAnon': True}, {'dropNonJournals': True}, {'coreOnly': True}, {'keyWords': 'xx'}, {'keyWords': ['jtwo', '199']}, {'keyWords': ('nothing', 'x', 'v1', 'p3', 'book', 'V2')},
           {'dropAnon': True, 'coreOnly': True}]


def collection(case):
    """case: list of [head index, list of citation indexes or None]"""
    recs = []
    for n, (h, cs) in enumerate(case):
        cites = None if cs is None else [C[i] for i in cs]
        fields = HEADS[h][0]
        if 'EID' not in fields and h not in OTHER:
            recs.append(b.wos(n, CR=cites, **fields))
        elif 'EID' in fields:
            recs.append(b.ScopusRecord(dict(fields, References='; '.join(cites)) if cites else dict(fields)))
        elif 'PMID' in fields:
            recs.append(b.MedlineRecord(fields))
        else:
            recs.append(b.ProQuestRecord(fields))
    return recs


def citing_cases(heads, ncites, maxlen, dup=True):
    def seqs(h):
        if h in OTHER and 'EID' not in HEADS[h][0]:
            return [None]
        pool = range(ncites) if h not in OTHER else range(S0, S0 + min(ncites, len(SCOPUS)))
        return [None] + [list(s) for n in range(1, maxlen + 1) for s in (itertools.product(pool, repeat=n) if dup else itertools.combinations(pool, n))]
    for combo in itertools.product(*[seqs(h) for h in heads]):
        yield [[h, s] for h, s in zip(heads, combo)]
