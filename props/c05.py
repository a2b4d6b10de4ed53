"""C05: a record is one consistent, read-only mapping however it is accessed.

Oracle: the value a key has when it is the only thing ever read from a newly
made record.  Every sequence of accesses must give these values, and leave the
raw data as it was."""
import collections
import copy
import itertools
import pickle
import metaknowledge as mk
from metaknowledge import WOSRecord, MedlineRecord, ScopusRecord, ProQuestRecord, MedlineGrant
from metaknowledge.grants.scopusGrant import ScopusGrant
from metaknowledge.grants.baseGrant import FallbackGrant
from metaknowledge.grants.nsercGrant import NSERCGrant
from metaknowledge.grants.nsfGrant import NSFGrant
from metaknowledge.grants.cihrGrant import CIHRGrant
from mc.core import Scenario
from mc.sizes import sizes, word

OD = collections.OrderedDict
MANY = ['Roe', 'Abelson', 'Zu', 'De la Mare', 'Roe', 'Xi', 'Oppenheimer', 'b', 'Abelson', 'Q']
RAW = {
    'wos': OD([('PT', ['J']), ('AU', ['Doe, J', 'Roe, R']), ('AF', ['Doe, Jane', 'Roe, Richard']), ('TI', ['A title', 'in two lines']), ('SO', ['J SCI']), ('J9', ['J SCI']), ('DE', ['a b; c', 'd']),
               ('C1', ['[Doe, J] Uni, Town', 'Else, City']), ('CR', ['Aho, A, 1990, J SCI, V1, P2', 'bad cite']), ('PY', ['1999']), ('VL', ['5']), ('BP', ['10']), ('EP', ['20']), ('DI', ['10.1/x']),
               ('Z9', ['3']), ('XX', ['unknown']), ('WC', ['Soc; Econ']), ('PD', ['JAN 5']), ('UT', ['WOS:1'])]),
    'wosmin': OD([('UT', ['WOS:2'])]),
    'wosodd': OD([('AU', ['Solo, S']), ('PD', ['SPR']), ('PY', ['2000']), ('UT', ['WOS:3'])]),
    'wosbad': OD([('TI', ['No id']), ('AU', ['Doe, J'])]),
    'medline': OD([('PMID', ['11']), ('TI', ['Title']), ('AB', ['Abs']), ('AU', ['Doe J', 'Roe R']), ('FAU', ['Doe, Jane', 'Roe, Richard']), ('AD', ['Doe J : Uni, Town', 'Roe R : Else']), ('DP', ['1999 Jan 5']), ('VI', ['5']), ('PG', ['10-20']),
                   ('TA', ['J Sci']), ('JT', ['Journal of Science']), ('AID', ['10.1/x [doi]', 'S1 [pii]']), ('GR', ['R1/CA/NIH/US']), ('OT', ['k1', 'k2']), ('LID', ['10.1/x [doi]']), ('ZZ', ['unknown'])]),
    'medmin': OD([('PMID', ['12'])]),
    'medodd': OD([('PMID', ['13']), ('DP', ['1999']), ('AU', ['Doe J']), ('AID', ['S1 [pii]'])]),
    'medbad': OD([('TI', ['No id'])]),
    'scopus': OD([('Authors', 'Doe J., Roe R.'), ('Title', 'Title'), ('Year', '1999'), ('Source title', 'J Sci'), ('Volume', '5'), ('Page start', '10'), ('Page count', '3'), ('DOI', '10.1/x'),
                  ('References', 'Aho, A., Work, (1990) J Sci, 1; Bee, B., Other, (1991) K Sci, 2'), ('Funding Details', '1, NSF, Fund'), ('Author Keywords', 'a; b'), ('Index Keywords', 'c; d'),
                  ('Abstract', 'Abs'), ('Abbreviated Source Title', 'J. Sci.'), ('Extra column', 'unknown'), ('EID', 'e1')]),
    'scopmin': OD([('EID', 'e2')]),
    'scopbad': OD([('Title', 'No id')]),
    'proquest': OD([('Name', ['Title']), ('Author', ['Doe, Jane']), ('Identifier / keyword', ['a, b', 'c']), ('Abstract', ['l1', 'l2']), ('Degree date', ['1999']), ('Number of pages', ['10']), ('Title', ['Title']),
                    ('Whatever', ['unknown']), ('ProQuest document ID', ['p1'])]),
    'proqodd': OD([('ProQuest document ID', ['p2']), ('Degree date', ['none'])]),
    'proqbad': OD([('Title', ['No id'])]),
    # fields that are there with nothing in them
    'wosempty': OD([('PT', ['']), ('AU', ['']), ('AF', ['']), ('TI', ['']), ('SO', ['']), ('J9', ['']), ('DE', ['']), ('C1', ['']), ('CR', ['']), ('VL', ['']), ('BP', ['']), ('AB', ['', '']), ('XX', ['']), ('UT', ['WOS:4'])]),
    'medempty': OD([('PMID', ['14']), ('TI', ['']), ('AB', ['']), ('AU', ['']), ('FAU', ['']), ('VI', ['']), ('JT', ['']), ('OT', ['']), ('ZZ', [''])]),
    'scopempty': OD([('Authors', ''), ('Title', ''), ('Source title', ''), ('Volume', ''), ('References', ''), ('Author Keywords', ''), ('Abstract', ''), ('Extra column', ''), ('EID', 'e3')]),
    'proqempty': OD([('Name', ['']), ('Author', ['']), ('Abstract', ['']), ('Title', ['']), ('Whatever', ['']), ('ProQuest document ID', ['p3'])]),
    # many values, in no order and some of them twice
    'wosmany': OD([(t, [s.format(w) for w in MANY]) for t, s in (('AU', '{}, A'), ('AF', '{}, Ann'), ('CR', 'Aho, {}, 1990, J SCI, V1'), ('C1', '[{}, A] Uni'), ('XX', '{}'), ('ED', '{}'), ('TI', '{}'), ('AB', '{}'), ('SP', '{}'))]
                  + [(t, ['; '.join(MANY[:4]) + ';', '; '.join(MANY[4:])]) for t in ('DE', 'ID', 'WC', 'EM', 'SC')] + [('UT', ['WOS:5'])]),
    'medmany': OD([('PMID', ['15'])] + [(t, [s.format(w) for w in MANY]) for t, s in (('AU', '{} A'), ('FAU', '{}, Ann'), ('AD', '{} A : Uni'), ('OT', '{}'), ('MH', '{}'), ('GR', '{}/CA/NIH/US'), ('AID', '{} [pii]'), ('ZZ', '{}'))]),
    'scopmany': OD([('Authors', ', '.join(w + ' A.' for w in MANY)), ('References', '; '.join('Aho, A., {}, (1990) J Sci, 1'.format(w) for w in MANY)), ('Funding Details', '; '.join('1, {}, Fund'.format(w) for w in MANY)),
                    ('Author Keywords', '; '.join(MANY)), ('Index Keywords', '; '.join(MANY)), ('EID', 'e4')]),
    'proqmany': OD([(t, list(MANY)) for t in ('Author', 'Identifier / keyword', 'Abstract', 'Classification', 'Whatever')] + [('ProQuest document ID', ['p4'])]),
}
MAKE = {'w': WOSRecord, 'm': MedlineRecord, 's': ScopusRecord, 'p': ProQuestRecord}
SPECIAL = ['authorsFull', 'keywords', 'grants', 'j9', 'authorsShort', 'volume', 'selfCitation', 'citations', 'address', 'abstract', 'title', 'month', 'year', 'journal', 'beginningPage', 'DOI', 'id', 'pubType', 'subjects', 'wosString', 'authAddress', 'endingPage']
SPECIAL_AND_RAW = {}


def fresh(src):
    return MAKE[src[0]](OD((k, list(v) if isinstance(v, list) else v) for k, v in RAW[src].items()))


def keys(src):
    out = list(RAW[src]) + SPECIAL + ['CR', 'AU', 'Year', 'FAU', 'no such tag']
    R = fresh(src)
    for k in list(RAW[src]):
        a = R.getAltName(k)
        if a:
            out.append(a)
    return list(dict.fromkeys(out))


def show(v):
    if isinstance(v, mk.Citation):
        return ('cite', str(v), v.ID(), v.bad)
    if isinstance(v, mk.Grant):
        return ('grant', v.original, v.id)
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [show(x) for x in v])
    if isinstance(v, dict):
        return ('dict', [(k, show(x)) for k, x in v.items()])
    return (type(v).__name__, v)


MISSING = ('missing',)


def getitem(R, k):
    try:
        return show(R[k])
    except KeyError:
        return MISSING


ORACLE = {}


def oracle(src):
    """{key: (value or MISSING, raw value)} each from its own new record"""
    if src not in ORACLE:
        out = OD()
        for k in keys(src):
            R = fresh(src)
            raw = RAW[src].get(k)
            if raw is None:
                alt = R.getAltName(k)
                raw = RAW[src].get(alt) if alt else None
            out[k] = (getitem(R, k), raw)
        ORACLE[src] = out
    return ORACLE[src]


D = object()
OPS = ['item', 'get', 'getd', 'in', 'raw', 'sub', 'subraw']
WHOLE = ['items', 'values', 'itemsraw', 'iter', 'len', 'copy', 'pickle', 'deepcopy', 'bib', 'cite', 'repr', 'props', 'hash', 'cites']


def unchanged(ctx, src, R, what):
    ctx.eq([(k, v) for k, v in R.items(raw=True)], list(RAW[src].items()), what + ': raw data')


def access(ctx, src, R, op, k, what):
    """Perform one access, compare, return the record to go on with."""
    O = oracle(src)
    if op in OPS:
        val, raw = O[k]
        if op == 'item':
            got = getitem(R, k)
        elif op == 'get':
            got = show(R.get(k))
            val = show(None) if val is MISSING else val
        elif op == 'getd':
            got = R.get(k, D)
            got = MISSING if got is D else show(got)
        elif op == 'in':
            got, val = k in R, val is not MISSING
        elif op == 'raw':
            got, val = R.get(k, D, raw=True), D if raw is None else raw
        elif op == 'sub':
            got, val = show(R.subDict([k, 'UT'])), ('dict', list(OD([(k, show(None) if val is MISSING else val), ('UT', O['UT'][0] if 'UT' in O and O['UT'][0] is not MISSING else show(None))]).items()))
        else:
            got, val = R.subDict([k], raw=True), {k: raw}
        ctx.eq(got, val, what)
        return R
    names = list(RAW[src])
    if op == 'items':
        ctx.eq([(a, show(b)) for a, b in R.items()], [(n, O[n][0]) for n in names], what)
    elif op == 'values':
        ctx.eq([show(b) for b in R.values()], [O[n][0] for n in names], what)
        ctx.eq(list(R.values(raw=True)), list(RAW[src].values()), what + ' raw')
    elif op == 'itemsraw':
        unchanged(ctx, src, R, what)
    elif op == 'iter':
        ctx.eq((list(R), list(R.keys())), (names, names), what)
        ctx.true(all(n in R for n in R), what + ': a key is not in the record')
    elif op == 'len':
        ctx.eq((len(R), bool(R)), (len(names), bool(names)), what)
    elif op in ('copy', 'pickle', 'deepcopy'):
        S = R.copy() if op == 'copy' else pickle.loads(pickle.dumps(R)) if op == 'pickle' else copy.deepcopy(R)
        ctx.true(type(S) is type(R) and S is not R, what)
        ctx.eq((S.id, S.bad, type(S.error), str(S.error), S.sourceFile, S.sourceLine), (R.id, R.bad, type(R.error), str(R.error), R.sourceFile, R.sourceLine), what)
        if not R.bad:
            ctx.true(S == R and hash(S) == hash(R), what + ': unequal')
        unchanged(ctx, src, S, what)
        return S
    elif op == 'bib':
        for kw in ({}, {'WOSMode': True}, {'restrictedOutput': True}):
            try:
                R.bibString(**kw)
            except mk.mkException:
                ctx.true(R.bad, what)
    elif op == 'cite':
        ctx.eq([str(c) for c in (R.createCitation(),) + tuple(R.createCitation(multiCite=True))], CITE.setdefault(src, [str(c) for c in (fresh(src).createCitation(),) + tuple(fresh(src).createCitation(multiCite=True))]), what)
    elif op == 'repr':
        t = O['title'][0]
        ctx.eq(str(R), '{}({})'.format(type(R).__name__, R.id if t is MISSING else t[1]), what)
        ctx.eq(repr(R), '<metaknowledge.{} object {}>'.format(type(R).__name__, 'BAD' if R.bad else R.id), what)
    elif op == 'props':
        t, af, au = (O[k][0] for k in ('title', 'authorsFull', 'authorsShort'))
        ctx.eq(show(R.title), ('str', 'Untitled record') if t is MISSING else t, what + ' title')
        want = af if af not in (MISSING, show(None)) else au
        ctx.eq(show(R.authors), show(None) if want is MISSING else want, what + ' authors')
        ctx.eq((R.sourceFile, R.sourceLine), ('', 0), what + ' source')
        if src[0] == 'w':
            ctx.eq((R.UT, R.wosString), (R.id, R.id), what + ' UT')
        if src[0] in 'wmp':
            ctx.eq(getitem(R, 'id'), show(R.id), what + ' id')
    elif op == 'hash':
        ctx.eq(hash(R), hash(R), what)
    elif op == 'cites':
        c = O['citations'][0]
        got = R.getCitations(pandasFriendly=False)
        ctx.eq(show(got), ('list', []) if c is MISSING else c, what)
        R.getCitations()
        R.getCitations(field='year', values=1990)
    return R


CITE = {}


def every(src):
    return [(o, k) for k in keys(src) for o in OPS] + [(o, '') for o in WHOLE]


def seq_cases(tier):
    for src in RAW:
        E = every(src)
        for a in E:
            yield {'src': src, 'first': list(a)}


def seq_run(ctx, case):
    """The first access followed by every other one, each followed by a full comparison every now and then."""
    src, a = case['src'], tuple(case['first'])
    for b in every(src):
        R = fresh(src)
        what = '{}: {} then {}'.format(src, a, b)
        R = access(ctx, src, R, a[0], a[1], what + ' (first)')
        R = access(ctx, src, R, b[0], b[1], what)
        ctx.step(2)
        unchanged(ctx, src, R, what)
        #and then the key of the first one again in the other ways
        for op in ('item', 'in', 'get') if a[0] in OPS else ():
            access(ctx, src, R, op, a[1], what + ' then {} again'.format(op))


SMALL = {'w': ['PD', 'month', 'title', 'authorsFull', 'AU', 'authAddress', 'citations', 'selfCitation', 'no such tag', 'grants', 'address', 'year'], 'm': ['DP', 'year', 'month', 'AU', 'authorsShort', 'AD', 'address', 'grants', 'GR', 'DOI', 'AID', 'citations'],
         's': ['Year', 'year', 'citations', 'References', 'Authors', 'authorsFull', 'selfCitation', 'id', 'DOI', 'title', 'month'], 'p': ['Author', 'authorsFull', 'authorsShort', 'Degree date', 'year', 'Title', 'title', 'keywords', 'selfCitation', 'month']}


def deep_cases(tier):
    for src in RAW:
        for a in SMALL[src[0]]:
            for b in SMALL[src[0]]:
                yield {'src': src, 'pair': [a, b]}


def deep_run(ctx, case):
    src, (a, b) = case['src'], case['pair']
    ops3 = [o for o in itertools.product(['item', 'in', 'raw', 'copy'], repeat=3)]
    known = keys(src)
    for c in SMALL[src[0]]:
        seq = [k for k in (a, b, c)]
        if any(k not in known for k in seq):
            continue
        for ops in ops3:
            if ctx.tier == 'quick' and ops.count('copy') + ops.count('raw') > 1:
                continue
            R = fresh(src)
            what = '{}: {}'.format(src, list(zip(ops, seq)))
            for o, k in zip(ops, seq):
                R = access(ctx, src, R, o, k, what)
                ctx.step()
            for k in seq:
                access(ctx, src, R, 'item', k, what + ' finally ' + k)
                access(ctx, src, R, 'in', k, what + ' finally ' + k)
            unchanged(ctx, src, R, what)


# ------------------------------------------------------------------ agreement

def agree_cases(tier):
    for src in RAW:
        if 'size' not in src:
            yield {'src': src}


def agree_run(ctx, case):
    src = case['src']
    R = fresh(src)
    O = oracle(src)
    for k in RAW[src]:
        ctx.true(O[k][0] is not MISSING, '{}: key {} cannot be read'.format(src, k))
        alt = R.getAltName(k)
        if alt is not None:
            ctx.eq(R.getAltName(alt), k, '{}: other name of {}'.format(src, alt))
            ctx.eq(O[alt][0], O[k][0], '{}: {} by its name {}'.format(src, k, alt))
    ctx.true(R.bad == (src.endswith('bad')), src + ' flag')
    pairs = {'m': {'title': 'TI', 'authorsShort': 'AU', 'authorsFull': 'FAU', 'abstract': 'AB', 'journal': 'JT', 'j9': 'TA', 'keywords': 'OT', 'grants': 'GR'},
             's': {'title': 'Title', 'authorsShort': 'Authors', 'authorsFull': 'Authors', 'year': 'Year', 'volume': 'Volume', 'beginningPage': 'Page start', 'j9': 'Abbreviated Source Title', 'citations': 'References',
                   'journal': 'Source title', 'keywords': 'Index Keywords', 'abstract': 'Abstract'},
             'p': {'title': 'Title', 'keywords': 'Identifier / keyword', 'abstract': 'Abstract'}, 'w': {}}[src[0]]
    for long, tag in pairs.items():
        #an absent optional field may read as missing either way
        ctx.eq(O[long][0], oracle(src)[tag][0] if tag in O else getitem(fresh(src), tag), '{}: {} against {}'.format(src, long, tag))
    for bad in (3, None, ('AU',), b'AU'):
        for f in (lambda: fresh(src)[bad], lambda: fresh(src).get(bad)):
            ctx.raises((TypeError,), f, '{}: {!r} as key'.format(src, bad))
    for bad in (3, None, ('AU',), b'AU'):
        ctx.eq(bad in fresh(src), False, '{}: {!r} in record'.format(src, bad))
    for attr in (lambda: R.__setitem__('AU', 1), lambda: R.__delitem__('AU')):
        ctx.raises((AttributeError, TypeError), attr, src + ': write access')
    ctx.step()


# ------------------------------------------------------------------- equality

def entity(kind):
    """name -> (object, identity) ; equal identities must compare equal, others not"""
    w = lambda i, **k: WOSRecord(OD([('UT', [i])] + list(k.items())))
    out = [
        (w('WOS:1'), ('w', 'WOS:1')), (w('WOS:1', TI=['T']), ('w', 'WOS:1')), (w('WOS:2'), ('w', 'WOS:2')), (w('WOS:2', TI=['T']), ('w', 'WOS:2')), (w('PMID:1'), ('w', 'PMID:1')),
        (MedlineRecord(OD([('PMID', ['1'])])), ('m', '1')), (MedlineRecord(OD([('PMID', ['1']), ('TI', ['T'])])), ('m', '1')), (MedlineRecord(OD([('PMID', ['2'])])), ('m', '2')),
        (ScopusRecord(OD([('EID', '1')])), ('s', '1')), (ScopusRecord(OD([('EID', '1'), ('Title', 'T')])), ('s', '1')), (ScopusRecord(OD([('EID', '2')])), ('s', '2')),
        (ProQuestRecord(OD([('ProQuest document ID', ['1'])])), ('p', '1')), (ProQuestRecord(OD([('ProQuest document ID', ['1']), ('Title', ['T'])])), ('p', '1')), (ProQuestRecord(OD([('ProQuest document ID', ['2'])])), ('p', '2')),
        (MedlineGrant('R1/CA/NIH/US'), ('mg', 1)), (MedlineGrant('R1/CA/NIH/US'), ('mg', 1)), (MedlineGrant('R2/CA/NIH/US'), ('mg', 2)),
        (ScopusGrant('1, N, F'), ('sg', 1)), (ScopusGrant('1, N, F'), ('sg', 1)), (ScopusGrant('2, N, F'), ('sg', 2)),
        (NSERCGrant('o', {'Cle': '1'}, 'f', 1), ('ng', 1)), (NSERCGrant('p', {'Cle': '1', 'X': '2'}, 'g', 2), ('ng', 1)), (NSERCGrant('o', {'Cle': '2'}, 'f', 1), ('ng', 2)),
        (NSFGrant({'AwardID': '1'}, 'f.xml'), ('fg', 1)), (NSFGrant({'AwardID': '1', 'X': '2'}, 'g.xml'), ('fg', 1)), (NSFGrant({'AwardID': '2'}, 'f.xml'), ('fg', 2)),
        (FallbackGrant('o', {'a': '1'}, 'f', 1), ('bg', 1)), (FallbackGrant('o', {'a': '1'}, 'f', 1), ('bg', 1)), (FallbackGrant('o', {'a': '1'}, 'f', 2), ('bg', 2)), (FallbackGrant('p', {'a': '1'}, 'f', 1), ('bg', 3)),
        (CIHRGrant('o', {'PI Names': '1'}, 'f', 1), ('cg', 1)), (CIHRGrant('o', {'PI Names': '1'}, 'f', 1), ('cg', 1)), (CIHRGrant('o', {'PI Names': '1'}, 'f', 2), ('cg', 2)),
        (WOSRecord(OD([('TI', ['a'])])), ('wb', 'a')), (WOSRecord(OD([('TI', ['b'])])), ('wb', 'b')), (WOSRecord('PT J\nTI a'), ('wc', 1)),
        (MedlineRecord(OD([('TI', ['a'])])), ('mb', 'a')), (MedlineRecord(OD([('TI', ['b'])])), ('mb', 'b')),
        ('WOS:1', 'x'), (1, 'y'), (None, 'z'), ({'UT': ['WOS:1']}, 'd'),
    ]
    return out


N = len(entity(0))


def eq_cases(tier):
    for i in range(N):
        for j in range(N):
            yield {'i': i, 'j': j}


def eq_run(ctx, case):
    (a, ka), (b, kb) = entity(0)[case['i']], entity(0)[case['j']]
    what = '{!r} against {!r}'.format(a, b)
    same = ka == kb
    ctx.step()
    ctx.eq((a == b, b == a, a != b, b != a), (same, same, not same, not same), what)
    if same and not isinstance(a, (dict, str)):
        ctx.eq(hash(a), hash(b), what + ' hashes')
    if not isinstance(a, dict) and not isinstance(b, dict):
        ctx.eq((len({a, b}), a in {b}, a in [b]), (1 if same else 2, same, same), what + ' in sets')
        #reading does not change identity
        for x in (a, b):
            if isinstance(x, mk.Record):
                h = hash(x)
                for k in list(x) + ['title', 'year']:
                    x.get(k)
                ctx.eq(hash(x), h, what + ' hash after reading')
        ctx.eq(a == b, same, what + ' after reading')


# --------------------------------------------------------- grants are editable

def grant_objects():
    return [MedlineGrant('R1/CA/NIH/US'), ScopusGrant('1, N, F'), NSERCGrant('o', {'Cle': '1', 'A': 'x'}, 'f', 1), NSFGrant({'AwardID': '1', 'A': 'x'}, 'f.xml'), FallbackGrant('o', {'a': '1', 'A': 'x'}, 'f', 1), CIHRGrant('o', {'PI Names': '1', 'A': 'x'}, 'f', 1)]


GOPS = [('set', 'A', '1'), ('set', 'A', '2'), ('set', 'B', '3'), ('del', 'A'), ('del', 'B'), ('pop', 'A'), ('setdefault', 'A', '9'), ('copy',), ('pickle',), ('setbad', 3), ('clear',), ('get', 'A'), ('in', 'B')]


def gop_cases(tier):
    for g in range(6):
        for n in range(1, 4 if tier == 'quick' else 5):
            for ops in itertools.product(range(len(GOPS)), repeat=n):
                yield {'grant': g, 'ops': list(ops)}


def gop_run(ctx, case):
    G = grant_objects()[case['grant']]
    model = dict(G.items())
    h, kept = hash(G), []
    for n in case['ops']:
        op = GOPS[n]
        what = '{} {} at {}'.format(type(G).__name__, [GOPS[x] for x in case['ops']], op)
        ctx.step()
        if op[0] == 'set':
            G[op[1]] = op[2]
            model[op[1]] = op[2]
        elif op[0] in ('del', 'pop'):
            if op[1] in model:
                if op[0] == 'del':
                    del G[op[1]]
                    del model[op[1]]
                else:
                    ctx.eq(G.pop(op[1]), model.pop(op[1]), what)
            else:
                ctx.raises((KeyError,), (lambda: G.__delitem__(op[1])) if op[0] == 'del' else (lambda: G.pop(op[1])), what)
        elif op[0] == 'setdefault':
            ctx.eq(G.setdefault(op[1], op[2]), model.setdefault(op[1], op[2]), what)
        elif op[0] in ('copy', 'pickle'):
            kept.append((G, dict(model)))
            G = G.copy() if op[0] == 'copy' else pickle.loads(pickle.dumps(G))
        elif op[0] == 'setbad':
            ctx.raises((KeyError, TypeError), lambda: G.__setitem__(op[1], 'x'), what)
        elif op[0] == 'clear':
            G.clear()
            model.clear()
        elif op[0] == 'get':
            ctx.eq((G.get(op[1]), G.get(op[1], 5)), (model.get(op[1]), model.get(op[1], 5)), what)
        else:
            ctx.eq(op[1] in G, op[1] in model, what)
        ctx.eq((dict(G.items()), sorted(G), len(G), hash(G)), (model, sorted(model), len(model), h), what)
    for K, m in kept:
        ctx.eq(dict(K.items()), m, '{} {}: the grant a copy was made of'.format(type(G).__name__, [GOPS[x] for x in case['ops']]))
    ctx.state((case['grant'], sorted(model.items())))


# ----------------------------------------------------------------------- sizes

def size_cases(tier):
    for n in sizes(1025 if tier == 'thorough' else 257):
        for src in 'wmsp':
            yield [src, n]


def size_run(ctx, case):
    src, n = case
    name = '{}size{}'.format(src, n)
    L = [word(i * 7919 % (n + 3)) for i in range(n)]
    like = RAW[{'w': 'wosmany', 'm': 'medmany', 's': 'scopmany', 'p': 'proqmany'}[src]]
    F = OD()
    for k, v in like.items():
        if isinstance(v, list):
            F[k] = v if len(v) == 1 else [v[0].replace('Roe', x) for x in L] if len(v) == len(MANY) else [v[0].replace('Roe', x) for x in L[:-1]] + [v[1]]
        else:
            sep = ', ' if k == 'Authors' else '; '
            F[k] = sep.join(v.split(sep)[0].replace('Roe', x) for x in L) if k != 'EID' else v
    RAW[name] = F
    ks = [k for k in keys(name)]
    for k in ks:
        for a, c in itertools.product(('item', 'get', 'in', 'raw', 'sub'), repeat=2):
            R = fresh(name)
            R = access(ctx, name, R, a, k, '{} of {}: {}'.format(k, name, a))
            R = access(ctx, name, R, c, k, '{} of {}: {} then {}'.format(k, name, a, c))
            ctx.step(2)
            unchanged(ctx, name, R, '{} of {}: {} then {}'.format(k, name, a, c))
    # the number and the order of values are those of the field
    R = fresh(name)
    for k, v in F.items():
        if k in ('AU', 'AF', 'ED', 'XX', 'FAU', 'OT', 'MH', 'Whatever'):
            ctx.eq(show(R[k]), ('list', [show(x) for x in v]), '{} values of {}'.format(k, name))
        elif k == 'CR':
            ctx.eq([str(c) for c in R[k]], v, '{} values of {}'.format(k, name))
    for o in WHOLE:
        R = access(ctx, name, R, o, '', '{} of {}'.format(o, name))
        unchanged(ctx, name, R, '{} of {}'.format(o, name))
    for S in (R.copy(), copy.deepcopy(R), pickle.loads(pickle.dumps(R))):
        for k in ks:
            ctx.eq(getitem(S, k), oracle(name)[k][0], '{} of a copy of {}'.format(k, name))
    ctx.state((src, n))
    del RAW[name], ORACLE[name]


SCENARIOS = [
    Scenario('pairs', seq_cases, seq_run, 'all ordered pairs of accesses: 7 ways of reading each of ~45 keys and 14 whole-record operations, on 22 records of 4 sources (fields with nothing in them, and fields of 10 values among them), then the first key again'),
    Scenario('triples', deep_cases, deep_run, 'all sequences of 3 reads over 10-12 keys with interleaved copies and raw reads (all combinations in thorough)'),
    Scenario('size', size_cases, size_run, 'records of the 4 sources with fields of n values, n around 4, 5, 8, 10, 16, ... up to 257 (thorough 1025), every pair of ways to read one after the other', timeout=120),
    Scenario('agree', agree_cases, agree_run, 'names, keys and types of 14 records'),
    Scenario('equality', eq_cases, eq_run, 'all ordered pairs of 41 records, grants and other values'),
    Scenario('grants', gop_cases, gop_run, 'all sequences of up to 3 (4) of 13 operations on 6 kinds of grants'),
]
