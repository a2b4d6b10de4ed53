"""C07: citation strings: parse of every combination of parts, junk strings, and all pairs for equality."""
import itertools
import metaknowledge as mk
from metaknowledge import Citation
from mc.core import Scenario

AUTHORS = [None, 'SMITH J', 'Smith J.', 'DE LA CRUZ-M A', '[ANONYMOUS]', "O'NEIL B", 'XU', 'ST.JOHN-A. B.C.']
YEARS = [None, '1999', '5', '20010', '-50', '0']
JOURNALS = [None, 'NATURE', 'J SOC. SCI', 'VISION RES', 'PROC R SOC', 'Lect Notes', 'DOI', 'A&B (C)', '3 BIOTECH', 'IV4 ACTA P85']
VOLUMES = [None, 'V4', 'V', 'V12A']
PAGES = [None, 'P85', 'PE1-E5', 'P']
DOIS = [None, '10.1080/135467998387343', '10.1000/ab(c)<d>;2-x', '[10.1/a, 10.2/b]']


def cases(tier):
    for a, y, j in itertools.product(AUTHORS, YEARS, JOURNALS):
        if j and not (a or y):
            continue
        if a is None and (y is None or y[0] == '-'):
            continue
        if j == '3 BIOTECH' and y is None:
            continue
        yield [a, y, j]


def text(a, y, j, v, p, d):
    parts = [x for x in (a, y, j, v, p) if x is not None]
    if d is not None:
        parts.append('DOI ' + d)
    return ', '.join(parts)


def run(ctx, case):
    a, y, j = case
    for v, p, d in itertools.product(VOLUMES, PAGES, DOIS):
        if j is None and (v or p or d):
            continue
        if (v == 'V' or p == 'P'):
            continue
        s = text(a, y, j, v, p, d)
        c = Citation(s)
        ctx.step()
        wa = a and a.upper().replace('.', '').title()
        wj = j and j.upper()
        up = lambda x: x and x.upper()
        want = (wa, y and int(y), wj, up(v), up(p), up(d), None)
        got = (c.author, c.year, c.journal, c.V, c.P, c.DOI, c.misc)
        ctx.eq(got, want, 'parts of {!r}'.format(s))
        full = bool(a and y and j)
        ctx.eq(c.bad, not full, 'bad flag of {!r}'.format(s))
        ctx.eq(isinstance(c.error, mk.BadCitation), not full, 'error of {!r}'.format(s))
        ident = ', '.join(str(x) for x in (wa, want[1], wj) if x is not None)
        ctx.eq(c.ID(), ident, 'ID of {!r}'.format(s))
        ctx.eq(str(c), s, 'str')
        ctx.eq(c.original, s, 'original')
        ctx.eq(c.allButDOI(), ', '.join(x for x in (ident, up(v), up(p)) if x), 'allButDOI of {!r}'.format(s))
        ctx.eq(c.Extra(), ', '.join(x for x in (up(v), up(p), up(d)) if x), 'Extra of {!r}'.format(s))
        ctx.eq(c.isAnonymous(), a == '[ANONYMOUS]', 'isAnonymous of {!r}'.format(s))
        ctx.true(s in repr(c), 'repr of {!r}'.format(s))
        # same string in other letter cases is the same citation
        for t in (s.lower(), s.upper(), s):
            o = Citation(t)
            ctx.true(o == c and c == o and hash(o) == hash(c) and not (o != c), '{!r} and {!r} are the same citation'.format(s, t))
        # unrecognised parts at the end: flagged, kept, the rest still parsed
        if j is not None:
            for tail in ('UNPUB', 'ARTN 77', '[]', 'SUPPL 1, 22', 'NO 2,', 'A ,B,  '):
                t = text(a, y, j, v, p, None) + ', ' + tail + (', DOI ' + d if d else '')
                if tail == '[]' and d and d[0] == '[':
                    continue
                o = Citation(t)
                ctx.step()
                ctx.eq((o.author, o.year, o.journal, o.V, o.P, o.misc, o.DOI, o.bad),
                       (wa, want[1], wj, up(v), up(p), tail, up(d), True), 'parts of {!r}'.format(t))
                ctx.eq(o.ID(), ident, 'ID of {!r}'.format(t))
                ctx.eq(o.Extra(), ', '.join(x for x in (up(v), up(p), up(d), tail) if x), 'Extra of {!r}'.format(t))
                ctx.eq(o.allButDOI(), ', '.join(x for x in (ident, up(v), up(p), tail) if x), 'allButDOI of {!r}'.format(t))
    ctx.state(case)


# ----------------------------------------------------------------- junk input
ALPHA = [',', ', ', 'A', '7', '(', ')', '.', ' ', 'V', '\n', 'P', '\u00e9', 'DOI ']


def junk_cases(tier):
    n = 4 if tier == 'quick' else 5
    for k in range(0, 3):
        for t in itertools.product(range(len(ALPHA)), repeat=k):
            if k < 2:
                yield [list(t), 0]
            else:
                yield [list(t), n - 2]


def junk(ctx, case):
    head, more = case
    h = ''.join(ALPHA[i] for i in head)
    for k in range(more + 1):
        for t in itertools.product(ALPHA, repeat=k):
            s = h + ''.join(t)
            ctx.step()
            for scopus in (False, True):
                c = Citation(s, scopusMode=scopus)
                ctx.true(isinstance(c.ID(), str) and isinstance(c.Extra(), str) and isinstance(c.allButDOI(), str), 'accessors of {!r}'.format(s))
                c.isAnonymous()
                ctx.eq(str(c), s, 'str of {!r}'.format(s))
                complete = bool(getattr(c, 'author', None) is not None and getattr(c, 'year', None) is not None and getattr(c, 'journal', None) is not None)
                if not complete:
                    ctx.true(c.bad and c.error is not None, '{!r} is incomplete but not bad'.format(s))
                else:
                    ctx.eq(c.bad, c.error is not None, 'bad/error of {!r}'.format(s))
                if not c.bad:
                    for x in ('author', 'journal'):
                        ctx.true(getattr(c, x).lower() in s.lower().replace('.', '') or getattr(c, x).lower() in s.lower(), '{} of {!r}: {!r}'.format(x, s, getattr(c, x)))
                o = Citation(s, scopusMode=scopus)
                ctx.true(o == c and hash(o) == hash(c), 'equal strings {!r}'.format(s))
    ctx.state(case)


# --------------------------------------------------------------- Scopus style
S_AUTHORS = ['Smith, J.', 'Van Den-Berg A.-B.', 'Li X.']
S_EXTRA = [None, 'Doe, K.', 'Doe, K., Roe, L.M.']
S_TITLE = [None, 'A title of it', 'One, two']
S_JOURNAL = ['Nature', 'J. Soc. Sci.', 'Law & Order']
S_VOL = [None, '12', 'A-1']
S_ISSUE = [None, '3', 'S1-2']
S_PAGE = [None, 'pp. 1-5', 'p. 7']


def scopus_cases(tier):
    for c in itertools.product(S_AUTHORS, S_EXTRA, S_TITLE):
        yield list(c)
    for s in ('No year here, J.', '', 'Smith, J. Title only', '(2001) Nature', 'Smith, J., Title (2001)', 'Smith, J., Title (20X1) Nature'):
        yield [s]


def scopus(ctx, case):
    if len(case) == 1:
        c = Citation(case[0], scopusMode=True)
        ctx.step()
        ctx.eq((c.bad, c.ID(), str(c), c.Extra(), c.allButDOI(), c.isAnonymous()), (True, case[0], case[0], '', case[0], True), 'non journal citation')
        ctx.true(c.error is not None, 'error recorded')
        return
    a, x, t = case
    for j, v, i, p, yr in itertools.product(S_JOURNAL, S_VOL, S_ISSUE, S_PAGE, ('2001', '1899')):
        if i and not v:
            continue
        s = a + ', ' + (x + ', ' if x else '') + (t + ' ' if t else '') + '(' + yr + ') ' + j + (', ' + v if v else '') + (' (' + i + ')' if i else '') + (', ' + p if p else '')
        c = Citation(s, scopusMode=True)
        ctx.step()
        U = lambda z: z and z.upper()
        page = p and p.split(' ')[1]
        want = (U(a), (x.upper() + ', ') if x else None, (t.upper() + ' ') if t else None, int(yr), U(j), U(v), U(i), U(page), '')
        got = (c.author, c.extraAuthors, c.name, c.year, c.journal, c.V, c.issue, c.P, c.misc)
        ctx.eq(got, want, 'parts of {!r}'.format(s))
        ident = '{}, {}, {}'.format(U(a), yr, U(j))
        ctx.eq((c.bad, c.error, c.ID(), str(c)), (False, None, ident, s), 'identity of {!r}'.format(s))
        ctx.eq(c.Extra(), ', '.join(z for z in (U(v), U(page)) if z), 'Extra of {!r}'.format(s))
        ctx.eq(c.allButDOI(), ', '.join(z for z in (ident, want[1], U(v), U(i), U(page)) if z), 'allButDOI of {!r}'.format(s))
        ctx.eq(c.isAnonymous(), False, 'isAnonymous')
    ctx.state(case)


# ------------------------------------------------------------------ all pairs
def pool():
    out = []
    for a, y, j in itertools.product([None, 'SMITH J', 'Smith J.', 'ROE K'], [None, '1999', '2000'], [None, 'NATURE', 'Nature', 'SCIENCE']):
        if not (a or y):
            continue
        for v, p, d in ((None, None, None), ('V1', 'P2', None), ('V2', 'P2', '10.1/A'), (None, None, '10.1/A')):
            if j is None and (v or d):
                continue
            out.append((text(a, y, j, v, p, d), False))
    out += [('junk', False), ('', False), ('Smith, J., T (2001) Nature', True), ('Smith, J., T (2001) Nature, 1, p. 5', True),
            ('Smith, J., T (2002) Nature', True), ('not a citation', True), ('other', True)]
    return out


POOL = pool()


def pair_cases(tier):
    for i in range(len(POOL)):
        yield [i]


def key_of(c, s, scop):
    if scop:
        if hasattr(c, 'author'):
            return (c.author, c.year, c.journal)
        return s
    return tuple(x for x in (c.author, c.year, c.journal) if x is not None)


def pairs(ctx, case):
    s, scop = POOL[case[0]]
    c = Citation(s, scopusMode=scop)
    for t, sc in POOL:
        o = Citation(t, scopusMode=sc)
        ctx.step()
        same = c.ID() == o.ID()
        if scop == sc:
            ctx.eq(same, key_of(c, s, scop) == key_of(o, t, sc), 'ID equality of {!r} and {!r}'.format(s, t))
        ctx.eq((c == o, o == c, c != o, hash(c) == hash(o), len({c, o})), (same, same, not same, same, 1 if same else 2), '{!r} against {!r}'.format(s, t))
        ctx.eq(o in [c], same, 'list membership')
    for other in (s, 5, None):
        ctx.true(not (c == other), '{!r} equals a non citation'.format(s))
    # the interpreter wide shortcut mode only changes how citations print
    old = mk.FAST_CITES
    try:
        mk.FAST_CITES = True
        f = Citation(s, scopusMode=scop)
        ctx.eq((f.ID(), f == c, hash(f) == hash(c), str(f), f.bad, f.Extra(), f.allButDOI()), (c.ID(), True, True, c.ID(), c.bad, c.Extra(), c.allButDOI()), 'fast mode of {!r}'.format(s))
        repr(f)
    finally:
        mk.FAST_CITES = old
    ctx.state(case)


SCENARIOS = [
    Scenario('wos', cases, run, '7 authors x 4 years x 9 journals x 3 volumes x 3 pages x 4 DOIs x 4 unrecognised tails, present or absent'),
    Scenario('junk', junk_cases, junk, 'all strings of up to 4 (5) pieces of a 13 piece alphabet, in both modes'),
    Scenario('scopus', scopus_cases, scopus, '3 authors x 3 further authors x 3 titles x 3 journals x 3 volumes x 3 issues x 3 pages x 2 years'),
    Scenario('pairs', pair_cases, pairs, 'all ordered pairs of {} citations'.format(len(POOL))),
]
