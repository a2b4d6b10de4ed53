"""C33: glimpse() shows the true top of every ranking, inside the terminal."""
import collections
import itertools
import os
import re
from collections import Counter
import metaknowledge as mk
from mc import build as b
from mc.core import Scenario
from mc.sizes import sizes as some, word

LONG = 'a rather long title that has to be shortened to fit into any column of a table, number '
#(authors, title, journal, citations, year) of the records of the alphabet
MENU = [
    {},
    {'AU': ['Ab, C'], 'AF': ['Abe, Carl'], 'TI': LONG + '1', 'SO': 'J ONE', 'CR': ['X Y, 1990, J'], 'PY': '2000'},
    {'AU': ['Ab, C', 'De, F'], 'AF': ['Abe, Carl', 'Dee, Fay'], 'TI': LONG + '2', 'SO': 'J ONE', 'CR': ['X Y, 1990, J', 'Z Z, 1991, K'], 'PY': '2000'},
    {'AU': ['\u00c9a, G'] * 2, 'AF': ['\u00c9a, Gus'], 'TI': 'Short', 'SO': 'A VERY LONG JOURNAL NAME THAT GOES ON AND ON, AND ON AGAIN AND AGAIN', 'PY': '1999'},
    {'AU': [n + ', X' for n in 'ABCDEFGHIJ'], 'AF': [n + 'name, Xavier Xerxes' for n in 'ABCDEFGHIJ'], 'CR': ['%s %s, 19%d0, JOURNAL OF LONG NAMES AND OTHER THINGS' % (n, n, i) for i, n in enumerate('ABCDEFGHI')], 'TI': 'T', 'PY': '2001'},
]
TAGS = ['AU', 'authorsFull', 'TI', 'journal', 'CR', 'year', 'nothing']
DEFAULT = ['authorsFull', 'journal', 'citations']
RAW = {'AU': 'AU', 'authorsFull': 'AF', 'TI': 'TI', 'journal': 'SO', 'CR': 'CR', 'citations': 'CR', 'year': 'PY', 'AF': 'AF', 'SO': 'SO'}
MANY = ['AF', 'SO', 'SE']
TITLES = {'authorsFull': 'Top Authors', 'journal': 'Top Journals', 'citations': 'Top Cited'}


def colls():
    for n in range(0, 4):
        for c in itertools.combinations_with_replacement(range(len(MENU)), n):
            yield list(c)
    yield [1] * 12 + [2] * 5 + [3] * 2 + [4]
    yield [4] * 11 + [1]


def sizes(tier):
    yield None
    for w in (55, 56, 57, 58, 71, 72, 80, 101, 240):
        for h in (6, 7, 8, 9, 24, 60):
            yield (w, h)
    for s in ((54, 24), (1, 1), (80, 5), (80, 0), (0, 24), (200, 3)):
        yield s


def tagsets(tier):
    yield []
    for n in (1, 2, 3):
        for t in itertools.permutations(TAGS if tier == 'thorough' else ['AU', 'TI', 'CR', 'nothing'], n):
            yield list(t)
    yield list(TAGS)
    for n in range(1, len(MANY) + 1):
        yield TAGS + MANY[:n]


def cases(tier):
    few = [[], [1, 2], [1, 2, 3, 4], [1] * 12 + [2] * 5 + [3] * 2 + [4]]
    for c in (few if tier == 'quick' else list(colls())):
        for s in sizes(tier):
            if tier == 'thorough' and c not in few and s not in (None, (55, 6), (57, 8), (72, 24), (101, 9)):
                continue
            yield {'recs': c, 'size': s}
    if tier == 'quick':
        for c in colls():
            for s in (None, (57, 9)):
                yield {'recs': c, 'size': s}


def want_ranks(ms, tag):
    """value -> rank (1 = most frequent; equal counts share a rank, no rank is left out)"""
    if tag not in RAW:
        return {}
    C = Counter()
    for m in ms:
        v = m.get(RAW[tag], [])
        for x in [v] if isinstance(v, str) else v:
            C[x] += 1
    levels = sorted(set(C.values()), reverse=True)
    return {x: levels.index(n) + 1 for x, n in C.items()}


def match(ctx, shown, room, ranks, what):
    """shown: [(rank, text)] in order.  The rows have to be the top of the ranking."""
    full = sorted(ranks.values())
    n = min(len(full), room)
    real = [(r, t) for r, t in shown if r != -1]
    ctx.eq([r for r, t in real], full[:n], what + ': ranks shown')
    left = collections.defaultdict(list)
    for v, r in ranks.items():
        left[r].append(str(v))
    #each shown text belongs to a different value of that rank; whole values first
    for r, t in sorted(real, key=lambda x: (x[1].endswith('.') or x[1].endswith('\u2026'), x[1])):
        got = [v for v in left[r] if v == t] or [v for v in left[r] if t.endswith('.') and v.startswith(t[:-1])] or [v for v in left[r] if v.startswith(t)]
        ctx.true(got, what + ': {!r} is not a value of rank {} ({})'.format(t, r, left[r]))
        left[r].remove(got[0])


def run(ctx, case):
    shown(ctx, case, [MENU[i] for i in case['recs']], tagsets(ctx.tier))


def size_cases(tier):
    for n in some(1025 if tier == 'thorough' else 301):
        for s in ((80, 24), (200, 60)) + (((2000, n + 40), (56, n + 7)) if n < 600 else ()):
            for shape in ('values', 'same', 'long', 'counts', 'wide'):
                yield {'recs': [shape, n], 'size': s}


def sized(ctx, case):
    """n records, n different authors of one, a value of n characters, n values of different counts"""
    shape, n = case['recs']
    if shape == 'values':
        ms = [{'AU': [word(i) + ', A' for i in range(n)], 'AF': [word(i) + ', Ann' for i in range(n)], 'CR': [word(i) + ' A, 1990, J' for i in range(n)], 'TI': 'T'}, {'AU': [word(n // 2) + ', A'], 'AF': [word(n - 1) + ', Ann'], 'SO': 'J'}]
    elif shape == 'same':
        ms = [{'AF': ['Same, Ann'], 'SO': 'J %d' % (i % 3), 'TI': 'T %d' % i, 'PY': str(1000 + i % 7)} for i in range(n)]
    elif shape == 'long':
        ms = [{'TI': 'x' * n, 'SO': 'Y ' * (n // 2) + 'Z', 'AF': ['w' * n + ', A', 'v' * (n - 1) + ', B']}, {'TI': 'x' * n}, {'TI': 'short'}]
    elif shape == 'wide':
        ms = [{'AF': [word(j) + ', ' + 'A' * (n % 7 * 30 + 40) for j in range(min(i, 40))], 'TI': 'x ' * (i % 50)} for i in range(n)]
    else:
        ms = [{'AF': [word(j) + ', A' for j in range(min(i, 40))], 'SO': 'J %d' % (i * i % 11)} for i in range(n)]
    shown(ctx, case, ms, [[], ['TI'], ['authorsFull', 'year'], ['AU', 'CR', 'journal']])


def shown(ctx, case, ms, tagsets):
    RC = b.rc([b.wos(n, **{k: v if isinstance(v, list) else [v] for k, v in m.items()}) for n, m in enumerate(ms)], name='a name')
    before = sorted((R.id, repr(list(R.items(raw=True)))) for R in RC)
    ranksof = {t: want_ranks(ms, t) for t in TAGS + MANY + DEFAULT}
    old = {k: os.environ.get(k) for k in ('COLUMNS', 'LINES')}
    size = case['size']
    try:
        for k, v in zip(('COLUMNS', 'LINES'), size or (None, None)):
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = str(v)
        W, H = (size[0] or 80, size[1] or 24) if size else (80, 24)
        W = W if W >= 55 else 80
        H = H if H >= 7 else 24
        for tags in tagsets:
            for compact in (False, True):
                what = 'glimpse(*{}, compact={}) of {} in a terminal of {}'.format(tags, compact, case['recs'], size)
                text = RC.glimpse(*tags, compact=compact)
                ctx.step()
                one(ctx, text, tags or DEFAULT, not tags, compact, W, H, len(ms), ranksof, what)
                ctx.state((re.sub('[0-9]{4}-.*:[0-9]+', 'NOW', text)))
        ctx.eq(sorted((R.id, repr(list(R.items(raw=True)))) for R in RC), before, '{}: records changed by glimpse'.format(case))
        ctx.eq(RC.name, 'a name', '{}: name changed by glimpse'.format(case))
    finally:
        for k, v in old.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v


def one(ctx, text, tags, default, compact, W, H, n, ranksof, what):
    L = text.split('\n')
    titles = [TITLES[t] if default else t for t in tags]
    fits = not compact or max(map(len, titles)) <= W // len(titles) - 2
    ctx.true(not fits or all(len(l) <= W for l in L), what + ': a line is wider than {}: {!r}'.format(W, max(L, key=len)))
    ctx.true('RecordCollection' in L[0] and 'glimpse' in L[0], what + ': first line {!r}'.format(L[0]))
    ctx.true(re.search(r'(?<![0-9]){} Records from a name'.format(n), L[1]), what + ': second line {!r} for {} records'.format(L[1], n))
    if compact:
        ctx.true(not fits or all(len(l) == W for l in L), what + ': the lines are not all of the width {}: {}'.format(W, [len(l) for l in L]))
        ctx.true(H - 3 <= len(L) <= H, what + ': {} lines in a terminal of {}'.format(len(L), H))
        heads = [i for i, l in enumerate(L) if all(t in l for t in titles) and '-' in l]
        ctx.true(heads, what + ': no heading')
        h = L[heads[0]]
        ctx.eq([c.strip('-') for c in h[1:-1].split('+')], titles, what + ': heading')
        cuts = [0] + [i for i, c in enumerate(h) if c == '+'] + [len(h) - 1]
        rows = L[heads[0] + 1:]
        ctx.eq(len(L) - len(rows) <= 5, True, what + ': header lines')
        for r in rows:
            ctx.true(all(r[c] == '|' for c in cuts), what + ': columns of {!r} are not those of {!r}'.format(r, h))
        for k, t in enumerate(tags):
            cells = [r[cuts[k] + 1:cuts[k + 1]] for r in rows]
            shown = []
            for c in cells:
                m = re.match(r'(-1|[0-9]+) *(.*)$', c)
                ctx.true(m, what + ': cell {!r}'.format(c))
                shown.append((int(c[:2]), c[2:].strip()))
            shown = [(r, str(x)) for r, x in shown]
            match(ctx, shown, len(rows), ranksof[t], what + ' column ' + t)
            ctx.true(all(r == -1 and x == 'NA' for r, x in shown[len(ranksof[t]):]), what + ': {} has rows after its end: {}'.format(t, shown))
    else:
        body = L[2:]
        blocks, cur = [], None
        for l in body:
            if l == '':
                cur = []
                blocks.append(cur)
            elif cur is not None:
                cur.append(l)
        ctx.eq([x[0] for x in blocks], titles, what + ': headings')
        lens = []
        for t, x in zip(tags, blocks):
            shown = []
            for l in x[1:]:
                m = re.match('([0-9]+) (.*)$', l)
                ctx.true(m, what + ': line {!r}'.format(l))
                shown.append((int(m.group(1)), m.group(2)))
                if m.group(2) not in map(str, ranksof[t]):
                    ctx.true(len(l) >= W - 2, what + ': {!r} was shortened although it fits'.format(l))
            lens.append((len(shown), len(ranksof[t])))
            match(ctx, shown, max(len(shown), 0 if len(x) == 1 and H < 9 else 1), ranksof[t], what + ' ' + t)
        #a list is only shorter than its ranking when it is as long as any
        longest = max(a for a, c in lens)
        ctx.true(H < 9 or all(a for a, c in lens if c), what + ': rows shown and rankings {}'.format(lens))
        for a, c in lens:
            ctx.true(a == min(c, longest) or a == c, what + ': rows shown and rankings {}'.format(lens))


SCENARIOS = [Scenario('tables', cases, run, {
    'quick': 'tables of up to 3 (and 20) records of 5 kinds x terminal sizes at and around every limit (61 sizes) x all orders of up to 3 of 4 tags, the default and 7 to 10 tags x both styles',
    'thorough': 'all 58 collections, all orders of up to 3 of 7 tags'}, timeout=120),
    Scenario('size', size_cases, sized, 'n records, n values of a record, values of n characters, n different counts (of short and long values) x up to 4 terminals, some of more than n lines; n around 4, 5, 8, 10, 16, ... up to 301 (thorough 1025)', timeout=240)]
