"""C01: collections are sets of records under every operation history.

Model: registers A, B, Z of frozensets of record labels.  Labels 1, 1b are two
distinct record objects with the same ID (one element); 2, 3 are different
records.  Every operation history is replayed on real RecordCollection /
GrantCollection objects and all registers are compared after every step."""
import itertools
import contextlib
import collections
from mc.core import Scenario, Violation, histories, explore
from mc import build as b
from mc.sizes import sizes
import metaknowledge as mk

REGS = ('A', 'B', 'Z')
LABELS = ('1', '1b', '2', '3')


def elem(l):
    return l[0]


def make(kind):
    if kind == 'rec':
        R = {l: b.wos(elem(l), TI=['Title ' + l]) for l in LABELS}
        R['2'].bad = True       # a record that could not be read to its end has its ID all the same
        ids = {l: R[l].id for l in LABELS}
    else:
        R = {l: mk.MedlineGrant('N{}/AG/Agency{}/Country'.format(elem(l), '')) for l in LABELS}
        ids = {l: R[l].id for l in LABELS}
    return R, ids


def coll(kind, recs, name):
    return (mk.RecordCollection if kind == 'rec' else mk.GrantCollection)(recs, name=name)


BIN = {'or': lambda a, c: a | c, 'and': lambda a, c: a & c, 'sub': lambda a, c: a - c, 'xor': lambda a, c: a ^ c}
IBIN = ('ior', 'iand', 'isub', 'ixor')


def ibin(x, op, y):
    if op == 'ior':
        x |= y
    elif op == 'iand':
        x &= y
    elif op == 'isub':
        x -= y
    else:
        x ^= y
    return x


def model_apply(st, op):
    """st: dict-like tuple (A, B, Z) of frozensets of element names."""
    s = dict(zip(REGS, st))
    k = op[0]
    if k in BIN:
        s[op[3]] = BIN[k](s[op[1]], s[op[2]])
    elif k in IBIN:
        s[op[1]] = BIN[k[1:]](s[op[1]], s[op[2]])
    elif k == 'plus':
        s[op[3]] = s[op[1]] | s[op[2]]
    elif k == 'copy' or k == 'iter':
        s[op[2]] = s[op[1]]
    elif k == 'add':
        s[op[1]] = s[op[1]] | {elem(op[2])}
    elif k in ('discard', 'remove', 'discardID', 'removeID'):
        s[op[1]] = s[op[1]] - {elem(op[2])}
    elif k == 'clear':
        s[op[1]] = frozenset()
    elif k == 'addbad':
        pass
    elif k in ('pop', 'chunk', 'split'):
        return None      # result depends on iteration order; resolved during replay
    return tuple(s[r] for r in REGS)


def check_reg(ctx, x, want, R, ids, what):
    got = sorted(r.id for r in x)
    ctx.eq(got, sorted({ids[l] for l in LABELS if elem(l) in want}), what + ' contents')
    ctx.eq(len(x), len(want), what + ' len')
    ctx.eq(bool(len(x)), bool(want), what + ' truth')
    for l in LABELS:
        ctx.eq(R[l] in x, elem(l) in want, what + ' contains ' + l)
        ctx.eq(x.containsID(ids[l]), elem(l) in want, what + ' containsID ' + l)
        g = x.getID(ids[l])
        ctx.eq(None if g is None else g.id, ids[l] if elem(l) in want else None, what + ' getID ' + l)
    p = x.peek()
    if want:
        ctx.true(p is not None and p in x, what + ' peek not in collection')
    else:
        ctx.true(p is None, what + ' peek of empty')
    ctx.eq(x.containsID('absent'), False, what + ' containsID absent')
    ctx.true(x.getID('absent') is None, what + ' getID absent')


def check_all(ctx, S, M, R, ids, what):
    for r in REGS:
        check_reg(ctx, S[r], M[r], R, ids, '{} register {}'.format(what, r))
    for r, q in itertools.product(REGS, REGS):
        ctx.eq(S[r] == S[q], M[r] == M[q], what + ' equality {} {}'.format(r, q))
        ctx.eq(S[r] != S[q], M[r] != M[q], what + ' inequality {} {}'.format(r, q))
        if M[r] == M[q]:
            ctx.eq(hash(S[r]), hash(S[q]), what + ' hash {} {}'.format(r, q))
        ctx.eq(S[r] <= S[q], len(M[r]) <= len(M[q]), what + ' <= {} {}'.format(r, q))
        ctx.eq(S[r] >= S[q], len(M[r]) >= len(M[q]), what + ' >= {} {}'.format(r, q))
        ctx.eq(S[r] < S[q], len(M[r]) < len(M[q]), what + ' < {} {}'.format(r, q))
        ctx.eq(S[r] > S[q], len(M[r]) > len(M[q]), what + ' > {} {}'.format(r, q))
    for r, q in itertools.combinations(REGS, 2):
        ctx.eq(S[r].isdisjoint(S[q]), not (M[r] & M[q]), what + ' isdisjoint')


def replay(ctx, kind, start, hist):
    R, ids = make(kind)
    S, M = {}, {}
    for r, labs in zip(REGS, start):
        S[r] = coll(kind, [R[l] for l in labs], r)
        M[r] = frozenset(elem(l) for l in labs)
    check_all(ctx, S, M, R, ids, 'start')
    extra = []
    for n, op in enumerate(hist):
        op = tuple(op)
        k = op[0]
        what = 'step {} {}'.format(n, op)
        ctx.step()
        if k in BIN:
            S[op[3]] = BIN[k](S[op[1]], S[op[2]])
        elif k == 'plus':
            S[op[3]] = S[op[1]] + S[op[2]]
        elif k in IBIN:
            same = S[op[1]]
            S[op[1]] = ibin(S[op[1]], k, S[op[2]])
            if kind == 'rec':
                ctx.true(S[op[1]] is same, what + ' in-place operator made a new object')
        elif k == 'copy':
            S[op[2]] = S[op[1]].copy()
        elif k == 'iter':
            S[op[2]] = coll(kind, iter(list(S[op[1]])) if op[3] == 'iter' else (S[op[1]] if op[3] == 'coll' else tuple(S[op[1]])), op[2])
        elif k == 'add':
            S[op[1]].add(R[op[2]])
        elif k == 'discard':
            S[op[1]].discard(R[op[2]])
        elif k == 'discardID':
            S[op[1]].discardID(ids[op[2]])
        elif k == 'remove':
            if elem(op[2]) in M[op[1]]:
                S[op[1]].remove(R[op[2]])
            else:
                ctx.raises(KeyError, lambda: S[op[1]].remove(R[op[2]]), what)
        elif k == 'removeID':
            if elem(op[2]) in M[op[1]]:
                S[op[1]].removeID(ids[op[2]])
            else:
                ctx.raises(KeyError, lambda: S[op[1]].removeID(ids[op[2]]), what)
        elif k == 'clear':
            S[op[1]].clear()
        elif k == 'addbad':
            bads = [1, 'x', None]
            if kind == 'grant':
                bads.append(b.wos('9'))
            for v in bads:
                ctx.raises(mk.CollectionTypeError, lambda: S[op[1]].add(v), what)
        elif k == 'mixed':
            other = mk.GrantCollection([mk.MedlineGrant('N9/AG/Ag/C')]) if kind == 'rec' else b.rc([b.wos('9')])
            before = sorted(r.id for r in other)
            for f in BIN.values():      # a different kind of collection: whatever comes out, no operand changes
                with contextlib.suppress(Exception):
                    f(S[op[1]], other)
            for i in IBIN:
                with contextlib.suppress(Exception):
                    ibin(S[op[1]], i, other)
            ctx.eq(sorted(r.id for r in other), before, what + ' changed the other operand')
            ctx.eq(S[op[1]] == other, False, what)
            for o in (1, 'A', None):
                for f in BIN.values():
                    ctx.raises(TypeError, lambda: f(S[op[1]], o), what)
                for i in IBIN:
                    ctx.raises(TypeError, lambda: ibin(S[op[1]], i, o), what)
                ctx.raises(TypeError, lambda: S[op[1]] <= o, what)
                ctx.raises(TypeError, lambda: S[op[1]] >= o, what)
                ctx.eq(S[op[1]] == o, False, what)
        elif k == 'pop':
            if M[op[1]]:
                r = S[op[1]].pop()
                lab = [l for l in LABELS if ids[l] == r.id]
                ctx.true(bool(lab) and elem(lab[0]) in M[op[1]], what + ' popped a foreign record')
                M[op[1]] = M[op[1]] - {elem(lab[0])}
            else:
                ctx.raises(KeyError, S[op[1]].pop, what)
        elif k in ('chunk', 'split'):
            size = op[2]
            parts = getattr(S[op[1]], k)(size)
            ctx.true(isinstance(parts, list), what + ' not a list')
            seen = []
            for i, c in enumerate(parts):
                ctx.true(type(c) is type(S[op[1]]), what + ' part type')
                ctx.true(1 <= len(c) <= size, what + ' part of size {}'.format(len(c)))
                seen.extend(r.id for r in c)
            want = sorted({ids[l] for l in LABELS if elem(l) in M[op[1]]})
            ctx.eq(sorted(seen), want, what + ' parts do not partition')
            need = -(-len(want) // size)
            ctx.eq(len(parts), need, what + ' number of parts')
            if k == 'split':
                M[op[1]] = frozenset()
            extra.append((parts, [sorted(r.id for r in c) for c in parts], what))
            if parts and len(op) > 3:
                S[op[3]] = parts[-1]
                M[op[3]] = frozenset(elem(l) for l in LABELS if R[l] in parts[-1])
                extra[-1] = (parts[:-1], extra[-1][1][:-1], what)
        if k not in ('pop', 'chunk', 'split', 'mixed', 'addbad'):
            M = dict(zip(REGS, model_apply(tuple(M[r] for r in REGS), op)))
        check_all(ctx, S, M, R, ids, what)
        for parts, want, w in extra:
            ctx.eq([sorted(r.id for r in c) for c in parts], want, what + ' changed the parts of ' + w)
    ctx.state((kind, [sorted(M[r]) for r in REGS], [op[0] for op in hist[-2:]]))


def run(ctx, case):
    replay(ctx, case['kind'], case['start'], case['hist'])


SUB = [()] + [c for n in (1, 2, 3) for c in itertools.combinations(('1', '2', '3'), n)]
SUB2 = [(), ('1',), ('2',), ('1', '2')]
SUBB = [(), ('1b',), ('2',), ('1b', '3'), ('1b', '2', '3')]


def mutators(regs, labels=('1b', '3')):
    out = []
    for x in regs:
        for l in labels:
            out += [('add', x, l), ('discard', x, l), ('remove', x, l), ('discardID', x, l), ('removeID', x, l)]
        out += [('pop', x), ('clear', x), ('split', x, 1), ('split', x, 2)]
        for y in regs:
            for o in IBIN:
                out.append((o, x, y))
    return out


def pure():
    out = []
    for x, y in (('A', 'B'), ('B', 'A'), ('A', 'A')):
        for o in ('or', 'and', 'sub', 'xor', 'plus'):
            out.append((o, x, y, 'Z'))
    out += [('copy', 'A', 'Z'), ('iter', 'A', 'Z', 'iter'), ('iter', 'A', 'Z', 'coll'), ('iter', 'A', 'Z', 'tuple')]
    out += [('chunk', 'A', n, 'Z') for n in (1, 2, 3)]
    out += [('split', 'A', n, 'Z') for n in (1, 2, 3)]
    return out


def kinds_ok(kind, op):
    return not (op[0] == 'plus' and kind != 'rec')


def alias_cases(tier):
    """start state of A and B x one operation producing Z x one mutation of any register"""
    for kind in ('rec', 'grant'):
        for a in SUB:
            for bb in (SUBB if tier == 'quick' else SUB + SUBB):
                for p in pure():
                    if not kinds_ok(kind, p):
                        continue
                    for m in mutators(REGS, ('1b',) if tier == 'quick' else ('1b', '3')):
                        yield {'kind': kind, 'start': [a, bb, ()], 'hist': [p, m]}


def all_ops():
    out = mutators(REGS, ('1', '1b', '2'))
    for x, y, z in itertools.product(REGS, REGS, REGS):
        for o in ('or', 'and', 'sub', 'xor'):
            out.append((o, x, y, z))
    for x, z in itertools.permutations(REGS, 2):
        out.append(('copy', x, z))
        out.append(('iter', x, z, 'iter'))
        out.append(('iter', x, z, 'coll'))
        out.append(('plus', x, z, 'Z'))
    return out


def bfs_cases(tier):
    """every (reachable model state, operation) edge of the three register machine"""
    ops = [o for o in all_ops() if o[0] not in ('pop', 'split', 'chunk')]
    init = (frozenset(), frozenset(), frozenset())
    for kind in ('rec', 'grant'):
        ok = [o for o in ops if kinds_ok(kind, o)]
        for h in histories(init, lambda s: ok, model_apply, lambda s: s, 8):
            yield {'kind': kind, 'start': [(), (), ()], 'hist': list(h)}


def seq_cases(tier):
    """all histories of a fixed length over a small alphabet, no merging"""
    ops = [('add', 'A', '1'), ('add', 'B', '1b'), ('add', 'A', '2'), ('pop', 'A'), ('copy', 'A', 'B'), ('or', 'A', 'B', 'Z'),
           ('ixor', 'A', 'Z'), ('sub', 'Z', 'A', 'B'), ('split', 'Z', 1, 'A'), ('removeID', 'A', '1'), ('clear', 'B'),
           ('iter', 'A', 'Z', 'iter'), ('addbad', 'A'), ('mixed', 'A')]
    for n in range(1, (4 if tier == 'quick' else 5) + (0)):
        for h in itertools.product(ops, repeat=n):
            if n > 3 and any(o[0] in ('addbad', 'mixed') for o in h):
                continue
            yield {'kind': 'rec', 'start': [('1', '2'), ('2', '3'), ()], 'hist': list(h)}


FORMS = {'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset, 'generator': lambda l: (x for x in l), 'iterator': iter,
         'keys': lambda l: dict.fromkeys(l).keys(), 'deque': collections.deque}


def make_cases(tier):
    for kind in ('rec', 'grant'):
        for n in range(0, 4):
            for labels in itertools.product(LABELS, repeat=n):
                yield {'make': kind, 'labels': list(labels)}


def make_run(ctx, case):
    kind, labels = case['make'], case['labels']
    R, ids = make(kind)
    cls = mk.RecordCollection if kind == 'rec' else mk.GrantCollection
    forms = dict(FORMS, collection=cls)
    want = frozenset(elem(l) for l in labels)
    for form, name in itertools.product(sorted(forms), ('', 'given')):
        what = '{} of a {} of {} named {!r}'.format(cls.__name__, form, labels, name)
        src = forms[form]([R[l] for l in labels])
        ctx.step()
        x = cls(src, name=name)
        check_reg(ctx, x, want, R, ids, what)
        ctx.eq((x.bad, x.errors), (False, {}), what + ' flags')
        if name:
            ctx.eq(x.name, name, what + ' name')
        #the two do not share anything
        if form in ('list', 'set', 'deque', 'collection'):
            src.clear()
            check_reg(ctx, x, want, R, ids, what + ' after its source was emptied')
            src = forms[form]([R[l] for l in labels])
            x = cls(src, name=name)
            x.clear()
            ctx.eq(len(src), len(labels) if form in ('list', 'deque') else len(want), what + ' emptied its source')
        if kind == 'rec' and form != 'collection':
            y = cls(forms[form]([R[l] for l in labels]), name=name, cached=True)
            check_reg(ctx, y, want, R, ids, what + ' cached')
    other = mk.Citation('A B, 1990, J') if kind == 'rec' else make('rec')[0]['1']
    for at in range(len(labels) + 1):
        for wrong in (other, None, 'text', 3):
            src = [R[l] for l in labels]
            src.insert(at, wrong)
            for form in ('list', 'generator'):
                ctx.raises((mk.mkException,), lambda: cls(forms[form](src)), '{} of a {} of {} with {!r} at {}'.format(cls.__name__, form, labels, wrong, at))
    if not labels:
        for name in ('', 'given'):
            for x in (cls(None, name=name), cls(name=name), cls(None, name=name, cached=True)):
                check_reg(ctx, x, want, R, ids, 'empty ' + cls.__name__)
                if name:
                    ctx.eq(x.name, name, 'name of an empty ' + cls.__name__)
        for wrong in (3, 1.5, len, R['1'], R['1'].id, ctx.path('absent')):
            ctx.raises((mk.mkException,), lambda: cls(wrong), '{} of {!r}'.format(cls.__name__, wrong))
    ctx.state((kind, tuple(sorted(want))))


# ---------------------------------------------------------------------- sizes
def size_cases(tier):
    for n in sizes(5001 if tier == 'thorough' else 1025):
        for kind in ('rec', 'grant'):
            yield [kind, n]


def size_run(ctx, case):
    kind, n = case
    many = [b.wos(i) for i in range(n + n // 2)] if kind == 'rec' else [mk.MedlineGrant('N{}/AG/A/C'.format(i)) for i in range(n + n // 2)]
    if kind == 'rec':
        again = [b.wos(i, TI=['again']) for i in range(0, n, 3)]
    else:
        again = [mk.MedlineGrant('N{}/AG/A/C'.format(i)) for i in range(0, n, 3)]
    ids = lambda c: sorted(r.id for r in c)
    A, B = many[:n] + again, many[n // 2:]
    a, bb = {r.id for r in A}, {r.id for r in B}
    fresh = lambda: (coll(kind, A, 'A'), coll(kind, B, 'B'))
    def same(c, want, what):
        ctx.step()
        ctx.eq(ids(c), sorted(want), '{} of {}'.format(what, case))
        ctx.eq(len(c), len(want), 'len after {} of {}'.format(what, case))
        for r in many:
            if (r in c) is not (r.id in want) or c.containsID(r.id) is not (r.id in want) or (c.getID(r.id) is not None) is not (r.id in want):
                ctx.true(False, '{} of {}: membership of {}'.format(what, case, r.id))
    for o in BIN:
        x, y = fresh()
        same(BIN[o](x, y), BIN[o](a, bb), o)
        same(x, a, o + ' left')
        same(ibin(x, 'i' + o, y), BIN[o](a, bb), 'i' + o)
        same(y, bb, 'i' + o + ' right')
    if kind == 'rec':
        same(fresh()[0] + fresh()[1], a | bb, '+')
    x, y = fresh()
    ctx.true(x == coll(kind, reversed(A), 'other') and hash(x) == hash(coll(kind, list(x), 'o')), 'equality of {}'.format(case))
    ctx.true(not x == coll(kind, A[:-1] if A[-1].id != A[0].id and not again[1:] else many[1:n], 'other'), 'equality of different ones of {}'.format(case))
    same(x.copy(), a, 'copy')
    same(coll(kind, (r for r in A), 'gen'), a, 'generator')
    for k in sorted({1, 2, 3, 7, n // 2, n - 1, n, n + 1} - {0}):
        parts = x.chunk(k)
        ctx.eq(sorted(len(p) for p in parts), sorted([k] * (n // k) + ([n % k] if n % k else [])), 'chunk({}) sizes of {}'.format(k, case))
        ctx.eq(sorted(r.id for p in parts for r in p), sorted(a), 'chunk({}) of {}'.format(k, case))
        z = x.copy()
        parts = z.split(k)
        ctx.eq(sorted(len(p) for p in parts), sorted([k] * (n // k) + ([n % k] if n % k else [])), 'split({}) sizes of {}'.format(k, case))
        ctx.eq(sorted(r.id for p in parts for r in p), sorted(a), 'split({}) of {}'.format(k, case))
        ctx.eq(len(z), 0, 'after split({}) of {}'.format(k, case))
        ctx.step(2)
    same(x, a, 'after chunks')
    seen = []
    while x:
        seen.append(x.pop().id)
    ctx.eq(sorted(seen), sorted(a), 'pops of {}'.format(case))
    x = fresh()[0]
    for i, r in enumerate(many[:n]):
        (x.discard(r) if i % 2 else x.discardID(r.id)) if i % 4 < 2 else (x.remove(r) if i % 2 else x.removeID(r.id))
        ctx.true(r not in x and len(x) == n - i - 1, 'removal {} of {}'.format(i, case))
    for r in B:
        x.add(r)
    same(x, bb, 'adding')
    x.clear()
    same(x, set(), 'clear')
    ctx.state(case)


SCENARIOS = [
    Scenario('size', size_cases, size_run, 'two overlapping collections of n and n records with repeats, n around 4, 5, 8, 10, 16, ... up to 1025 (thorough 5001): every operator, partition, and removal one by one', timeout=240),
    Scenario('making', make_cases, make_run, 'all sequences of up to 3 of 4 records (two with the same ID) in every kind of iterable, with a wrong element at every place'),
    Scenario('bfs-three-registers', bfs_cases, run, {'depth': 8, 'records': 2, 'registers': 3, 'ops': len(all_ops())}),
    Scenario('derive-then-mutate', alias_cases, run, {'records': 3, 'history': 2}),
    Scenario('all-histories', seq_cases, run, {'quick': {'length': 3}, 'thorough': {'length': 4}}),
]
