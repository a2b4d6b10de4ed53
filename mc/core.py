"""Bounded exhaustive exploration of the real metaknowledge code.

Everything here enumerates; nothing samples.  A scenario supplies

    cases(tier)     an iterator over JSON-able cases (inputs, operation
                    histories, crash points, schedules), enumerated completely
                    within the bounds it declares
    run(ctx, case)  executes one case on the code in /repo and compares it
                    with an oracle; raises Violation when they disagree

`Chooser`/`explore` enumerate all choice sequences of a generator (stateless
search, optionally bounded in the number of deviations from the default
choice); `histories` enumerates operation histories by breadth first search
over a reference model.
"""
import collections
import contextlib
import hashlib
import io
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback


class Violation(Exception):
    """The code under test disagrees with the oracle."""

    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.key = key


class CaseTimeout(BaseException):
    pass


class Scenario(object):
    def __init__(self, name, cases, run, bounds=None, every_seed=False, timeout=30):
        self.name = name
        self.cases = cases
        self.run = run
        self.bounds = bounds or {}
        self.every_seed = every_seed
        self.timeout = timeout


# ---------------------------------------------------------------- exploration

class Chooser(object):
    """Replays a prefix of choices, then takes choice 0 everywhere."""

    def __init__(self, prefix):
        self.prefix = prefix
        self.taken = []      # (index, number of options, counts as deviation)

    def pick(self, options, dev=True):
        options = list(options) if not isinstance(options, (list, tuple)) else options
        n = len(self.taken)
        i = self.prefix[n] if n < len(self.prefix) else 0
        if i >= len(options):
            raise RuntimeError("choice {} out of range at point {}".format(i, n))
        self.taken.append((i, len(options), dev))
        return options[i]

    def flag(self, dev=True):
        return self.pick((False, True), dev)

    def all(self, options):
        """A choice that is always enumerated in full (never counted as a deviation)."""
        return self.pick(options, dev=False)


def explore(gen, bound=None):
    """Yield gen(chooser) for every choice sequence with at most `bound`
    deviations (non-zero choices at points marked dev)."""
    stack = [[]]
    while stack:
        prefix = stack.pop()
        ch = Chooser(prefix)
        case = gen(ch)
        if case is not None:
            yield case
        spent = sum(1 for (i, n, d) in ch.taken[:len(prefix)] if d and i)
        new = []
        for pos in range(len(prefix), len(ch.taken)):
            i, n, dev = ch.taken[pos]
            if dev and bound is not None and spent + 1 > bound:
                continue
            base = [c[0] for c in ch.taken[:pos]]
            for alt in range(1, n):
                new.append(base + [alt])
        stack.extend(reversed(new))


def histories(init, ops, apply, canon, depth, full_depth=0):
    """Operation histories covering every transition of the reference model.

    Breadth first over model states (deduplicated by canon); yields one history
    per (state, operation) edge.  Up to full_depth no states are merged, so all
    histories of that length are produced."""
    frontier = [((), init)]
    seen = {canon(init)}
    for d in range(depth):
        nxt = []
        for hist, st in frontier:
            for op in ops(st):
                new = apply(st, op)
                if new is None:
                    continue
                h = hist + (op,)
                yield h
                k = canon(new)
                if d + 1 < full_depth or k not in seen:
                    seen.add(k)
                    nxt.append((h, new))
        frontier = nxt


def digest(obj):
    return hashlib.blake2b(repr(obj).encode('utf-8', 'backslashreplace'), digest_size=8).digest()


# -------------------------------------------------------------------- context

class Ctx(object):
    def __init__(self, root):
        self.root = root
        self.states = set()
        self.transitions = 0
        self.checks = 0
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self._dir = None
        self._n = 0

    def step(self, n=1):
        self.transitions += n

    def state(self, obj):
        self.states.add(digest(obj))

    def eq(self, got, want, what, key=None):
        self.checks += 1
        if got != want:
            raise Violation("{}: got {} expected {}".format(what, short(got), short(want)), key)

    def true(self, cond, what, key=None):
        self.checks += 1
        if not cond:
            raise Violation(what, key)

    def raises(self, excs, fn, what, key=None):
        self.checks += 1
        try:
            r = fn()
        except excs as e:
            return e
        except Exception as e:
            raise Violation("{}: raised {!r} instead of {}".format(what, e, excs), key)
        raise Violation("{}: returned {} instead of raising {}".format(what, short(r), excs), key)

    @property
    def dir(self):
        if self._dir is None:
            self._n += 1
            self._dir = os.path.join(self.root, 'd{}'.format(self._n))
            os.mkdir(self._dir)
        return self._dir

    def path(self, name):
        return os.path.join(self.dir, name)

    def write(self, name, text, encoding='utf-8'):
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(text if isinstance(text, bytes) else text.encode(encoding))
        return p

    def reset(self):
        if self._dir is not None:
            shutil.rmtree(self._dir, ignore_errors=True)
            self._dir = None


def short(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n // 2] + ' ... ' + s[-n // 2:]


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(ctx, scen, case):
    """None when fine, otherwise (message, key)."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, scen.timeout)
    try:
        try:
            scen.run(ctx, case)
            return None
        except Violation as e:
            return (str(e), e.key)
        except CaseTimeout:
            return ("did not finish within {} s".format(scen.timeout), 'timeout')
        except (KeyboardInterrupt, MemoryError):
            raise
        except BaseException as e:
            tb = traceback.format_exc()
            return ("unexpected {}: {}\n{}".format(type(e).__name__, e, tb[-1500:]), None)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        with contextlib.suppress(Exception):
            os.chdir(ctx.root)
        ctx.reset()


#a file through which all workers stop at the first violation (for trying out changes)
STOP = os.environ.get('MC_STOP')


def worker(prop, module, tier, shard, nshards, out, root, deadline, known=()):
    ctx = Ctx(root)
    ctx.tier = tier
    listed = set()
    res = {'violations': [], 'scenarios': {}, 'complete': True}
    for scen in module.SCENARIOS:
        t0 = time.time()
        count = total = 0
        bad = 0
        samples = []
        s0 = len(ctx.states)
        seen_case = set()
        for case in scen.cases(tier):
            k = digest(case)
            if k in seen_case:
                continue
            seen_case.add(k)
            total += 1
            if not scen.every_seed and (total - 1) % nshards != shard:
                continue
            count += 1
            before = len(ctx.states), ctx.transitions
            v = run_case(ctx, scen, case)
            if len(samples) < 1 or (len(samples) < 3 and count % 97 == 0):
                samples.append({'scenario': scen.name, 'case': json.loads(json.dumps(case, default=repr))})
            if v is not None and (scen.name, v[1]) in known:
                if (scen.name, v[1]) in listed:      # report a listed finding once
                    continue
                listed.add((scen.name, v[1]))
                bad -= 1
            if v is not None:
                again = run_case(ctx, scen, case)
                if again is None and v[1] == 'timeout':      # the machine was slow
                    continue
                res['violations'].append({
                    'property': prop, 'scenario': scen.name, 'case': case, 'message': v[0],
                    'key': v[1], 'reproduced': again is not None,
                    'hashseed': os.environ.get('PYTHONHASHSEED'), 'order': total})
                bad += 1
                if bad >= (2 if v[1] == 'timeout' else 40):
                    res['complete'] = False
                    break
            if time.time() > deadline or (STOP and (os.path.exists(STOP) or bad > 0)):
                res['complete'] = False
                if STOP:
                    open(STOP, 'w').close()
                break
        res['scenarios'][scen.name] = {
            'cases': total, 'run': count, 'new_states': len(ctx.states) - s0,
            'bounds': scen.bounds, 'every_seed': scen.every_seed, 'wall_s': round(time.time() - t0, 2), 'samples': samples}
        if time.time() > deadline or (STOP and os.path.exists(STOP)):
            break
    res['states'] = [s.hex() for s in ctx.states]
    res['transitions'] = ctx.transitions
    res['checks'] = ctx.checks
    with open(out, 'w') as f:
        json.dump(res, f, default=repr)
