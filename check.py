#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE] [--jobs N]

Decides one property by exhaustive bounded exploration of the code in /repo.
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
"""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MK_REPO', '/repo')
PY = '/opt/venv/bin/python'


def scratch_base():
    for d in ('/dev/shm', '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return None


# These exercise code that keeps data files inside the installed package (names table, journal
# database), so each worker installs the package of the working tree into its own scratch directory.
INSTALL = {'C23', 'C27', 'C28', 'C29', 'C31', 'C32'}


def load(prop, root=None):
    src = REPO
    if prop in INSTALL and root:
        src = os.path.join(root, 'site')
        shutil.copytree(os.path.join(REPO, 'metaknowledge'), os.path.join(src, 'metaknowledge'),
                        ignore=shutil.ignore_patterns('tests', '__pycache__', 'namesData.csv', 'manualj9Abbreviations*', 'j9Abbreviations*'))
    sys.path.insert(0, HERE)
    sys.path.insert(0, src)
    import warnings
    warnings.simplefilter('ignore')
    mod = importlib.import_module('props.' + prop.lower())
    import metaknowledge
    where = os.path.realpath(os.path.dirname(metaknowledge.__file__))
    assert where == os.path.realpath(os.path.join(src, 'metaknowledge')), where
    metaknowledge.VERBOSE_MODE = False
    return mod


def known():
    """known: property=ID scenario=NAME key=KEY | what"""
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known:'):
                head, what = line[6:].split('|', 1)
                d = dict(kv.split('=', 1) for kv in head.split())
                out[(d['property'], d['scenario'], d['key'])] = what.strip()
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 4))
    ap.add_argument('--worker', nargs=4)
    ap.add_argument('--only')
    a = ap.parse_args()
    prop = a.prop.upper()
    if a.worker:
        sys.path.insert(0, HERE)
        from mc import core
        shard, n, out, root = int(a.worker[0]), int(a.worker[1]), a.worker[2], a.worker[3]
        mod = load(prop, root)
        if a.only:
            mod.SCENARIOS = [s for s in mod.SCENARIOS if s.name == a.only]
        os.chdir(root)
        core.worker(prop, mod, a.tier, shard, n, out, root, time.time() + float(os.environ.get('MC_DEADLINE', 780 if a.tier == 'quick' else 7200)), {k[1:] for k in known() if k[0] == prop})
        os._exit(0)
    if a.replay:
        rep = json.load(open(a.replay))
        if os.environ.get('PYTHONHASHSEED') != str(rep['hashseed']):
            os.environ['PYTHONHASHSEED'] = str(rep['hashseed'])
            os.execv(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:])
        from mc import core
        root = tempfile.mkdtemp(prefix='mkv-', dir=scratch_base())
        try:
            mod = load(prop, root)
            scen = [s for s in mod.SCENARIOS if s.name == rep['scenario']][0]
            os.chdir(root)
            v = core.run_case(core.Ctx(root), scen, rep['case'])
        finally:
            shutil.rmtree(root, ignore_errors=True)
        print('case:', json.dumps(rep['case']))
        print('held' if v is None else 'violated: ' + v[0])
        sys.exit(0 if v is None else 1)

    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED') or 0)
    tmp = tempfile.mkdtemp(prefix='mkv-', dir=scratch_base())
    status = 2
    try:
        procs = []
        for i in range(a.jobs):
            root = os.path.join(tmp, 'w{}'.format(i))
            os.mkdir(root)
            env = dict(os.environ)
            env.update(PYTHONHASHSEED=str(i), PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
                       PYTHONPYCACHEPREFIX=os.path.join(tmp, 'pyc'), TMPDIR=root, HOME=root,
                       OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', LC_ALL='C.UTF-8')
            out = os.path.join(tmp, 'out{}.json'.format(i))
            log = open(os.path.join(tmp, 'log{}'.format(i)), 'w')
            procs.append((subprocess.Popen(
                [PY, os.path.abspath(__file__), prop, '--tier', a.tier, '--worker', str(i), str(a.jobs), out, root]
                + (['--only', a.only] if a.only else []),
                env=env, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, cwd=root), out, log.name))
        limit = t0 + (850 if a.tier == 'quick' else 7300)
        results, fail = [], []
        for pr, out, log in procs:
            try:
                pr.wait(timeout=max(1, limit - time.time()))
            except subprocess.TimeoutExpired:
                pr.kill()
                pr.wait()
                fail.append('worker timed out')
                continue
            if pr.returncode != 0 or not os.path.exists(out):
                fail.append('worker exit {}:\n{}'.format(pr.returncode, open(log).read()[-3000:]))
            else:
                results.append(json.load(open(out)))
        status = report(prop, a.tier, seed, results, fail, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(status)


def report(prop, tier, seed, results, fail, t0):
    kn = known()
    viol, known_hit = [], {}
    states, transitions, runs, checks = set(), 0, 0, 0
    scen, samples, complete = {}, [], True
    for r in results:
        states.update(r['states'])
        transitions += r['transitions']
        checks += r['checks']
        complete = complete and r['complete']
        for n, s in r['scenarios'].items():
            d = scen.setdefault(n, {'cases_enumerated': s['cases'], 'executions': 0, 'wall_s_max': 0})
            d['executions'] += s['run']
            d['bounds'] = s['bounds']
            d['wall_s_max'] = max(d['wall_s_max'], s['wall_s'])
            runs += s['run']
            if len([x for x in samples if x['scenario'] == n]) < 2:
                samples.extend(s['samples'][:1])
        for v in r['violations']:
            k = (prop, v['scenario'], str(v['key']))
            if v['key'] is not None and k in kn:
                known_hit[k] = v
            else:
                viol.append(v)
    viol.sort(key=lambda v: (v['scenario'], v['order']))
    man = {}
    try:
        for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']:
            if c['property'] == prop:
                man = c
    except Exception:
        pass
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': man.get('level', 'model_checking'),
        'coverage': {
            'states': len(states), 'transitions': transitions, 'traces_validated_against_impl': runs,
            'evaluations': runs, 'oracle_comparisons': checks, 'exhaustive': bool(complete and not fail),
            'distinct_nontrivial': len(states),
            'rule': 'every case within the bounds below is enumerated (no sampling), executed on the code in /repo and compared with the oracle; states = distinct canonical results/states observed',
            'scenarios': scen, 'samples': samples[:12],
            'hash_seeds': len(results)},
        'assumptions': ['guarantees hold for the enumerated alphabet and bounds only',
                        'python string hashing pinned per worker (PYTHONHASHSEED 0..{})'.format(max(0, len(results) - 1))],
        'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in sorted(kn):
        if k[0] == prop and k in known_hit:
            print('KNOWN-FINDING: property={} {}'.format(prop, kn[k]))
    print('{} {}: executions={} states={} transitions={} comparisons={} complete={} wall={:.1f}s'.format(
        prop, tier, runs, len(states), transitions, checks, complete, time.time() - t0))
    for n, d in scen.items():
        print('  {}: enumerated={} executed={} ({}s)'.format(n, d['cases_enumerated'], d['executions'], d['wall_s_max']))
    if viol:
        rdir = os.path.join(HERE, 'replays')
        os.makedirs(rdir, exist_ok=True)
        shown = set()
        first = None
        for v in viol:
            sig = (v['scenario'], v['message'][:60])
            if sig in shown or len(shown) >= 8:
                continue
            shown.add(sig)
            path = os.path.join(rdir, '{}-{}.json'.format(prop, len(shown)))
            with open(path, 'w') as f:
                json.dump(v, f, indent=1)
            first = first or path
            print('--- {} case {}\n    {}'.format(v['scenario'], json.dumps(v['case'])[:500], v['message'][:1800]))
        print('VIOLATION property={} replay={}'.format(prop, first))
        return 1
    if fail:
        print('\n'.join(fail))
        return 2
    if not complete:
        print('exploration stopped before completing its bounds')
        return 2
    return 0


if __name__ == '__main__':
    main()
