#!/usr/bin/env python
"""Runs the check of one property:  check.py C01 [--replay FILE]

Exit 0: every obligation discharged (unsat) on every explored path.
Exit 1: VIOLATION line; the counterexample was reproduced on the real code.
Exit 2: the check could not decide (unknown, unsupported construct, ...).
"""
import os
import sys

os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.path.insert(1, HERE)
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path:
    sys.path.append(VT)

import glob
import importlib
import json
import multiprocessing as mp
import time
import traceback
import resource

sys.setrecursionlimit(20000)


def find_module(pid):
    for p in sorted(glob.glob(os.path.join(HERE, 'checks', pid.lower() + '_*.py'))):
        return importlib.import_module('checks.' + os.path.basename(p)[:-3])
    raise SystemExit('no check for %s' % pid)


def load_known(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line:
                continue
            d = json.loads(line)
            if d.get('status') == 'known' and d.get('property') == pid:
                out.append(d)
    return out


def _work(a):
    pid, idx, tier, seed, known = a
    try:
        resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
    except Exception:
        pass
    from symx import harness
    mod = find_module(pid)
    name, fn, params, opts = mod.harnesses(tier)[idx]
    o = dict(opts or {})
    try:
        return harness.run_harness(name, fn, params, seed=seed, known=known, **o)
    except BaseException:
        return dict(name=name, params={}, violations=[], known=[], errors=['worker: ' + traceback.format_exc()],
                    obligations=0, discharged=0, paths=0, aborted=0, validated=0, labels={}, samples=[],
                    stats={}, wall_s=0, modules=[], assumefail=0)


def main():
    pid = sys.argv[1].upper()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = find_module(pid)
    hs = mod.harnesses(tier)
    if len(sys.argv) > 2 and sys.argv[2] == '--replay':
        return replay(pid, mod, sys.argv[3])
    only = sys.argv[2] if len(sys.argv) > 2 else None
    idxs = [i for i, h in enumerate(hs) if not only or only in h[0]]
    # longest first, when the module says so
    idxs.sort(key=lambda i: -((hs[i][3] or {}).get('budget_s', 0)))
    known = load_known(pid)
    args = [(pid, i, tier, seed, known) for i in idxs]
    nproc = min(8, max(1, len(args)))
    results = []
    limit = 840 if tier == 'quick' else 6 * 3600
    if nproc == 1 or os.environ.get('VERIF_SERIAL'):
        for a in args:
            results.append(_work(a))
    else:
        ctx = mp.get_context('fork')
        pool = ctx.Pool(nproc, maxtasksperchild=4)
        pend = [(a, pool.apply_async(_work, (a,))) for a in args]
        stop = t0 + limit
        while pend:
            rest = []
            for a, r in pend:
                if r.ready():
                    results.append(r.get())
                    if results[-1]['violations']:
                        stop = min(stop, time.time() + float(os.environ.get('VERIF_GRACE', 40)))      # others may still add theirs
                else:
                    rest.append((a, r))
            pend = rest
            if pend and time.time() > stop:
                for a, r in pend:
                    results.append(dict(name=hs[a[1]][0], params={}, violations=[], known=[],
                                        errors=['not finished within the time of the check'], obligations=0,
                                        discharged=0, paths=0, aborted=0, validated=0, labels={}, samples=[], stats={},
                                        wall_s=0, modules=[], assumefail=0))
                break
            time.sleep(0.02)
        pool.terminate()
        pool.join()
    return report(pid, mod, tier, seed, hs, results, time.time() - t0, only)


def report(pid, mod, tier, seed, hs, results, wall, only):
    results.sort(key=lambda r: r['name'])
    viol, errs, kn = [], [], []
    tot = dict(obligations=0, discharged=0, paths=0, validated=0, decisions=0, goal_queries=0, feas_queries=0)
    solver_s = 0.0
    mods = set()
    samples = []
    for r in results:
        for k in ('obligations', 'discharged', 'paths', 'validated'):
            tot[k] += r[k]
        st = r.get('stats') or {}
        for k in ('decisions', 'goal_queries', 'feas_queries'):
            tot[k] += st.get(k, 0)
        solver_s += st.get('solver_s', 0.0)
        mods |= set(r.get('modules') or [])
        viol += [(r['name'], v) for v in r['violations']]
        kn += r['known']
        errs += ['%s: %s' % (r['name'], e) for e in r['errors']]
        samples += r['samples'][:1]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'out'), exist_ok=True)
    for k in kn:
        print('KNOWN-FINDING: property=%s %s (%s: %s)' % (pid, k['what'], k['id'], k['msg']))
    for n, (hn, v) in enumerate(viol):
        path = os.path.join(HERE, 'out', '%s_%d.json' % (pid, n))
        with open(path, 'w') as f:
            json.dump(dict(property=pid, harness=hn, label=v['label'], message=v['msg'], inputs=v['inputs']), f, indent=1)
        if n < 10:
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  %s [%s]: %s' % (hn, v['label'], v['msg']))
    for e in errs[:10]:
        print('INCONCLUSIVE %s' % e[:1500])
    print('%s %s: %d harnesses, %d paths, %d obligations (%d discharged), %d path witnesses replayed on the real code, '
          'solver %.1f s, wall %.1f s' % (pid, tier, len(results), tot['paths'], tot['obligations'],
                                          tot['discharged'], tot['validated'], solver_s, wall))
    info = getattr(mod, 'INFO', {})
    ev = dict(
        property=pid, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=tot['paths'], transitions=tot['decisions'],
            traces_validated_against_impl=tot['validated'],
            samples=samples[:4] or [dict(note='no witness')],
            explanation='bounded symbolic execution of the real code; states = symbolic paths completed, transitions = '
                        'solver-decided branches; every obligation is a z3 query over all input values on its path',
            functions_encoded=info.get('functions', []),
            modules_executed=sorted(m for m in mods if m.startswith('pypower.') and not m.startswith('pypower.idx_')),
            bounds=info.get('bounds', ''),
            outside=info.get('outside', ''),
            obligations=tot['obligations'], discharged=tot['discharged'],
            goal_queries=tot['goal_queries'], feasibility_queries=tot['feas_queries'],
            solver_seconds=round(solver_s, 3),
            harnesses=[dict(name=r['name'], paths=r['paths'], obligations=r['obligations'], discharged=r['discharged'],
                            witnesses=r['validated'], wall_s=round(r['wall_s'], 2)) for r in results],
            inconclusive=errs[:20]),
        assumptions=([info['assumptions']] if info.get('assumptions') else []) + [
            'floating point is modelled by exact real arithmetic (rounding is outside the claim)',
            'numpy / scipy.sparse are represented by the stand-ins in symx/ (validated by replaying path witnesses '
            'on the real libraries); linear solvers by their contract A x = b with A nonsingular'],
        wall_s=round(wall, 2), violations=len(viol))
    if not only:
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    if viol:
        return 1
    if errs:
        return 2
    return 0


def replay(pid, mod, path):
    from symx import harness
    d = json.load(open(path))
    for name, fn, params, opts in mod.harnesses('thorough') + mod.harnesses('quick'):
        if name == d['harness']:
            st, failed, env = harness.real_run(fn, params, d['inputs'])
            print(st, failed)
            if getattr(env, 'tb', None):
                print(env.tb)
            return 1 if st in ('fail', 'exception') else 0
    print('no harness', d['harness'])
    return 2


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
