"""C13: the reactive limit loop of runpf, against the contracts of the solver and of pfsoln."""
import numpy as np

from checks.lib import snapshot
from checks.c12_runpf_dc import noop

INFO = dict(
    functions=['runpf (AC part, ENFORCE_Q_LIMS = 1 and 2)', 'bustypes', 'makeSbus', 'ext2int', 'int2ext', 'loadcase'],
    bounds='2-3 buses, 2-3 generators (also sharing a bus), every sequence of limit violations the outer loop can see (each '
           'solver call returns arbitrary reactive outputs, slack output and voltages, and arbitrary success), symbolic '
           'limits, loads, dispatch and tolerance',
    outside='several reference buses; units sharing a bus of which only some violate (the proportional split makes them '
            'violate together)',
    assumptions='newtonpf and pfsoln are replaced by their contracts (decided by C10 and C11): any voltages, any outputs of '
                'in-service units, zero reactive output of the others')


def h(env, types, gb, mode, nums=None, gstat=None):
    np_ = env.np
    n, ng = len(types), len(gb)
    nums = nums or list(range(1, n + 1))
    base = 100.0
    bus, gen, br = np_.zeros((n, 13)), np_.zeros((ng, 21)), np_.zeros((n - 1, 17))
    for i in range(n):
        bus[i, 0], bus[i, 1] = float(nums[i]), float(types[i])
        bus[i, 2], bus[i, 3] = env.var('pd%d' % i, -99, 99), env.var('qd%d' % i, -99, 99)
        bus[i, 7], bus[i, 8], bus[i, 10], bus[i, 11], bus[i, 12] = 1.0, 3.0 * i, 1.0, 1.1, 0.9
    for k in range(ng):
        gen[k, 0] = float(nums[gb[k]])
        gen[k, 1] = env.var('pg%d' % k, -99, 300)
        gen[k, 4] = env.var('qmin%d' % k, -100, 0)
        gen[k, 3] = gen[k, 4] + env.var('qr%d' % k, 1, 100)
        gen[k, 5], gen[k, 6], gen[k, 7], gen[k, 8] = 1.0, 100.0, 1.0 if gstat is None else gstat[k], 300.0
    for k in range(n - 1):
        br[k, 0], br[k, 1], br[k, 3], br[k, 10] = float(nums[k]), float(nums[k + 1]), 0.1, 1.0
    tol = env.var('tol', 0.000001, 0.01)
    b0, g0, r0 = snapshot(bus), snapshot(gen), snapshot(br)
    calls = []
    # internal generator order: by bus position, stable
    order = sorted([k for k in range(ng) if g0[k, 7] > 0], key=lambda k: gb[k])

    def newton(Ybus, Sbus, V0, ref, pv, pq, ppopt=None):
        ok = env.choice('ok%d' % len(calls), [1, 0])
        calls.append(dict(S=Sbus.copy(), ref=[int(i) for i in ref], pv=[int(i) for i in pv], pq=[int(i) for i in pq],
                          ok=ok))
        return V0, ok, 1

    def soln(baseMVA, bus, gen, branch, Ybus, Yf, Yt, V, ref, pv, pq):
        it = len(calls) - 1
        c = calls[it]
        c['on'] = [order[k] for k in range(gen.shape[0]) if gen[k, 7] > 0]
        c['pg'], c['q'], c['va'] = {}, {}, []
        for i in range(bus.shape[0]):
            bus[i, 7] = env.var('vm%d_%d' % (it, i), 0.9, 1.1)
            bus[i, 8] = env.var('va%d_%d' % (it, i), -50, 50)
            c['va'].append(bus[i, 8])
        slack = [k for k in range(gen.shape[0]) if gen[k, 7] > 0 and int(gen[k, 0]) == c['ref'][0]][:1]
        for k in range(gen.shape[0]):
            e = order[k]
            if gen[k, 7] > 0:
                gen[k, 2] = env.var('q%d_%d' % (it, e), -200, 200)
                c['q'][e] = gen[k, 2]
                if k in slack:
                    gen[k, 1] = env.var('ps%d_%d' % (it, e), -99, 300)
            else:
                gen[k, 2] = 0.0
            c['pg'][e] = gen[k, 1]
        c['mx'] = [e for e in c['on'] if c['q'][e] > g0[e, 3] + tol]
        c['mn'] = [e for e in c['on'] if c['q'][e] < g0[e, 4] - tol]
        v = c['mx'] + c['mn']
        for e in c['on']:
            for f in c['on']:
                if gb[e] == gb[f]:
                    env.assume((e in c['mx']) == (f in c['mx']) and (e in c['mn']) == (f in c['mn']))
        return bus, gen, branch

    env.patch('runpf', 'newtonpf', newton)
    env.patch('runpf', 'pfsoln', soln)
    env.patch('runpf', 'printpf', noop)
    opt = dict(env.fn('ppoption')())
    opt.update(VERBOSE=0, OUT_ALL=0, ENFORCE_Q_LIMS=mode, OPF_VIOLATION=tol, PF_ALG=1)
    res, ok = env.fn('runpf')(dict(version='2', baseMVA=base, bus=bus, gen=gen, branch=br), opt)
    env.ok('success flags agree', bool(res['success'] == ok))
    B, G = res['bus'], res['gen']
    last = calls[-1]
    limit = {}
    for j, c in enumerate(calls):
        # the problem solved: limited units inject their limit, the load is the caller's
        want = []
        for i in range(n):
            p, q = -b0[i, 2], -b0[i, 3]
            for e in order:
                if gb[e] == i:
                    pge = calls[j - 1]['pg'][e] if j else g0[e, 1]
                    qge = limit[e] if e in limit else (calls[j - 1]['q'][e] if j else g0[e, 2])
                    p, q = p + pge, q + qge
            want.append((p / base, q / base))
        env.eq('problem solved', [[s.real, s.imag] for s in c['S']], [list(w) for w in want], tol=1e-6)
        env.ok('roles', sorted(c['ref'] + c['pv'] + c['pq']) == list(range(n)) and len(c['ref']) == 1)
        env.ok('limited buses are load buses', all(gb[e] in c['pq'] for e in limit))
        env.ok('units in service', sorted(c['on'] + sorted(limit)) == sorted(order))
        newly = []
        if j + 1 < len(calls):
            newly = [e for e in c['on'] if e not in calls[j + 1]['on']]
            viol = c['mx'] + c['mn']
            env.ok('only violators are limited', all(e in viol for e in newly) and len(newly) > 0)
            exc = dict((e, c['q'][e] - g0[e, 3]) for e in c['mx'])
            exc.update((e, g0[e, 4] - c['q'][e]) for e in c['mn'])
            if mode == 1:
                env.ok('all violators are limited', sorted(newly) == sorted(viol))
            else:
                env.ok('one at a time', len(newly) == 1)
                for e in viol:
                    env.cmp('largest violation first', exc[e], exc[newly[0]])
        for e in newly:
            limit[e] = g0[e, 3] if e in c['mx'] else g0[e, 4]
    viol = last['mx'] + last['mn']
    if ok:
        env.ok('solver succeeded', last['ok'] == 1)
        for e in order:
            env.cmp('upper limit', G[e, 2], g0[e, 3] + tol)
            env.cmp('lower limit', g0[e, 4] - tol, G[e, 2])
    else:
        ctl = [e for e in last['on'] if gb[e] in last['ref'] + last['pv']]
        env.ok('failure has a reason', last['ok'] == 0 or all(e in viol for e in ctl))
    for e in order:
        env.eq('reactive output', G[e, 2], limit[e] if e in limit else last['q'][e])
        env.eq('active output', G[e, 1], last['pg'][e])
    env.eq('loads restored', B[:, 2:4], b0[:, 2:4])
    env.eq('status restored', G[:, 7], g0[:, 7])
    env.eq('limits kept', G[:, 3:7], g0[:, 3:7])
    for i in range(n):
        if any(gb[e] == i for e in limit):
            env.eq('limited bus type', B[i, 1], 1.0)
        elif [i] == last['ref']:
            env.eq('reference type', B[i, 1], 3.0)
        else:
            env.eq('bus type kept', B[i, 1], b0[i, 1])
    r0_ = calls[0]['ref'][0]
    if last['ref'][0] != r0_:
        env.eq('original reference angle', B[r0_, 8], b0[r0_, 8])
    env.eq('angles', [B[i, 8] - B[r0_, 8] for i in range(n)], [last['va'][i] - last['va'][r0_] for i in range(n)])
    env.eq('caller case kept', [bus, gen, br], [b0, g0, r0])


def harnesses(tier):
    out = []
    d = [('two', dict(types=[3, 2], gb=[0, 1])), ('two_rev', dict(types=[2, 3], gb=[1, 0], nums=[20, 7])),
         ('single', dict(types=[3, 1], gb=[0])),
         ('load', dict(types=[1, 3, 2], gb=[2, 1])),
         ('shared', dict(types=[3, 2], gb=[1, 0, 1]))]
    if tier == 'thorough':
        d.append(('three', dict(types=[2, 2, 3], gb=[0, 1, 2])))
        d.append(('off', dict(types=[2, 2, 3], gb=[0, 1, 2, 0], gstat=[1, 1, 1, 0])))
    for nm, kw in d:
        for mode in (1, 2):
            out.append(('%s_mode%d' % (nm, mode), h, dict(kw, mode=mode), dict(budget_s=700)))
    return out
