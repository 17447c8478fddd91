"""C40: continuation power flow: parameterizations, corrector, predictor, driver."""
import numpy as np

from checks.lib import cmat, conj, matvec, snapshot

INFO = dict(
    functions=['cpf_p', 'cpf_p_jac', 'cpf_corrector', 'cpf_predictor', 'dSbus_dV', 'runcpf', 'cpf_default_callback',
               'loadcase', 'ext2int', 'int2ext', 'makeSbus', 'makeYbus', 'bustypes', 'pfsoln', 'i2e_data'],
    bounds='2-3 buses with every role pattern, the three parameterizations; corrector: arbitrary admittances (a fixed matrix for Newton steps on 3 buses), injections, '
           'transfer, starting point, tangent, step and tolerance, 0-2 Newton steps with arbitrary solver answers; driver: '
           'up to 3 continuation steps with arbitrary predictor and corrector answers, all stopping rules',
    outside='plots; user callbacks; convergence of the linear algebra; base and target cases with different equipment status',
    assumptions='exact real arithmetic; the parameterization value is differentiated where it is smooth')


def I(env, x):
    return env.np.array(x, dtype=int)


def volt(env, nm, n, ang=True):
    vm = [env.var('%sm%d' % (nm, i), 0.8, 1.2) for i in range(n)]
    va = [env.var('%sa%d' % (nm, i), -1, 1, angle=True) for i in range(n)]
    return vm, va


def polar(env, vm, va):
    return env.np.array([env.polar(a, b) for a, b in zip(vm, va)])


def pvalue(env, par, step, z, va, vm, lam, va0, vm0, lam0, pv, pq):
    n = len(vm)
    pvpq = list(pv) + list(pq)
    if par == 1:
        return (lam - lam0 if lam >= lam0 else lam0 - lam) - step
    if par == 2:
        s = (lam - lam0) * (lam - lam0)
        for i in pvpq:
            s = s + (va[i] - va0[i]) * (va[i] - va0[i])
        for i in pq:
            s = s + (vm[i] - vm0[i]) * (vm[i] - vm0[i])
        return s - step * step
    s = z[2 * n] * (lam - lam0)
    for i in pvpq:
        s = s + z[i] * (va[i] - va0[i])
    for i in pq:
        s = s + z[n + i] * (vm[i] - vm0[i])
    return s - step


def h_p(env, par, n, pv, pq):
    """value and derivative of the parameterization"""
    vm, va = volt(env, 'v', n)
    vm0, va0 = volt(env, 'w', n)
    lam, lam0 = env.var('lam', -1, 2), env.var('lamp', -1, 2)
    step = env.var('step', 0.001, 1)
    z = env.np.array([env.var('z%d' % i, -1, 1) for i in range(2 * n + 1)])
    if par == 2:
        env.assume(env.Not(env.equal(lam, lam0)))
    V, W = polar(env, vm, va), polar(env, vm0, va0)
    P = env.np.asarray(env.fn('cpf_p')(par, step, z, V, lam, W, lam0, I(env, pv), I(env, pq))).reshape(-1)
    env.ok('one value', P.shape == (1,))
    env.eq('value', P[0], pvalue(env, par, step, z, va, vm, lam, va0, vm0, lam0, pv, pq))
    dV, dl = env.fn('cpf_p_jac')(par, z, V, lam, W, lam0, I(env, pv), I(env, pq))
    dV = env.np.asarray(dV).reshape(-1)
    dl = env.np.asarray(dl).reshape(-1)
    pvpq = list(pv) + list(pq)
    env.ok('sizes', dV.shape == (len(pvpq) + len(pq),) and dl.shape == (1,))
    if par == 1:
        want = [0.0] * (len(pvpq) + len(pq)) + [1.0 if lam >= lam0 else -1.0]
    elif par == 2:
        want = [2 * (va[i] - va0[i]) for i in pvpq] + [2 * (vm[i] - vm0[i]) for i in pq] + [2 * (lam - lam0)]
    else:
        want = [z[i] for i in pvpq] + [z[n + i] for i in pq] + [z[2 * n]]
    env.eq('derivative', list(dV) + [dl[0]], want)


def jac(env, Y, V, X, pv, pq):
    """derivative of [P mismatch; Q mismatch] of Y, transfer X, wrt [angles; magnitudes; lam]"""
    n = len(V)
    Iv = matvec(env, Y, V)
    pvpq = list(pv) + list(pq)
    J = []
    j = env.cplx(0.0, 1.0)

    def dSa(i, k):
        d = j * V[k]
        s = V[i] * conj(Y[i, k] * d)
        return s + d * conj(Iv[i]) if i == k else s

    def dSm(i, k):
        d = V[k] / env.abs(V[k])
        s = V[i] * conj(Y[i, k] * d)
        return s + d * conj(Iv[i]) if i == k else s
    for i in pvpq:
        J.append([dSa(i, k).real for k in pvpq] + [dSm(i, k).real for k in pq] + [0.0 - X[i].real])
    for i in pq:
        J.append([dSa(i, k).imag for k in pvpq] + [dSm(i, k).imag for k in pq] + [0.0 - X[i].imag])
    return J


def h_corr(env, par, n, ref, pv, pq, mi, jacobian=False):
    env.solver('fresh')
    np_ = env.np
    if n == 3 and mi:
        Y = np_.array([[1 - 4j, -1 + 2j, 2j], [-1 + 2j, 2 - 5j, -1 + 3j], [0.5 + 2j, -1 + 3j, 1 - 6j]])
    else:
        Y = cmat(env, 'y', n, n, lo=-3, hi=3)
    S = [env.cplx(env.var('p%d' % i, -2, 2), env.var('q%d' % i, -2, 2)) for i in range(n)]
    X = [env.cplx(env.var('xp%d' % i, -2, 2), env.var('xq%d' % i, -2, 2)) for i in range(n)]
    vm, va = volt(env, 'v', n)
    vm0, va0 = volt(env, 'w', n)
    lam, lam0 = env.var('lam', -1, 2), env.var('lamp', -1, 2)
    step = env.var('step', 0.001, 1)
    tol = env.var('tol', 0.000001, 50)
    z = np_.array([env.var('z%d' % i, -1, 1) for i in range(2 * n + 1)])
    V0, W = polar(env, vm, va), polar(env, vm0, va0)
    pvpq = pv + pq
    nx = len(pvpq) + len(pq) + 1
    calls = []

    def solve(J, F, *a):
        k = len(calls)
        J = env.dense(J)
        calls.append((J, env.np.asarray(F)))
        return np_.array([env.var('dx%d_%d' % (k, i), -0.1, 0.1, angle=(i < len(pvpq))) for i in range(nx)])
    env.patch('cpf_corrector', 'pplinsolve', solve)
    opt = dict(env.fn('ppoption')())
    opt.update(PF_TOL=tol, PF_MAX_IT=mi, VERBOSE=0, OUT_ALL=0)
    keep = snapshot([V0, W, z])
    V, conv, it, lam1 = env.fn('cpf_corrector')(env.sparse(Y), np_.array(S), V0, I(env, ref), I(env, pv), I(env, pq), lam,
                                                np_.array(X), W, lam0, z, step, par, opt)
    lam1 = env.np.asarray(lam1).reshape(-1)[0]
    env.eq('inputs kept', [V0, W, z], keep)
    env.ok('iteration count', it == len(calls) and it <= mi)
    # replay of the updates
    a1, m1, l1 = list(va), list(vm), lam
    pts = [(list(a1), list(m1), l1)]
    for k in range(it):
        for i, b in enumerate(pvpq):
            a1[b] = a1[b] - env.var('dx%d_%d' % (k, i), -0.1, 0.1, angle=True)
        for i, b in enumerate(pq):
            m1[b] = m1[b] - env.var('dx%d_%d' % (k, len(pvpq) + i), -0.1, 0.1)
        l1 = l1 - env.var('dx%d_%d' % (k, nx - 1), -0.1, 0.1)
        pts.append((list(a1), list(m1), l1))

    def residual(p):
        a, m, l = p
        U = polar(env, m, a)
        Iv = matvec(env, Y, U)
        d = [U[i] * conj(Iv[i]) - S[i] - l * X[i] for i in range(n)]
        return ([d[i].real for i in pvpq] + [d[i].imag for i in pq]
                + [pvalue(env, par, step, z, a, m, l, va0, vm0, lam0, pv, pq)])
    env.eq('voltage returned', V, polar(env, *reversed(pts[-1][:2])))
    env.eq('loading returned', lam1, pts[-1][2])
    for k, (J, F) in enumerate(calls):
        env.eq('residual %d' % k, F, residual(pts[k]))
        if jacobian:
            U = polar(env, pts[k][1], pts[k][0])
            env.eq('jacobian %d' % k, J[:nx - 1, :], np_.array(jac(env, Y, U, X, pv, pq)))
            a, m, l = pts[k]
            if par == 1:
                row = [0.0] * (nx - 1) + [1.0 if l >= lam0 else -1.0]
            elif par == 2:
                if l == lam0:
                    row = None
                else:
                    row = ([2 * (a[i] - va0[i]) for i in pvpq] + [2 * (m[i] - vm0[i]) for i in pq] + [2 * (l - lam0)])
            else:
                row = [z[i] for i in pvpq] + [z[n + i] for i in pq] + [z[2 * n]]
            if row is not None:
                env.eq('parameterization row %d' % k, J[nx - 1, :], row)
    last = [env.abs(r) for r in residual(pts[-1])]
    if conv:
        for k, r in enumerate(last):
            env.cmp('mismatch %d at the reported point' % k, r, tol)
    else:
        env.ok('gave up only at the limit', it >= mi)
        env.cmp('not converged means a mismatch', tol, env.max(last))


def h_pred(env, par, n, ref, pv, pq):
    """the tangent solves J z = e_last, is normalized, and the prediction steps along it"""
    env.solver('fresh')
    np_ = env.np
    Y = cmat(env, 'y', n, n, lo=-3, hi=3)
    X = [env.cplx(env.var('xp%d' % i, -2, 2), env.var('xq%d' % i, -2, 2)) for i in range(n)]
    vm, va = volt(env, 'v', n)
    vm0, va0 = volt(env, 'w', n)
    lam, lam0 = env.var('lam', -1, 2), env.var('lamp', -1, 2)
    step = env.var('step', 0.001, 1)
    pvpq = pv + pq
    nx = len(pvpq) + len(pq) + 1
    zold = np_.zeros(2 * n + 1)
    slots = pvpq + [n + i for i in pq] + [2 * n]
    zo = {}
    for i in slots:
        zo[i] = zold[i] = env.var('z%d' % i, -1, 1)
    V, W = polar(env, vm, va), polar(env, vm0, va0)
    t = [env.var('t%d' % i, -1, 1) for i in range(nx)]
    env.assume(env.Or([env.Not(env.equal(x, 0.0)) for x in t]))
    calls = []

    def solve(J, F, *a):
        calls.append((env.dense(J), env.np.asarray(F)))
        return np_.array(list(t))
    env.patch('cpf_predictor', 'pplinsolve', solve)
    keep = snapshot([V, W])
    V0, l0, z = env.fn('cpf_predictor')(V, lam, env.sparse(Y), np_.array(X), I(env, pv), I(env, pq), step, zold, W, lam0, par)
    env.eq('inputs kept', [V, W], keep)
    env.ok('one solve', len(calls) == 1)
    J, F = calls[0]
    env.eq('right-hand side', F, [0.0] * (nx - 1) + [1.0])
    env.eq('jacobian', J[:nx - 1, :], np_.array(jac(env, Y, V, X, pv, pq)))
    if par == 1:
        row = [0.0] * (nx - 1) + [1.0 if lam >= lam0 else -1.0]
    elif par == 2:
        row = ([2 * (va[i] - va0[i]) for i in pvpq] + [2 * (vm[i] - vm0[i]) for i in pq] + [2 * (lam - lam0)])
        if lam == lam0:
            row[-1] = 1.0
    else:
        row = [zo[i] for i in slots]
    env.eq('parameterization row', J[nx - 1, :], row)
    s2 = 0.0
    for x in t:
        s2 = s2 + x * x
    s = env.sqrt(s2)
    want = [0.0] * (2 * n + 1)
    for i, x in zip(slots, t):
        want[i] = x / s
    env.eq('tangent', z, want)
    env.eq('predicted loading', env.np.asarray(l0).reshape(-1)[0], lam + step * z[2 * n])
    # the predicted voltage: magnitudes and angles moved along the tangent
    for i in range(n):
        m = vm[i] + step * z[n + i] if i in pq else vm[i]
        env.eq('predicted magnitude %d' % i, V0[i].real * V0[i].real + V0[i].imag * V0[i].imag, m * m)
    for i in ref:
        env.eq('reference voltage', V0[i], keep[0][i])
    ph = [env.cplx(env.cos(va[i]), env.sin(va[i])) for i in range(n)]
    for i in pvpq:
        m = vm[i] + step * z[n + i] if i in pq else vm[i]
        d = step * z[i]
        env.eq('predicted angle %d' % i, V0[i], m * env.polar(1.0, d) * ph[i])


def h_run(env, par, stop, adapt, steps, n=3, ext=None, base_ok=True):
    """driver: what is handed to predictor and corrector, when it stops, what it reports"""
    np_ = env.np
    ext = ext or [1, 2, 3]
    bus, gen, br = np_.zeros((n, 13)), np_.zeros((3, 21)), np_.zeros((2, 13))
    pd0 = [10.0, 20.0, 40.0]
    # the demand of a bus may also stay as it is, in either part
    tgt = [env.var('pd%d' % i, 50 if i == 2 else 0, 200) for i in range(n)]
    tgq = [env.var('qd%d' % i, -20, 60) for i in range(n)]
    for i in range(n):
        bus[i, 0] = float(ext[i])
        bus[i, 1] = [3.0, 2.0, 1.0][i]
        bus[i, 2], bus[i, 3] = pd0[i], pd0[i] / 2
        bus[i, 6], bus[i, 7], bus[i, 9], bus[i, 10], bus[i, 11], bus[i, 12] = 1.0, 1.0, 135.0, 1.0, 1.1, 0.9
    for k, b in enumerate([1, 0, 1]):
        gen[k, 0], gen[k, 1], gen[k, 3], gen[k, 4], gen[k, 5], gen[k, 6] = float(ext[b]), 15.0 + k, 90.0, -90.0, 1.0, 100.0
        gen[k, 7], gen[k, 8] = (1.0 if k < 2 else 0.0), 200.0
    br[0, 0], br[0, 1], br[0, 2], br[0, 3], br[0, 10] = float(ext[0]), float(ext[1]), 0.01, 0.1, 1.0
    br[1, 0], br[1, 1], br[1, 2], br[1, 3], br[1, 10] = float(ext[1]), float(ext[2]), 0.02, 0.2, 1.0
    base = dict(version='2', baseMVA=100.0, bus=bus, gen=gen, branch=br)
    bus2, gen2 = bus.copy(), gen.copy()
    pg2 = env.var('pgt', 0, 150)
    for i in range(n):
        bus2[i, 2], bus2[i, 3] = tgt[i], tgq[i]
    gen2[0, 1] = pg2
    target = dict(version='2', baseMVA=100.0, bus=bus2, gen=gen2, branch=br.copy())
    keep = snapshot([bus, gen, br, bus2, gen2, target['branch']])
    ref, pv, pq = [0], [1], [2]
    pts, pred, corr, done = [], [], [], []
    h0 = env.var('step', 0.02, 0.5)
    stop_at = env.var('stop', 0.05, 2) if stop == 'value' else stop

    def point(nm):
        vm, va = [1.0], [0.0]
        for i in (1, 2):
            vm.append(env.var('%sm%d' % (nm, i), 0.8, 1.2) if i == 2 else 1.0)
            va.append(env.var('%sa%d' % (nm, i), -1, 1, angle=True))
        return vm, va, polar(env, vm, va)

    def newton(Y, S, V0, rf, pvb, pqb, o):
        pts.append((point('b'), 0.0))
        done.append(('pf', S, V0))
        return pts[0][0][2], (1 if base_ok else 0), 4

    def predictor(V, lam, Y, X, pvb, pqb, step, z, Vp, lp, p):
        k = len(pred)
        q = point('p%d' % k)
        l = env.var('plam%d' % k, -1, 3)
        zz = np_.array([float(k + 1 + i) for i in range(2 * n + 1)])
        pred.append(dict(V=V, lam=lam, X=X, step=step, z=z, Vp=Vp, lp=lp, par=p, out=(q[2], l, zz), roles=(pvb, pqb)))
        return q[2], l, zz

    def corrector(Y, S, V0, rf, pvb, pqb, l0, X, Vp, lp, z, step, p, o):
        k = len(corr)
        q = point('c%d' % k)
        l = env.var('clam%d' % k, -1, 3)
        good = 1 if k + 1 < steps and env.choice('fail%d' % k, [0, 1]) == 0 else 0
        corr.append(dict(S=S, V0=V0, l0=l0, X=X, Vp=Vp, lp=lp, z=z, step=step, par=p, ok=good, roles=(rf, pvb, pqb)))
        pts.append((q, l))
        return q[2], good, k + 2, np_.array([l])
    env.patch('runcpf', 'newtonpf', newton)
    env.patch('runcpf', 'cpf_predictor', predictor)
    env.patch('runcpf', 'cpf_corrector', corrector)
    env.patch('runcpf', 'printpf', lambda *a, **k: None)
    opt = dict(env.fn('ppoption')())
    etol = 0.05
    opt.update(VERBOSE=0, OUT_ALL=0, CPF_STEP=h0, CPF_PARAMETERIZATION=par, CPF_ADAPT_STEP=adapt, CPF_STOP_AT=stop_at,
               CPF_STEP_MIN=0.01, CPF_STEP_MAX=0.4, CPF_ERROR_TOL=etol)
    res, ok = env.fn('runcpf')(base, target, opt)
    env.eq('caller cases kept', [bus, gen, br, bus2, gen2, target['branch']], keep)
    if not base_ok:
        env.ok('no continuation from an unsolved base case', not pred and not corr and not ok and not res['success'])
        env.ok('no curve reported', 'lam_c' not in res['cpf'] and 'V_c' not in res['cpf'])
        return
    m = len(corr)
    env.ok('steps alternate', len(pred) == m and m >= 1)
    g0, g2 = [16.0, 15.0], [16.0, pg2]
    Sb = [env.cplx(((16.0 if i == 0 else 15.0 if i == 1 else 0.0) - pd0[i]) / 100, -pd0[i] / 200) for i in range(n)]
    St = [env.cplx(((16.0 if i == 0 else pg2 if i == 1 else 0.0) - tgt[i]) / 100, -tgq[i] / 100) for i in range(n)]
    Xs = [b - a for a, b in zip(Sb, St)]
    step = h0
    p, ad = par, adapt
    for k in range(m):
        a, c = pred[k], corr[k]
        lam = lambda q: pts[q][1]
        env.eq('injections %d' % k, [c['S'], c['X'], a['X']], [Sb, Xs, Xs])
        env.ok('roles %d' % k, [list(map(int, r)) for r in c['roles']] == [ref, pv, pq]
               and [list(map(int, r)) for r in a['roles']] == [pv, pq])
        env.eq('predictor starts from the last point %d' % k, [a['V'], np_.asarray(a['lam']).reshape(-1)], [pts[k][0][2], [lam(k)]])
        env.eq('predictor previous point %d' % k, [a['Vp'], np_.asarray(a['lp']).reshape(-1)],
               [pts[max(k - 1, 0)][0][2], [lam(max(k - 1, 0))]])
        env.eq('corrector starts from the prediction %d' % k, [c['V0'], c['l0'], c['z']], list(a['out']))
        env.eq('corrector previous point %d' % k, [c['Vp'], np_.asarray(c['lp']).reshape(-1)], [pts[k][0][2], [lam(k)]])
        if k:
            env.eq('tangent carried %d' % k, a['z'], pred[k - 1]['out'][2])
        env.eq('step %d' % k, [np_.asarray(a['step']).reshape(-1)[0], np_.asarray(c['step']).reshape(-1)[0]], [step, step])
        env.ok('parameterization %d' % k, a['par'] == p and c['par'] == p)
        l, lp = lam(k + 1), lam(k)
        if not c['ok']:
            env.ok('stops at a failure', k == m - 1 and not ok)
            break
        end = False
        if stop == 'NOSE':
            end = l < lp
        elif stop == 'FULL':
            if env.abs(l) < 1e-8:
                end = True
            elif l < lp and l - step < 0:
                step, p, ad = l, 1, False
        else:
            if l < lp:
                end = True
            elif env.abs(stop_at - l) < 1e-8:
                end = True
            elif l + step > stop_at:
                step, p, ad = stop_at - l, 1, False
        env.ok('stops exactly when the rule says %d' % k, bool(end) == (k == m - 1))
        if end:
            break
        if ad:
            q, (w, lw) = pts[k + 1], (a['out'][0], a['out'][1])
            err = env.max([env.abs(env.var('c%da2' % k, -1, 1, angle=True) - env.var('p%da2' % k, -1, 1, angle=True)), 0.0,
                           env.abs(env.var('c%dm2' % k, 0.8, 1.2) - env.var('p%dm2' % k, 0.8, 1.2)),
                           env.abs(l - lw)])
            env.assume(err > 0.0001)
            step = step * etol / err
            if err < etol:
                step = 0.4 if step > 0.4 else step
            else:
                step = 0.01 if step < 0.01 else step
    V, l = pts[m][0][2], pts[m][1]
    B, G = res['bus'], res['gen']
    env.ok('success flag', bool(ok) == bool(corr[-1]['ok']) and bool(res['success']) == bool(ok))
    env.eq('final loads', [B[:, 2], B[:, 3]],
           [[pd0[i] + l * (tgt[i] - pd0[i]) for i in range(n)], [pd0[i] / 2 + l * (tgq[i] - pd0[i] / 2) for i in range(n)]])
    env.eq('final output', [G[0, 1], G[2, 1]], [15.0 + l * (pg2 - 15.0), 0.0])
    env.eq('final magnitudes', B[:, 7], pts[m][0][0])
    env.eq('final angles', B[:, 8], [x * 180 / np.pi for x in pts[m][0][1]])
    cpf = res['cpf']
    if ok:
        env.ok('iterations', cpf['iterations'] == m)
        env.eq('loadings', [cpf['lam_c'], cpf['lam_p']],
               [[q[1] for q in pts], [0.0] + [a['out'][1] for a in pred]])
        env.eq('largest loading', cpf['max_lam'], env.max([q[1] for q in pts]))
        for k in range(m + 1):
            env.eq('voltages %d' % k, [cpf['V_c'][:, k], cpf['V_p'][:, k]],
                   [pts[k][0][2], pred[k - 1]['out'][0] if k else pts[0][0][2]])
    else:
        env.ok('no curve for a failure', 'lam_c' not in cpf)


def h_same(env, what):
    """identical base and target: the base point is the whole curve"""
    np_ = env.np
    n = 2
    bus, gen, br = np_.zeros((n, 13)), np_.zeros((1, 21)), np_.zeros((1, 13))
    pd = env.var('pd', -50, 50)
    for i in range(n):
        bus[i, 0], bus[i, 1], bus[i, 2], bus[i, 3] = float(i + 1), [3.0, 1.0][i], (pd if i else 0.0), 5.0 * i
        bus[i, 6], bus[i, 7], bus[i, 9], bus[i, 10], bus[i, 11], bus[i, 12] = 1.0, 1.0, 135.0, 1.0, 1.1, 0.9
    gen[0, 0], gen[0, 1], gen[0, 3], gen[0, 4], gen[0, 5], gen[0, 6], gen[0, 7], gen[0, 8] = 1., 15., 90., -90., 1., 100., 1., 200.
    br[0, 0], br[0, 1], br[0, 2], br[0, 3], br[0, 10] = 1.0, 2.0, 0.01, 0.1, 1.0
    base = dict(version='2', baseMVA=100.0, bus=bus, gen=gen, branch=br)
    V = np_.array([env.polar(1.0, 0.0), env.polar(env.var('vm', 0.8, 1.2), env.var('va', -1, 1, angle=True))])
    good = env.choice('solved', [0, 1])
    env.patch('runcpf', 'newtonpf', lambda *a: (V, good, 3))
    env.patch('runcpf', 'printpf', lambda *a, **k: None)

    def never(*a, **k):
        raise AssertionError('nothing to continue')
    env.patch('runcpf', 'cpf_predictor', never)
    opt = dict(env.fn('ppoption')())
    opt.update(VERBOSE=0, OUT_ALL=0)
    res, ok = env.fn('runcpf')(base, base if what == 'same' else snapshot(base), opt)
    env.ok('success flag', bool(ok) == bool(good) and bool(res['success']) == bool(good))
    env.eq('loads', res['bus'][:, 2], [0.0, pd])
    if good:
        cpf = res['cpf']
        env.eq('curve', [cpf['V_c'][:, 0], cpf['lam_c'], cpf['max_lam']], [V, [0.0], 0.0])
        env.ok('one point', cpf['V_c'].shape == (2, 1) and cpf['iterations'] == 0)


def harnesses(tier):
    deep = tier != 'quick'
    out = []
    roles = [('refpq', 2, [0], [], [1]), ('refpv', 2, [1], [0], []), ('all', 3, [1], [2], [0])]
    for par in (1, 2, 3):
        for nm, n, r, pv, pq in roles:
            out.append(('p%d_%s' % (par, nm), h_p, dict(par=par, n=n, pv=pv, pq=pq), {}))
            out.append(('predictor%d_%s' % (par, nm), h_pred, dict(par=par, n=n, ref=r, pv=pv, pq=pq), dict(budget_s=300)))
            for mi in (0, 1, 2):
                if mi > 1 and (n > 2 or not deep):
                    continue
                out.append(('corrector%d_%s_%d' % (par, nm, mi), h_corr,
                            dict(par=par, n=n, ref=r, pv=pv, pq=pq, mi=mi, jacobian=mi > 0),
                            dict(budget_s=400, feas_ms=300, goal_ms=20000)))
    for stop in ('NOSE', 'FULL', 'value'):
        for adapt in (False, True):
            out.append(('run_%s_%d' % (stop, adapt), h_run, dict(par=3, stop=stop, adapt=adapt, steps=4 if deep else 3),
                        dict(budget_s=400)))
    out.append(('run_par2_renumbered', h_run, dict(par=2, stop='NOSE', adapt=False, steps=2, ext=[30, 10, 20]), dict(budget_s=300)))
    out.append(('run_base_failed', h_run, dict(par=3, stop='NOSE', adapt=False, steps=2, base_ok=False), {}))
    out.append(('same', h_same, dict(what='same'), {}))
    out.append(('equal', h_same, dict(what='equal'), {}))
    return out
