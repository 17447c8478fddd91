"""C10: newtonpf, fdpf, gausspf: converged means solved."""
import numpy as np

from checks.lib import cmat, conj, matvec, snapshot

INFO = dict(
    functions=['newtonpf', 'fdpf', 'gausspf', 'dSbus_dV', 'pplinsolve'],
    bounds='2-3 buses with every role pattern, arbitrary complex admittance matrix and injections, arbitrary start, tolerance '
           'in (0, 50]; iteration limits 0..2',
    outside='networks without PQ buses for the fast-decoupled method; more iterations; B matrices of fdpf arbitrary',
    assumptions='the linear solver returns a solution of its system; exact real arithmetic')


def opts(env, tol, mi):
    p = dict(env.fn('ppoption')())
    p['PF_TOL'] = tol
    for k in ('PF_MAX_IT', 'PF_MAX_IT_FD', 'PF_MAX_IT_GS'):
        p[k] = mi
    p['VERBOSE'] = 0
    p['OUT_ALL'] = 0
    return p


def h(env, which, n, ref, pv, pq, mi, lim=3.0):
    env.solver('fresh')
    env.assume_denominators()
    if which == 'gausspf':
        env.name_long(8)
    np_ = env.np
    Y = cmat(env, 'y', n, n, lo=-lim, hi=lim)
    Sb = [env.cplx(env.var('p%d' % i, -2, 2), env.var('q%d' % i, -2, 2)) for i in range(n)]
    S = np_.array(Sb)
    vm = [env.var('vm%d' % i, 0.8, 1.2) for i in range(n)]
    va = [env.var('va%d' % i, -1, 1, angle=True) for i in range(n)]
    V0 = np_.array([env.polar(a, b) for a, b in zip(vm, va)])
    keep = snapshot(V0)
    tol = env.var('tol', 0.000001, 50)
    I = lambda x: np_.array(x, dtype=int)
    args = [env.sparse(Y), S, V0]
    if which == 'fdpf':
        Bp = env.mat('bp', n, n, -lim, lim)
        Bpp = env.mat('bpp', n, n, -lim, lim)
        args += [env.sparse(Bp), env.sparse(Bpp)]
    V, conv, it = env.fn(which)(*(args + [I(ref), I(pv), I(pq), opts(env, tol, mi)]))
    V = env.np.asarray(V)
    if not env.symbolic:
        env.assume(np.all(np.isfinite(V)))      # breakdowns (division by zero) are outside
    env.ok('iteration limit', it <= mi)
    env.eq('V0 kept', V0, keep)
    env.eq('reference voltage', np_.array([V[i] for i in ref]), np_.array([keep[i] for i in ref]))
    env.eq('PV magnitude', [V[i].real * V[i].real + V[i].imag * V[i].imag for i in pv], [vm[i] * vm[i] for i in pv])
    Iv = matvec(env, Y, V)
    mp = [(V[i] * conj(Iv[i])).real - Sb[i].real for i in pv + pq]
    mq = [(V[i] * conj(Iv[i])).imag - Sb[i].imag for i in pq]
    if which == 'fdpf':            # its mismatch is taken per unit of voltage magnitude
        mp = [m / env.abs(V[i]) for m, i in zip(mp, pv + pq)]
        mq = [m / env.abs(V[i]) for m, i in zip(mq, pq)]
    if conv:
        for m in mp:
            env.cmp('P mismatch', env.abs(m), tol)
        for m in mq:
            env.cmp('Q mismatch', env.abs(m), tol)
    else:
        env.ok('gave up only at the limit', it >= mi)
        env.cmp('not converged means a mismatch', tol, env.max([env.abs(m) for m in mp + mq]))


def harnesses(tier):
    out = []
    roles = [('refpq', 2, [0], [], [1]), ('refpv', 2, [1], [0], []), ('all', 3, [0], [1], [2])]
    for w in ('newtonpf', 'gausspf', 'fdpf'):
        for nm, n, r, pv, pq in roles:
            if w == 'fdpf' and not pq:
                continue
            for mi in (0, 1, 2):
                if n == 3 and mi > 1 or w == 'fdpf' and mi > 1 and tier == 'quick':
                    continue
                out.append(('%s_%s_%d' % (w, nm, mi), h, dict(which=w, n=n, ref=r, pv=pv, pq=pq, mi=mi),
                            dict(budget_s=400, feas_ms=300, goal_ms=8000)))
    return out
