"""C09: second derivatives of injections, flows, currents and their squared magnitudes."""
from checks.lib import voltages, vbuild, cmat, cols, matvec, conj
from checks.c08_derivs import _flows, branch_table, pat

INFO = dict(
    functions=['d2Sbus_dV2', 'd2Sbr_dV2', 'd2Ibr_dV2', 'd2AIbr_dV2', 'd2ASbr_dV2'],
    bounds='2-3 buses, 1-2 branches, arbitrary complex admittance matrices, voltages and multipliers (complex weights for '
           'd2Sbr/d2Ibr); first-derivative arguments of the squared-magnitude functions are the real code\'s own (decided by C08)',
    outside='larger networks')


def hess(env, L, x, n):
    """blocks (aa, av, va, vv) of the Hessian of the scalar L(x), x = [vm, va]"""
    def grad(y):
        return env.np.array([d[0] for d in env.diff(L, y)]) if not env.symbolic else None
    if env.symbolic:
        g = [d[0] for d in env.diff(L, x)]
        G = env.np.array(g)
        H = env.diff(lambda y: G, x)          # symbolic: derivative of the gradient expression
        H = [[H[j][i] for j in range(2 * n)] for i in range(2 * n)]
    else:
        import numpy as np
        f = lambda y: complex(L(y)[0])
        h = 1e-4
        N = 2 * n
        H = [[0] * N for _ in range(N)]
        for i in range(N):
            for j in range(N):
                def at(a, b):
                    y = list(x)
                    y[i] += a
                    y[j] += b
                    return f(y)
                H[i][j] = (at(h, h) - at(h, -h) - at(-h, h) + at(-h, -h)) / (4 * h * h)
    m, a = range(n), range(n, 2 * n)
    blk = lambda r, c: env.np.array([[H[i][j] for j in c] for i in r])
    return blk(a, a), blk(a, m), blk(m, a), blk(m, m)


NM = ('aa', 'av', 'va', 'vv')


def cmpblocks(env, got, want):
    for nm, g, w in zip(NM, got, want):
        env.eq(nm, env.dense(g) + 0 * w, w, tol=2e-4)


def h_bus(env, n):
    vm, va = voltages(env, n)
    Y = cmat(env, 'y', n, n)
    V = vbuild(env, vm, va)
    lam = [env.var('lam%d' % i, -5, 5) for i in range(n)]

    def L(x):
        v = vbuild(env, x[:n], x[n:])
        I = matvec(env, Y, v)
        acc = lam[0] * v[0] * conj(I[0])
        for i in range(1, n):
            acc = acc + lam[i] * v[i] * conj(I[i])
        return env.np.array([acc])
    got = env.fn('d2Sbus_dV2')(env.sparse(Y), V, env.arr(lam))
    cmpblocks(env, got, hess(env, L, vm + va, n))


def conn(env, ends, n, side):
    C = env.np.zeros((len(ends), n))
    for k, e in enumerate(ends):
        C[k, e[side]] = 1.0
    return env.sparse(C)


def h_br(env, n, ends, side, which, lamc):
    """flows or currents; lam complex (as used by the squared-magnitude functions)"""
    vm, va = voltages(env, n)
    nl = len(ends)
    Y = cmat(env, 'y', nl, n, pat(n, ends))
    V = vbuild(env, vm, va)
    if lamc:
        lam = env.np.array([env.cplx(env.var('lr%d' % k, -5, 5), env.var('li%d' % k, -5, 5)) for k in range(nl)])
    else:
        lam = env.arr([env.var('lr%d' % k, -5, 5) for k in range(nl)])

    def L(x):
        v = vbuild(env, x[:n], x[n:])
        I = matvec(env, Y, v)
        acc = env.cplx(0.0, 0.0)
        for k in range(nl):
            acc = acc + lam[k] * (I[k] if which == 'I' else v[ends[k][side]] * conj(I[k]))
        return env.np.array([acc])
    if which == 'I':
        got = env.fn('d2Ibr_dV2')(env.sparse(Y), V, lam)
    else:
        got = env.fn('d2Sbr_dV2')(conn(env, ends, n, side), env.sparse(Y), V, lam)
    cmpblocks(env, got, hess(env, L, vm + va, n))


def h_abs2(env, n, ends, side, which):
    vm, va = voltages(env, n)
    nl = len(ends)
    Y = cmat(env, 'y', nl, n, pat(n, ends))
    V = vbuild(env, vm, va)
    lam = env.arr([env.var('lr%d' % k, -5, 5) for k in range(nl)])
    br = branch_table(env, ends)
    Ys = env.sparse(Y)
    fn = env.fn('dSbr_dV' if which == 'S' else 'dIbr_dV')
    r = fn(br, Ys, Ys, V)
    dVa, dVm, F = (r[0], r[1], r[4]) if side == 0 else (r[2], r[3], r[5])

    def L(x):
        v = vbuild(env, x[:n], x[n:])
        I = matvec(env, Y, v)
        acc = 0.0
        for k in range(nl):
            z = I[k] if which == 'I' else v[ends[k][side]] * conj(I[k])
            acc = acc + lam[k] * (z.real * z.real + z.imag * z.imag)
        return env.np.array([acc])
    if which == 'I':
        got = env.fn('d2AIbr_dV2')(dVa, dVm, F, Ys, V, lam)
    else:
        got = env.fn('d2ASbr_dV2')(dVa, dVm, F, conn(env, ends, n, side), Ys, V, lam)
    cmpblocks(env, got, hess(env, L, vm + va, n))


def harnesses(tier):
    out = [('bus2', h_bus, dict(n=2), None), ('bus3', h_bus, dict(n=3), None)]
    for side in (0, 1):
        for w in 'SI':
            out.append(('br_%s_%d_2bus' % (w, side), h_br, dict(n=2, ends=[(0, 1), (1, 0)], side=side, which=w, lamc=True), None))
            out.append(('br_%s_%d_3bus' % (w, side), h_br, dict(n=3, ends=[(0, 2), (2, 1)], side=side, which=w, lamc=False), None))
            out.append(('abs2_%s_%d_2bus' % (w, side), h_abs2, dict(n=2, ends=[(0, 1)], side=side, which=w), None))
            out.append(('abs2_%s_%d_3bus' % (w, side), h_abs2, dict(n=3, ends=[(0, 2), (2, 1)], side=side, which=w),
                        dict(budget_s=600)))
    if tier == 'thorough':
        out.append(('bus4', h_bus, dict(n=4), None))
    return out
