"""C27: opf_consfcn constraint values and transposed Jacobians."""
from checks.lib import voltages, vbuild, cmat, matvec, conj, bus_rows, branch_rows
from checks.c08_derivs import pat

INFO = dict(
    functions=['opf_consfcn', 'makeSbus', 'dSbus_dV', 'dSbr_dV', 'dIbr_dV', 'dAbr_dV', 'opf_model (index ranges)'],
    bounds='2-3 buses, 0-3 branches with arbitrary admittance rows, 1-3 generators in any listed placement, ratings, loads, '
           'dispatch and voltages symbolic; three limit kinds; every listed subset and order of limited branches, or the '
           'default of all branches with zero meaning no limit; with and without further variables',
    outside='larger networks; offline generators (internal indexing has none)')


def h(env, nb, ends, gbus, lim, il, nz=0, loads=True):
    np_ = env.np
    base = env.var('base', 10, 200)
    n, ng, nl = nb, len(gbus), len(ends)
    vm, va = voltages(env, nb)
    bus = bus_rows(env, [1.0] * nb, sh=(0, 0)) if loads else np_.zeros((nb, 13))
    gen = np_.zeros((ng, 21))
    for k, b in enumerate(gbus):
        gen[k, 0], gen[k, 7], gen[k, 1], gen[k, 2] = b, 1, 11.0, 12.0
    br = np_.zeros((nl, 21))
    for k, (f, t) in enumerate(ends):
        br[k, 0], br[k, 1], br[k, 10] = f, t, 1.0
        br[k, 5] = env.var('rate%d' % k, 1, 500)
    if il is None:
        rows = list(range(nl))
        if nl and env.choice('zero', [0, 1]):
            br[0, 5] = 0.0
    else:
        rows = il
    le = [ends[k] for k in rows]
    Y = cmat(env, 'y', nb, nb)
    Yf, Yt = cmat(env, 'yf', len(rows), nb, pat(nb, le)), cmat(env, 'yt', len(rows), nb, pat(nb, le))
    om = env.fn('opf_model')(dict(baseMVA=base, bus=bus, gen=gen, branch=br))
    for v, k in (('Va', nb), ('Vm', nb), ('Pg', ng), ('Qg', ng)) + ((('y', nz),) if nz else ()):
        om.add_vars(v, k)
    pg = [env.var('pg%d' % k, -3, 3) for k in range(ng)]
    qg = [env.var('qg%d' % k, -3, 3) for k in range(ng)]
    x = va + vm + pg + qg + [env.var('z%d' % k, -3, 3) for k in range(nz)]
    nx = len(x)

    def G(x):
        v = vbuild(env, x[nb:2 * nb], x[:nb])
        I = matvec(env, Y, v)
        P, Q = [], []
        for i in range(nb):
            s = v[i] * conj(I[i])
            p, q = s.real + bus[i, 2] / base, s.imag + bus[i, 3] / base
            for k in range(ng):
                if gbus[k] == i:
                    p, q = p - x[2 * nb + k], q - x[2 * nb + ng + k]
            P.append(p)
            Q.append(q)
        return np_.array(P + Q)

    def F(x):
        v = vbuild(env, x[nb:2 * nb], x[:nb])
        out = []
        for side, Yx in ((0, Yf), (1, Yt)):
            I = matvec(env, Yx, v) if len(rows) else []
            for k in range(len(rows)):
                s = I[k] if lim == 2 else v[le[k][side]] * conj(I[k])
                out.append(s.real * s.real if lim == 1 else s.real * s.real + s.imag * s.imag)
        return np_.array(out)
    X = np_.array(x)
    args = (X, om, env.sparse(Y), env.sparse(Yf), env.sparse(Yt), dict(OPF_FLOW_LIM=lim))
    hh, g, dh, dg = env.fn('opf_consfcn')(*args) if il is None else env.fn('opf_consfcn')(*(args + (np_.array(il, dtype=int),)))
    env.eq('power balance', g, G(x))
    env.eq('argument kept', X, x)
    want = np_.array(env.diff(G, x))
    env.ok('size of dg', dg.shape == (nx, 2 * nb))
    dg = env.dense(dg)
    for j in range(nx):
        env.eq('balance Jacobian', [dg[j, i] for i in range(2 * nb)], [want[j][i] for i in range(2 * nb)], tol=1e-5)
    m = len(rows)
    env.ok('number of flow limits', hh.shape == (2 * m,))
    if not m:
        env.ok('no flow Jacobian', dh is None)
        return
    f = F(x)
    for k in range(2 * m):
        r = br[rows[k % m], 5]
        if r == 0:
            env.ok('no limit', hh[k] == -np_.inf)
        else:
            env.eq('flow limit', hh[k], f[k] - (r / base) * (r / base))
    want = env.diff(F, x)
    env.ok('size of dh', dh.shape == (nx, 2 * m))
    dh = env.dense(dh)
    for j in range(nx):
        env.eq('flow Jacobian', [dh[j, i] for i in range(2 * m)], [want[j][i] for i in range(2 * m)], tol=1e-5)


def harnesses(tier):
    out = []
    for lim in (0, 1, 2):
        s = 'SPI'[lim]
        out += [('%s_2bus' % s, h, dict(nb=2, ends=[(0, 1), (1, 0)], gbus=[1, 0], lim=lim, il=None), {}),
                ('%s_3bus' % s, h, dict(nb=3, ends=[(0, 2), (2, 1)], gbus=[2, 0, 2], lim=lim, il=[0, 1], nz=1), {}),
                ('%s_all' % s, h, dict(nb=2, ends=[(0, 1), (1, 0), (0, 1)], gbus=[0], lim=lim, il=None, loads=False), {}),
                ('%s_few' % s, h, dict(nb=3, ends=[(2, 1)], gbus=[0], lim=lim, il=None, loads=False), {}),
                ('%s_some' % s, h, dict(nb=3, ends=[(0, 1), (2, 1), (1, 0)], gbus=[1], lim=lim, il=[1], loads=False), {}),
                ('%s_order' % s, h, dict(nb=3, ends=[(0, 1), (2, 1), (1, 0)], gbus=[1], lim=lim, il=[2, 1], nz=2, loads=False), {})]
    out += [('nolimits', h, dict(nb=2, ends=[(0, 1)], gbus=[0], lim=0, il=[]), {}),
            ('nobranch', h, dict(nb=2, ends=[], gbus=[0, 0], lim=2, il=[], nz=1), {})]
    if tier == 'thorough':
        for lim in (0, 1, 2):
            out.append(('%s_4bus' % 'SPI'[lim], h, dict(nb=4, ends=[(0, 3), (3, 1), (1, 2), (2, 0)], gbus=[3, 1], lim=lim,
                                                        il=[3, 0, 1]), {}))
    return out
