"""C28: opf_hessfcn is the Hessian of the Lagrangian."""
from checks.lib import voltages, vbuild, cmat, matvec, conj
from checks.c08_derivs import pat
from checks.c09_hess import hess
from checks.c26_costfcn import model, user_costs, expected, no_edge

INFO = dict(
    functions=['opf_hessfcn', 'd2Sbus_dV2', 'd2ASbr_dV2', 'd2AIbr_dV2', 'dSbr_dV', 'dIbr_dV', 'polycost', 'opf_model'],
    bounds='2-3 buses, 0-2 limited branches with arbitrary admittance rows (in any listed order, out of up to 3), voltages, '
           'multipliers, dispatch, cost multiplier and cost data symbolic; three limit kinds; polynomial/piecewise linear '
           'active and reactive costs; generalized costs as in C26',
    outside='larger networks; see C26 for the generalized cost', assumptions='H symmetric; |r| != kk where kk > 0')


def h(env, nb, ends, gbus, lim, il, kp, kq=None, nz=0, nw=0, have='', pattern=None, mult=True, part='all'):
    np_ = env.np
    ng, nl = len(gbus), len(ends)
    vm, va = voltages(env, nb)
    gen = np_.zeros((ng, 21))
    for k, b in enumerate(gbus):
        gen[k, 0], gen[k, 7] = b, 1
    br = np_.zeros((nl, 21))
    for k, (f, t) in enumerate(ends):
        br[k, 0], br[k, 1], br[k, 10], br[k, 5] = f, t, 1.0, 100.0
    rows = list(range(nl)) if il is None else il
    le, m = [ends[k] for k in rows], len(rows)
    Y = cmat(env, 'y', nb, nb)
    Yf, Yt = cmat(env, 'yf', m, nb, pat(nb, le)), cmat(env, 'yt', m, nb, pat(nb, le))
    om, base, kinds, ds, ny = model(env, kp, kq, nb, nz, gen)
    ppc = om.get_ppc()
    ppc['bus'], ppc['branch'] = np_.zeros((nb, 13)), br
    x = va + vm + [env.var('pg%d' % k, -3, 3) for k in range(ng)] + [env.var('qg%d' % k, -3, 3) for k in range(ng)]
    nx = len(x) + ny + nz
    x = x + [env.var('z%d' % k, -3, 3) for k in range(ny + nz)]
    cp = user_costs(env, om, nx, nw, have, pattern) if nw else None
    om.build_cost_params()
    if nw:
        no_edge(env, cp, x, nw)
    lam = [env.var('lam%d' % k, -5, 5) for k in range(2 * nb)]
    mu = [env.var('mu%d' % k, 0, 5) for k in range(2 * m)]
    cm = env.var('mult', -5, 5)

    def LG(y):
        v = vbuild(env, y[:nb], y[nb:])
        I = matvec(env, Y, v)
        acc = env.cplx(0.0, 0.0)
        for i in range(nb):
            s = v[i] * conj(I[i])
            acc = acc + lam[i] * s.real + lam[nb + i] * s.imag
        return np_.array([acc])

    def LF(y):
        v = vbuild(env, y[:nb], y[nb:])
        acc = env.cplx(0.0, 0.0)
        for side, Yx in ((0, Yf), (1, Yt)):
            I = matvec(env, Yx, v) if m else []
            for k in range(m):
                s = I[k] if lim == 2 else v[le[k][side]] * conj(I[k])
                acc = acc + mu[side * m + k] * (s.real * s.real if lim == 1 else s.real * s.real + s.imag * s.imag)
        return np_.array([acc])
    X = np_.array(x)
    d = dict(eqnonlin=np_.array(lam), ineqnonlin=np_.array(mu))
    kw = {}
    if il is not None:
        kw['il'] = np_.array(il, dtype=int)
    if mult:
        kw['cost_mult'] = cm
    H = env.fn('opf_hessfcn')(X, d, om, env.sparse(Y), env.sparse(Yf), env.sparse(Yt), dict(OPF_FLOW_LIM=lim), **kw)
    env.ok('size', H.shape == (nx, nx))
    env.eq('argument kept', X, x)
    H = env.dense(H)
    _, _, want = expected(env, x, ng, nb, kinds, ds, base, ny, cp, nw)
    if mult:
        want = [[cm * e for e in r] for r in want]
    for L in ([LG, LF] if m else [LG]):
        aa, av, va_, vv = hess(env, L, vm + va, nb)
        for i in range(nb):
            for j in range(nb):
                want[i][j] = want[i][j] + aa[i, j].real
                want[i][nb + j] = want[i][nb + j] + av[i, j].real
                want[nb + i][j] = want[nb + i][j] + va_[i, j].real
                want[nb + i][nb + j] = want[nb + i][nb + j] + vv[i, j].real
    for i in range(nx):
        env.eq('Hessian', [H[i, j] for j in range(nx)], want[i], tol=3e-4)


def harnesses(tier):
    out = []
    c = dict(kp=['p3'])
    for lim in (0, 1, 2):
        s = 'SPI'[lim]
        out += [('%s_2bus' % s, h, dict(nb=2, ends=[(0, 1)], gbus=[0], lim=lim, il=None, **c), {}),
                ('%s_3bus' % s, h, dict(nb=3, ends=[(0, 2), (2, 1)], gbus=[2], lim=lim, il=[0, 1], nz=1, **c), dict(budget_s=600)),
                ('%s_order' % s, h, dict(nb=3, ends=[(0, 1), (2, 1), (1, 0)], gbus=[1], lim=lim, il=[2, 1], **c), dict(budget_s=600)),
                ('%s_some' % s, h, dict(nb=2, ends=[(0, 1), (1, 0)], gbus=[1, 0], lim=lim, il=[1], kp=['w2', 'p2'], mult=False),
                 {})]
        out.append(('%s_none' % s, h, dict(nb=2, ends=[(0, 1)], gbus=[0], lim=lim, il=[], **c), {}))
    small = dict(nb=1, ends=[], gbus=[0], lim=0, il=[])
    for kp, kq in ((['p3'], ['p3']), (['w2'], ['p4']), (['p4'], ['w2']), (['p3', 'w2'], ['w2', 'p3']), (['p1', 'p4'], ['p3', 'p2']),
                   (['w3'], None), (['p5', 'p2'], None), (['w3', 'p4'], ['p1', 'p4'])):
        out.append(('cost_%s_%s' % ('_'.join(kp), '_'.join(kq or [])), h, dict(small, gbus=[0] * len(kp), kp=kp, kq=kq, nz=1), {}))
    for nm, nw, have, pat_ in (('lin', 1, '', [[2]]), ('dd', 1, 'ddrhmm', [[1, 2]]), ('dead', 1, 'kkddmm', [[2]]),
                               ('dead_all', 1, 'kkrhddmm', [[0, 2]]), ('H', 1, 'H', [[2, 1]]), ('Hdd', 1, 'Hddrh', [[2]]),
                               ('H2', 2, 'Hddmm', [[0, 2], [2]]), ('H2k', 2, 'Hrhkk', [[2], [3]]), ('two', 2, 'ddrh', [[1, 2], [0, 3]])):
        out.append(('gen_' + nm, h, dict(small, kp=['p3'], nw=nw, have=have, pattern=pat_), {}))
    if tier == 'thorough':
        out.append(('S_all', h, dict(nb=3, ends=[(0, 1), (1, 2), (2, 0)], gbus=[2, 0], lim=0, il=None, kp=['p3', 'w2'], kq=['p2', 'p3'],
                                     nw=1, have='Hdd', pattern=[[0, 4, 6]]), dict(budget_s=700)))
    return out
