"""C26: opf_costfcn value, gradient and Hessian."""
from checks.c18_cost import row, value

INFO = dict(
    functions=['opf_costfcn', 'opf_model (assembly)', 'totcost', 'polycost'],
    bounds='1-3 generators, every listed mixture of polynomial (1-4 coefficients) and piecewise linear active and reactive '
           'costs, cost variables, extra user variables, 1-2 generalized cost rows with every combination of linear and '
           'quadratic rows, dead zones, shifts, scales and quadratic terms; every optimization vector',
    outside='nonsymmetric H; points exactly on a dead zone edge of positive width; generalized costs whose N has no nonzero '
            'entry',
    assumptions='H symmetric; kk >= 0; |r| != kk where kk > 0')


def gcost(env, cp, xs, nw):
    """value, gradient and Hessian of the documented generalized cost at xs"""
    n = len(xs)
    w, dw, d2 = [], [], []
    for i in range(nw):
        N = cp['N'][i]
        r = sum((N[j] * xs[j] for j in range(n)), 0.0) - cp['rh'][i]
        kk = cp['kk'][i]
        if r < -kk:
            rr, u = r + kk, cp['mm'][i]
        elif r > kk:
            rr, u = r - kk, cp['mm'][i]
        elif kk == 0:
            rr, u = r, cp['mm'][i]
        else:
            rr, u = 0.0, 0.0
        if cp['dd'][i] == 1:
            w.append(u * rr)
            dw.append([u * N[j] for j in range(n)])
            d2.append(0.0)
        else:
            w.append(u * rr * rr)
            dw.append([2 * u * rr * N[j] for j in range(n)])
            d2.append(2 * u)
    H, C = cp['H'], cp['Cw']
    HwC = [C[i] + sum((H[i][j] * w[j] for j in range(nw)), 0.0) for i in range(nw)]
    f = sum((C[i] * w[i] for i in range(nw)), 0.0) + sum((w[i] * H[i][j] * w[j] / 2 for i in range(nw) for j in range(nw)),
                                                         0.0)
    g = [sum((HwC[i] * dw[i][j] for i in range(nw)), 0.0) for j in range(n)]
    h = [[sum((HwC[i] * d2[i] * cp['N'][i][a] * cp['N'][i][b] for i in range(nw)), 0.0) +
          sum((dw[i][a] * H[i][j] * dw[j][b] for i in range(nw) for j in range(nw)), 0.0)
          for b in range(n)] for a in range(n)]
    return f, g, h


def model(env, kp, kq, nb=1, nz=0, gen=None):
    """(om, base, layout) for the listed cost kinds; kq None: active costs only"""
    np_ = env.np
    base = env.var('base', 10, 200)
    ng = len(kp)
    kinds = list(kp) + list(kq or [])
    width = 4 + max((int(k[1:]) * (1 if k[0] == 'p' else 2)) for k in kinds)
    rows, ds = zip(*[row(env, k, kind, width) for k, kind in enumerate(kinds)])
    ny = sum(1 for k in kinds if k[0] == 'w')
    gen = np_.zeros((ng, 21)) if gen is None else gen
    om = env.fn('opf_model')(dict(baseMVA=base, gen=gen, gencost=np_.array(list(rows))))
    for v, n in (('Va', nb), ('Vm', nb), ('Pg', ng), ('Qg', ng)):
        om.add_vars(v, n)
    if ny:
        om.add_vars('y', ny)
    if nz:
        om.add_vars('z', nz)
    return om, base, kinds, ds, ny


def user_costs(env, om, nx, nw, have, pattern, vs=None):
    np_ = env.np
    M = np_.zeros((nw, nx))
    for i in range(nw):
        for j in pattern[i]:
            v = env.var('N%d_%d' % (i, j), -5, 5)
            env.assume(v != 0)
            M[i, j] = v
    cp = dict(N=env.sparse(M), Cw=np_.array([env.var('Cw%d' % i, -5, 5) for i in range(nw)]))
    r = dict(N=[[M[i, j] for j in range(nx)] for i in range(nw)], Cw=list(cp['Cw']), H=[[0.0] * nw for _ in range(nw)],
             dd=[1.0] * nw, rh=[0.0] * nw, kk=[0.0] * nw, mm=[1.0] * nw)
    if 'H' in have:
        for i in range(nw):
            for j in range(i + 1):
                r['H'][i][j] = r['H'][j][i] = env.var('H%d_%d' % (i, j), -5, 5)
        cp['H'] = env.sparse(np_.array(r['H']))
    for f, lo, hi in (('dd', None, None), ('rh', -5, 5), ('kk', 0, 3), ('mm', -5, 5)):
        if f in have:
            r[f] = [float(env.choice('dd%d' % i, [2, 1])) if f == 'dd' else env.var('%s%d' % (f, i), lo, hi)
                    for i in range(nw)]
            cp[f] = np_.array(r[f])
    om.add_costs('usr', cp, vs)
    return r


def expected(env, x, ng, nb, kinds, ds, base, ny, cp=None, nw=0):
    n = len(x)
    f, g, h = 0.0, [0.0] * n, [[0.0] * n for _ in range(n)]
    for k, kind in enumerate(kinds):
        c = 2 * nb + k
        if kind[0] == 'p':
            P = x[c] * base
            f = f + value(env, kind, ds[k], P)
            g[c] = g[c] + base * value(env, kind, ds[k], P, 1)
            h[c][c] = h[c][c] + base * base * value(env, kind, ds[k], P, 2)
    for j in range(2 * nb + 2 * ng, 2 * nb + 2 * ng + ny):
        f = f + x[j]
        g[j] = g[j] + 1.0
    if cp is not None:
        fu, gu, hu = gcost(env, cp, x, nw)
        f = f + fu
        g = [a + b for a, b in zip(g, gu)]
        h = [[a + b for a, b in zip(p, q)] for p, q in zip(h, hu)]
    return f, g, h


def no_edge(env, cp, x, nw):
    for i in range(nw):
        r = sum((cp['N'][i][j] * x[j] for j in range(len(x))), 0.0) - cp['rh'][i]
        kk = cp['kk'][i]
        env.assume(env.Or(kk == 0, env.And(r != kk, r != -kk)))


def h(env, kp, kq, nb=1, nz=0, nw=0, have='', pattern=None):
    np_ = env.np
    om, base, kinds, ds, ny = model(env, kp, kq, nb, nz)
    ng = len(kp)
    nx = 2 * nb + 2 * ng + ny + nz
    cp = None
    if nw:
        cp = user_costs(env, om, nx, nw, have, pattern)
    om.build_cost_params()
    x = [env.var('x%d' % j, -3, 3) for j in range(nx)]
    if nw:
        no_edge(env, cp, x, nw)
    f0, g0, h0 = expected(env, x, ng, nb, kinds, ds, base, ny, cp, nw)
    X = np_.array(x)
    f, df = env.fn('opf_costfcn')(X, om)
    env.eq('objective', f, f0)
    env.eq('gradient', df, g0)
    env.eq('argument kept', X, x)
    f, df, d2f = env.fn('opf_costfcn')(X, om, True)
    env.eq('objective with Hessian', f, f0)
    env.eq('gradient with Hessian', df, g0)
    env.eq('Hessian', env.dense(d2f), h0)


def harnesses(tier):
    out = []
    mix = [(['p3'], None), (['p3'], ['p2']), (['w3'], None), (['p3', 'w2'], None), (['w2', 'p3'], None), (['p1', 'p2'], ['p3', 'p4']),
           (['w2', 'p3'], ['p3', 'w2']), (['p3', 'p2'], ['w2', 'p3']), (['w2', 'w3'], ['w2', 'w2']), (['p2', 'w2', 'p4'], None),
           (['w2'], ['p3']), (['p3'], ['w2']), (['w3', 'p4', 'p1'], None), (['w2', 'p4'], ['p1', 'p3'])]
    if tier == 'thorough':
        mix += [(['p3', 'w2', 'p5'], ['w3', 'p4', 'p2']), (['p6'], ['p6'])]
    for kp, kq in mix:
        out.append(('mix_%s__%s' % ('_'.join(kp), '_'.join(kq or [])), h, dict(kp=kp, kq=kq), {}))
    out.append(('buses', h, dict(kp=['p3', 'w2'], kq=['p2', 'p3'], nb=3, nz=1), {}))
    #                 x = Va Vm Pg Qg (ng=1) y
    gc = [('lin', 1, '', [[2]]), ('shift', 1, 'rh', [[0, 2]]), ('scale', 1, 'mm', [[2, 3]]), ('dd', 1, 'ddrh', [[1, 2]]),
          ('dead', 1, 'kkddmm', [[2]]), ('dead_all', 1, 'kkrhddmm', [[0, 2]]), ('H', 1, 'H', [[2, 1]]), ('Hdd', 1, 'Hddrh', [[2]]),
          ('H2', 2, 'Hddmm', [[0, 2], [2]]), ('H2k', 2, 'Hrhkk', [[2], [3]]), ('two', 2, 'ddrh', [[1, 2], [0, 3]])]
    if tier == 'thorough':
        gc += [('all2', 2, 'Hddrhkkmm', [[0, 2], [2, 3]])]
    for nm, nw, have, pat in gc:
        out.append(('gen_' + nm, h, dict(kp=['p3'], kq=None, nw=nw, have=have, pattern=pat), dict(budget_s=600)))
    out.append(('gen_mix', h, dict(kp=['p2', 'w2'], kq=['w2', 'p2'], nz=1, nw=2, have='Hdd', pattern=[[2, 6, 8], [4, 7]]),
                dict(budget_s=600)))
    return out
