"""C22: sloped capability limits and their prices."""
INFO = dict(
    functions=['hasPQcap', 'makeApq', 'update_mupq'],
    bounds='1-3 generators, every capability curve, box limit, base power, price and candidate point symbolic',
    outside='curves that open with increasing output (reported as errors by hasPQcap)',
    assumptions='first corner at lower output than the second unless equal, curves closing; limits ordered; the price '
                'argument is lower minus upper price of each constraint as opf_execute passes it')


def gens(env, n, width=25):
    np_ = env.np
    g = np_.zeros((n, width))
    for k in range(n):
        for c, nm, lo, hi in ((3, 'qmax', -50, 99), (8, 'pmax', -50, 300)):
            g[k, c] = env.var('%s%d' % (nm, k), lo, hi)
        g[k, 4] = g[k, 3] - env.var('qr%d' % k, 0, 99)
        g[k, 9] = g[k, 8] - env.var('pr%d' % k, 0, 99)
        kind = env.choice('curve%d' % k, ['sloped', 'equal', 'none'])
        if kind == 'none':
            continue
        g[k, 10] = env.var('pc1_%d' % k, -50, 100)
        g[k, 11] = g[k, 10] + (env.var('pcd%d' % k, 0.1, 200) if kind == 'sloped' else 0.0)
        g[k, 12] = env.var('qc1min%d' % k, -99, 99)
        g[k, 13] = env.var('qc1max%d' % k, -99, 99)
        g[k, 14] = g[k, 12] + env.var('dmin%d' % k, 0, 50)
        g[k, 15] = g[k, 13] - env.var('dmax%d' % k, 0, 50)
    return g


def h(env, n):
    g = gens(env, n, 21)
    base = env.var('base', 1, 500)
    g0 = g.copy()
    has = dict((m, env.fn('hasPQcap')(g, m)) for m in ('U', 'L', 'B'))
    has['default'] = env.fn('hasPQcap')(g)
    H, uh, L, ul, data = env.fn('makeApq')(base, g)
    env.eq('argument kept', g, g0)
    H, L = env.dense(H), env.dense(L)
    env.ok('columns', H.shape[1] == 2 * n and L.shape[1] == 2 * n and len(uh) == H.shape[0] and len(ul) == L.shape[0])
    ih, il = [int(i) for i in data['ipqh']], [int(i) for i in data['ipql']]
    env.ok('listed as detected', ih == [k for k in range(n) if bool(has['U'][k])] and
           il == [k for k in range(n) if bool(has['L'][k])])
    env.ok('either', all(bool(has[m][k]) == (k in ih or k in il) for k in range(n) for m in ('B', 'default')))
    P = [env.var('P%d' % k, -2, 3) for k in range(n)]
    Q = [env.var('Q%d' % k, -2, 3) for k in range(n)]
    x = P + Q
    for k in range(n):
        # inside the box limits, in units of the table
        box = env.And([env.le(P[k] * base, g0[k, 8]), env.le(g0[k, 9], P[k] * base), env.le(Q[k] * base, g0[k, 3]),
                       env.le(g0[k, 4], Q[k] * base)])
        for nm, A, u, idx, c1, c2, sg in (('upper', H, uh, ih, 13, 15, 1), ('lower', L, ul, il, 12, 14, -1)):
            d = g0[k, 11] - g0[k, 10]
            # right side of the line through the two corners
            side = env.le(sg * ((Q[k] * base - g0[k, c1]) * d - (P[k] * base - g0[k, 10]) * (g0[k, c2] - g0[k, c1])), 0.0)
            rows = [r for r in range(A.shape[0]) if idx[r] == k]
            if rows:
                r = rows[0]
                env.eq('other units not involved', [A[r, j] for j in range(2 * n) if j not in (k, n + k)],
                       [0.0] * (2 * n - 2))
                ok = env.le(sum((A[r, j] * x[j] for j in range(2 * n)), 0.0), u[r])
                env.ok('one row', len(rows) == 1)
                env.ok(nm + ' line admits', env.Implies(side, ok))
                env.ok(nm + ' line excludes', env.Implies(ok, side))
                env.ok(nm + ' not redundant', env.Not(env.le(sg * (((g0[k, 3] if sg > 0 else g0[k, 4]) - g0[k, c1]) * d -
                                                                 (g0[k, 8] - g0[k, 10]) * (g0[k, c2] - g0[k, c1])), 0.0)))
                env.eq('normalised', A[r, k] * A[r, k] + A[r, n + k] * A[r, n + k], 1.0)
            elif bool(d > 0):
                env.ok(nm + ' line left out only when redundant', env.Implies(box, side))


def h_mu(env, curves):
    np_ = env.np
    n = len(curves)
    base = env.var('base', 1, 500)
    g = env.mat('g', n, 25)
    for k in range(n):
        # box wide enough to make a given line effective: upper, lower, both, none
        g[k, 8], g[k, 9], g[k, 3], g[k, 4] = 100.0, 0.0, 60.0, -60.0
        g[k, 10], g[k, 11] = 0.0, 100.0
        up, lo = 'u' in curves[k], 'l' in curves[k]
        g[k, 13], g[k, 15] = 50.0, (env.var('qu%d' % k, 10, 40) if up else 50.0)
        g[k, 12], g[k, 14] = -50.0, (env.var('ql%d' % k, -40, -10) if lo else -50.0)
        if not up:
            g[k, 3] = 45.0
        if not lo:
            g[k, 4] = -45.0
        # at most one price of each pair is nonzero before
        for a, b, nm in ((21, 22, 'p'), (23, 24, 'q')):
            s = env.choice('side%s%d' % (nm, k), [0, 1])
            g[k, a] = 0.0 if s else env.var('mu%s%d' % (nm, k), 0, 50)
            g[k, b] = env.var('mu%s%d' % (nm, k), 0, 50) if s else 0.0
    ih = [k for k in range(n) if 'u' in curves[k]]
    il = [k for k in range(n) if 'l' in curves[k]]
    H, uh, L, ul, data = env.fn('makeApq')(base, g)
    env.ok('curves detected', [int(i) for i in data['ipqh']] == ih and [int(i) for i in data['ipql']] == il)
    H, L = env.dense(H), env.dense(L)
    mh = np_.array([env.var('mh%d' % i, -20, 0) for i in range(len(ih))])
    ml = np_.array([env.var('ml%d' % i, -20, 0) for i in range(len(il))])
    g0 = g.copy()
    keep = [mh.copy(), ml.copy()]
    r = env.fn('update_mupq')(base, g, mh, ml, data)
    env.eq('prices kept', [mh, ml], keep)
    env.eq('other columns', r[:, :21], g0[:, :21])
    for k in range(n):
        for c, (a, b) in enumerate(((21, 22), (23, 24))):
            v = g0[k, a] - g0[k, b]
            if k in ih:
                v = v - mh[ih.index(k)] * H[ih.index(k), c * n + k] / base
            if k in il:
                v = v - ml[il.index(k)] * L[il.index(k), c * n + k] / base
            env.eq('net price', r[k, a] - r[k, b], v)
            env.ok('one sided', env.Or([env.equal(r[k, a], 0.0), env.equal(r[k, b], 0.0)]))
            env.cmp('nonnegative', 0.0, r[k, a])
            env.cmp('nonnegative', 0.0, r[k, b])


def harnesses(tier):
    out = [('cap%d' % n, h, dict(n=n), {}) for n in ((1, 2) if tier == 'quick' else (1, 2, 3))]
    cs = [['u'], ['l'], ['ul'], ['', 'ul'], ['u', 'l'], ['l', 'ul']]
    if tier == 'thorough':
        cs += [['u', '', 'u'], ['ul', 'ul', 'l']]
    for c in cs:
        out.append(('mu_%s' % '_'.join(c), h_mu, dict(curves=c), {}))
    return out
