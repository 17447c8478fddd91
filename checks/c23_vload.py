"""C23: dispatchable loads."""
INFO = dict(
    functions=['isload', 'makeAvl'],
    bounds='1-3 generators, every combination of limits (loads with inductive, capacitive or no reactive range, generators), '
           'limits, dispatch, base power and candidate point symbolic',
    outside='loads with both reactive limits nonzero and dispatch that disagrees with the power factor (only reported on the '
            'terminal)',
    assumptions='')


def h(env, n):
    np_ = env.np
    base = env.var('base', 1, 500)
    g = np_.zeros((n, 21))
    kinds = []
    for k in range(n):
        kind = env.choice('kind%d' % k, ['gen', 'neg', 'pos', 'load', 'ind', 'cap'])
        kinds.append(kind)
        if kind in ('load', 'ind', 'cap'):
            g[k, 9] = -env.var('d%d' % k, 0.1, 100)
            f = env.var('on%d' % k, 0, 1)
            q = env.var('q%d' % k, 0.1, 60)
            g[k, 4] = -q if kind == 'ind' else 0.0
            g[k, 3] = q if kind == 'cap' else 0.0
            g[k, 1] = f * g[k, 9]
            g[k, 2] = f * (g[k, 4] + g[k, 3])
        else:
            # 'gen': produces; 'neg': both limits below zero; 'pos': fixed at zero
            if kind == 'gen':
                g[k, 8], g[k, 9] = env.var('pm%d' % k, 0.1, 100), env.var('pn%d' % k, -90, 100)
            elif kind == 'neg':
                g[k, 8], g[k, 9] = env.var('pa%d' % k, -9, -0.1), env.var('pb%d' % k, -90, -9)
            else:
                g[k, 8], g[k, 9] = 0.0, env.var('pc%d' % k, 0, 5)
            g[k, 1], g[k, 2] = env.var('p%d' % k, -50, 50), env.var('qq%d' % k, -50, 50)
            g[k, 3], g[k, 4] = env.var('qa%d' % k, 0, 50), env.var('qb%d' % k, -50, 0)
    g0 = g.copy()
    lo = env.fn('isload')(g)
    env.ok('is a load', all(bool(lo[k]) == (kinds[k] in ('load', 'ind', 'cap')) for k in range(n)))
    A, l, u, iv = env.fn('makeAvl')(base, g)
    env.eq('argument kept', g, g0)
    iv = [int(i) for i in iv]
    env.ok('rows for loads with reactive range', sorted(iv) == [k for k in range(n) if kinds[k] in ('ind', 'cap')])
    A = env.dense(A)
    env.ok('shape', A.shape == (len(iv), 2 * n) and len(l) == len(iv) and len(u) == len(iv))
    P = [env.var('x%d' % k, -2, 2) for k in range(n)]
    Q = [env.var('y%d' % k, -2, 2) for k in range(n)]
    x = P + Q
    for r, k in enumerate(iv):
        env.eq('equality with zero', [l[r], u[r]], [0.0, 0.0])
        env.eq('other units not involved', [A[r, j] for j in range(2 * n) if j not in (k, n + k)], [0.0] * (2 * n - 2))
        v = sum((A[r, j] * x[j] for j in range(2 * n)), 0.0)
        ql = g0[k, 3] + g0[k, 4]
        prop = Q[k] * g0[k, 9] - P[k] * ql
        # the row is a nonzero multiple of the proportionality
        env.eq('row proportional', A[r, k] * (-g0[k, 9]), ql * A[r, n + k])
        env.eq('normalised', A[r, k] * A[r, k] + A[r, n + k] * A[r, n + k], 1.0)
        env.eq('vanishes at constant power factor', v * g0[k, 9], A[r, n + k] * prop)


def harnesses(tier):
    return [('n%d' % n, h, dict(n=n), {}) for n in ((1, 2) if tier == 'quick' else (1, 2, 3))]
