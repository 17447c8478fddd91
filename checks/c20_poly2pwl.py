"""C20: poly2pwl."""
from checks.c18_cost import row, value

INFO = dict(
    functions=['poly2pwl', 'totcost', 'polycost'],
    bounds='1-3 polynomial rows of 1-4 coefficients, 3-6 breakpoints (wider or narrower than the given table), output ranges '
           'positive, starting at zero, spanning zero and nonpositive; coefficients and limits symbolic',
    outside='empty output ranges; rows already piecewise linear',
    assumptions='minimum output below maximum output')


def h(env, kinds, npts, extra=0):
    np_ = env.np
    width = 4 + max(int(k[1:]) for k in kinds) + extra
    rows, ds = zip(*[row(env, k, kind, width) for k, kind in enumerate(kinds)])
    g = np_.array(list(rows))
    g0 = g.copy()
    lo, hi = [], []
    for k in range(len(kinds)):
        lo.append(env.choice('zero%d' % k, [1, 0]) and env.var('lo%d' % k, -100, 100) or 0.0)
        hi.append(lo[k] + env.var('w%d' % k, 0.5, 100))
    w = env.fn('poly2pwl')(g, np_.array(lo), np_.array(hi), npts)
    env.eq('argument kept', g, g0)
    env.ok('table', w.shape[0] == len(kinds) and w.shape[1] >= 4 + 2 * npts)
    for k, kind in enumerate(kinds):
        env.eq('head', w[k, :4], [1.0, g0[k, 1], g0[k, 2], float(npts)])
        if lo[k] > 0:
            xs = [0.0] + [lo[k] + (hi[k] - lo[k]) * i / (npts - 2.0) for i in range(npts - 1)]
        else:
            xs = [lo[k] + (hi[k] - lo[k]) * i / (npts - 1.0) for i in range(npts)]
        env.eq('breakpoints', [w[k, 4 + 2 * i] for i in range(npts)], xs)
        env.eq('costs', [w[k, 5 + 2 * i] for i in range(npts)], [value(env, kind, ds[k], x) for x in xs])


def harnesses(tier):
    out = []
    for kinds in (['p3'], ['p2', 'p4'], ['p1', 'p3', 'p3'], ['p4', 'p2', 'p1']):
        for npts, ex in ((3, 0), (4, 9), (6, 1)):
            out.append(('%s_%d' % ('_'.join(kinds), npts), h, dict(kinds=kinds, npts=npts, extra=ex), {}))
    return out
