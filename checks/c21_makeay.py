"""C21: makeAy against the segments of the piecewise linear costs."""
from checks.c18_cost import row, value

INFO = dict(
    functions=['makeAy', 'totcost (observation)'],
    bounds='1-4 cost rows mixing polynomials and piecewise linear rows of 2-5 breakpoints, active only or active and reactive, '
           'several variable layouts, base power and all values symbolic; every candidate point',
    outside='zero-length segments (only reported on the terminal)',
    assumptions='breakpoints strictly increasing')


def h(env, kinds, ng, pg, qg, yb, convex=False):
    np_ = env.np
    base = env.var('base', 1, 500)
    width = 4 + max((int(k[1:]) * (1 if k[0] == 'p' else 2)) for k in kinds)
    rows, ds = zip(*[row(env, k, kind, width) for k, kind in enumerate(kinds)])
    g = np_.array(list(rows))
    g0 = g.copy()
    iy = [k for k, kind in enumerate(kinds) if kind[0] == 'w']
    A, b = env.fn('makeAy')(base, ng, g, pg, qg, yb)
    env.eq('argument kept', g, g0)
    nx = yb - 1 + len(iy)
    A = env.dense(A)
    env.ok('columns', A.shape[1] == nx and A.shape[0] == len(b))
    if not iy:
        env.ok('no rows', A.shape[0] == 0)
        return
    x = [env.var('x%d' % i, -50, 50) for i in range(nx)]
    admit = env.And([env.le(sum((A[r, i] * x[i] for i in range(nx)), 0.0), b[r]) for r in range(A.shape[0])])
    above, costs = [], []
    for j, k in enumerate(iy):
        P = (x[pg - 1 + k] if k < ng else x[qg - 1 + k - ng]) * base
        for (x1, y1), (x2, y2) in zip(ds[k], ds[k][1:]):
            above.append(env.le(y1 + (y2 - y1) / (x2 - x1) * (P - x1), x[yb - 1 + j]))
    env.ok('admits the points above the curve', env.Implies(env.And(above), admit))
    env.ok('admits nothing below', env.Implies(admit, env.And(above)))
    if convex:
        k = iy[0]
        d = ds[k]
        for (x1, y1), (x2, y2), (x3, y3) in zip(d, d[1:], d[2:]):
            env.assume((y2 - y1) * (x3 - x2) <= (y3 - y2) * (x2 - x1))
        P = x[pg - 1 + k] * base
        f = env.fn('totcost')(g[k:k + 1], np_.array([P]))
        s = [y1 + (y2 - y1) / (x2 - x1) * (P - x1) for (x1, y1), (x2, y2) in zip(d, d[1:])]
        for v in s:
            env.cmp('cost on or above every segment', v, f[0])
        env.ok('cost is on a segment', env.Or([env.equal(v, f[0]) for v in s]))


def harnesses(tier):
    d = [('w3', dict(kinds=['w3'], ng=1, pg=1, qg=2, yb=2)),
         ('w4', dict(kinds=['w4'], ng=1, pg=3, qg=4, yb=5, convex=True)),
         ('mix', dict(kinds=['p3', 'w3', 'w2'], ng=3, pg=1, qg=4, yb=4)),
         ('none', dict(kinds=['p3', 'p2'], ng=2, pg=1, qg=3, yb=3)),
         ('pq', dict(kinds=['w2', 'p2', 'w3', 'p1'], ng=2, pg=1, qg=3, yb=5)),
         ('pq2', dict(kinds=['p2', 'w2', 'p1', 'w3'], ng=2, pg=2, qg=4, yb=7)),
         ('gap', dict(kinds=['w3', 'p2', 'w2', 'w2'], ng=2, pg=1, qg=5, yb=8)),
         ('q_only', dict(kinds=['p2', 'w3'], ng=1, pg=1, qg=3, yb=4))]
    if tier == 'thorough':
        d += [('w6', dict(kinds=['w6'], ng=1, pg=1, qg=2, yb=2, convex=True)),
              ('four', dict(kinds=['w4', 'w3', 'w2', 'w5'], ng=4, pg=9, qg=13, yb=13))]
    return [(n, h, k, {}) for n, k in d]
