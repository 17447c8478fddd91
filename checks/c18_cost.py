"""C18: totcost, polycost and pqcost against the cost function the data describes."""
from checks.lib import snapshot

INFO = dict(
    functions=['totcost', 'polycost', 'pqcost'],
    bounds='up to 4 rows; polynomials of 1-5 coefficients (mixed orders), derivatives of order 0-3, piecewise linear rows of '
           '2-5 breakpoints with unused trailing columns holding arbitrary values, every order of mixed rows; all values '
           'symbolic',
    outside='breakpoints that do not increase; tables whose row count fits neither form',
    assumptions='breakpoints strictly increasing')


def row(env, k, kind, width, pre='', gap=(0.01, 50)):
    """cost row, plus (kind, data) describing it; kind = 'p<n>' or 'w<n>'"""
    n = int(kind[1:])
    r = [2.0 if kind[0] == 'p' else 1.0, env.var('%ssu%d' % (pre, k)), env.var('%ssd%d' % (pre, k)), float(n)]
    if kind[0] == 'p':
        c = [env.var('%sc%d_%d' % (pre, k, i), -20, 20) for i in range(n)]
        r += c
        d = c
    else:
        x = env.var('%sx%d_0' % (pre, k), -100, 100)
        d = [(x, env.var('%sy%d_0' % (pre, k), -500, 500))]
        for i in range(1, n):
            x = x + env.var('%sdx%d_%d' % (pre, k, i), *gap)
            d.append((x, env.var('%sy%d_%d' % (pre, k, i), -500, 500)))
        for a, b in d:
            r += [a, b]
    j = 0
    while len(r) < width:
        # unused columns may hold anything; a polynomial table uses zeros or garbage alike
        r.append(env.var('%sjunk%d_%d' % (pre, k, j)))
        j += 1
    return r, d


def value(env, kind, d, P, der=0):
    if kind[0] == 'p':
        c = list(d)
        for _ in range(der):
            n = len(c)
            c = [c[i] * (n - 1 - i) for i in range(n - 1)]
        acc = 0.0
        for ci in c:
            acc = acc * P + ci
        return acc
    for i in range(1, len(d)):
        (x1, y1), (x2, y2) = d[i - 1], d[i]
        if i == len(d) - 1 or P < x2:
            return y1 + (y2 - y1) / (x2 - x1) * (P - x1)


def h_tot(env, kinds):
    width = 4 + max((int(k[1:]) * (1 if k[0] == 'p' else 2)) for k in kinds) + 1
    rows, ds = zip(*[row(env, k, kind, width) for k, kind in enumerate(kinds)])
    g = env.np.array(list(rows))
    P = env.vec('P', len(kinds), -120, 200)
    g0, p0 = g.copy(), P.copy()
    f = env.fn('totcost')(g, P)
    env.eq('cost', f, [value(env, kinds[k], ds[k], p0[k]) for k in range(len(kinds))])
    env.eq('arguments kept', [g, P], [g0, p0])


def h_poly(env, kinds, der):
    width = 4 + max(int(k[1:]) for k in kinds) + 1
    rows, ds = zip(*[row(env, k, kind, width) for k, kind in enumerate(kinds)])
    g = env.np.array(list(rows))
    P = env.vec('P', len(kinds), -120, 200)
    g0, p0 = g.copy(), P.copy()
    f = env.fn('polycost')(g, P) if der == 0 else env.fn('polycost')(g, P, der)
    env.eq('derivative', f, [value(env, kinds[k], ds[k], p0[k], der) for k in range(len(kinds))])
    env.eq('arguments kept', [g, P], [g0, p0])


def h_pq(env, ng, both, sel):
    g = env.mat('g', ng * (2 if both else 1), 6)
    g0 = g.copy()
    if sel is None:
        pc, qc = env.fn('pqcost')(g, ng)
        sel = list(range(ng))
    else:
        pc, qc = env.fn('pqcost')(g, ng, env.np.array(sel, dtype=int))
    env.ok('active rows', pc.shape == (len(sel), 6))
    env.eq('active', pc, [[g0[k, c] for c in range(6)] for k in sel])
    if both:
        env.eq('reactive', qc, [[g0[ng + k, c] for c in range(6)] for k in sel])
    else:
        env.ok('no reactive', qc.size == 0)
    pc[0, 0] = pc[0, 0] + 1
    if both:
        qc[0, 0] = qc[0, 0] + 1
    env.eq('argument kept', g, g0)


def harnesses(tier):
    out = []
    tot = [['p3'], ['w2'], ['w3'], ['w4'], ['p3', 'w3'], ['w3', 'p2', 'w2', 'p4'], ['p1', 'w4', 'p5', 'w2'], ['w2', 'w4', 'w3'],
           ['w3', 'w3'], ['p3', 'p2', 'p1']]
    if tier == 'thorough':
        tot += [['w5', 'p5', 'w6'], ['w5', 'w5', 'w4', 'w3'], ['w8']]
    for q, k in enumerate(tot):
        out.append(('tot_' + '_'.join(k), h_tot, dict(kinds=k), {}))
    for k in (['p1'], ['p2'], ['p3'], ['p4'], ['p5'], ['p1', 'p3'], ['p3', 'p2', 'p5', 'p1'], ['p2', 'p2']):
        for der in (0, 1, 2, 3):
            out.append(('poly_%s_d%d' % ('_'.join(k), der), h_poly, dict(kinds=k, der=der), {}))
    for ng in (1, 3):
        for both in (0, 1):
            for sel in (None, [0], [ng - 1, 0]):
                out.append(('pq%d_%d_%s' % (ng, both, sel), h_pq, dict(ng=ng, both=both, sel=sel), {}))
    return out
