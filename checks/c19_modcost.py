"""C19: modcost evaluates to the scaled or shifted cost."""
from checks.c18_cost import row, value

INFO = dict(
    functions=['modcost', 'polyshift', 'totcost (observation)'],
    bounds='up to 3 rows mixing polynomials of 1-5 coefficients and piecewise linear rows of 2-4 breakpoints, all four '
           'modifications, factor, coefficients, breakpoints and dispatch symbolic; active and reactive blocks',
    outside='per-row factors (not supported by the function); zero factor on the output axis; negative factor on the output '
            'axis of piecewise linear rows; unknown modification names',
    assumptions='breakpoints strictly increasing')


def h(env, kinds, mode):
    np_ = env.np
    width = 4 + max((int(k[1:]) * (1 if k[0] == 'p' else 2)) for k in kinds) + (1 if kinds[0] == 'p2' else 0)
    rows, ds = zip(*[row(env, k, kind, width) for k, kind in enumerate(kinds)])
    g = np_.array(list(rows))
    g0 = g.copy()
    if mode == 'SCALE_X':
        a = env.var('alpha', 0.05, 20)
        if all(k[0] == 'p' for k in kinds) and env.choice('neg', [0, 1]):
            a = -a
    else:
        a = env.var('alpha', -20, 20)
    m = env.fn('modcost')(g, a) if mode is None else env.fn('modcost')(g, a, mode)
    env.eq('argument kept', g, g0)
    env.ok('shape', m.shape == g0.shape)
    env.eq('models and sizes', m[:, :4], g0[:, :4])
    X = [env.var('X%d' % k, -120, 200) for k in range(len(kinds))]
    at = dict(SCALE_X=lambda x: x * a, SHIFT_X=lambda x: x + a).get(mode, lambda x: x)
    f = env.fn('totcost')(m, np_.array([at(x) for x in X]))
    want = []
    for k, kind in enumerate(kinds):
        v = value(env, kind, ds[k], X[k])
        want.append(v * a if mode in (None, 'SCALE_F') else v + a if mode == 'SHIFT_F' else v)
    env.eq('modified cost', f, want)


def h_ints(env, mode):
    """cost table typed with whole numbers"""
    g = env.np.array([[2, 0, 0, 2, 3, 5, 0, 0], [1, 0, 0, 2, 0, 0, 10, 35], [2, 0, 0, 3, 1, 20, 7, 0]])
    a = env.var('alpha', 0.25 if mode == 'SCALE_X' else 0, 3)
    m = env.fn('modcost')(g, a) if mode is None else env.fn('modcost')(g, a, mode)
    X = [env.var('X%d' % k, 0, 9) for k in range(3)]
    at = dict(SCALE_X=lambda x: x * a, SHIFT_X=lambda x: x + a).get(mode, lambda x: x)
    f = env.fn('totcost')(m, env.np.array([at(x) for x in X]))
    want = [3 * X[0] + 5, 3.5 * X[1], X[2] * X[2] + 20 * X[2] + 7]
    env.eq('modified cost', f, [v * a if mode in (None, 'SCALE_F') else v + a if mode == 'SHIFT_F' else v for v in want])


def harnesses(tier):
    out = [('ints_%s' % (m or 'default'), h_ints, dict(mode=m), {}) for m in (None, 'SCALE_F', 'SCALE_X', 'SHIFT_F', 'SHIFT_X')]
    ks = [['p1'], ['p2', 'p3'], ['p3', 'w3'], ['w2'], ['w3', 'p2', 'w2'], ['p4'], ['p5'], ['p1', 'p4'], ['w2', 'p4', 'p2', 'w3']]
    if tier == 'thorough':
        ks += [['w4', 'w4', 'p5'], ['w6']]
    for k in ks:
        for mode in (None, 'SCALE_F', 'SCALE_X', 'SHIFT_F', 'SHIFT_X'):
            out.append(('%s_%s' % ('_'.join(k), mode or 'default'), h, dict(kinds=k, mode=mode), {}))
    return out
