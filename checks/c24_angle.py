"""C24: makeAang."""
import numpy as np

INFO = dict(
    functions=['makeAang'],
    bounds='1-3 branches between 2-3 buses (parallel and opposite branches included), both limits of each branch arbitrary, '
           'also zero and at or beyond 360 degrees, option on and off, every candidate angle vector',
    outside='',
    assumptions='lower limit not above the upper one')


def h(env, ends, nb, ignore, kinds=('z', '360', 'v')):
    np_ = env.np
    br = np_.zeros((len(ends), 13))
    eff = []
    for k, (f, t) in enumerate(ends):
        br[k, 0], br[k, 1], br[k, 3] = float(f), float(t), 0.1
        a = env.choice('lo%d' % k, list(kinds))
        b = env.choice('hi%d' % k, list(kinds))
        br[k, 11] = {'z': 0.0, '360': -360.0, 'v': env.var('amin%d' % k, -400, 90)}[a]
        br[k, 12] = {'z': 0.0, '360': 360.0, 'v': env.var('amax%d' % k, -90, 400)}[b]
    b0 = br.copy()
    base = env.var('base', 1, 500)
    opt = dict(env.fn('ppoption')())
    opt['OPF_IGNORE_ANG_LIM'] = ignore
    A, l, u, ia = env.fn('makeAang')(base, br, nb, opt)
    env.eq('argument kept', br, b0)
    want = []
    for k in range(len(ends)):
        mn, mx = b0[k, 11], b0[k, 12]
        e = bool(env.Or([env.And([mn != 0, mn > -360]), env.And([mx != 0, mx < 360])]))
        if e and not ignore:
            want.append(k)
    env.ok('limited branches', [int(i) for i in ia] == want)
    A = env.dense(A)
    env.ok('shape', A.shape == (len(want), nb) and len(l) == len(want) and len(u) == len(want))
    th = [env.var('th%d' % i, -4, 4) for i in range(nb)]
    for r, k in enumerate(want):
        f, t = ends[k]
        env.eq('angle difference', sum((A[r, i] * th[i] for i in range(nb)), 0.0), th[f] - th[t])
        mn, mx = b0[k, 11], b0[k, 12]
        env.eq('lower', l[r], mn * np.pi / 180 if bool(mn != 0) else -np.inf)
        env.eq('upper', u[r], mx * np.pi / 180 if bool(mx != 0) else np.inf)


def harnesses(tier):
    out = []
    e = [('one', [(0, 1)], 2), ('par', [(0, 1), (1, 0)], 2), ('three', [(2, 0), (0, 1), (1, 2)], 3)]
    for nm, ends, nb in e:
        for ig in (0, 1, False, True) if nm == 'par' else (0, 1):
            out.append(('%s_%s' % (nm, ig), h, dict(ends=ends, nb=nb, ignore=ig,
                                                     kinds=('v',) if nm == 'three' and tier == 'quick' else
                                                     ('z', '360', 'v')), dict(max_paths=20000)))
    return out
