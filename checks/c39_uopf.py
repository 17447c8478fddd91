"""C39: unit decommitment (uopf) with every outcome of the optimal power flows it calls; ties in fairmax."""
from copy import deepcopy
from checks.lib import snapshot

INFO = dict(
    functions=['uopf', 'runuopf', 'runduopf', 'fairmax', 'totcost', 'isload', 'opf_args2', 'loadcase', 'ppoption'],
    bounds='3 units of which up to 3 can be shut down, with a dispatchable load, a unit already off, a unit that may not go to its '
           'minimum; every success flag, cost and sign of the minimum output multiplier of every optimal power flow called; '
           'minimum outputs, loads and linear costs symbolic for the initial shutdown; vectors of up to 4 entries and every random '
           'number in fairmax',
    outside='initial shutdown with no unit left on; nan costs of several units at once; printing of progress',
    assumptions='the optimal power flow keeps statuses and minimum outputs (checked in C33)')


def case(env, gst, load, pmin):
    np_ = env.np
    ng = len(gst)
    bus, gen, br = np_.zeros((2, 13)), np_.zeros((ng, 21)), np_.zeros((1, 13))
    bus[0, :] = [4, 3, env.var('pd0', 1, 300), 5.0, 0, 0, 1, 1.0, 0.0, 230, 1, 1.1, 0.9]
    bus[1, :] = [8, 1, env.var('pd1', 1, 300), 5.0, 0, 0, 1, 1.0, 0.0, 230, 1, 1.1, 0.9]
    for k in range(ng):
        gen[k, :10] = [4 if k % 2 else 8, 20.0 + k, 3.0, 50.0, -50.0, 1.0, 100.0, gst[k], 100.0, pmin[k]]
        if k in load:
            gen[k, 1], gen[k, 8] = -20.0, 0.0
    br[0, :] = [4, 8, 0.01, 0.25, 0.0, 80.0, 0, 0, 0, 0, 1, -360, 360]
    gc = np_.zeros((ng, 6))
    for k in range(ng):
        gc[k, :] = [2, 0, 0, 2, env.var('c%d' % k, 1, 30), env.var('k%d' % k, 0, 200)]
    return dict(version='2', baseMVA=100.0, bus=bus, gen=gen, branch=br, gencost=gc)


class Opf(object):
    """stands for opf: any cost, success flag and multipliers; remembers what it was asked"""

    def __init__(self, env, cand, ok0, always=False):
        self.env, self.cand, self.ok0, self.always, self.calls = env, cand, ok0, always, []

    def __call__(self, ppc, ppopt):
        env, i = self.env, len(self.calls)
        r = dict((k, deepcopy(ppc[k])) for k in ('baseMVA', 'bus', 'gen', 'branch', 'gencost'))
        ng = r['gen'].shape[0]
        r['bus'] = env.np.array([list(r['bus'][b, :13]) + [0.0] * 4 for b in range(2)])
        r['gen'] = env.np.array([list(r['gen'][k, :21]) + [0.0] * 4 for k in range(ng)])
        r['f'] = env.var('f%d' % i, 1, 1000)
        r['success'] = bool(self.ok0 if i == 0 else env.choice('s%d' % i, [0, 1]))
        for b in range(2):
            r['bus'][b, 7] = env.var('v%d_%d' % (i, b), 0.9, 1.1)
        for k in range(ng):
            if r['gen'][k, 7] > 0:
                r['gen'][k, 1] = env.var('p%d_%d' % (i, k), -100, 100)
                if k in self.cand:
                    r['gen'][k, 22] = 2.5 if self.always else env.choice('m%d_%d' % (i, k), [0.0, 2.5])
                elif r['gen'][k, 9] <= 0:
                    r['gen'][k, 22] = 1.5            # a binding minimum that is not positive is no reason to shut down
        self.calls.append((snapshot(dict((k, ppc[k]) for k in ('bus', 'gen', 'branch', 'gencost'))), r, ppopt))
        return deepcopy(r)


def h(env, gst, load, cand, ok0=True, run='uopf', always=False):
    pmin = [-50.0 if k in load else 10.0 + k if k in cand else 0.0 for k in range(len(gst))]
    ppc = case(env, gst, load, pmin)
    env.assume(env.le(200.5, ppc['bus'][0, 2] + ppc['bus'][1, 2]))           # no initial shutdown
    before = snapshot(dict((k, ppc[k]) for k in ('bus', 'gen', 'branch', 'gencost')))
    o = Opf(env, cand, ok0, always)
    env.patch('uopf', 'opf', o)
    opt = dict(env.fn('ppoption')())
    opt.update(VERBOSE=0, OUT_ALL=0)
    if run == 'uopf':
        res = env.fn('uopf')(ppc, opt)
    else:
        env.patch('runuopf', 'printpf', lambda *a, **k: None)
        res = env.fn(run)(ppc, opt)
        env.ok('formulation', all(bool(c[2]['PF_DC']) == (run == 'runduopf') for c in o.calls))
    # the search as documented, over the outcomes that were returned
    calls = list(o.calls)
    first, best = calls[0], calls[0][1]
    env.eq('first flow with all units', first[0]['gen'][:, :10], before['gen'][:, :10])
    at, stage = 1, best
    while True:
        ks = [k for k in range(len(gst)) if stage['gen'][k, 22] > 0 and stage['gen'][k, 9] > 0]
        better = False
        for k in ks:
            env.ok('every candidate is tried', at < len(calls))
            asked, r, _ = calls[at]
            at += 1
            want = snapshot(dict(g=stage['gen']))['g']
            want[k, 1] = want[k, 2] = want[k, 7] = 0.0
            env.eq('one more unit off', asked['gen'], want)
            env.eq('start from the best of the stage', asked['bus'][:, :13], stage['bus'][:, :13])
            if r['success'] and r['f'] < best['f']:
                best, better = r, True
        if not better:
            break
        stage = best
    env.ok('nothing else is tried', at == len(calls))
    env.eq('cost', res['f'], best['f'])
    env.ok('not worse than the first', env.le(res['f'], first[1]['f']))
    env.ok('success', bool(res['success']) == bool(best['success']) and (bool(res['success']) or not ok0))
    for t in ('bus', 'gen', 'branch', 'gencost'):
        env.eq('data of the best', res[t], best[t])
        env.eq('caller\'s case', ppc[t], before[t])
    for k in range(len(gst)):
        if not gst[k] or res['gen'][k, 7] == 0:
            if gst[k]:
                env.eq('off means no output', res['gen'][k, [1, 2]], [0.0, 0.0])


def h_first(env, gst, load, zero=()):
    """minimum outputs above the load: the most expensive units go first"""
    ng = len(gst)
    pmin = [env.var('l%d' % k, -60, -1) if k in load else 0.0 if k in zero else env.var('l%d' % k, 1, 400) for k in range(ng)]
    ppc = case(env, gst, load, pmin)
    for k in zero:
        ppc['gencost'][k, 5] = 0.0 if zero == (k,) else 1.0
    before = snapshot(dict((k, ppc[k]) for k in ('bus', 'gen', 'branch', 'gencost')))
    o = Opf(env, [], True)
    env.patch('uopf', 'opf', o)
    picks = []

    def rnd():
        picks.append(env.var('rnd%d' % len(picks), 0, 0.999))
        return picks[-1]
    env.patch('fairmax', 'random', rnd)
    opt = dict(env.fn('ppoption')())
    opt.update(VERBOSE=0)
    res = env.fn('uopf')(ppc, opt)
    env.ok('one flow', len(o.calls) == 1)
    g = o.calls[0][0]['gen']
    G, C = before['gen'], before['gencost']
    cap = before['bus'][0, 2] + before['bus'][1, 2] - sum((G[k, 9] for k in load if gst[k]), 0.0)
    units = [k for k in range(ng) if gst[k] and k not in load]
    off = [k for k in units if g[k, 7] == 0]
    stay = [k for k in units if k not in off]
    env.ok('minimum outputs fit', env.le(sum((G[k, 9] for k in stay), 0.0), cap))
    for k in range(ng):
        if k in off:
            env.eq('off means no output', g[k, [1, 2]], [0.0, 0.0])
        else:
            env.eq('others as given', g[k, :10], G[k, :10])
    avg = dict((k, C[k, 4] + C[k, 5] / G[k, 9]) for k in units if k not in zero)
    for k in off:
        for j in stay:
            if k not in zero and j not in zero:
                env.ok('most expensive first', env.le(avg[j], avg[k]))
    # no unit is shut down in vain: the cheapest of those off was still needed
    if off:
        cand = []
        for k in off:
            if k in zero:
                continue
            need = env.Not(env.le(sum((G[j, 9] for j in stay), 0.0) + G[k, 9], cap))
            last = env.And([env.le(avg[k], avg[j]) for j in off if j not in zero] or [True])
            cand.append(env.And([need, last]))
        env.ok('not shut down in vain', env.Or(cand))
    for t in before:
        env.eq('caller\'s case', ppc[t], before[t])
    env.eq('result', res['gen'][:, 7], g[:, 7])


def h_fairmax(env, n):
    x = env.vec('x', n, -9, 9)
    x0 = [x[i] for i in range(n)]
    r = env.var('rnd', 0, 0.999)
    env.patch('fairmax', 'random', lambda: r)
    v, i = env.fn('fairmax')(x)
    i = int(i)
    env.ok('a position', 0 <= i < n)
    env.eq('the largest', v, env.max(x0))
    env.eq('where it is', x0[i], v)
    ties = [k for k in range(n) if x0[k] == x0[i]]
    m, k = len(ties), ties.index(i)
    env.ok('every tie has the same chance', env.And([env.le(k, r * m), env.Not(env.le(k + 1, r * m))]))


def harnesses(tier):
    out = [('two', h, dict(gst=[1, 1, 1], load=[], cand=[0, 2]), {}), ('load', h, dict(gst=[1, 1, 1], load=[1], cand=[0, 2]), {}),
           ('off', h, dict(gst=[1, 0, 1, 1], load=[2], cand=[1, 3]), {}), ('failed', h, dict(gst=[1, 1, 1], load=[], cand=[1, 2], ok0=False), {}),
           ('runuopf', h, dict(gst=[1, 1, 1], load=[], cand=[1], run='runuopf'), {}),
           ('runduopf', h, dict(gst=[1, 1, 1], load=[], cand=[1], run='runduopf'), {}),
           ('first', h_first, dict(gst=[1, 1, 1], load=[]), {}), ('first_load', h_first, dict(gst=[1, 1, 1, 0], load=[1]), {}),
           ('first_zero', h_first, dict(gst=[1, 1, 1], load=[], zero=(1,)), {}),
           ('fairmax2', h_fairmax, dict(n=2), {}), ('fairmax3', h_fairmax, dict(n=3), {})]
    if tier != 'quick':
        out += [('three', h, dict(gst=[1, 1, 1], load=[], cand=[0, 1, 2], always=True), {}), ('fairmax4', h_fairmax, dict(n=4), {})]
    return out
