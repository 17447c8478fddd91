"""C34: zonal reserves through runopf_w_res / opf with the solver replaced by an arbitrary answer."""
import numpy as np
from checks.lib import snapshot

INFO = dict(
    functions=['toggle_reserves (ext2int, formulation, int2ext callbacks)', 'runopf_w_res', 'runopf', 'opf', 'opf_setup', 'opf_execute',
               'dcopf_solver', 'pipsopf_solver', 'ext2int', 'int2ext', 'e2i_field', 'i2e_field', 'run_userfcn'],
    bounds='3 buses, 2-4 units in any listed order, offline units, 1-3 zones (overlapping, units in no zone), costs and quantities per '
           'unit or per reserve unit, quantities present or absent, zero and nonzero ramp limits; requirements, costs, quantities, '
           'ramps, outputs and bases symbolic; every answer of the solver, DC and AC',
    outside='printed and saved forms; wrong dimensions (only reported on the terminal); zone prices reported for offline units',
    assumptions='none beyond the bounds')


class Answer(object):
    """stands for the solver; arbitrary answer of the size of the problem"""

    def __init__(self, env, ac, nl2):
        self.env, self.ac, self.nl2 = env, ac, nl2

    def make(self, tot, m):
        env = self.env
        self.x = [env.var('x%d' % j, -3, 3) for j in range(tot)]
        self.f = env.var('fs', -500, 500)
        self.mu = dict((n, [env.var('%s%d' % (n, i), 0, 50) for i in range(k)])
                       for n, k in (('mu_l', m), ('mu_u', m), ('lower', tot), ('upper', tot)))
        return dict((n, env.np.array(v)) for n, v in self.mu.items())

    def qps(self, H, c, A, l, u, xl, xu, x0, opt):
        lm = self.make(len(c), A.shape[0])
        self.H, self.c, self.A, self.l, self.u, self.xl, self.xu = self.env.dense(H), c, self.env.dense(A), l, u, xl, xu
        return self.env.np.array(self.x), self.f, 1, dict(), lm

    def pips(self, f_fcn, x0, A, l, u, xl, xu, gh, hess, opt):
        env = self.env
        if A is None:
            A = env.np.zeros((0, len(x0)))
        lm = self.make(len(x0), A.shape[0])
        self.A, self.l, self.u, self.xl, self.xu = env.dense(A), l, u, xl, xu
        nb = self.nb
        for i in range(nb):
            self.x[i] = env.var('va%d' % i, -3, 3, angle=True)
        lm['eqnonlin'] = env.np.array([env.var('lam%d' % i, 0.1, 50) for i in range(2 * nb)])
        lm['ineqnonlin'] = env.np.array([env.var('mus%d' % i, 0.1, 50) for i in range(2 * self.nl2)])
        self.cost = f_fcn(env.np.array(self.x))[0]
        return dict(x=env.np.array(self.x), f=self.f, eflag=1, output=dict(iterations=1), lmbda=lm)


def network(env, gbus, gst, ac, numbers=(5, 9, 2), width=25, pmax=(50, 300)):
    np_ = env.np
    ng = len(gbus)
    bus, gen, br = np_.zeros((3, 17)), np_.zeros((ng, width)), np_.zeros((2, 21))
    for i, t in enumerate((1, 3, 1)):
        bus[i, :13] = [numbers[i], t, 10.0 * i, 5.0, 0, 0, 1, 1.0, 0.0, 230, 1, 1.1, 0.9]
    for k in range(ng):
        gen[k, :10] = [numbers[gbus[k]], 20.0, 0.0, 50.0, -50.0, 1.0, 100.0, gst[k], env.var('pmax%d' % k, *pmax), 0.0]
    for k, (f, t) in enumerate(((0, 1), (2, 1))):
        br[k, :13] = [numbers[f], numbers[t], 0.01, 0.25, 0.0, 80.0 + k, 0, 0, 0, 0, 1, -360, 360]
    gc = np_.zeros((ng, 7))
    gc[:, 0], gc[:, 3] = 2, 3
    for k in range(ng):
        gc[k, 4:] = [0.01 * k, 2.0 + k, 1.0]
    return dict(version='2', baseMVA=env.var('base', 10, 200), bus=bus, gen=gen, branch=br, gencost=gc)


def gencosts(ppc, gord, pg, base):
    return sum(((0.01 * k * (p * base)) * (p * base) + (2.0 + k) * (p * base) + 1.0 for k, p in zip(gord, pg)), 0.0)


def opts(env, ac):
    opt = dict(env.fn('ppoption')())
    opt.update(PF_DC=not ac, VERBOSE=0, OUT_ALL=0)
    return opt


def h(env, gbus, gst, zones, ramp=None, qty=True, short=False, ac=False, call='run'):
    np_ = env.np
    ng, nz = len(gbus), len(zones)
    ppc = network(env, gbus, gst, ac)
    base = ppc['baseMVA']
    ramp = ramp or [0] * ng
    for k in range(ng):
        ppc['gen'][k, 17] = env.var('ramp%d' % k, 1, 80) if ramp[k] else 0.0
    ig = [k for k in range(ng) if any(z[k] for z in zones)]
    who = ig if short else list(range(ng))
    r = dict(zones=np_.array([[float(v) for v in z] for z in zones]), req=env.vec('req', nz, 0, 200), cost=env.vec('rc', len(who), 0, 20))
    if qty:
        r['qty'] = env.vec('rq', len(who), 0, 90)
    ppc['reserves'] = r
    before = snapshot(dict((k, ppc[k]) for k in ('bus', 'gen', 'branch', 'gencost')))
    rb = snapshot(r)
    on = [k for k in range(ng) if gst[k]]
    gord = sorted(on, key=lambda k: (gbus[k], k))
    rg = [k for k in gord if k in ig]                       # reserve units in internal order
    a = Answer(env, ac, 2)
    a.nb = 3
    if ac:
        env.patch('pipsopf_solver', 'pips', a.pips)
    else:
        env.patch('dcopf_solver', 'qps_pypower', a.qps)
        env.patch('dcopf_solver', 'have_fcn', lambda n: False)
    env.patch('runopf', 'printpf', lambda *x, **k: None)
    if call == 'run':
        res = env.fn('runopf_w_res')(ppc, opts(env, ac))
        env.ok('callbacks removed', not any(res.get('userfcn', {}).get(s) for s in ('ext2int', 'formulation', 'int2ext', 'printpf', 'savecase'))
               if isinstance(res.get('userfcn', {}), dict) else not res['userfcn'])
    else:
        res = env.fn('opf')(env.fn('toggle_reserves')(dict(ppc), 'on'), opts(env, ac))
    om = res['om']
    vv, ll, _, _ = om.get_idx()
    at = lambda n: list(range(vv['i1'][n], vv['iN'][n]))
    R = lambda n: list(range(ll['i1'][n], ll['iN'][n]))
    x, mu = a.x, a.mu
    env.ok('one reserve variable per unit', len(at('R')) == len(rg))
    xr, xp = dict(zip(rg, [x[j] for j in at('R')])), dict(zip(gord, [x[j] for j in at('Pg')]))
    # bounds of the reserves
    qq = dict(zip(who, rb['qty'])) if qty else {}
    top = {}
    for k, j in zip(rg, at('R')):
        env.eq('reserves from zero', a.xl[j], 0.0)
        cand = ([before['gen'][k, 17]] if ramp[k] else []) + ([qq[k]] if qty else [])
        top[k] = env.min(cand) if cand else None
        if cand:
            env.eq('reserve limit', a.xu[j] * base, top[k])
        else:
            env.ok('no limit', bool(a.xu[j] >= 1e10))
    # rows
    row = lambda i: sum((a.A[i, j] * x[j] for j in range(len(x))), 0.0)
    rows = R('Pg_plus_R')
    env.ok('one capacity row per unit', len(rows) == len(rg) and len(R('Rreq')) == nz)
    for k, i in zip(rg, rows):
        env.eq('output plus reserve', [row(i), a.u[i] * base], [xp[k] + xr[k], before['gen'][k, 8]])
        env.ok('no lower side', bool(a.l[i] <= -1e10))
    for z, i in enumerate(R('Rreq')):
        env.eq('zone requirement', [row(i), a.l[i] * base], [sum((zones[z][k] * xr[k] for k in rg), 0.0), rb['req'][z]])
        env.ok('no upper side', bool(a.u[i] >= 1e10))
    cst = dict(zip(who, rb['cost']))
    rcost = sum((cst[k] * xr[k] * base for k in rg), 0.0)
    if ac:
        tot = a.cost
    else:
        n = len(x)
        tot = sum((x[i] * a.H[i, j] * x[j] / 2 for i in range(n) for j in range(n)), 0.0) + \
            sum((a.c[j] * x[j] for j in range(n)), 0.0) + (res['f'] - a.f)
    env.eq('objective', tot, gencosts(ppc, gord, [xp[k] for k in gord], base) + rcost)
    # reported
    o = res['reserves']
    pos = dict((k, i) for i, k in enumerate(rg))
    g = lambda v: [v(k) if k in pos else 0.0 for k in range(ng)]
    env.eq('reserves', o['R'], g(lambda k: xr[k] * base))
    env.eq('lower limits', o['Rmin'], [0.0] * ng)
    if all(v is not None for v in top.values()):
        env.eq('upper limits', o['Rmax'], g(lambda k: top[k]))
    env.eq('limit prices', [o['mu']['l'], o['mu']['u'], o['mu']['Pmax']],
           [g(lambda k: mu['lower'][at('R')[pos[k]]] / base), g(lambda k: mu['upper'][at('R')[pos[k]]] / base),
            g(lambda k: mu['mu_u'][rows[pos[k]]] / base)])
    for k in range(ng):
        if k in pos or k not in ig:
            env.eq('reserve price', o['prc'][k], sum((zones[z][k] * mu['mu_l'][i] / base for z, i in enumerate(R('Rreq'))), 0.0))
    env.eq('reserve cost', o['totalcost'], rcost)
    env.eq('data as given', [o['cost'], o['req'], o['zones']], [rb['cost'], rb['req'], rb['zones']])
    if qty:
        env.eq('data as given', o['qty'], rb['qty'])
    env.eq('outputs', res['gen'][:, 1], [xp[k] * base if k in xp else 0.0 for k in range(ng)])
    # the caller's case
    for t in before:
        env.eq('caller\'s case', ppc[t], before[t])
    env.ok('caller\'s reserve data', set(ppc['reserves']) == set(rb))
    for t in rb:
        env.eq('caller\'s reserve data', ppc['reserves'][t], rb[t])


def harnesses(tier):
    b = dict(gbus=[2, 0, 1], gst=[1, 1, 1], zones=[[1, 1, 0], [0, 1, 1]])
    d = [('two_zones', b), ('one_zone', dict(b, zones=[[1, 0, 1]])), ('ramp', dict(b, ramp=[1, 0, 1])),
         ('ramp_only', dict(b, ramp=[1, 1, 1], qty=False)), ('unlimited', dict(b, ramp=[1, 0, 1], qty=False)),
         ('short', dict(b, zones=[[1, 0, 0], [0, 0, 1]], short=True)), ('short_noqty', dict(b, zones=[[0, 1, 1]], short=True, qty=False,
                                                                                           ramp=[0, 1, 1])),
         ('off', dict(b, gbus=[2, 0, 0, 1], gst=[1, 0, 1, 1], zones=[[1, 1, 0, 0], [0, 0, 1, 1]])),
         ('off_short', dict(b, gbus=[2, 0, 2, 1], gst=[1, 1, 0, 1], zones=[[1, 0, 1, 0], [0, 0, 1, 1]], short=True, ramp=[0, 0, 1, 1])),
         ('three', dict(b, zones=[[1, 1, 1], [0, 1, 0], [0, 0, 1]])), ('none_zone', dict(b, zones=[[0, 1, 0], [0, 0, 0]])),
         ('ac', dict(b, ac=True)), ('ac_off', dict(b, gst=[1, 0, 1], ac=True, short=True)), ('opf', dict(b, call='opf')),
         ('opf_off', dict(b, gbus=[1, 0, 2, 0], gst=[0, 1, 1, 1], zones=[[1, 1, 1, 1]], ramp=[1, 1, 0, 0], call='opf'))]
    return [(n, h, k, {}) for n, k in d]
