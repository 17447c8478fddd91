"""C35: interface flow limits through opf with the solver replaced by an arbitrary answer."""
import numpy as np
from checks.lib import snapshot, dc_flows
from checks.c34_reserves import Answer, opts

INFO = dict(
    functions=['toggle_iflims (ext2int, formulation, int2ext callbacks)', 'opf', 'opf_setup', 'opf_execute', 'dcopf_solver', 'pipsopf_solver',
               'ext2int', 'int2ext', 'makeBdc', 'run_userfcn'],
    bounds='3-4 buses in arbitrary numbering, 3-5 branches, 0-2 of them out of service in every listed position (the first included), '
           '1-3 interfaces of 1-3 signed branches, interfaces in any order and without limits, limits, reactances, taps and shifts '
           'symbolic, integer and float maps, DC and AC, every answer of the solver',
    outside='printed and saved forms; a branch of index 0 can only be used in its own direction (the sign of 0)',
    assumptions='none beyond the bounds')


def h(env, ends, st, maps, lims, ac=False, dtype=int, nb=3, iso=(), units=False):
    np_ = env.np
    numbers = (5, 9, 2, 7)[:nb]
    nl, ng = len(ends), 2
    bus, gen, br = np_.zeros((nb, 17)), np_.zeros((ng, 25)), np_.zeros((nl, 21))
    for i in range(nb):
        bus[i, :13] = [numbers[i], 4 if i in iso else (1, 3, 1, 2)[i], 10.0 * i, 5.0, 0, 0, 1, 1.0, 0.0, 230, 1, 1.1, 0.9]
    for k, b in enumerate((1, 0)):
        gen[k, :10] = [numbers[b], 20.0, 0.0, 50.0, -50.0, 1.0, 100.0, 1, 200.0, 0.0]
    for k, (f, t) in enumerate(ends):
        br[k, :13] = [numbers[f], numbers[t], 0.01, env.var('x%dr' % k, 0.05, 2) if not ac else 0.25 + k, 0.0, 0, 0, 0, 0, 0, st[k], -360, 360]
        if not ac and k % 2:
            br[k, 8], br[k, 9] = env.var('tap%d' % k, 0.5, 2.0), env.var('sh%d' % k, -40, 40, angle=True)
    gc = np_.zeros((ng, 6))
    gc[:, 0], gc[:, 3], gc[:, 4] = 2, 2, 3.0
    base = env.var('base', 10, 200)
    ppc = dict(version='2', baseMVA=base, bus=bus, gen=gen, branch=br, gencost=gc)
    L = np_.zeros((len(lims), 3))
    for i, n in enumerate(lims):
        L[i, 0], L[i, 1], L[i, 2] = n, env.var('lo%d' % i, -90, 0), env.var('up%d' % i, 0, 90)
    ppc['if'] = dict(map=np.array(maps, dtype), lims=L)
    before = snapshot(dict((k, ppc[k]) for k in ('bus', 'gen', 'branch', 'gencost')))
    ib = dict(map=np.array(maps, dtype), lims=snapshot(dict(l=L))['l'])
    a = Answer(env, ac, 0)
    bon = [i for i in range(nb) if i not in iso]
    a.nb = len(bon)
    if ac:
        env.patch('pipsopf_solver', 'pips', a.pips)
    else:
        env.patch('dcopf_solver', 'qps_pypower', a.qps)
        env.patch('dcopf_solver', 'have_fcn', lambda n: False)
    res = env.fn('opf')(env.fn('toggle_iflims')(dict(ppc), 'on'), opts(env, ac))
    om = res['om']
    vv, ll, _, _ = om.get_idx()
    x, mu = a.x, a.mu
    Va = [0.0] * nb
    for i in bon:
        Va[i] = x[vv['i1']['Va'] + bon.index(i)]
    pf = dc_flows(env, before['branch'], ends, Va)
    rows = list(range(ll['i1']['iflims'], ll['iN']['iflims']))
    env.ok('one row per interface', len(rows) == len(lims))
    out = res['if']
    row = lambda i: sum((a.A[i, j] * x[j] for j in range(len(x))), 0.0)
    on = lambda b: bool(st[b]) and not any(e in iso for e in ends[b])
    for k, (n, i) in enumerate(zip(lims, rows)):
        mem = [(abs(b), -1 if b < 0 else 1) for m, b in maps if m == n and on(abs(b))]
        flow = sum((s * pf[b] * base for b, s in mem), 0.0)
        # the row holds exactly when the flow is within the limits
        env.eq('lower limit', (row(i) - a.l[i]) * base, flow - ib['lims'][k, 1])
        env.eq('upper limit', (a.u[i] - row(i)) * base, ib['lims'][k, 2] - flow)
        env.eq('reported flow', out['P'][k], sum((s * res['branch'][b, 13] for b, s in mem), 0.0))
        if not ac:
            env.eq('reported flow', out['P'][k], flow)
        for s, m in (('l', 'mu_l'), ('u', 'mu_u')):
            p, r = out['mu'][s][k], mu[m][i]
            env.ok('price of the interface', env.Or([env.equal(p, r), env.equal(p * base, r)]))
            if units:
                env.eq('price in $/MW', p * base, r)
    env.ok('sizes', len(out['P']) == len(lims) and len(out['mu']['l']) == len(lims))
    env.eq('map and limits as given', [out['map'], out['lims']], [ib['map'], ib['lims']])
    for t in before:
        env.eq('caller\'s case', ppc[t], before[t])
    for t in ib:
        env.eq('caller\'s interfaces', ppc['if'][t], ib[t])


def harnesses(tier):
    tri = [(0, 1), (2, 1), (0, 2)]
    d = [('units', dict(ends=tri, st=[1, 1, 1], maps=[[1, 1], [2, -2]], lims=[1, 2], units=True)),
         ('plain', dict(ends=tri, st=[1, 1, 1], maps=[[1, 1], [1, -2], [2, -1]], lims=[1, 2])),
         ('first', dict(ends=tri, st=[1, 1, 1], maps=[[1, 0], [1, -1]], lims=[1])),
         ('first_out', dict(ends=tri, st=[0, 1, 1], maps=[[1, -1], [1, 2], [2, 0]], lims=[1])),
         ('first_out_all', dict(ends=tri, st=[0, 1, 1], maps=[[1, 0], [1, -1], [1, -2]], lims=[1])),
         ('middle_out', dict(ends=tri + [(1, 2)], st=[1, 0, 1, 1], maps=[[1, 1], [1, -2], [2, 2], [2, -3], [3, 3]], lims=[1, 2])),
         ('order', dict(ends=tri, st=[1, 1, 1], maps=[[1, 1], [3, -2], [1, 2], [2, -1]], lims=[3, 1])),
         ('many', dict(ends=tri + [(1, 0), (2, 0)], st=[1, 1, 0, 1, 0], maps=[[4, -1], [2, 3], [4, 2], [4, -3], [2, 4]], lims=[2, 4])),
         ('float', dict(ends=tri, st=[1, 0, 1], maps=[[1, -1], [1, -2], [2, 2]], lims=[1, 2], dtype=float)),
         ('isolated', dict(nb=4, iso=(0,), ends=[(0, 1), (2, 1), (3, 2)], st=[1, 1, 1], maps=[[1, 0], [1, -1], [2, 2]], lims=[1, 2])),
         ('ac', dict(ends=tri, st=[1, 1, 1], maps=[[1, 1], [1, -2]], lims=[1], ac=True)),
         ('ac_out', dict(ends=tri, st=[0, 1, 1], maps=[[7, -2], [7, 1], [3, 2]], lims=[7, 3], ac=True))]
    return [(n, h, k, {}) for n, k in d]
