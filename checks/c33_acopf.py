"""C33: opf_execute / pipsopf_solver / opf for AC problems, with the interior point solver replaced by an arbitrary answer."""
import numpy as np
from checks.lib import snapshot, pi_currents, bus_currents, conj
from checks.c18_cost import value
from checks.c29_opfsetup import case

INFO = dict(
    functions=['opf', 'opf_execute', 'pipsopf_solver', 'opf_setup', 'opf_consfcn', 'opf_costfcn', 'ext2int', 'int2ext', 'update_mupq',
               'makeYbus'],
    bounds='2-3 buses, 1-3 branches, 1-3 units, all data symbolic; rated, unrated and unlimited branches; with and without angle '
           'limits, sloped capability curves, piecewise linear costs, user variables and constraints, offline units and branches, '
           'isolated buses, arbitrary bus numbers; the interior point solver is an arbitrary function: every point, objective, '
           'status and multiplier',
    outside='that the point is optimal (C31, C26-C28); MINOS-style raw.pimul; solvers other than the built-in one; start points',
    assumptions='none beyond the bounds')

TOLS = (('PDIPM_FEASTOL', 'feastol', 6e-6), ('PDIPM_GRADTOL', 'gradtol', 3e-6), ('PDIPM_COMPTOL', 'comptol', 4e-6),
        ('PDIPM_COSTTOL', 'costtol', 5e-6), ('PDIPM_MAX_IT', 'max_it', 77), ('SCPDIPM_RED_IT', 'max_red', 13))


def options(env, alg, lim, der, feas=True):
    opt = dict(env.fn('ppoption')())
    opt.update(PF_DC=False, OPF_ALG=alg, VERBOSE=0, OUT_ALL=0, OPF_FLOW_LIM=lim, RETURN_RAW_DER=der, OPF_VIOLATION=2e-5)
    for c, _, v in TOLS:
        opt[c] = v
    if not feas:
        opt['PDIPM_FEASTOL'] = 0
    return opt


class Stub(object):
    """stands for pips: an arbitrary answer, sized by the problem it gets"""

    def __init__(self, env, nb, nl2, st, signs=False):
        self.env, self.nb, self.nl2, self.signs = env, nb, nl2, signs
        self.st = env.choice('info', list(st))

    def __call__(self, f_fcn, x0=None, A=None, l=None, u=None, xmin=None, xmax=None, gh_fcn=None, hess_fcn=None, opt=None):
        env, np_, nb = self.env, self.env.np, self.nb
        self.args = (f_fcn, x0, A, l, u, xmin, xmax, gh_fcn, hess_fcn, opt)
        n = len(x0)
        m = A.shape[0] if A is not None else 0
        self.x = [env.var('va%d' % i, -3, 3, angle=True) for i in range(nb)] + [env.var('vm%d' % i, 0.5, 1.5) for i in range(nb)] + \
            [env.var('x%d' % j, -3, 3) for j in range(2 * nb, n)]
        self.f = env.var('fs', -500, 500)
        self.mu = dict((k, [env.var('%s%d' % (k, i), 0, 50) for i in range(s)])
                       for k, s in (('mu_l', m), ('mu_u', m), ('lower', n), ('upper', n)))
        # the signs of the balance multipliers: a few patterns, zero included
        s = [1, -1, 0] if self.signs else [1, -1]
        p = env.choice('signs', [0, 1, 2] if self.signs else [0])
        sg = [s[(i + p) % len(s)] for i in range(2 * nb)]
        self.lam = [env.var('lam%d' % i, 0.001, 50) * v if v else 0.0 for i, v in enumerate(sg)]
        self.mus = [env.var('mus%d' % i, 0, 50) for i in range(2 * self.nl2)]
        lm = dict((k, np_.array(v)) for k, v in self.mu.items())
        lm['eqnonlin'] = np_.array(self.lam)
        if self.nl2:
            lm['ineqnonlin'] = np_.array(self.mus)
        return dict(x=np_.array(self.x), f=self.f, eflag=self.st, output={'iterations': 3}, lmbda=lm)


def limited(br, rows):
    return [k for k in rows if bool(br[k, 5] != 0) and bool(br[k, 5] < 1e10)]


def h(env, nb, ends, gbus, kinds, refs=(0,), special=None, rates=('v',), ang=False, user=None, st=(1, 0, -1), alg=560, lim=0, der=0,
      feas=True, signs=False):
    np_ = env.np
    ng, nl = len(gbus), len(ends)
    ppc, ds = case(env, 0, nb, ends, gbus, kinds, refs, special, rates, ang, tapped=(0,))
    for k in range(ng):
        if k not in (special or {}):                    # not a candidate for a dispatchable load
            ppc['gen'][k, 9], ppc['gen'][k, 3], ppc['gen'][k, 4] = env.var('pn%d' % k, 1, 40), env.var('qx%d' % k, 1, 100), -env.var('qn%d' % k, 1, 100)
    ppc['bus'] = np_.hstack([ppc['bus'], env.mat('ob', nb, 4)])
    ppc['branch'] = np_.hstack([ppc['branch'], env.mat('ol', nl, 8)])
    base = ppc['baseMVA']
    user = user or {}
    nz = user.get('nz', 0)
    if user:
        UA = env.mat('A', 1, 2 * nb + 2 * ng + nz)
        ppc['A'], ppc['l'], ppc['u'] = env.sparse(UA), env.vec('ul', 1), env.vec('uu', 1)
    opt = options(env, alg, lim, der, feas)
    om = env.fn('opf_setup')(ppc, opt)
    A, l, u = om.linear_constraints()
    _, xl, xu = om.getv()
    vv, ll, nn, _ = om.get_idx()
    il = limited(ppc['branch'], range(nl))
    stub = Stub(env, nb, len(il), st, signs)
    env.patch('pipsopf_solver', 'pips', stub)
    before = snapshot(dict((k, ppc[k]) for k in ('bus', 'gen', 'branch', 'gencost')))
    res, ok, raw = env.fn('opf_execute')(om, opt)
    f_fcn, x0, A1, l1, u1, xl1, xu1, gh, hs, po = stub.args
    env.eq('constraints as in the model', [env.dense(A1) if A1 is not None else [], l1, u1, xl1, xu1],
           [env.dense(A) if A is not None else [], l, u, xl, xu])
    env.ok('solver options', all(po[b] == (v if feas or b != 'feastol' else 2e-5) for _, b, v in TOLS) and
           bool(po['step_control']) == (alg == 565))
    x, mu = stub.x, stub.mu
    at = lambda n: list(range(vv['i1'][n], vv['iN'][n]))
    R = lambda n: list(range(ll['i1'][n], ll['iN'][n]))
    X = dict((n, [x[j] for j in at(n)]) for n in om.var['order'])
    V = [env.polar(a, b) for a, b in zip(X['Vm'], X['Va'])]
    If, It = pi_currents(env, before['branch'], ends, V)
    Sf = [V[e[0]] * conj(i) for e, i in zip(ends, If)]
    St = [V[e[1]] * conj(i) for e, i in zip(ends, It)]
    # the functions handed over belong to this case
    pwl = [k for k, kind in enumerate(kinds) if kind[0] == 'w' and kind != 'w2']
    want = sum(X.get('y', []), 0.0)
    for k in range(len(kinds)):
        if k not in pwl:
            want = want + value(env, kinds[k], ds[k], (X['Pg'] + X['Qg'])[k] * base)
    xa = np_.array(x)
    env.eq('cost function', f_fcn(xa)[0], want)
    hv, gv, dh, dg = gh(xa)
    lims = [before['branch'][k, 5] / base for k in il]
    flows = [[(I if lim == 2 else S)[k] for k in il] for I, S in ((If, Sf), (It, St))]
    sq = lambda z: z.real * z.real + (0.0 if lim == 1 else z.imag * z.imag)
    env.eq('flow limits', list(hv), [sq(z) - r * r for fl in flows for z, r in zip(fl, lims)])
    Ib = bus_currents(env, before['bus'], before['branch'], ends, V, base)
    mis = [V[i] * conj(Ib[i]) for i in range(nb)]
    P = [mis[i].real + before['bus'][i, 2] / base - sum((X['Pg'][k] for k in range(ng) if gbus[k] == i), 0.0) for i in range(nb)]
    Q = [mis[i].imag + before['bus'][i, 3] / base - sum((X['Qg'][k] for k in range(ng) if gbus[k] == i), 0.0) for i in range(nb)]
    env.eq('power balance', list(gv), P + Q)
    # status
    env.ok('status', bool(ok) == (stub.st == 1) and raw['info'] == stub.st and raw['output']['alg'] == (alg or 560))
    env.eq('objective', res['f'], stub.f)
    bus, gen, br = res['bus'], res['gen'], res['branch']
    env.eq('voltages', [bus[:, 7], bus[:, 8]], [X['Vm'], [a * 180 / np.pi for a in X['Va']]])
    env.eq('outputs', [gen[:, 1], gen[:, 2]], [[p * base for p in X['Pg']], [p * base for p in X['Qg']]])
    env.eq('setpoints', gen[:, 5], [X['Vm'][b] for b in gbus])
    env.eq('flows', [br[:, 13], br[:, 14], br[:, 15], br[:, 16]],
           [[z.real * base for z in Sf], [z.imag * base for z in Sf], [z.real * base for z in St], [z.imag * base for z in St]])
    env.eq('nodal prices', [bus[:, 13], bus[:, 14]], [[stub.lam[i] / base for i in range(nb)], [stub.lam[nb + i] / base for i in range(nb)]])
    env.eq('voltage prices', [bus[:, 15], bus[:, 16]], [[mu['upper'][j] for j in at('Vm')], [mu['lower'][j] for j in at('Vm')]])
    # the multiplier belongs to the squared per unit flow
    for c, off in ((17, 0), (18, len(il))):
        env.eq('flow prices', br[:, c], [2 * stub.mus[off + il.index(k)] * before['branch'][k, 5] / base / base if k in il else 0.0
                                         for k in range(nl)])
    pm = [[mu[s][j] / base for j in at(n)] for n, s in (('Pg', 'upper'), ('Pg', 'lower'), ('Qg', 'upper'), ('Qg', 'lower'))]
    if 'curve' in (special or {}).values() and stub.st == 1:
        ad = om.userdata('Apqdata')
        for k in range(ng):
            if special.get(k) != 'curve':             # opposite prices may be netted
                env.eq('output prices', [gen[k, 21] - gen[k, 22], gen[k, 23] - gen[k, 24]], [pm[0][k] - pm[1][k], pm[2][k] - pm[3][k]])
                continue
            # the price of the sloped side acts along its normal on the unit's active and reactive limits
            dP = dQ = 0.0
            for n, d, idx in (('PQh', ad['h'], ad['ipqh']), ('PQl', ad['l'], ad['ipql'])):
                for r, j in zip(R(n), list(idx)):
                    if j == k:
                        d_ = d[list(idx).index(j)]
                        m = mu['mu_u'][r] - mu['mu_l'][r]
                        dP, dQ = dP + d_[0] * m / base, dQ + d_[1] * m / base
            env.eq('output prices', [gen[k, 21] - gen[k, 22], gen[k, 23] - gen[k, 24]],
                   [pm[0][k] - pm[1][k] + dP, pm[2][k] - pm[3][k] + dQ])
    else:
        env.eq('output prices', [gen[:, c] for c in (21, 22, 23, 24)], pm)
    if ang and stub.st == 1:
        r = R('ang')[0]
        env.eq('angle prices', [br[0, 19], br[0, 20]], [mu['mu_l'][r] * np.pi / 180, mu['mu_u'][r] * np.pi / 180])
        env.eq('other angle prices', [br[1:, 19], br[1:, 20]], [before['branch'][1:, 19], before['branch'][1:, 20]])
    for c in (0, 1, 2, 3, 4, 5, 9, 11, 12):
        env.eq('bus data kept', bus[:, c], before['bus'][:, c])
    for c in (0, 3, 4, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15):
        env.eq('unit data kept', gen[:, c], before['gen'][:, c])
    for c in range(13):
        env.eq('branch data kept', br[:, c], before['branch'][:, c])
    for n in om.var['order']:
        if om.getN('var', n):
            env.eq('named variables', [res['var']['val'][n], res['var']['mu']['l'][n], res['var']['mu']['u'][n]],
                   [X[n], [mu['lower'][j] for j in at(n)], [mu['upper'][j] for j in at(n)]])
    for n in om.lin['order']:
        if om.getN('lin', n):
            env.eq('named prices', [res['lin']['mu']['l'][n], res['lin']['mu']['u'][n]],
                   [[mu['mu_l'][r] for r in R(n)], [mu['mu_u'][r] for r in R(n)]])
    N = res['nln']['mu']
    for n, off in (('Pmis', 0), ('Qmis', nb)):
        for i in range(nb):
            v = stub.lam[off + i]
            env.eq('mismatch multipliers', N['u'][n][i] - N['l'][n][i], v)
            env.ok('one sided', env.And([env.le(0.0, N['u'][n][i]), env.le(0.0, N['l'][n][i]), env.equal(N['u'][n][i] * N['l'][n][i], 0.0)]))
    for n, off in (('Sf', 0), ('St', len(il))):
        env.eq('flow multipliers', N['u'][n], [2 * stub.mus[off + il.index(k)] * before['branch'][k, 5] / base if k in il else 0.0
                                               for k in range(nl)])
        env.eq('flow multipliers', N['l'][n], [0.0] * nl)
    env.eq('variable prices', [res['mu']['var']['l'], res['mu']['var']['u'], res['mu']['lin']['l'], res['mu']['lin']['u']],
           [mu['lower'], mu['upper'], mu['mu_l'], mu['mu_u']])
    if der:
        if stub.st != 1:
            env.ok('no derivatives', all(len(raw[k]) == 0 for k in ('g', 'dg', 'df', 'd2f')))
        else:
            env.ok('sizes of derivatives', raw['dg'].shape == (len(raw['g']), len(x)) and raw['d2f'].shape == (len(x), len(x)))
            env.eq('constraint values', list(raw['g'])[:2 * nb], P + Q)
            D = env.dense(raw['dg'])
            env.eq('Jacobian', [[D[i, j] for j in range(len(x))] for i in range(2 * nb)],
                   [[env.dense(dg)[j, i] for j in range(len(x))] for i in range(2 * nb)])
            env.eq('cost gradient', raw['df'], f_fcn(xa, True)[1])


def hx(env, numbers, types, ends, gbus, gst, bst, prices=True):
    """whole opf() call on a case in external numbering with offline equipment"""
    np_ = env.np
    nb, ng, nl = len(numbers), len(gbus), len(ends)
    bus, gen, br = np_.zeros((nb, 17)), np_.zeros((ng, 25)), np_.zeros((nl, 21))
    for i in range(nb):
        bus[i, :2] = [numbers[i], types[i]]
        bus[i, 2], bus[i, 3], bus[i, 4], bus[i, 5] = [env.var('%s%d' % (c, i), -50, 50) for c in ('pd', 'qd', 'gs', 'bs')]
        bus[i, 7], bus[i, 8], bus[i, 9], bus[i, 11], bus[i, 12] = 1.0, 0.0, 230.0, 1.1, 0.9
        for c in range(13, 17):
            bus[i, c] = env.var('ob%d_%d' % (i, c), -5, 5)
    for k in range(ng):
        gen[k, 0], gen[k, 5], gen[k, 6], gen[k, 7], gen[k, 8] = numbers[gbus[k]], 1.0, 100.0, gst[k], 100.0
        gen[k, 3], gen[k, 4] = 50.0, -50.0
        for c in (1, 2) + tuple(range(21, 25)):
            gen[k, c] = env.var('og%d_%d' % (k, c), -5, 5)
    for k, (f, t) in enumerate(ends):
        br[k, 0], br[k, 1], br[k, 3], br[k, 10], br[k, 11], br[k, 12] = numbers[f], numbers[t], 0.25 + k, bst[k], -360.0, 360.0
        br[k, 5] = env.var('rate%d' % k, 1, 500)
        for c in range(13, 21):
            br[k, c] = env.var('ol%d_%d' % (k, c), -5, 5)
    gc = np_.zeros((ng, 7))
    gc[:, 0], gc[:, 3] = 2, 3
    for k in range(ng):
        for c in range(4, 7):
            gc[k, c] = env.var('c%d_%d' % (k, c), 0, 5)
    ppc = dict(version='2', baseMVA=100.0, bus=bus, gen=gen, branch=br, gencost=gc)
    before = snapshot(dict((k, v) for k, v in ppc.items() if k not in ('version', 'baseMVA')))
    bon = [i for i in range(nb) if types[i] != 4]
    gon = [k for k in range(ng) if gst[k] > 0 and gbus[k] in bon]
    lon = [k for k in range(nl) if bst[k] and ends[k][0] in bon and ends[k][1] in bon]
    gord = sorted(gon, key=lambda k: (bon.index(gbus[k]), k))
    stub = Stub(env, len(bon), len(lon), (1, 0))
    env.patch('pipsopf_solver', 'pips', stub)
    res = env.fn('opf')(ppc, options(env, 0, 0, 0))
    env.ok('status', bool(res['success']) == (stub.st == 1))
    n = len(bon)
    Va, Vm = stub.x[:n], stub.x[n:2 * n]
    Pg, Qg = stub.x[2 * n:2 * n + len(gon)], stub.x[2 * n + len(gon):2 * n + 2 * len(gon)]
    V = {}
    for j, i in enumerate(bon):
        V[i] = env.polar(Vm[j], Va[j])
    B, G, L, mu = res['bus'], res['gen'], res['branch'], stub.mu
    env.ok('sizes', B.shape[0] == nb and G.shape[0] == ng and L.shape[0] == nl)
    for i in range(nb):
        if i in bon:
            j = bon.index(i)
            env.eq('bus results', [B[i, 7], B[i, 8], B[i, 13], B[i, 14], B[i, 15], B[i, 16]],
                   [Vm[j], Va[j] * 180 / np.pi, stub.lam[j] / 100, stub.lam[n + j] / 100, mu['upper'][n + j], mu['lower'][n + j]])
            env.eq('bus data', list(B[i, :7]), list(before['bus'][i, :7]))
        else:
            env.eq('isolated bus', list(B[i, :13]), list(before['bus'][i, :13]))
    for k in range(ng):
        env.eq('unit data', [G[k, c] for c in (0, 3, 4, 6, 7, 8, 9)], [before['gen'][k, c] for c in (0, 3, 4, 6, 7, 8, 9)])
        if k in gon:
            j = gord.index(k)
            a, b = 2 * n + j, 2 * n + len(gon) + j
            env.eq('unit results', [G[k, 1], G[k, 2], G[k, 5]] + [G[k, c] for c in range(21, 25)],
                   [Pg[j] * 100, Qg[j] * 100, Vm[bon.index(gbus[k])]] +
                   [mu['upper'][a] / 100, mu['lower'][a] / 100, mu['upper'][b] / 100, mu['lower'][b] / 100])
        else:
            env.eq('offline unit', [G[k, c] for c in (1, 2, 21, 22, 23, 24)], [0.0] * 6)
    for k, (f, t) in enumerate(ends):
        env.eq('branch data', list(L[k, :13]), list(before['branch'][k, :13]))
        if k in lon:
            j = lon.index(k)
            If, It = pi_currents(env, before['branch'][k:k + 1, :], [(f, t)], V)
            sf, st = V[f] * conj(If[0]), V[t] * conj(It[0])
            env.eq('flows', list(L[k, 13:17]), [100 * sf.real, 100 * sf.imag, 100 * st.real, 100 * st.imag])
            env.eq('flow prices', [L[k, 17], L[k, 18]], [2 * m * before['branch'][k, 5] / 1e4 for m in (stub.mus[j], stub.mus[len(lon) + j])])
        else:
            env.eq('offline branch', list(L[k, 13:21]), [0.0] * 8)
    env.eq('costs', res['gencost'], before['gencost'])
    for t in ('bus', 'gen', 'branch', 'gencost'):
        env.eq('caller\'s case', ppc[t], before[t])


def harnesses(tier):
    b = dict(nb=3, ends=[(0, 1), (2, 1)], gbus=[2, 0], kinds=['p3', 'p2'], refs=(1,))
    t = dict(nb=2, ends=[(1, 0)], gbus=[0], kinds=['p3'])
    d = [('plain', dict(b)), ('rates', dict(b, ends=[(0, 1), (1, 2), (2, 0)], rates=('v', 'z', 'b'), st=(1,))),
         ('rates_P', dict(b, rates=('v', 'z'), st=(1,), lim=1)), ('rates_I', dict(t, lim=2, st=(1,))),
         ('same_bus', dict(b, gbus=[1, 1, 0], kinds=['p3', 'w3', 'w2'], refs=(0, 2), st=(1,))),
         ('angle', dict(b, ang=True)), ('qcost', dict(t, kinds=['p3', 'p2'])), ('qpwl', dict(t, kinds=['p3', 'w3'], st=(1,))),
         ('load', dict(b, special={1: 'load'}, st=(1,))), ('pwl_two', dict(b, kinds=['w3', 'w4'], st=(1,))),
         ('curve', dict(t, special={0: 'curve'}, st=(1, 0))), ('curve2', dict(b, special={1: 'curve'}, st=(1,))),
         ('user', dict(t, user=dict(nz=1))), ('user_pwl', dict(t, kinds=['w3'], user=dict(nz=1), st=(1,))),
         ('sc', dict(t, alg=565, st=(1,))), ('alg0', dict(t, alg=0, st=(1,), feas=False)),
         ('der', dict(t, der=1)), ('der_nolim', dict(t, der=1, rates=('z',), st=(1,))), ('norate', dict(t, rates=('z', 'b'))), ('signs', dict(t, signs=True, st=(1,)))]
    out = [(n, h, k, {}) for n, k in d]
    out += [('ext', hx, dict(numbers=[7, 3, 5], types=[1, 3, 2], ends=[(0, 1), (2, 1)], gbus=[2, 1], gst=[1, 1], bst=[1, 1]), {}),
            ('ext_off', hx, dict(numbers=[20, 1, 9], types=[3, 1, 2], ends=[(1, 0), (2, 1), (0, 2)], gbus=[2, 0, 2], gst=[1, 1, 0],
                                 bst=[1, 0, 1]), {}),
            ('ext_iso', hx, dict(numbers=[4, 8, 2, 6], types=[4, 1, 3, 1], ends=[(0, 1), (3, 2), (1, 2)], gbus=[0, 3, 2], gst=[1, 1, 1],
                                 bst=[1, 1, 1]), {})]
    return out
