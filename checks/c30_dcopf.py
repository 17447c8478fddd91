"""C30: dcopf_solver and opf_execute for DC problems, with the QP solver replaced by an arbitrary answer."""
import numpy as np
from checks.lib import snapshot, dc_flows
from checks.c18_cost import value
from checks.c29_opfsetup import case

INFO = dict(
    functions=['dcopf_solver', 'opf_execute', 'opf_setup', 'opf_model'],
    bounds='2-3 buses, 1-3 branches, 1-3 units, polynomial costs of 1-3 coefficients and piecewise linear costs in any listed '
           'mixture, 0-2 generalized cost rows with shifts, scales and quadratic terms, user variables; the QP solver is an '
           'arbitrary function: every solution, objective, status and multiplier it could return',
    outside='the QP solution itself (C31, C32); raw.pimul and start points; nonlinear generalized costs (not supported by the DC '
            'formulation); solvers other than the built-in one',
    assumptions='H symmetric; dd = 1 and kk = 0')


def h(env, nb, ends, gbus, kinds, refs=(0,), rates=('v',), ang=False, user=None, info=(1, 0, -1), alg=0, nan=False):
    np_ = env.np
    ng, nl = len(gbus), len(ends)
    ppc, ds = case(env, 1, nb, ends, gbus, kinds, refs, None, rates, ang)
    ppc['bus'] = np_.hstack([ppc['bus'], env.mat('ob', nb, 4)])
    ppc['branch'] = np_.hstack([ppc['branch'], env.mat('ol', nl, 8)])
    base = ppc['baseMVA']
    user = user or {}
    nz, nw = user.get('nz', 0), user.get('N', 0)
    nc = nb + ng + nz
    if nz:
        UA = env.mat('A', 1, nc)
        ppc['A'], ppc['l'], ppc['u'] = env.sparse(UA), env.vec('ul', 1), env.vec('uu', 1)
    UH, fp = [[0.0] * nw for _ in range(nw)], [[1.0, 0.0, 0.0, 1.0] for _ in range(nw)]
    if nw:
        UN = env.mat('N', nw, nc)
        ppc['N'], ppc['Cw'] = env.sparse(UN), env.vec('Cw', nw)
        if user.get('H'):
            for i in range(nw):
                for j in range(i + 1):
                    UH[i][j] = UH[j][i] = env.var('H%d_%d' % (i, j), -5, 5)
            ppc['H'] = env.sparse(np_.array(UH))
        if user.get('fparm'):
            fp = [[1.0, env.var('rh%d' % i), 0.0, env.var('mm%d' % i)] for i in range(nw)]
            ppc['fparm'] = np_.array(fp)
        Cw = list(ppc['Cw'])
    opt = dict(env.fn('ppoption')())
    opt['PF_DC'], opt['OPF_ALG_DC'], opt['VERBOSE'] = True, alg, 0
    for c, v in (('PDIPM_GRADTOL', 3e-6), ('PDIPM_COMPTOL', 4e-6), ('PDIPM_COSTTOL', 5e-6), ('PDIPM_MAX_IT', 77),
                 ('OPF_VIOLATION', 2e-5), ('SCPDIPM_RED_IT', 13)):
        opt[c] = v
    om = env.fn('opf_setup')(ppc, opt)
    pwl = [k for k, kind in enumerate(kinds) if kind[0] == 'w' and kind != 'w2' and k < ng]
    tot = om.getN('var')
    A, l, u = om.linear_constraints()
    m = A.shape[0]
    _, xl, xu = om.getv()
    vv, ll, _, _ = om.get_idx()
    x = [env.var('x%d' % j, -3, 3) for j in range(tot)]
    fs = env.var('fs', -500, 500)
    st = env.choice('info', list(info))
    mu = dict((n, [env.var('%s%d' % (n, i), 0, 50) for i in range(k)])
              for n, k in (('mu_l', m), ('mu_u', m), ('lower', tot), ('upper', tot)))
    got = {}

    def qps(*a):
        got['args'] = a
        return np_.array([np.nan] * tot) if nan else np_.array(x), fs, st, dict(), dict((n, np_.array(v)) for n, v in mu.items())
    env.patch('dcopf_solver', 'qps_pypower', qps)
    env.patch('dcopf_solver', 'have_fcn', lambda n: False)
    before = snapshot(dict((k, ppc[k]) for k in ('bus', 'gen', 'branch', 'gencost')))
    res, ok, raw = env.fn('opf_execute')(om, opt)
    HH, CC, A1, l1, u1, xl1, xu1, x0, qo = got['args']
    env.eq('constraints as in the model', [env.dense(A1), l1, u1, xl1, xu1], [env.dense(A), l, u, xl, xu])
    env.ok('solver options', qo['alg'] == (alg or 200) and all(qo['pips_opt'][a] == b for a, b in (
        ('feastol', 2e-5), ('gradtol', 3e-6), ('comptol', 4e-6), ('costtol', 5e-6), ('max_it', 77), ('max_red', 13), ('cost_mult', 1))))
    env.ok('status', bool(ok) == (st == 1) and raw['info'] == st)
    if nan:
        env.eq('case kept', [res['bus'][:, 8], res['gen'][:, 1]], [before['bus'][:, 8], before['gen'][:, 1]])
        return
    # objective
    HH = env.dense(HH)
    q = sum((x[i] * HH[i, j] * x[j] / 2 for i in range(tot) for j in range(tot)), 0.0) + \
        sum((CC[j] * x[j] for j in range(tot)), 0.0) + (res['f'] - fs)
    at = lambda n: list(range(vv['i1'][n], vv['iN'][n]))
    X = dict((n, [x[j] for j in at(n)]) for n in om.var['order'])
    want, w = 0.0, []
    for k in range(ng):
        if k not in pwl:
            want = want + value(env, kinds[k], ds[k], X['Pg'][k] * base)
    want = want + sum(X.get('y', []), 0.0)
    xu_ = X['Va'] + X['Pg'] + X.get('z', [])
    for i in range(nw):
        w.append(fp[i][3] * (sum((UN[i, j] * xu_[j] for j in range(nc)), 0.0) - fp[i][1]))
    want = want + sum((Cw[i] * w[i] for i in range(nw)), 0.0) + sum((w[i] * UH[i][j] * w[j] / 2 for i in range(nw)
                                                                    for j in range(nw)), 0.0)
    env.eq('objective', q, want)
    env.eq('symmetric', [HH[i, j] for i in range(tot) for j in range(i)], [HH[j, i] for i in range(tot) for j in range(i)])
    # results in place
    bus, gen, br = res['bus'], res['gen'], res['branch']
    env.eq('angles', bus[:, 8], [a * 180 / np.pi for a in X['Va']])
    env.eq('dispatch', gen[:, 1], [p * base for p in X['Pg']])
    pf = dc_flows(env, before['branch'], ends, X['Va'])
    env.eq('flows', [br[:, 13], br[:, 15]], [[f * base for f in pf], [-f * base for f in pf]])
    env.eq('no reactive flows', [br[:, 14], br[:, 16]], [[0.0] * nl, [0.0] * nl])
    R = lambda n: list(range(ll['i1'][n], ll['iN'][n]))
    pm, fr, to = R('Pmis'), R('Pf'), R('Pt')
    env.eq('nodal prices', bus[:, 13], [(mu['mu_u'][r] - mu['mu_l'][r]) / base for r in pm])
    env.eq('no other bus prices', [bus[:, c] for c in (14, 15, 16)], [[0.0] * nb] * 3)
    lim = [k for k in range(nl) if bool(before['branch'][k, 5] != 0) and bool(before['branch'][k, 5] < 1e10)]
    for c, rows in ((17, fr), (18, to)):
        env.eq('flow prices', br[:, c], [mu['mu_u'][rows[lim.index(k)]] / base if k in lim else 0.0 for k in range(nl)])
    env.eq('output prices', [gen[:, 22], gen[:, 21]], [[mu['lower'][j] / base for j in at('Pg')], [mu['upper'][j] / base for j in at('Pg')]])
    env.eq('no reactive prices', [gen[:, 23], gen[:, 24]], [[0.0] * ng] * 2)
    if ang:
        r = R('ang')[0]
        if st == 1:
            env.eq('angle prices', [br[0, 19], br[0, 20]], [mu['mu_l'][r] * np.pi / 180, mu['mu_u'][r] * np.pi / 180])
    for c in (0, 1, 2, 3, 4, 5, 7, 9, 11, 12):
        env.eq('bus data kept', bus[:, c], before['bus'][:, c])
    for c in (0, 2, 3, 4, 5, 6, 7, 8, 9):
        env.eq('unit data kept', gen[:, c], before['gen'][:, c])
    for c in range(13):
        env.eq('branch data kept', br[:, c], before['branch'][:, c])
    # raw and named results
    for n in om.var['order']:
        if om.getN('var', n):
            env.eq('named variables', [res['var']['val'][n], res['var']['mu']['l'][n], res['var']['mu']['u'][n]],
                   [X[n], [mu['lower'][j] for j in at(n)], [mu['upper'][j] for j in at(n)]])
    for n in om.lin['order']:
        if om.getN('lin', n):
            env.eq('named prices', [res['lin']['mu']['l'][n], res['lin']['mu']['u'][n]],
                   [[mu['mu_l'][r] for r in R(n)], [mu['mu_u'][r] for r in R(n)]])
    env.eq('variable prices', [res['mu']['var']['l'], res['mu']['var']['u'], res['mu']['lin']['l'], res['mu']['lin']['u']],
           [mu['lower'], mu['upper'], mu['mu_l'], mu['mu_u']])
    if nw:
        env.eq('user cost', res['cost']['usr'], sum((Cw[i] * w[i] for i in range(nw)), 0.0) +
               sum((w[i] * UH[i][j] * w[j] / 2 for i in range(nw) for j in range(nw)), 0.0))


def harnesses(tier):
    b = dict(nb=3, ends=[(0, 1), (2, 1)], gbus=[2, 0], kinds=['p3', 'p2'], refs=(1,))
    t = dict(nb=2, ends=[(1, 0)], gbus=[0], kinds=['p3'])
    d = [('plain', dict(b)), ('rates', dict(b, ends=[(0, 1), (1, 2), (2, 0)], rates=('v', 'z', 'b'), info=(1,))),
         ('same_bus', dict(b, gbus=[1, 1, 0], kinds=['p3', 'w3', 'w2'], refs=(0, 2), info=(1,))),
         ('angle', dict(t, ang=True)), ('constant', dict(t, gbus=[0, 1, 1], kinds=['p1', 'p3', 'p1'], info=(1,))),
         ('pwl_only', dict(t, kinds=['w3'])), ('pwl_two', dict(b, kinds=['w3', 'w4'], info=(1,))),
         ('pwl_last', dict(b, kinds=['p3', 'w3'], info=(1,))), ('linear', dict(b, kinds=['p2', 'w2'], info=(1,))),
         ('rc', dict(t, kinds=['p3', 'p2'])), ('sc', dict(t, alg=250)), ('alg', dict(t, alg=200)),
         # every order of cost behind a piecewise linear one
         ('mixed_orders', dict(t, gbus=[0, 1, 1, 0], kinds=['w3', 'p1', 'p3', 'p2'], info=(1,))),
         ('mixed_pwl', dict(t, gbus=[0, 1, 1, 0], kinds=['p2', 'w3', 'p1', 'w3'], info=(1,))),
         ('nan', dict(t, nan=True, info=(0, -1))),
         ('user', dict(t, user=dict(N=1))), ('user_H', dict(t, user=dict(N=2, H=1), info=(1,))),
         ('user_rh', dict(t, user=dict(N=1, fparm=1))), ('user_all', dict(t, user=dict(N=2, H=1, fparm=1), info=(1,))),
         ('user_pwl', dict(t, kinds=['w3'], user=dict(N=1, H=1, fparm=1, nz=1), info=(1,))),
         ('user_mix', dict(t, gbus=[0, 1], kinds=['w3', 'p2'], user=dict(N=2, H=1, fparm=1, nz=1), info=(1,)))]
    return [(n, h, k, {}) for n, k in d]
