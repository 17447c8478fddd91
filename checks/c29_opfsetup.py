"""C29: opf_setup turns the case's limits, costs and user data into the model."""
import numpy as np
from checks.lib import bus_rows, branch_rows, dc_flows, dc_inj, snapshot
from checks.c18_cost import row, value

INFO = dict(
    functions=['opf_setup', 'opf_args', 'loadcase', 'opf_model', 'makeBdc', 'makeAy', 'makeAang', 'makeAvl', 'makeApq', 'pqcost',
               'run_userfcn'],
    bounds='2-3 buses, 1-3 branches, 1-3 units, DC and AC; limits, loads, ratings (zero and unlimited included), costs, user '
           'constraints, user costs and start values symbolic; user matrices with AC or DC columns, with and without user '
           'variables; optional user fields present or absent; every candidate point',
    outside='offline equipment (removed by ext2int before); user matrices with too few columns, DC problems with user terms on '
            'Vm or Qg (reported on the terminal)',
    assumptions='see C18-C24 for cost and limit tables')


def case(env, dc, nb, ends, gbus, kinds, refs, special=None, rates=('v',), ang=False, width=4, tapped=None):
    np_ = env.np
    ng, nl = len(gbus), len(ends)
    bus = bus_rows(env, [3.0 if i in refs else 1.0 for i in range(nb)], vm=(0.9, 1.1), va=(-60, 60))
    for i in range(nb):
        bus[i, 11], bus[i, 12] = env.var('vmax%d' % i, 1.0, 1.2), env.var('vmin%d' % i, 0.8, 1.0)
    br = branch_rows(env, ends, stat=(1,), width=13, **(dict(tap=None) if tapped is not None or not dc else {}))
    for k in tapped or ():
        br[k, 8] = env.var('tap%d' % k, 0.5, 2.0)
    for k in range(nl):
        r = env.choice('rk%d' % k, list(rates))
        br[k, 5] = dict(v=lambda: env.var('rate%d' % k, 1, 500), z=lambda: 0.0, b=lambda: 1e10)[r]()
    if ang:
        br[0, 11], br[0, 12] = env.var('amin', -80, -1), env.var('amax', 1, 80)
    gen = np_.zeros((ng, 25))
    for k, b in enumerate(gbus):
        gen[k, 0], gen[k, 5], gen[k, 6], gen[k, 7] = b, env.var('vg%d' % k, 0.9, 1.1), 100.0, 1.0
        gen[k, 1], gen[k, 2] = env.var('pg%d' % k, -100, 300), env.var('qg%d' % k, -100, 100)
        gen[k, 8], gen[k, 9] = env.var('pmax%d' % k, 50, 300), env.var('pmin%d' % k, -10, 40)
        gen[k, 3], gen[k, 4] = env.var('qmax%d' % k, 0, 100), env.var('qmin%d' % k, -100, 0)
    for k, sp in (special or {}).items():
        if sp == 'load':
            gen[k, 8], gen[k, 9] = 0.0, -env.var('dl%d' % k, 1, 100)
            gen[k, 3], gen[k, 4] = 0.0, -env.var('dq%d' % k, 1, 60)
            f = env.var('on%d' % k, 0, 1)
            gen[k, 1], gen[k, 2] = f * gen[k, 9], f * gen[k, 4]
        else:                                      # sloped capability curve that cuts the box on both sides
            gen[k, 8], gen[k, 9], gen[k, 3], gen[k, 4] = 100.0, 0.0, 60.0, -60.0
            gen[k, 11] = 100.0
            gen[k, 13], gen[k, 15] = 60.0, env.var('q2x', 10, 50)
            gen[k, 12], gen[k, 14] = -60.0, -env.var('q2n', 10, 50)
    w = max([8] + [4 + int(k[1:]) * (1 if k[0] == 'p' else 2) for k in kinds])
    rows, ds = zip(*[row(env, k, kind, w) for k, kind in enumerate(kinds)])
    base = env.var('base', 10, 200)
    return dict(version='2', baseMVA=base, bus=bus, gen=gen, branch=br, gencost=np_.array(list(rows)), userfcn=[]), ds


def h(env, dc, nb, ends, gbus, kinds, refs=(0,), special=None, rates=('v',), ang=False, ignore=0, user=None):
    np_ = env.np
    inf = np.inf
    ng, nl = len(gbus), len(ends)
    ppc, ds = case(env, dc, nb, ends, gbus, kinds, refs, special, rates, ang)
    base, bus, gen, br = ppc['baseMVA'], ppc['bus'].copy(), ppc['gen'].copy(), ppc['branch'].copy()
    user = user or {}
    nx_ac, nx = 2 * nb + 2 * ng, (nb + ng if dc else 2 * nb + 2 * ng)
    nz = user.get('nz', 0)
    form_ac = not dc or user.get('cols') == 'ac'
    ncol = (nx_ac if form_ac else nx) + nz
    # position of the table's columns within Va, Vm, Pg, Qg, z
    dcpos = list(range(nb)) + list(range(2 * nb, 2 * nb + ng)) + list(range(nx_ac, nx_ac + nz))
    use = dcpos if dc and form_ac else list(range(ncol))

    def mat(pre, m):
        M = np_.zeros((m, ncol))
        for i in range(m):
            for j in use:
                M[i, j] = env.var('%s%d_%d' % (pre, i, j), -5, 5)
        return M
    if 'A' in user:
        UA = mat('A', user['A'])
        ppc['A'] = env.sparse(UA)
        ppc['l'], ppc['u'] = env.vec('ul', user['A']), env.vec('uu', user['A'])
    if 'N' in user:
        nw = user['N']
        UN = mat('N', nw)
        ppc['N'], ppc['Cw'] = env.sparse(UN), env.vec('Cw', nw)
        if user.get('H'):
            UH = env.mat('H', nw, nw)
            ppc['H'] = env.sparse(UH)
        if user.get('fparm'):
            ppc['fparm'] = np_.array([[float(env.choice('d%d' % i, [1, 2])), env.var('rh%d' % i), env.var('kk%d' % i, 0, 5),
                                       env.var('mm%d' % i)] for i in range(nw)])
    if user.get('zb'):
        for c in ('z0', 'zl', 'zu'):
            if c in user['zb']:
                ppc[c] = env.vec(c, nz)
    keep = snapshot(dict((k, ppc[k]) for k in ('l', 'u', 'Cw', 'fparm', 'z0', 'zl', 'zu') if k in ppc))
    opt = dict(env.fn('ppoption')())
    opt['PF_DC'], opt['OPF_ALG'], opt['VERBOSE'], opt['OPF_IGNORE_ANG_LIM'] = bool(dc), 0 if dc else 560, 0, ignore
    om = env.fn('opf_setup')(ppc, opt)
    pwl = [k for k, kind in enumerate(kinds) if kind[0] == 'w' and kind != 'w2' and (not dc or k < ng)]
    ny = len(pwl)
    vv, ll, nn, cc = om.get_idx()
    names = ['Va', 'Pg'] if dc else ['Va', 'Vm', 'Pg', 'Qg']
    sizes = dict(Va=nb, Vm=nb, Pg=ng, Qg=ng, y=ny, z=nz)
    names += (['y'] if ny else []) + (['z'] if nz else [])
    env.ok('variables', [(n, vv['N'][n]) for n in om.var['order']] == [(n, sizes[n]) for n in names])
    tot = sum(sizes[n] for n in names)
    x0, xl, xu = om.getv()
    at = lambda n: range(vv['i1'][n], vv['iN'][n])
    x = [env.var('x%d' % j, -3, 3) for j in range(tot)]
    X = dict((n, [x[j] for j in at(n)]) for n in names)
    rad = np.pi / 180
    for i, j in enumerate(at('Va')):
        va = bus[i, 8] * rad
        env.eq('angle start', x0[j], va)
        env.eq('angle bounds', [xl[j], xu[j]], [va, va] if i in refs else [-inf, inf])
    for k, j in enumerate(at('Pg')):
        env.eq('active output', [x0[j], xl[j], xu[j]], [gen[k, 1] / base, gen[k, 9] / base, gen[k, 8] / base])
    if not dc:
        for i, j in enumerate(at('Vm')):
            g = [k for k in range(ng) if gbus[k] == i]
            env.eq('voltage bounds', [xl[j], xu[j]], [bus[i, 12], bus[i, 11]])
            env.ok('voltage start', env.Or([env.equal(x0[j], gen[k, 5]) for k in g] if g else [env.equal(x0[j], bus[i, 7])]))
        for k, j in enumerate(at('Qg')):
            env.eq('reactive output', [x0[j], xl[j], xu[j]], [gen[k, 2] / base, gen[k, 4] / base, gen[k, 3] / base])
        env.ok('nonlinear sets', [(n, nn['N'][n]) for n in om.nln['order']] == [('Pmis', nb), ('Qmis', nb), ('Sf', nl), ('St', nl)])
    else:
        env.ok('no nonlinear sets', om.getN('nln') == 0)
    if ny:
        env.eq('cost variables free', [[xl[j], xu[j]] for j in at('y')], [[-inf, inf]] * ny)
    if nz:
        env.eq('user variables', [[x0[j] for j in at('z')], [xl[j] for j in at('z')], [xu[j] for j in at('z')]],
               [list(keep['z0']) if 'z0' in keep else [0.0] * nz, list(keep['zl']) if 'zl' in keep else [-inf] * nz,
                list(keep['zu']) if 'zu' in keep else [inf] * nz])
    A, l, u = om.linear_constraints()
    if A is None:
        A = np_.zeros((0, tot))
    A = env.dense(A)
    Ax = [sum((A[r, j] * x[j] for j in range(tot)), 0.0) for r in range(A.shape[0])]
    rng = lambda n: range(ll['i1'][n], ll['iN'][n])
    if dc:
        pf = dc_flows(env, br, ends, X['Va'])
        inj = dc_inj(env, nb, ends, pf)
        for i, r in enumerate(rng('Pmis')):
            mis = inj[i] + (bus[i, 2] + bus[i, 4]) / base - sum((X['Pg'][k] for k in range(ng) if gbus[k] == i), 0.0)
            env.eq('bus balance', [Ax[r] - l[r], Ax[r] - u[r]], [mis, mis])
        lim = [k for k in range(nl) if bool(br[k, 5] != 0) and bool(br[k, 5] < 1e10)]
        env.ok('balance and flow rows', len(rng('Pmis')) == nb and len(rng('Pf')) == len(lim) and len(rng('Pt')) == len(lim))
        for k, r, s in zip(lim, rng('Pf'), rng('Pt')):
            env.eq('flow limit', [l[r], Ax[r] - u[r]], [-inf, pf[k] - br[k, 5] / base])
            env.eq('reverse flow limit', [l[s], Ax[s] - u[s]], [-inf, -pf[k] - br[k, 5] / base])
    # voltage angle differences
    la = [0] if ang and not ignore else []
    env.ok('angle rows', len(rng('ang')) == len(la))
    for k, r in zip(la, rng('ang')):
        env.eq('angle difference', [Ax[r], l[r], u[r]],
               [X['Va'][ends[k][0]] - X['Va'][ends[k][1]], br[k, 11] * rad, br[k, 12] * rad])
    # costs
    if ny:
        rows = list(rng('ycon'))
        admit = env.And([env.le(Ax[r], u[r]) for r in rows])
        above = []
        for j, k in enumerate(pwl):
            P = (X['Pg'][k] if k < ng else X['Qg'][k - ng]) * base
            for (x1, y1), (x2, y2) in zip(ds[k], ds[k][1:]):
                above.append(env.le(y1 + (y2 - y1) / (x2 - x1) * (P - x1), X['y'][j]))
        env.ok('cost rows admit', env.Implies(env.And(above), admit))
        env.ok('cost rows exclude', env.Implies(admit, env.And(above)))
        env.ok('cost rows open below', all(bool(l[r] == -inf) for r in rows))
    gc = om.get_ppc()['gencost']
    env.ok('cost table', gc.shape[0] == (ng if dc else len(kinds)))
    for k in range(gc.shape[0]):
        if kinds[k] == 'w2':
            P = env.var('cp%d' % k, -100, 300)
            env.ok('single segment as line', bool(gc[k, 0] == 2) and bool(gc[k, 3] == 2))
            env.eq('line', gc[k, 4] * P + gc[k, 5], value(env, 'w2', ds[k], P))
        else:
            env.eq('cost kept', [gc[k, 0], gc[k, 3]], [2.0 if kinds[k][0] == 'p' else 1.0, float(kinds[k][1:])])
            d = list(ds[k]) if kinds[k][0] == 'p' else [v for p in ds[k] for v in p]
            env.eq('coefficients kept', [gc[k, 4 + i] for i in range(len(d))], d)
    # loads and capability curves
    if not dc:
        sp = special or {}
        ld, cv = [k for k in sp if sp[k] == 'load'], [k for k in sp if sp[k] != 'load']
        env.ok('load and curve rows', len(rng('vl')) == len(ld) and len(rng('PQh')) == len(cv) and len(rng('PQl')) == len(cv))
        for k, r in zip(ld, rng('vl')):
            c = A[r, vv['i1']['Qg'] + k]
            env.eq('constant power factor', [Ax[r] * gen[k, 9] - c * (X['Qg'][k] * gen[k, 9] - X['Pg'][k] * gen[k, 4]), l[r], u[r]],
                   [0.0, 0.0, 0.0])
            env.ok('power factor effective', c != 0)
        for k, r, s in zip(cv, rng('PQh'), rng('PQl')):
            P, Q = X['Pg'][k] * base, X['Qg'][k] * base
            env.ok('upper curve', env.And(env.Implies(env.le(Ax[r], u[r]), env.le(Q * 100, 6000.0 + (gen[k, 15] - 60) * P)),
                                          env.Implies(env.le(Q * 100, 6000.0 + (gen[k, 15] - 60) * P), env.le(Ax[r], u[r]))))
            env.ok('lower curve', env.And(env.Implies(env.le(Ax[s], u[s]), env.le(-6000.0 + (gen[k, 14] + 60) * P, Q * 100)),
                                          env.Implies(env.le(-6000.0 + (gen[k, 14] + 60) * P, Q * 100), env.le(Ax[s], u[s]))))
            env.ok('curves open', bool(l[r] == -inf) and bool(l[s] == -inf))
    # user constraints and costs
    xu_ = X['Va'] + ((X['Vm'] if not dc else [0.0] * nb) if form_ac else []) + X['Pg'] + \
        ((X['Qg'] if not dc else [0.0] * ng) if form_ac else []) + X.get('z', [])
    if 'A' in user:
        env.ok('user rows', len(rng('usr')) == user['A'])
        for i, r in enumerate(rng('usr')):
            env.eq('user constraint', [Ax[r], l[r], u[r]], [sum((UA[i, j] * xu_[j] for j in use), 0.0), keep['l'][i], keep['u'][i]])
    n_lin = sum(len(rng(n)) for n in om.lin['order'])
    env.ok('no further rows', n_lin == A.shape[0] and set(om.lin['order']) ==
           set((['Pmis', 'Pf', 'Pt'] if dc else ['PQh', 'PQl', 'vl']) + ['ang'] + (['ycon'] if ny else []) + (['usr'] if 'A' in user else [])))
    om.build_cost_params()
    cp = om.get_cost_params()
    if 'N' in user:
        N, H = env.dense(cp['N']), env.dense(cp['H'])
        env.ok('user cost size', N.shape == (nw, tot) and H.shape == (nw, nw))
        for i in range(nw):
            env.eq('user cost row', sum((N[i, j] * x[j] for j in range(tot)), 0.0), sum((UN[i, j] * xu_[j] for j in use), 0.0))
            env.eq('user cost weights', [cp['Cw'][i]] + [H[i, j] for j in range(nw)],
                   [keep['Cw'][i]] + [UH[i, j] if user.get('H') else 0.0 for j in range(nw)])
            env.eq('user cost shape', [cp[f][i] for f in ('dd', 'rh', 'kk', 'mm')],
                   [keep['fparm'][i, j] for j in range(4)] if user.get('fparm') else [1.0, 0.0, 0.0, 1.0])
    else:
        env.ok('no user costs', om.getN('cost') == 0)


def harnesses(tier):
    out = []
    for dc in (1, 0):
        s = 'dc' if dc else 'ac'
        b = dict(dc=dc, nb=3, ends=[(0, 1), (2, 1)], gbus=[2, 0], kinds=['p3', 'p2'], refs=(1,))
        t = dict(dc=dc, nb=2, ends=[(1, 0)], gbus=[0], kinds=['p3'])
        d = [('plain', dict(b)), ('rates', dict(b, ends=[(0, 1), (1, 2), (2, 0)], rates=('v', 'z', 'b') if dc else ('v',))),
             ('same_bus', dict(b, gbus=[1, 1, 0], kinds=['p3', 'w3', 'w2'], refs=(0, 2))),
             ('angle', dict(t, ang=True)), ('angle_off', dict(t, ang=True, ignore=1)),
             ('q_cost', dict(t, kinds=['w2', 'p3'])), ('q_pwl', dict(t, kinds=['p2', 'w3'])), ('pq_pwl', dict(t, kinds=['w4', 'w3'])),
             ('pwl_mix', dict(b, kinds=['w3', 'p2', 'w2', 'w3'])),
             ('user_A', dict(t, user=dict(A=2))), ('user_Az', dict(t, user=dict(A=1, nz=2))),
             ('user_Azb', dict(t, kinds=['w3'], user=dict(A=1, nz=2, zb=('z0', 'zl', 'zu')))),
             ('user_Azl', dict(t, user=dict(A=2, nz=1, zb=('zl',)))),
             ('user_N', dict(t, user=dict(N=1))), ('user_NH', dict(t, user=dict(N=2, H=1, A=1, nz=1))),
             ('user_Nf', dict(t, kinds=['w3'], user=dict(N=1, H=1, fparm=1))), ('user_Nf2', dict(t, user=dict(N=2, fparm=1)))]
        if dc:
            d += [('user_ac', dict(t, user=dict(A=1, N=1, H=1, cols='ac'))), ('user_acz', dict(b, user=dict(A=2, nz=1, cols='ac'))),
                  ('user_acN', dict(t, gbus=[0, 1], kinds=['p2', 'p3'], user=dict(N=1, cols='ac')))]
        else:
            d += [('load', dict(b, special={0: 'load'})), ('curve', dict(b, special={1: 'curve'})),
                  ('both', dict(b, gbus=[2, 0, 1], kinds=['p3', 'p2', 'w3'], special={0: 'curve', 2: 'load'}, user=dict(A=1)))]
        out += [('%s_%s' % (s, n), h, k, {}) for n, k in d]
    return out
