"""C25: opf_model assembly and queries."""
import numpy as np
from itertools import permutations

INFO = dict(
    functions=['opf_model: add_vars, add_constraints, add_costs, build_cost_params, compute_cost, get_cost_params, getv, '
               'getN, get_idx, linear_constraints, userdata'],
    bounds='up to 4 variable sets of 0-2 variables, 4 linear sets of 0-2 rows, 3 nonlinear sets, 3 cost sets of 1-2 rows in '
           'every interleaving of the listed histories, every subset and order of variable sets they refer to, optional '
           'bounds and cost fields present or absent, named and total queries in every listed order; all data symbolic',
    outside='duplicate names and sizes that do not match (only reported on the terminal)',
    assumptions='dead zone widths nonnegative')


def subsets(env, name, names):
    """None (all) or an ordered choice of the existing sets"""
    opts = [None]
    for r in range(1, min(2, len(names)) + 1):
        opts += [list(p) for p in permutations(names, r)]
    return env.choice(name, opts)


def spmat(env, pre, m, n):
    np_ = env.np
    M = np_.zeros((m, n))
    for i in range(m):
        for j in range(n):
            M[i, j] = env.var('%s%d_%d' % (pre, i, j))
    return M, env.sparse(M)


def wcost(env, cp, R):
    """documented generalized cost for the shifted values R = N x - rh"""
    w = []
    for i, r in enumerate(R):
        kk = cp['kk'][i]
        if r < -kk:
            rr, u = r + kk, 1.0
        elif r > kk:
            rr, u = r - kk, 1.0
        else:
            rr, u = r, 0.0
        w.append(cp['mm'][i] * u * (rr if cp['dd'][i] == 1 else rr * rr if cp['dd'][i] == 2 else 0.0))
    n = len(w)
    f = 0.0
    for i in range(n):
        f = f + cp['Cw'][i] * w[i]
        for j in range(n):
            f = f + w[i] * cp['H'][i][j] * w[j] / 2
    return f


class Ref(object):
    def __init__(self):
        self.vars, self.lin, self.nln, self.cost = [], [], [], []


def add(env, om, ref, q, what, kw):
    np_ = env.np
    name = '%s%d' % (what, q)
    nv = dict((n, s) for n, s, _, _, _ in ref.vars)
    if what == 'v':
        N = kw['n']
        have = kw.get('have', ('v0', 'vl', 'vu'))
        args = [np_.array([env.var('%s_%s_%d' % (name, a, i)) for i in range(N)]) if a in have else None
                for a in ('v0', 'vl', 'vu')]
        om.add_vars(name, N, *args)
        d = [[0.0] * N, [-np.inf] * N, [np.inf] * N]
        ref.vars.append((name, N) + tuple([a[i] for i in range(N)] if a is not None and N else d[k]
                                          for k, a in enumerate(args)))
    elif what == 'n':
        om.add_constraints(name, kw['n'], 'nonlinear')
        ref.nln.append((name, kw['n']))
    elif what == 'l':
        vs = kw['vs'] if 'vs' in kw else subsets(env, name + 'vs', [n for n, s, _, _, _ in ref.vars])
        full = vs or [n for n, _, _, _, _ in ref.vars]
        m = sum(nv[v] for v in full)
        M, A = spmat(env, name, kw['n'], m)
        lo = np_.array([env.var('%s_l%d' % (name, i)) for i in range(kw['n'])]) if 'l' in kw.get('have', 'lu') else \
            np_.array([])
        up = np_.array([env.var('%s_u%d' % (name, i)) for i in range(kw['n'])]) if 'u' in kw.get('have', 'lu') else []
        om.add_constraints(name, A, lo, up, vs) if vs or q % 2 else om.add_constraints(name, A, lo, up)
        ref.lin.append((name, kw['n'], M, list(full), list(lo) if len(lo) else [-np.inf] * kw['n'],
                        list(up) if len(up) else [np.inf] * kw['n']))
    else:
        vs = kw['vs'] if 'vs' in kw else subsets(env, name + 'vs', [n for n, s, _, _, _ in ref.vars])
        full = vs or [n for n, _, _, _, _ in ref.vars]
        m, n = sum(nv[v] for v in full), kw['n']
        M, N = spmat(env, name, n, m)
        cp = dict(N=N, Cw=np_.array([env.var('%s_c%d' % (name, i)) for i in range(n)]))
        r = dict(M=M, Cw=list(cp['Cw']), H=[[0.0] * n for _ in range(n)], dd=[1.0] * n, rh=[0.0] * n, kk=[0.0] * n,
                 mm=[1.0] * n)
        have = kw.get('have', '')
        if 'H' in have:
            Hd, cp['H'] = spmat(env, name + 'H', n, n)
            r['H'] = [[Hd[i, j] for j in range(n)] for i in range(n)]
        for f, lo, hi in (('dd', None, None), ('rh', -5, 5), ('kk', 0, 3), ('mm', -5, 5)):
            if f in have:
                cp[f] = np_.array([float(env.choice('%s_dd%d' % (name, i), [2, 1])) if f == 'dd' else
                                   env.var('%s_%s%d' % (name, f, i), lo, hi) for i in range(n)])
                r[f] = list(cp[f])
        om.add_costs(name, cp, vs)
        ref.cost.append((name, n, r, list(full)))


def h(env, ops, perms=None, queries='tnt'):
    np_ = env.np
    om = env.fn('opf_model')(dict(a=1))
    ref = Ref()
    if perms:
        ops = env.choice('order', [[ops[i] for i in p] for p in perms])
    for q, (what, kw) in enumerate(ops):
        add(env, om, ref, q, what, kw)
        if kw.get('query'):
            om.build_cost_params()
            om.get_cost_params()
            om.getv()
    names = [v[0] for v in ref.vars]
    off, tot = {}, 0
    for v in ref.vars:
        off[v[0]] = (tot, tot + v[1])
        tot += v[1]
    vv, ll, nn, cc = om.get_idx()
    for sel, idx, items in (('var', vv, ref.vars), ('lin', ll, ref.lin), ('nln', nn, ref.nln), ('cost', cc, ref.cost)):
        p = 0
        for it in items:
            env.ok('range of %s' % sel, idx['i1'][it[0]] == p and idx['iN'][it[0]] == p + it[1] and idx['N'][it[0]] == it[1]
                   and om.getN(sel, it[0]) == it[1])
            p += it[1]
        env.ok('count of %s' % sel, om.getN(sel) == p and om.getN(sel, 'no such set') == 0)
        env.ok('order of %s' % sel, list(getattr(om, sel)['order']) == [it[0] for it in items] and
               getattr(om, sel)['NS'] == len(items))

    def chk_vars():
        got = om.getv()
        for g, k in zip(got, (2, 3, 4)):
            env.eq('all variables', [g[i] for i in range(tot)], sum([list(v[k]) for v in ref.vars], []))
            env.ok('variable count', len(g) == tot)
        for v in ref.vars:
            g = om.getv(v[0])
            env.eq('named variables', [[a[i] for i in range(v[1])] for a in g], [list(v[2]), list(v[3]), list(v[4])])

    chk_vars()
    x = np_.array([env.var('x%d' % i, -3, 3) for i in range(tot)])

    def cat(vs):
        return sum([[x[i] for i in range(*off[v])] for v in vs], [])

    def chk_lin():
        A, l, u = om.linear_constraints()
        nl = sum(r[1] for r in ref.lin)
        if not nl:
            env.ok('no linear constraints', A is None and len(l) == 0 and len(u) == 0)
            return
        A = env.dense(A)
        env.ok('size of A', A.shape == (nl, tot) and len(l) == nl and len(u) == nl)
        p = 0
        for name, n, M, vs, lo, up in ref.lin:
            xs = cat(vs)
            for i in range(n):
                env.eq('linear row', sum((A[p + i, j] * x[j] for j in range(tot)), 0.0),
                       sum((M[i, j] * xs[j] for j in range(len(xs))), 0.0))
            env.eq('linear bounds', [[l[p + i], u[p + i]] for i in range(n)], [[lo[i], up[i]] for i in range(n)])
            p += n

    chk_lin()
    if ref.cost:
        om.build_cost_params()
        want, total = {}, 0.0
        for name, n, r, vs in ref.cost:
            xs = cat(vs)
            R = [sum((r['M'][i, j] * xs[j] for j in range(len(xs))), 0.0) - r['rh'][i] for i in range(n)]
            want[name] = wcost(env, r, R)
            total = total + want[name]

        def chk_params(name):
            cp = om.get_cost_params() if name is None else om.get_cost_params(name)
            sets = [c for c in ref.cost if name in (None, c[0])]
            N, H = env.dense(cp['N']), env.dense(cp['H'])
            nw = sum(c[1] for c in sets)
            env.ok('size of N', N.shape == (nw, tot) and H.shape == (nw, nw))
            for f in ('Cw', 'dd', 'rh', 'kk', 'mm'):
                env.eq('cost field ' + f, [cp[f][i] for i in range(nw)], sum([c[2][f] for c in sets], []))
            p = 0
            for c in sets:
                xs = cat(c[3])
                for i in range(c[1]):
                    env.eq('cost row', sum((N[p + i, j] * x[j] for j in range(tot)), 0.0),
                           sum((c[2]['M'][i, j] * xs[j] for j in range(len(xs))), 0.0))
                    env.eq('quadratic', [H[p + i, j] for j in range(nw)],
                           [c[2]['H'][i][j - p] if p <= j < p + c[1] else 0.0 for j in range(nw)])
                p += c[1]

        for c in queries:
            if c == 't':
                env.eq('total user cost', om.compute_cost(x), total)
            elif c == 'n':
                for name, n, r, vs in ref.cost:
                    env.eq('user cost of a set', om.compute_cost(x, name), want[name])
            elif c == 'p':
                chk_params(None)
            elif c == 'q':
                for cst in reversed(ref.cost):
                    chk_params(cst[0])
    chk_lin()
    chk_vars()
    om.userdata('k', np_.array([1.0]))
    env.ok('user data', om.userdata('k')[0] == 1 and len(om.userdata('none')) == 0 and om.get_ppc() == dict(a=1))


def harnesses(tier):
    V = lambda n, **k: ('v', dict(n=n, **k))
    L = lambda n, **k: ('l', dict(n=n, **k))
    N = lambda n: ('n', dict(n=n))
    K = lambda n, have='', **k: ('c', dict(n=n, have=have, **k))
    d = [('vars', dict(ops=[V(2), V(0), V(1, have=('vl',)), V(2, have=('v0', 'vu'))],
                       perms=list(permutations(range(4))))),
         ('lin', dict(ops=[V(2), V(1), L(1), L(2, have='u'), V(1), L(1, have='l')])),
         ('late', dict(ops=[V(1), L(1, vs=None), K(1, vs=None), V(2), L(1, vs=None), K(1, vs=None, have='rh'), N(2)])),
         ('empty', dict(ops=[V(1), V(2), L(0, vs=None), N(3), L(2, vs=None), N(0), N(1), L(0, vs=None)])),
         ('none', dict(ops=[V(2), N(2)])),
         ('mixed', dict(ops=[V(1), N(2), V(1), L(1, vs=['v2', 'v0']), N(1), V(1), L(1), K(1, vs=['v5'])], queries='t')),
         ('cost_dz', dict(ops=[V(2), K(1, 'ddkkmmrh')], queries='tpn')),
         ('cost_quad', dict(ops=[V(1), V(1), K(2, 'Hddmm', vs=['v1', 'v0'])], queries='ptn')),
         ('cost_two', dict(ops=[V(1), V(1), K(1, 'Hrh'), K(1, 'ddkk')], queries='tnt')),
         ('cost_named', dict(ops=[V(2), V(1), K(1, 'mm', query=1), K(2, 'rh', vs=['v1']), V(1), K(1, 'H', vs=['v4', 'v1'])],
                             queries='qpntqp'))]
    for f in ('dd', 'rh', 'kk', 'mm', 'H', ''):
        d.append(('field_' + f, dict(ops=[V(1), K(1, '', vs=['v0']), V(1), K(2, f, vs=['v2', 'v0']), K(1, f, vs=None)],
                                     queries='pqtn' if f != 'kk' else 'pq')))
    if tier == 'thorough':
        d += [('cost_all', dict(ops=[V(2), V(1), K(2, 'Hddrhkkmm', vs=['v1', 'v0'])], queries='ntpn')),
              ('perm', dict(ops=[V(1), V(2), V(1), L(2), L(1), K(1, 'Hrh'), K(2)], queries='tnqp'))]
    return [(n, h, k, dict(budget_s=700)) for n, k in d]
