"""C32: qps_pips and qps_pypower: the problem posed to the solver, and what comes back."""
import numpy as np
from checks.lib import snapshot

INFO = dict(
    functions=['qps_pypower', 'qps_pips'],
    bounds='1-3 variables, 0-2 linear rows, unknown H (symmetric, sparse or dense), c, A, limits, bounds and start; every subset of '
           'the optional inputs, positional and dict form, options for both built-in algorithms; the interior point solver is an '
           'arbitrary function of the problem it is given',
    outside='external solvers; LPs without any constraint (rejected with a message)', assumptions='H symmetric')

INF = float('inf')


def h(env, which, nx, m, form, have, hform='csr', alg=None, verbose=None, max_it=None, pips_opt=False, st=(True, False)):
    """have: letters of the inputs given: H c A l u n(xmin) x(xmax) 0(x0) o(opt)"""
    np_ = env.np
    Hm = [[0.0] * nx for _ in range(nx)]
    for i in range(nx):
        for j in range(i + 1):
            Hm[i][j] = Hm[j][i] = env.var('H%d%d' % (i, j), -5, 5)
    Hd = np_.array(Hm)
    H = env.sparse(Hd) if hform == 'csr' else Hd
    c, A = env.vec('c', nx), env.mat('A', m, nx) if m else np_.zeros((0, nx))
    l, u = env.vec('l', m, -5, 0), env.vec('u', m, 0, 5)
    n, x, x0 = env.vec('n', nx, -5, 0), env.vec('x', nx, 0, 5), env.vec('s', nx)
    As = env.sparse(A) if hform == 'csr' or not m else A
    opt = {}
    po = dict(feastol=1e-5, comptol=2e-5, max_red=7)
    if which == 'qps_pypower':
        if alg is not None:
            opt['alg'] = alg
        if verbose is not None:
            opt['verbose'] = verbose
        if max_it is not None:
            opt['max_it'] = max_it
        if pips_opt:
            opt['pips_opt'] = po
    else:
        opt = dict(po)
        if max_it is not None:
            opt['max_it'] = max_it
    vals = dict(H=H, c=c, A=As, l=l, u=u, xmin=n, xmax=x, x0=x0, opt=opt)
    keys = dict(H='H', c='c', A='A', l='l', u='u', n='xmin', x='xmax', o='opt')
    keys['0'] = 'x0'
    p = dict((k, vals[k]) for a, k in keys.items() if a in have)
    keep, keepopt, keeppo = snapshot(dict((k, env.dense(v) if k in 'HA' else v) for k, v in p.items() if k != 'opt')), dict(opt), dict(po)
    got = []
    sol = dict(x=np_.array([env.var('X%d' % i, -5, 5) for i in range(nx)]), f=env.var('F', -5, 5),
               eflag=env.choice('st', list(st)), output={'iterations': 3, 'message': 'm'},
               lmbda=dict((k, env.vec('L' + k, z, 0, 5)) for k, z in (('mu_l', m), ('mu_u', m), ('lower', nx), ('upper', nx))))

    def pips(f_fcn, x0=None, A=None, l=None, u=None, xmin=None, xmax=None, gh_fcn=None, hess_fcn=None, opt=None):
        q = dict(f_fcn=f_fcn, x0=x0, A=A, l=l, u=u, xmin=xmin, xmax=xmax, gh_fcn=gh_fcn, opt=opt)
        if isinstance(f_fcn, dict):
            q = dict((k, f_fcn.get(k, q[k])) if k != 'f_fcn' else (k, f_fcn[k]) for k in q)
        q['opt'] = dict(q['opt'] or {})
        got.append(q)
        return dict(sol, output=dict(sol['output']))
    env.patch('qps_pips', 'pips', pips)
    if which == 'qps_pypower':
        env.patch('qps_pypower', 'have_fcn', lambda n: False)
    fn = env.fn(which)
    if form == 'dict':
        r = fn(p, None, None, None, None) if which == 'qps_pips' else fn(p)
    elif form == 'kw':
        q = dict(p)
        first = [q.pop(k, None) for k in (('H', 'c', 'A', 'l', 'u') if which == 'qps_pips' else ('H', 'c'))]
        r = fn(*first, **q)
    else:
        r = fn(*[p.get(k) for k in ('H', 'c', 'A', 'l', 'u', 'xmin', 'xmax', 'x0', 'opt')])
    env.ok('solver called once', len(got) == 1)
    q = got[0]
    # objective, at an arbitrary point
    t = [env.var('t%d' % i, -3, 3) for i in range(nx)]
    Hw = [[(Hm[i][j] if 'H' in have else 0.0) for j in range(nx)] for i in range(nx)]
    cw = [c[i] if 'c' in have else 0.0 for i in range(nx)]
    f = sum((t[i] * Hw[i][j] * t[j] / 2 for i in range(nx) for j in range(nx)), 0.0) + sum((cw[i] * t[i] for i in range(nx)), 0.0)
    df = [cw[i] + sum((Hw[i][j] * t[j] for j in range(nx)), 0.0) for i in range(nx)]
    a = q['f_fcn'](np_.array(t))
    b = q['f_fcn'](np_.array(t), True)
    env.eq('objective and gradient', [a[0], b[0]], [f, f])
    env.eq('gradient', [list(a[1]), list(b[1])], [df, df])
    env.eq('Hessian', env.dense(b[2]), np_.array(Hw))
    env.ok('no nonlinear constraints', q['gh_fcn'] is None)
    # constraints
    none = lambda v: v is None or len(v) == 0
    if 'A' in have and m:
        env.eq('A', env.dense(q['A']), A)
        for k, v, d in (('l', l, -INF), ('u', u, INF)):
            if k in have:
                env.eq(k, q[k], v)
            else:
                env.ok(k + ' default', none(q[k]) or all(w == d for w in q[k]))
    else:
        env.ok('no rows', q['A'] is None or q['A'].shape[0] == 0)
    for a, k, v, d in (('n', 'xmin', n, -INF), ('x', 'xmax', x, INF)):
        if a in have:
            env.eq(k, q[k], v)
        else:
            env.ok(k + ' default', none(q[k]) or all(w == d for w in q[k]))
    env.eq('start', q['x0'], x0 if '0' in have else [0.0] * nx)
    o = q['opt']
    if 'o' in have:
        if which == 'qps_pips' or pips_opt:
            env.ok('solver options', all(o.get(k) == v for k, v in po.items()))
        if which == 'qps_pypower':
            env.ok('algorithm', bool(o.get('step_control', False)) == (alg == 250))
            env.ok('verbosity', (o.get('verbose') or 0) == (verbose or 0))
        env.ok('iterations', o.get('max_it', 150) == (max_it or 150))
        env.ok('options kept', opt == keepopt and po == keeppo)
    env.eq('inputs kept', dict((k, env.dense(v) if k in 'HA' else v) for k, v in p.items() if k != 'opt' and k in keep), keep)
    env.ok('no keys added', set(p) == set(keys[a] for a in have))
    # answer
    env.eq('solution', [r[0], r[1]], [sol['x'], sol['f']])
    env.ok('status', bool(r[2]) == sol['eflag'])
    env.ok('output', r[3]['iterations'] == 3 and r[3]['message'] == 'm')
    if which == 'qps_pypower':
        env.ok('alg reported', r[3]['alg'] == (alg or 200))
    env.eq('multipliers', r[4], sol['lmbda'])


def harnesses(tier):
    out = []

    def add(which, form, have, nx=2, m=1, **k):
        name = '%s_%s_%s' % (which[4:], form, have) + ''.join('_%s%s' % (a[:2], b) for a, b in k.items()) + ('' if (nx, m) == (2, 1) else '_%d%d' % (nx, m))
        out.append((name, h, dict(which=which, form=form, have=have, nx=nx, m=m, **k), None))
    w, p = 'qps_pypower', 'qps_pips'
    for form in ('pos', 'dict', 'kw'):
        for have in ('HcAlunx0o', 'HcAlu', 'cAl', 'cAu', 'Hc', 'Hcnx', 'HcAlunx0', 'cAlunx0o'):
            add(w, form, have, nx=3 if have == 'HcAlu' else 2, m=2 if have == 'HcAlu' else 1)
            add(p, form, have)
    for have in ('HAlu', 'HAu', 'Hnx', 'Alu', 'H'):          # no linear cost: dict form only for the wrapper
        add(w, 'dict', have)
        add(p, 'dict', have)
    for have in ('cn', 'cx', 'cnx', 'cnx0o'):                 # LPs with bounds only
        add(w, 'pos', have)
        add(p, 'pos', have)
        add(w, 'dict', have)
        add(p, 'dict', have)
    for alg in (0, 200, 250):
        for mi in (None, 0, 5):
            add(w, 'pos', 'HcAluo', alg=alg, max_it=mi, verbose=1, pips_opt=True)
    add(w, 'dict', 'HcAluo', alg=250, max_it=9, pips_opt=True)
    add(w, 'dict', 'HcAluo', pips_opt=False, max_it=9)
    add(p, 'pos', 'HcAluo', max_it=9)
    add(w, 'pos', 'HcAlu', hform='dense')
    add(w, 'pos', 'HcAlunx0', hform='dense')
    add(w, 'pos', 'HcAlu', nx=1, m=0)
    return out
