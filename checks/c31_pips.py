"""C31: pips: what a reported optimum satisfies, and where its multipliers go."""
import numpy as np
from symx.core import B

INFO = dict(
    functions=['pips'],
    bounds='1-2 variables, quadratic objective and 0-1 nonlinear equalities and inequalities with unknown coefficients, 0-2 linear '
           'rows, every kind of row or bound (free, one-sided either way, boxed, fixed), unknown start, tolerances and cost '
           'multiplier; 0-2 iterations whose Newton steps are arbitrary; a step of NaNs; step size control without inequalities',
    outside='that the iteration does converge (the linear solver may return anything); more iterations; step size control with '
            'inequalities (logarithms); limits between 1e3 and 1e10 in magnitude',
    assumptions='exact real arithmetic')

INF = float('inf')


def limits(env, name, kind, conc):
    if kind == 'free':
        return -INF, INF
    if kind == 'boxc':
        return -1.5, 1.25
    a = 0.375 if conc else env.var(name + 'a', -5, 5)
    if kind == 'lo':
        return a, INF
    if kind == 'lo10':
        return a, 1e10
    if kind == 'up':
        return -INF, a
    if kind == 'up10':
        return -1e10, a
    if kind == 'eq':
        return a, a
    return a, a + env.var(name + 'w', 0.01, 5)


def is0(v):
    v = v == 0
    return not isinstance(v, B) and bool(v)


def vmax(env, xs):
    return env.max(list(xs))


def h(env, nx, bnds, rows=(), neq=0, niq=0, mi=1, form='args', nan=False, sc=0, tols='v', mult=False, lam_none=(), conc=False):
    np_ = env.np
    q = [[env.var('q%d%d' % (min(i, j), max(i, j)), -3, 3) for j in range(nx)] for i in range(nx)]
    c = [env.var('c%d' % i, -3, 3) for i in range(nx)]
    if conc:
        q = [[0.75 if i == j else -0.5 for j in range(nx)] for i in range(nx)]
        c = [0.625 + 1.5 * i for i in range(nx)]
    Ag = [[env.var('g%d_%d' % (k, i), -3, 3) for i in range(nx)] for k in range(neq)]
    Ah = [[env.var('h%d_%d' % (k, i), -3, 3) for i in range(nx)] for k in range(niq)]
    A = [[env.var('A%d_%d' % (k, i), -3, 3) for i in range(nx)] for k in range(len(rows))]
    if conc:
        A = [[1.5 - 2.5 * ((i + k) % 2) for i in range(nx)] for k in range(len(rows))]
        Ag = [[-1.0 + 2.0 * i for i in range(nx)] for k in range(neq)]
        Ah = [[2.0 - 0.75 * i for i in range(nx)] for k in range(niq)]
    s = env.var('mult', 0.5, 4) if mult else 1

    def F(x):
        return sum((c[i] * x[i] for i in range(nx)), 0.0) + sum((q[i][j] * x[i] * x[j] / 2 for i in range(nx) for j in range(nx)), 0.0)

    def dF(x):
        return [c[i] + sum((q[i][j] * x[j] for j in range(nx)), 0.0) for i in range(nx)]

    def quad(k):
        return lambda x: x[k % nx] * x[(k + 1) % nx]

    def dquad(k):
        def d(x):
            v = [0.0] * nx
            v[k % nx] = v[k % nx] + x[(k + 1) % nx]
            v[(k + 1) % nx] = v[(k + 1) % nx] + x[k % nx]
            return v
        return d

    def con(C, x, off):
        return [sum((r[i] * x[i] for i in range(nx)), -1.0 + off) + quad(k + off)(x) for k, r in enumerate(C)]

    def dcon(C, x, off):
        return [[r[i] + dquad(k + off)(x)[i] for i in range(nx)] for k, r in enumerate(C)]

    def f_fcn(x, hess=False):
        if hess:
            return F(x), np_.array(dF(x)), env.sparse(np_.array(q))
        return F(x), np_.array(dF(x))

    def gh_fcn(x):
        H, G = dcon(Ah, x, 0), dcon(Ag, x, 1)
        return (np_.array(con(Ah, x, 0)), np_.array(con(Ag, x, 1)),
                env.sparse(np_.array(H)).T if niq else None, env.sparse(np_.array(G)).T if neq else None)

    def hess_fcn(x, lam, cm=1):
        env.eq('multiplier sizes', [len(lam['eqnonlin']), len(lam['ineqnonlin'])], [neq, niq])
        env.eq('multiplier scale', cm, s)
        return env.sparse(np_.array(q))
    nonlin = neq + niq > 0
    calls = [0]

    def solve(Ab, bb, *a):
        k = calls[0]
        calls[0] += 1
        n = len(bb)
        if nan:
            return np_.array([np.nan] * n)
        return np_.array([env.var('d%d_%d' % (k, i), -3, 3) for i in range(n)])
    env.patch('pips', 'pplinsolve', solve)
    x0 = [env.var('x%d' % i, -5, 5) for i in range(nx)]
    if conc:
        x0 = [env.choice('at', [-3.0, 0.5, 2.0])] + [0.25] * (nx - 1)
    bl = [limits(env, 'b%d' % i, k, conc) for i, k in enumerate(bnds)]
    rl = [limits(env, 'r%d' % i, k, conc) for i, k in enumerate(rows)]
    tol = dict((n, env.var(n, 1e-7, 50)) for n in ('feastol', 'gradtol', 'comptol', 'costtol')) if tols == 'v' else dict(
        (n, 1e-6) for n in ('feastol', 'gradtol', 'comptol', 'costtol'))
    opt = dict(tol) if tols == 'v' else {}
    opt['max_it'] = mi
    if mult:
        opt['cost_mult'] = s
    if sc:
        opt['step_control'], opt['max_red'] = True, sc
    kw = dict(x0=np_.array(x0), opt=opt)
    if rows:
        kw['A'] = env.sparse(np_.array(A))
        kw['l'], kw['u'] = np_.array([a for a, _ in rl]), np_.array([b for _, b in rl])
    kw['xmin'], kw['xmax'] = np_.array([a for a, _ in bl]), np_.array([b for _, b in bl])
    for n in lam_none:
        kw[n] = None
    if nonlin:
        kw['gh_fcn'], kw['hess_fcn'] = gh_fcn, hess_fcn
    if form == 'dict':
        kw['f_fcn'] = f_fcn
        for n in lam_none:
            del kw[n]
        r = env.fn('pips')(kw)
    else:
        r = env.fn('pips')(f_fcn, **kw)
    x, lm, it, hist, conv = list(r['x']), r['lmbda'], r['output']['iterations'], r['output']['hist'], r['eflag']
    last = hist[-1]
    env.eq('objective', r['f'], F(x))
    env.ok('iteration limit', 0 <= it <= mi and len(hist) >= 1)
    env.ok('message', bool(conv) == (r['output']['message'] == 'Converged'))
    if nan and calls[0]:
        env.ok('NaN step is a failure', not conv)
    # multipliers per constraint
    sides = [(lm['lower'][i], lm['upper'][i]) for i in range(nx)] + [(lm['mu_l'][i], lm['mu_u'][i]) for i in range(len(rows))]
    env.ok('sizes', len(lm['lower']) == len(lm['upper']) == nx and len(lm['mu_l']) == len(lm['mu_u']) == len(rows))
    lam, mu = [], []
    hs0, hs, dh = [], [], []
    gs = con(Ag, x, 1)
    lams = [v * s for v in lm['eqnonlin']] if neq else []
    lam = list(lams)
    hs0, hs = con(Ah, x0, 0), con(Ah, x, 0)
    d0 = dcon(Ah, x0, 0)
    dx = dcon(Ah, x, 0)
    mu = [v * s for v in lm['ineqnonlin']] if niq else []
    L = [s * v for v in dF(x)]
    for C, ms in ((dcon(Ag, x, 1), lams), (dx, mu)):
        for r_, m in zip(C, ms):
            L = [a + m * b for a, b in zip(L, r_)]
    mu = list(mu)
    dhs = list(dx)
    for i, ((lo, hi), (ml, mh)) in enumerate(zip(bl + rl, sides)):
        row = [1.0 if j == i else 0.0 for j in range(nx)] if i < nx else A[i - nx]
        kind = (list(bnds) + list(rows))[i]
        val, val0 = (sum((a * b for a, b in zip(row, p)), 0.0) for p in (x, x0))
        env.cmp('sign', 0.0, ml)
        env.cmp('sign', 0.0, mh)
        L = [a + s * (mh - ml) * b for a, b in zip(L, row)]
        if kind == 'eq':
            env.eq('one side of an equality', ml * mh, 0.0)
            gs.append(val - lo)
            lam.append(s * (mh - ml))
            continue
        if kind in ('free', 'up', 'up10'):
            env.eq('no lower limit', ml, 0.0)
        else:
            hs.append(lo - val)
            hs0.append(lo - val0)
            d0.append([-a for a in row])
            dhs.append(d0[-1])
            mu.append(s * ml)
        if kind in ('free', 'lo', 'lo10'):
            env.eq('no upper limit', mh, 0.0)
        else:
            hs.append(val - hi)
            hs0.append(val0 - hi)
            d0.append(row)
            dhs.append(row)
            mu.append(s * mh)
    if niq:
        env.cmp('multiplier sign', 0.0, np_.array(mu[:niq]))
    # slacks of the primal-dual method: start at max(1, -h), then move with the step the method reports
    z = None
    if it == 0 or not hs or (it == 1 and not sc):
        z = []
        for a, d in zip(hs0, d0):
            za = -a if a < -1 else 1.0
            if it == 1:
                za = za + last['alphap'] * (-a - za) - sum((b * (p - p0) for b, p, p0 in zip(d, x, x0)), 0.0)
            z.append(za)
    big = lambda v: vmax(env, [env.abs(a) for a in v]) if len(v) else 0.0
    xn, ln, mn, gn = big(x), big(lam), big(mu), big(L)
    # a linear equality with multiplier exactly zero is outside (both sides are reported as 0)
    zero = any(k == 'eq' and is0(a) and is0(b) for k, (a, b) in zip(list(bnds) + list(rows), sides))
    full = env.And([not zero] + [m > 0 for m in mu])        # nothing zeroed as non-binding
    env.ok('gradient condition', env.Implies(full, env.equal(last['gradcond'] * (1 + env.max([ln, mn])), gn)))
    if z is not None:
        viol = env.max([big(gs), vmax(env, hs) if hs else 0.0])
        env.eq('feasibility condition', last['feascond'] * (1 + env.max([xn, big(z)])), viol)
        comp = sum((a * b for a, b in zip(z, mu)), 0.0)
        env.ok('complementarity condition', env.Implies(full, env.equal(last['compcond'] * (1 + xn), comp)))
    if it == 1:
        f0, f1 = s * F(x0), s * F(x)
        env.eq('cost condition', last['costcond'] * (1 + env.abs(f0)), env.abs(f1 - f0))
    if conv:
        for n, t in (('feascond', 'feastol'), ('gradcond', 'gradtol'), ('compcond', 'comptol'), ('costcond', 'costtol')):
            env.cmp(n, last[n], tol[t])
        # stationarity of what is returned: multipliers up to 1e-5 of slack constraints may be returned as 0
        nz = [(m, d) for m, d in zip(mu, dhs) if is0(m)]
        if nz or zero:
            for j in range(nx):
                env.cmp('returned multipliers stationary', env.abs(L[j]), tol['gradtol'] * (1 + env.max([ln, mn]) + 1e-5) +
                        1e-5 * sum((env.abs(d[j]) for _, d in nz), 0.0))
    else:
        env.ok('not converged', env.Or([last[n] >= tol[t] for n, t in (
            ('feascond', 'feastol'), ('gradcond', 'gradtol'), ('compcond', 'comptol'), ('costcond', 'costtol'))]))


def harnesses(tier):
    o = dict(budget_s=300, max_paths=6000)
    out = []

    def add(name, opt=o, **k):
        out.append((name, h, k, dict(opt)))
    for k in ('free', 'lo', 'up', 'eq', 'lo10', 'up10'):
        add('b_' + k, nx=1, bnds=(k,), mi=1)
    add('b_boxc', opt=dict(o, feas_ms=400), nx=1, bnds=('boxc',), mi=1, conc=True, tols='d')
    add('b_lo2', nx=2, bnds=('lo', 'free'), rows=('up',), mi=1, conc=True, tols='d')
    add('row_box', nx=1, bnds=('free',), rows=('boxc',), mi=1, conc=True, tols='d')
    add('iq_eq', nx=1, bnds=('free',), rows=('eq',), niq=1, neq=1, mi=1, conc=True, tols='d')
    add('b_box0', nx=1, bnds=('box',), mi=0)
    add('start', nx=2, bnds=('box', 'eq'), rows=('lo',), neq=1, niq=0, mi=0, mult=True)
    add('start2', nx=2, bnds=('lo', 'free'), rows=('up',), niq=1, mi=0)
    add('row_lo', nx=2, conc=True, bnds=('free', 'free'), rows=('lo',), mi=1, lam_none=('xmin', 'xmax'))
    add('row_up', nx=2, conc=True, bnds=('free', 'eq'), rows=('up',), mi=1, form='dict')
    add('row_eq', nx=2, conc=True, bnds=('free', 'free'), rows=('eq', 'free'), mi=1, form='dict', lam_none=('xmin', 'xmax'))
    add('eq_nl', nx=2, bnds=('free', 'free'), neq=1, mi=1, mult=True)
    add('eq_nl_lin', nx=2, conc=True, bnds=('eq', 'free'), rows=('eq',), neq=1, mi=1, tols='d')
    add('iq_nl', nx=1, conc=True, bnds=('free',), niq=1, mi=1, mult=True)
    add('iq_nl_up', nx=1, bnds=('up',), niq=1, mi=0)
    add('two', nx=1, conc=True, bnds=('free',), rows=('eq',), neq=1, mi=2)
    add('nan', nx=1, bnds=('lo',), niq=0, neq=1, mi=3, nan=True)
    add('defaults', nx=1, bnds=('up',), mi=1, tols='d')
    add('sc', nx=1, bnds=('free',), neq=1, mi=1, sc=2)
    return out
