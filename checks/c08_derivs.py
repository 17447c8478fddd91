"""C08: first derivatives of injections, branch flows and currents w.r.t. voltage."""
from checks.lib import voltages, vbuild, cmat, cols, matvec, conj

INFO = dict(
    functions=['dSbus_dV', 'dSbr_dV', 'dIbr_dV', 'dAbr_dV'],
    bounds='2-3 buses, 1-2 branches, every entry of Ybus/Yf/Yt an arbitrary complex number, every voltage magnitude in '
           '[0.5,1.5] and angle; sparse and dense argument forms; branch end buses enumerated',
    outside='larger networks (the formulas are the same matrix expressions)')


def branch_table(env, ends):
    b = env.np.zeros((len(ends), 21))
    for k, (f, t) in enumerate(ends):
        b[k, 0] = f
        b[k, 1] = t
    return b


def h_bus(env, n, sparse):
    vm, va = voltages(env, n)
    Y = cmat(env, 'y', n, n)
    V = vbuild(env, vm, va)

    def S(x):
        v = vbuild(env, x[:n], x[n:])
        I = matvec(env, Y, v)
        return env.np.array([v[i] * conj(I[i]) for i in range(n)])
    d = env.diff(S, vm + va)
    arg = env.sparse(Y) if sparse else env.np.asmatrix(Y)
    dVm, dVa = env.fn('dSbus_dV')(arg, V)
    env.eq('dSbus_dVm', env.dense(dVm), cols(env, d[:n]))
    env.eq('dSbus_dVa', env.dense(dVa), cols(env, d[n:]))


def _flows(env, n, ends, Yf, Yt):
    f = [e[0] for e in ends]
    t = [e[1] for e in ends]

    def cur(x):
        v = vbuild(env, x[:n], x[n:])
        return v, matvec(env, Yf, v), matvec(env, Yt, v)

    def Sf(x):
        v, If, It = cur(x)
        return env.np.array([v[f[k]] * conj(If[k]) for k in range(len(ends))])

    def St(x):
        v, If, It = cur(x)
        return env.np.array([v[t[k]] * conj(It[k]) for k in range(len(ends))])

    def If(x):
        return env.np.array(cur(x)[1])

    def It(x):
        return env.np.array(cur(x)[2])
    return Sf, St, If, It


def pat(n, ends):
    return [[j in e for j in range(n)] for e in ends]


def h_branch(env, n, ends, sparse, which):
    vm, va = voltages(env, n)
    nl = len(ends)
    Yf = cmat(env, 'yf', nl, n, pat(n, ends))
    Yt = cmat(env, 'yt', nl, n, pat(n, ends))
    Sf, St, If, It = _flows(env, n, ends, Yf, Yt)
    V = vbuild(env, vm, va)
    br = branch_table(env, ends)
    wrap = env.sparse if sparse else env.np.asmatrix
    a, b = (Sf, St) if which == 'S' else (If, It)
    r = env.fn('dSbr_dV' if which == 'S' else 'dIbr_dV')(br, wrap(Yf), wrap(Yt), V)
    x = vm + va
    da, db = env.diff(a, x), env.diff(b, x)
    nm = 'd%sbr' % which
    env.eq(nm + 'f_dVa', env.dense(r[0]), cols(env, da[n:]))
    env.eq(nm + 'f_dVm', env.dense(r[1]), cols(env, da[:n]))
    env.eq(nm + 't_dVa', env.dense(r[2]), cols(env, db[n:]))
    env.eq(nm + 't_dVm', env.dense(r[3]), cols(env, db[:n]))
    env.eq(nm + 'f_value', env.np.asarray(env.dense(r[4])).reshape(-1), a(x))
    env.eq(nm + 't_value', env.np.asarray(env.dense(r[5])).reshape(-1), b(x))


def h_abr(env, n, nl, sparse):
    """derivatives of squared magnitudes: dA = 2 Re(conj(F) dF) for arbitrary flows and derivatives"""
    Ff = [env.cplx(env.var('fr%d' % k, -5, 5), env.var('fi%d' % k, -5, 5)) for k in range(nl)]
    Ft = [env.cplx(env.var('tr%d' % k, -5, 5), env.var('ti%d' % k, -5, 5)) for k in range(nl)]
    ds = [cmat(env, 'd%d' % q, nl, n) for q in range(4)]
    wrap = env.sparse if sparse else env.np.asmatrix
    r = env.fn('dAbr_dV')(wrap(ds[0]), wrap(ds[1]), wrap(ds[2]), wrap(ds[3]), env.np.array(Ff), env.np.array(Ft))
    for q, (nm, F) in enumerate((('f_dVa', Ff), ('f_dVm', Ff), ('t_dVa', Ft), ('t_dVm', Ft))):
        want = env.np.array([[2 * (F[k].real * ds[q][k, j].real + F[k].imag * ds[q][k, j].imag) for j in range(n)]
                             for k in range(nl)])
        env.eq('dAbr' + nm, env.dense(r[q]), want)


def harnesses(tier):
    out = []
    for sp in (True, False):
        s = 'sparse' if sp else 'dense'
        for n in (2, 3):
            out.append(('bus%d_%s' % (n, s), h_bus, dict(n=n, sparse=sp), None))
        out.append(('abr_%s' % s, h_abr, dict(n=2, nl=2, sparse=sp), None))
        for w in 'SI':
            out.append(('br_%s_2bus_%s' % (w, s), h_branch, dict(n=2, ends=[(0, 1), (1, 0)], sparse=sp, which=w), None))
            out.append(('br_%s_3bus_%s' % (w, s), h_branch, dict(n=3, ends=[(0, 2), (2, 1)], sparse=sp, which=w), None))
    if tier == 'thorough':
        for sp in (True, False):
            out.append(('bus4_%s' % sp, h_bus, dict(n=4, sparse=sp), None))
            for w in 'SI':
                out.append(('br_%s_4bus_%s' % (w, sp), h_branch,
                            dict(n=4, ends=[(0, 3), (3, 1), (1, 2), (2, 0), (1, 2)], sparse=sp, which=w), None))
    return out
