"""C17: a saved case loads back as the same case."""
import os
import shutil
import tempfile

INFO = dict(
    functions=['savecase', 'print_array', 'print_sparse', 'loadcase', 'run_userfcn', 'userfcn_reserves_savecase', 'userfcn_iflims_savecase',
               'userfcn_dcline_savecase'],
    bounds='3 rows per table, every entry of one table symbolic at a time, tables of every documented width (power flow, solved, OPF '
           'solved); polynomial and piecewise linear costs with spare columns; user constraints with one sided bounds, costs and variables; '
           'reserve, interface and DC line data; symbolic entries with two digits before and seven after the point',
    outside='entries that need more than 9 digits; the number formatting of other magnitudes; integer columns holding fractions; the '
            'binary coding of MAT files; version 1 output, which is refused by design',
    assumptions='a symbolic number is written as a numeral that stands for it; savemat followed by loadmat returns the given matrices as '
                'two dimensional arrays')
BINT, GINT, RINT = (0, 1, 6, 10), (0, 7), (0, 1, 10)


def table(env, name, rows, width, ints, sym, first):
    """a table whose non-integer entries are unknown"""
    a = env.np.zeros((rows, width))
    for i in range(rows):
        for c in range(width):
            if c in ints:
                a[i, c] = first[c][i] if c in first else 1.0
            else:
                a[i, c] = env.var('%s%d_%d' % (name, i, c), -99, 99) if sym else 0.25 + i + c
    return a


def case(env, sym='', bw=13, gw=21, rw=13, base=100.0):
    n = 3
    bus = table(env, 'b', n, bw, BINT, sym == 'bus', {0: (3, 1, 20), 1: (1, 3, 2), 6: (1, 2, 2), 10: (5, 1, 1)})
    gen = table(env, 'g', n, gw, GINT, sym == 'gen', {0: (1, 20, 1), 7: (1, 0, 1)})
    br = table(env, 'r', n, rw, RINT, sym == 'branch', {0: (3, 1, 20), 1: (1, 20, 3), 10: (1, 0, 1)})
    return dict(version='2', baseMVA=base, bus=bus, gen=gen, branch=br)


def roundtrip(env, ppc, name='saved_case.py', **k):
    """save, load; MAT files are replaced by what they hold"""
    env.text()
    mat = {}
    np_ = env.np

    def savemat(fname, d, *a, **kw):
        for key, v in d.items():
            if hasattr(v, 'tocoo'):
                mat[key] = v
            elif isinstance(v, str):
                mat[key] = v
            else:
                v = np_.array(v)
                mat[key] = v.reshape((1,) * (2 - v.ndim) + tuple(v.shape)) if v.ndim < 2 else v.copy()

    def loadmat(fname, *a, **kw):
        if not mat or not str(fname).endswith('saved_case.mat'):
            raise IOError('no such file')
        return dict(mat)
    env.patch('savecase', 'savemat', savemat)
    env.patch('loadcase', 'loadmat', loadmat)
    d = tempfile.mkdtemp()
    try:
        path = os.path.join(d, name)
        got = env.fn('savecase')(path, ppc, **k)
        want = path if name.endswith(('.py', '.mat')) else path + '.py'
        env.ok('file name', got == want)
        if want.endswith('.mat'):
            env.ok('no other file', os.listdir(d) == [])
        else:
            env.ok('one file', os.listdir(d) == [os.path.basename(want)])
        out = env.fn('loadcase')(want)
        env.ok('loaded', isinstance(out, dict))
        return out
    finally:
        shutil.rmtree(d)


def keep(ppc):
    return dict((k, v.copy() if hasattr(v, 'copy') else v) for k, v in ppc.items())


def same_core(env, got, want, bcut=None, gcut=None, rcut=None):
    """the tables, up to the digits written; results of 13 digit columns to four decimals"""
    env.ok('version', str(got['version']) == '2')
    env.reads('system base', got['baseMVA'], want['baseMVA'])
    for t, exact, cut in (('bus', 13, bcut), ('gen', 21, gcut), ('branch', 13, rcut)):
        w = want[t][:, :cut] if cut else want[t]
        env.ok(t + ' shape', tuple(got[t].shape) == tuple(w.shape))
        if tuple(got[t].shape) != tuple(w.shape):
            continue
        env.reads(t + ' data', got[t][:, :exact], w[:, :exact])
        if w.shape[1] > exact:
            env.reads(t + ' results', got[t][:, exact:], w[:, exact:], ab=5.1e-5)


def h_tables(env, sym, bw=13, gw=21, rw=13, cut=(None, None, None), name='saved_case.py', comment=None):
    ppc = case(env, sym, bw, gw, rw)
    want = keep(ppc)
    got = roundtrip(env, ppc, name, **({} if comment is None else dict(comment=comment)))
    same_core(env, got, want, *cut)
    for t in ('bus', 'gen', 'branch'):
        env.eq('%s not changed by saving' % t, ppc[t], want[t])


def h_base(env, name):
    ppc = case(env, '', base=env.var('base', 10, 99))
    want = keep(ppc)
    got = roundtrip(env, ppc, name)
    same_core(env, got, want)
    env.ok('a number', not hasattr(got['baseMVA'], 'shape') or tuple(got['baseMVA'].shape) == ())


def h_cost(env, kinds, spare, name='saved_case.py', areas=0):
    ppc = case(env)
    need = max(2 * n if m == 1 else n for m, n in kinds)
    gc = env.np.zeros((len(kinds), 4 + need + spare))
    for i, (m, n) in enumerate(kinds):
        gc[i, 0], gc[i, 3] = m, n
        gc[i, 1], gc[i, 2] = env.var('up%d' % i, 1, 99), -env.var('down%d' % i, 1, 99)
        for c in range(2 * n if m == 1 else n):
            gc[i, 4 + c] = env.var('c%d_%d' % (i, c), 1, 99) * (-1 if (i + c) % 3 == 2 else 1)
    ppc['gencost'] = gc
    if areas:
        ppc['areas'] = env.np.array([[1, 3], [2, 20.0]][:areas])
    want = keep(ppc)
    got = roundtrip(env, ppc, name)
    same_core(env, got, want)
    g = got['gencost']
    env.ok('cost rows', g.shape[0] == len(kinds) and g.shape[1] >= 4 + need)
    env.reads('cost data', g[:, :4 + need], want['gencost'][:, :4 + need])
    env.ok('areas', ('areas' in got) == bool(areas))
    if areas:
        env.reads('area data', got['areas'], want['areas'])


def h_user(env, parts, dense=False, name='saved_case.py'):
    np_, inf = env.np, float('inf')
    ppc = case(env)
    v = lambda nm: env.var(nm, 1, 99)
    mk = (lambda a: np_.array(a)) if dense else (lambda a: env.sparse(np_.array(a)))
    want = {}
    if 'A' in parts:
        want['A'] = [[v('a0'), 0, 0, v('a1'), 0], [0, v('a2'), 0, 0, 0], [0, 0, -v('a3'), 0, v('a4')]]
        want['l'] = [-inf, v('l1'), v('l2')]
        want['u'] = [v('u0'), inf, v('u2')]
        if 'l' not in parts:
            want.pop('l')
        if 'u' not in parts:
            want.pop('u')
    if 'N' in parts:
        want['N'] = [[0, v('n0'), 0, 0, 0], [v('n1'), 0, 0, 0, v('n2')]]
        want['Cw'] = [v('w0'), -v('w1')]
        if 'H' in parts:
            want['H'] = [[v('h0'), v('h1')], [v('h1'), v('h2')]]
        if 'fparm' in parts:
            want['fparm'] = [[1, v('f0'), v('f1'), v('f2')], [2, v('f3'), v('f4'), -v('f5')]]
    for k in ('z0', 'zl', 'zu'):
        if k in parts:
            want[k] = [v(k + 'a'), inf if k == 'zu' else v(k + 'b')]
    if 'one' in parts:
        for k in ('A', 'l', 'u', 'N', 'Cw', 'fparm', 'z0', 'zl', 'zu'):
            if k in want:
                want[k] = want[k][:1]
        if 'H' in want:
            want['H'] = [want['H'][0][:1]]
    for k, w in want.items():
        ppc[k] = mk(w) if k in 'ANH' else np_.array(w)
    core = keep(ppc)
    got = roundtrip(env, ppc, name)
    same_core(env, got, core)
    for k in ('A', 'l', 'u', 'N', 'Cw', 'H', 'fparm', 'z0', 'zl', 'zu'):
        env.ok(k + ' saved', (k in got) == (k in want))
        if k in got and k in want:
            g = env.dense(got[k])
            if name.endswith('.mat') and k not in 'ANHfparm':
                g = g.reshape(-1)
            env.reads(k + ' data', g, np_.array(want[k]))


def h_ext(env, what, solved):
    """data of the extensions, saved by their callbacks"""
    np_ = env.np
    ppc = case(env)
    v = lambda nm: env.var(nm, 1, 99)
    V = lambda nm, n: np_.array([v('%s%d' % (nm, i)) for i in range(n)])
    if what == 'reserves':
        d = ppc['reserves'] = dict(zones=np_.array([[1, 0, 1], [0, 1, 1.0]]), req=V('req', 2), cost=V('cost', 3), qty=V('qty', 3))
        if solved:
            d.update(R=V('R', 3), Rmin=V('Rn', 3), Rmax=V('Rx', 3), prc=V('prc', 3), totalcost=v('tot'),
                     mu=dict(l=V('ml', 3), u=V('mu', 3), Pmax=V('mp', 3)))
        ppc['userfcn'] = {}
        mod, fn = 'toggle_reserves', 'userfcn_reserves_savecase'
    elif what == 'iflims':
        d = ppc['if'] = dict(map=np_.array([[1, 1], [1, -2], [2, 3]]), lims=np_.array([[1, -v('lo'), v('hi')], [2, -5.0, v('hi2')]]))
        if solved:
            d.update(P=V('P', 2), mu=dict(l=V('ml', 2), u=V('mu', 2)))
        mod, fn = 'toggle_iflims', 'userfcn_iflims_savecase'
    else:
        w = 23 if solved else 17
        d = np_.zeros((2, w))
        for i in range(2):
            d[i, :3] = [(1, 20)[i], (20, 3)[i], 1 - i]
            for c in range(3, w):
                d[i, c] = v('d%d_%d' % (i, c))
        ppc['dcline'] = d
        ppc['dclinecost'] = np_.array([[2, 0, 0, 2, v('c1'), v('c0')], [2, 0, 0, 2, v('c2'), 0]])
        mod, fn = 'toggle_dcline', 'userfcn_dcline_savecase'
    ppc['userfcn'] = {'savecase': [{'fcn': env.mod(mod).__dict__[fn], 'args': None}]}
    got = roundtrip(env, ppc)
    same_core(env, got, ppc)

    def cmp(label, g, w):
        if isinstance(w, dict):
            env.ok(label + ' entries', isinstance(g, dict) and sorted(g) == sorted(w))
            for k in sorted(w):
                if k in g:
                    cmp('%s %s' % (label, k), g[k], w[k])
        else:
            env.reads(label, g, w, ab=5.1e-5 if solved else 0.0)
    for k in ('reserves', 'if', 'dcline', 'dclinecost'):
        env.ok(k + ' saved', (k in got) == (k in ppc))
        if k in got and k in ppc:
            cmp(k, got[k], ppc[k])


def h_version(env):
    """version 1 output is refused"""
    d = tempfile.mkdtemp()
    try:
        env.fn('savecase')(os.path.join(d, 'never_written.py'), case(env, 'bus'), version='1')
        env.ok('refused', False)
    except NotImplementedError:
        env.ok('refused', True)
    finally:
        shutil.rmtree(d)


def harnesses(tier):
    T = h_tables
    out = [('bus', T, dict(sym='bus'), {}), ('bus_opf', T, dict(sym='bus', bw=17), {}), ('gen', T, dict(sym='gen'), {}),
           ('gen_opf', T, dict(sym='gen', gw=25), {}), ('branch', T, dict(sym='branch'), {}), ('branch_pf', T, dict(sym='branch', rw=17), {}),
           ('branch_opf', T, dict(sym='branch', rw=21), {}), ('all_opf', T, dict(sym='bus', bw=17, gw=25, rw=21), {}),
           ('noext', T, dict(sym='gen', name='saved_case'), {}), ('comment', T, dict(sym='bus', comment='one line'), {}),
           ('comments', T, dict(sym='bus', comment=['first', 'second']), {}),
           ('base', h_base, dict(name='saved_case.py'), {}), ('base_mat', h_base, dict(name='saved_case.mat'), {})]
    for t, w in (('bus', dict(bw=17)), ('gen', dict(gw=25)), ('branch', dict(rw=17)), ('branch', dict(rw=21)), ('gen', {})):
        out.append(('mat_%s_%s' % (t, '_'.join(str(x) for x in w.values()) or 'pf'), T, dict(sym=t, name='saved_case.mat', **w), {}))
    P, L = (2, 3), (1, 2)
    for nm, kinds, spare in (('poly', [P, (2, 2), P], 0), ('poly_spare', [P, P], 3), ('pwl', [(1, 3), L], 0), ('mixed', [P, L, (2, 2)], 0),
                             ('mixed_wide', [(2, 5), L], 2), ('reactive', [P, P, P, L, L, L], 0)):
        out.append(('cost_' + nm, h_cost, dict(kinds=kinds, spare=spare, areas=dict(poly=2, pwl=1).get(nm, 0)), {}))
    out.append(('cost_mat', h_cost, dict(kinds=[P, L], spare=1, areas=2, name='saved_case.mat'), {}))
    out += [('user_A', h_user, dict(parts=('A', 'l', 'u')), {}), ('user_A_dense', h_user, dict(parts=('A', 'l', 'u'), dense=True), {}),
            ('user_l', h_user, dict(parts=('A', 'l')), {}), ('user_u', h_user, dict(parts=('A', 'u')), {}),
            ('user_N', h_user, dict(parts=('N',)), {}), ('user_NH', h_user, dict(parts=('N', 'H', 'fparm')), {}),
            ('user_all', h_user, dict(parts=('A', 'l', 'u', 'N', 'H', 'fparm', 'z0', 'zl', 'zu')), {}),
            ('user_z', h_user, dict(parts=('z0', 'zl', 'zu')), {}), ('user_z0', h_user, dict(parts=('z0',)), {}),
            ('user_mat', h_user, dict(parts=('A', 'l', 'u', 'N', 'H', 'fparm', 'z0', 'zl', 'zu'), name='saved_case.mat'), {})]
    for nm in ('saved_case.py', 'saved_case.mat'):
        out.append(('user_one_' + nm[11:], h_user, dict(parts=('A', 'l', 'u', 'N', 'H', 'fparm', 'z0', 'zl', 'zu', 'one'), name=nm), {}))
        out.append(('user_one_dense_' + nm[11:], h_user, dict(parts=('A', 'l', 'u', 'N', 'H', 'fparm', 'one'), name=nm, dense=True), {}))
    for z in ('z0', 'zl', 'zu'):
        out.append(('user_mat_' + z, h_user, dict(parts=(z,), name='saved_case.mat'), {}))
    out.append(('cost_mat_one', h_cost, dict(kinds=[P], spare=0, areas=1, name='saved_case.mat'), {}))
    for what in ('reserves', 'iflims', 'dcline'):
        for s in (False, True):
            out.append(('%s_%s' % (what, 'solved' if s else 'new'), h_ext, dict(what=what, solved=s), {}))
    out.append(('version', h_version, {}, {}))
    return out
