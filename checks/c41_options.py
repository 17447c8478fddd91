"""C41: ppoption, the wrappers that set options, the use of options by the drivers, argument forms of opf."""
from checks.lib import snapshot

INFO = dict(
    functions=['ppoption', 'opf_args', 'opf_args2', 'dcopf', 'rundcpf', 'rundcopf', 'runduopf', 'runopf', 'runuopf', 'runpf',
               'opf_execute', 'uopf', 'newtonpf', 'fdpf', 'gausspf'],
    bounds='up to 4 successive ppoption calls, each setting any subset of 4 options (one of them undocumented) to any value, on the '
           'defaults or on an earlier table; every wrapper with arbitrary option values; every documented positional form of opf',
    outside='values that make no sense for an option; the text of reports and saved cases; options of solvers that are not installed',
    assumptions='the called analyses are replaced by recorders')
NAMES = ['PF_TOL', 'PF_DC', 'OPF_VIOLATION', 'MY_OWN']


def noop(*a, **k):
    return None


def defaults(env):
    m = env.mod('ppoption')
    out = {}
    for part in ('PF_OPTIONS', 'CPF_OPTIONS', 'OPF_OPTIONS', 'OUTPUT_OPTIONS', 'PDIPM_OPTIONS'):
        for name, value, _ in getattr(m, part):
            out[name.upper()] = value
    return out


def same(env, label, got, want):
    env.ok(label + ': names', set(got) == set(want))
    ks = sorted(k for k in want if k in got)
    env.eq(label, [got[k] for k in ks], [want[k] for k in ks])


def h_seq(env, shape, names=None):
    """shape: per call, the index of the earlier table used as base (None: defaults; -1: an empty call without arguments)"""
    f = env.fn('ppoption')
    D = defaults(env)
    env.ok('documented options', len(D) >= 40 and all(n in D for n in NAMES[:3]))
    tabs, model = [], []
    for c, b in enumerate(shape):
        kw = {}
        for n in NAMES if names is None else names[c]:
            if env.choice('set%d_%s' % (c, n), [0, 1]):
                kw[n] = env.var('v%d_%s' % (c, n), -10, 10)
        kept = dict(kw)
        if b is None:
            got = f(**kw) if c % 2 == 0 else f(None, **kw)
            want = dict(D)
        else:
            got = f(tabs[b], **kw)
            want = dict(model[b])
        want.update(kept)
        tabs.append(got)
        model.append(want)
        env.ok('keywords kept %d' % c, kw == kept)
    for c, (got, want) in enumerate(zip(tabs, model)):
        same(env, 'table %d' % c, got, want)
        env.ok('a table of its own %d' % c, all(got is not o for o in tabs[:c]))
    same(env, 'defaults afterwards', f(), D)
    for got in tabs:
        got['PF_TOL'] = 77.0
        got.pop('VERBOSE')
    same(env, 'defaults after changing the tables', f(), D)


def report_args(env):
    """what the report function does with its arguments: (answer, stream, options) for the forms it documents"""
    real = env.fn('printpf')
    silent = dict(defaults(env), OUT_ALL=0)
    try:
        real({}, ppopt=dict(silent))
        keyword = True           # the options may also be given by name together with an answer table
    except KeyError:
        keyword = False
    D = defaults(env)

    def parse(baseMVA, bus=None, gen=None, branch=None, f=None, success=None, et=None, fd=None, ppopt=None):
        opt = gen if gen is not None else ppopt if keyword and ppopt is not None else D
        return baseMVA, bus, opt
    return parse


def user(env):
    o = env.fn('ppoption')()
    o.update(PF_TOL=env.var('tol', 1e-9, 1), PF_DC=env.choice('dc', [True, False]), OPF_VIOLATION=env.var('viol', 1e-9, 1),
             VERBOSE=0, OUT_ALL=0, MY_OWN=env.var('own', -5, 5))
    return o


def h_wrap(env, which, inner, force, given):
    """options, case and files reach the analysis; only the DC switch is set"""
    seen = []

    def rec(*a, **k):
        seen.append((a, k))
        return 'answer'
    env.patch(which, inner, rec)
    if inner in ('opf', 'uopf') and which != 'dcopf':
        parse = report_args(env)
        env.patch(which, 'printpf', lambda *a, **k: seen.append((a, k)))
        saves = []
        env.patch(which, 'savecase', lambda *a, **k: saves.append(a))
    o = user(env) if given else None
    keep = snapshot(o) if given else None
    want = snapshot(o) if given else defaults(env)
    if force:
        want['PF_DC'] = True
    if which == 'dcopf':
        np_ = env.np
        bus = np_.array([[1, 3, env.var('pd', -50, 50), 0, 0, 0, 1, 1, 0, 230, 1, 1.1, 0.9]])
        gen = np_.zeros((1, 21))
        gen[0, 0], gen[0, 7] = 1.0, 1.0
        case = dict(version='2', baseMVA=100.0, bus=bus, gen=gen, branch=np_.zeros((0, 13)),
                    gencost=np_.array([[2.0, 0, 0, 2, 1.0, 0.0]]))
        ck = snapshot(case)
        r = env.fn(which)(case, o) if given else env.fn(which)(case)
        env.ok('called once', len(seen) == 1)
        a = seen[0][0]
        env.eq('case', [a[0][k] for k in ('baseMVA', 'bus', 'gen', 'branch', 'gencost')],
               [ck[k] for k in ('baseMVA', 'bus', 'gen', 'branch', 'gencost')])
        env.eq('caller case kept', [case[k] for k in ('bus', 'gen', 'branch', 'gencost')],
               [ck[k] for k in ('bus', 'gen', 'branch', 'gencost')])
        got = a[1]
    else:
        case = dict(mark=1)
        args = [case] + ([o] if given else [])
        kw = dict(fname='', solvedcase='out.py')
        r = env.fn(which)(*args, **kw)
        a, k = seen[0]
        env.ok('case handed on', a[0] is case)
        got = a[1] if len(a) > 1 else k['ppopt']
        rest = list(a[2:]) + [k[n] for n in ('fname', 'solvedcase') if n in k]
        if inner in ('opf', 'uopf'):
            env.ok('report', len(seen) == 2 and seen[1][0][0] == 'answer')
            same(env, 'report options', parse(*seen[1][0], **seen[1][1])[2], want)
            env.ok('saved', saves == [('out.py', 'answer')])
        else:
            env.ok('files handed on', len(seen) == 1 and rest == ['', 'out.py'])
    env.ok('answer returned', r == 'answer')
    same(env, 'options', got, want)
    if given:
        same(env, 'caller options kept', o, keep)


def h_alg(env, alg):
    """the power flow method asked for is run, with its own matrices and with the caller's options"""
    np_ = env.np
    bus = np_.array([[1, 3, 0.0, 0, 0, 0, 1, 1, 0, 230, 1, 1.1, 0.9], [2, 1, env.var('pd', -50, 50), 0, 0, 0, 1, 1, 0, 230, 1, 1.1, 0.9]])
    gen = np_.zeros((1, 21))
    gen[0, :9] = [1, 20.0, 0.0, 50.0, -50.0, 1.0, 100.0, 1, 100.0]
    br = np_.array([[1, 2, 0.01, 0.1, 0.0, 0, 0, 0, 0, 0, 1, -360, 360]])
    o = user(env)
    o['PF_DC'], o['PF_ALG'], o['ENFORCE_Q_LIMS'] = False, alg, False
    keep = snapshot(o)
    V = np_.array([env.polar(1.0, 0.0), env.polar(env.var('vm', 0.8, 1.2), env.var('va', -1, 1, angle=True))])
    runs, bs = [], []

    def method(name):
        def f(*a):
            runs.append((name, a))
            return V, 1, 3
        return f
    for n in ('newtonpf', 'fdpf', 'gausspf'):
        env.patch('runpf', n, method(n))
    real = env.fn('makeB')

    def makeB(*a):
        bs.append(a[3])
        return real(*a)
    env.patch('runpf', 'makeB', makeB)
    env.patch('runpf', 'printpf', noop)
    res, ok = env.fn('runpf')(dict(version='2', baseMVA=100.0, bus=bus, gen=gen, branch=br), o)
    env.ok('method', [r[0] for r in runs] == [{1: 'newtonpf', 2: 'fdpf', 3: 'fdpf', 4: 'gausspf'}[alg]])
    env.ok('variant of the matrices', bs == ([alg] if alg in (2, 3) else []))
    same(env, 'options', runs[0][1][-1], keep)
    same(env, 'caller options kept', o, keep)
    env.ok('success', bool(ok))
    env.eq('voltage', res['bus'][1, 7], env.var('vm', 0.8, 1.2))


def h_opts_default(env, which):
    """the methods use the default options when none are given"""
    np_ = env.np
    D = defaults(env)
    tol = D['PF_TOL']
    Y = env.sparse(np_.array([[2 - 4j, -2 + 4j], [-2 + 4j, 2 - 4j]]))
    V0 = np_.array([env.polar(1.0, 0.0), env.polar(env.var('vm', 0.8, 1.2), env.var('va', -1, 1, angle=True))])
    # injections off by e from the solution: the method must stop at once below the default tolerance, and only then
    Iv = [(2 - 4j) * V0[0] + (-2 + 4j) * V0[1], (-2 + 4j) * V0[0] + (2 - 4j) * V0[1]]
    e = env.var('e', -1, 1)
    S = np_.array([V0[0] * np_.conj(Iv[0]), V0[1] * np_.conj(Iv[1]) - env.cplx(e, 0.0)])
    stop = {}

    class Stop(Exception):
        pass

    def solve(*a, **k):
        raise Stop
    I = lambda x: np_.array(x, dtype=int)
    if which == 'newtonpf':
        env.patch('newtonpf', 'pplinsolve', solve)
        args = [Y, S, V0, I([0]), I([]), I([1])]
    else:
        env.patch('cpf_corrector', 'pplinsolve', solve)
        lam = 0.0
        args = [Y, S, V0, I([0]), I([]), I([1]), 0.5, np_.array([0.0, 0.0]), V0, 0.0,
                np_.array([0.0, 0.0, 0.0, 0.0, 1.0]), 0.5, 1, None]
    try:
        env.fn(which)(*args)
        it = 0
    except Stop:
        it = 1
    if it:
        env.cmp('iterated only above the default tolerance', tol, env.abs(e))
    else:
        env.cmp('stopped only below the default tolerance', env.abs(e), tol)


def h_execute(env, dc, alg):
    """which optimal power flow solver runs; its options are the caller's, unchanged"""
    o = user(env)
    np_ = env.np
    o['PF_DC'], o['OPF_ALG'] = dc, alg
    keep = snapshot(o)
    seen = []

    class Om(object):
        def build_cost_params(self):
            seen.append('costs')

        def get_idx(self):
            z = dict(i1={}, iN={}, N={'PQh': 0, 'PQl': 0, 'ang': 0})
            return z, z, z, z

        def get_ppc(self):
            return {}

        def getN(self, *a):
            return 0

        def userdata(self, name):
            return np_.array([])
        var = lin = nln = cost = dict(order=[])

    def solver(name):
        def f(om, opt, *a):
            seen.append((name, dict(opt)))
            return dict(f=1.0), False, dict(output=dict())
        return f
    for n in ('dcopf_solver', 'pipsopf_solver', 'ipoptopf_solver'):
        env.patch('opf_execute', n, solver(n))
    results, success, raw = env.fn('opf_execute')(Om(), o)
    env.ok('costs built before the solver', seen[0] == 'costs' and len(seen) == 2)
    env.ok('solver', seen[1][0] == ('dcopf_solver' if dc else 'pipsopf_solver'))
    got = dict((k, v) for k, v in seen[1][1].items() if k in keep)
    same(env, 'options', got, keep)
    same(env, 'caller options kept', o, keep)
    env.ok('algorithm reported', raw['output']['alg'] == (alg if dc else alg or 560))


FORMS = ('Au lbu ubu ppopt N fparm H Cw z0 zl zu', 'Au lbu ubu ppopt N fparm H Cw', 'Au lbu ubu ppopt', 'Au lbu ubu',
         'userfcn ppopt', 'ppopt', '')
ORDER = 'baseMVA bus gen branch gencost Au lbu ubu ppopt N fparm H Cw z0 zl zu userfcn areas'.split()


def h_args(env, form, tables, infield):
    """every documented positional form puts each argument in its role; missing ones come from the case or are empty"""
    np_ = env.np
    base = env.var('base', 1, 500)
    bus = np_.array([[1, 3, env.var('pd', -50, 50), 0, 0, 0, 1, 1, 0, 230, 1, 1.1, 0.9]])
    gen = np_.zeros((1, 21))
    gen[0, 0], gen[0, 7], gen[0, 8] = 1.0, 1.0, env.var('pmax', 0, 100)
    br = np_.zeros((0, 13))
    gc = np_.array([[2.0, 0, 0, 2, env.var('c', 0, 9), 0.0]])
    areas = np_.array([[1.0, 1.0]])
    A = lambda nm, c: np_.array([[env.var(nm + str(i), -9, 9) for i in range(c)]])
    v = lambda nm, c: np_.array([env.var(nm + str(i), -9, 9) for i in range(c)])

    def make(p):
        return dict(Au=env.sparse(A(p + 'A', 4)), lbu=v(p + 'l', 1), ubu=v(p + 'u', 1), N=env.sparse(A(p + 'N', 4)),
                    fparm=A(p + 'f', 4), H=env.sparse(A(p + 'H', 1)), Cw=v(p + 'C', 1), z0=v(p + 'z', 1), zl=v(p + 'y', 1),
                    zu=v(p + 'x', 1), userfcn=[dict(stage=p)], ppopt=None)
    arg, fld = make('a'), make('c')
    opt = user(env)
    arg['ppopt'] = opt
    names = form.split()
    case = dict(version='2', baseMVA=base, bus=bus, gen=gen, branch=br, gencost=gc, areas=areas)
    if infield:
        case.update(A=fld['Au'], l=fld['lbu'], u=fld['ubu'], N=fld['N'], fparm=fld['fparm'], H=fld['H'], Cw=fld['Cw'],
                    z0=fld['z0'], zl=fld['zl'], zu=fld['zu'], userfcn=fld['userfcn'])
    args = ([base, bus, gen, br, areas, gc] if tables else [case]) + [arg[n] for n in names]
    got = dict(zip(ORDER, env.fn('opf_args')(*args)))
    want = dict(baseMVA=base, bus=bus, gen=gen, branch=br, gencost=gc, areas=areas)
    env.eq('case tables', [got[k] for k in sorted(want)], [want[k] for k in sorted(want)])
    D = defaults(env)
    same(env, 'options', got['ppopt'], opt if 'ppopt' in names else D)
    for n in ('Au', 'lbu', 'ubu', 'N', 'fparm', 'H', 'Cw', 'z0', 'zl', 'zu', 'userfcn'):
        src = arg if n in names else fld if infield and not tables else None
        g = got[n]
        if src is None:
            env.ok('%s empty' % n, g is None or len(g) == 0 if not hasattr(g, 'shape') else g is None or 0 in g.shape)
        elif n == 'userfcn':
            env.ok('userfcn', g == src[n])
        else:
            env.eq(n, env.dense(g), env.dense(src[n]))


def h_uopf(env):
    """uopf lowers the verbosity for the optimal power flows it runs and changes nothing else"""
    np_ = env.np
    bus = np_.array([[1, 3, 50.0, 0, 0, 0, 1, 1, 0, 230, 1, 1.1, 0.9]])
    gen = np_.zeros((1, 25))
    gen[0, :10] = [1, 20.0, 0.0, 50.0, -50.0, 1.0, 100.0, 1, 100.0, 0.0]
    o = user(env)
    o['VERBOSE'] = env.choice('verbose', [0, 1, 2])
    keep = snapshot(o)
    seen = []

    def opf(ppc, opt):
        seen.append(dict(opt))
        return dict((k, ppc[k]) for k in ('baseMVA', 'bus', 'gen', 'branch', 'gencost')) | dict(success=True, f=1.0)
    env.patch('uopf', 'opf', opf)
    env.fn('uopf')(dict(version='2', baseMVA=100.0, bus=bus, gen=gen, branch=np_.zeros((0, 13)), gencost=np_.array([[2.0, 0, 0, 2, 1, 0]])), o)
    want = dict(keep)
    want['VERBOSE'] = max(0, keep['VERBOSE'] - 1)
    env.ok('one run', len(seen) == 1)
    same(env, 'options', seen[0], want)
    same(env, 'caller options kept', o, keep)


def h_files(env, which, inner, place):
    """the report goes to the named file (after what it holds) or to standard output, the solved case to its own file; a report file
    that cannot be opened does not lose the answer"""
    import os
    import shutil
    import sys
    import tempfile
    np_ = env.np
    d = tempfile.mkdtemp()
    try:
        name = {'new': os.path.join(d, 'rep'), 'old': os.path.join(d, 'rep'), 'none': '', 'bad': os.path.join(d, 'missing', 'rep')}[place]
        if place == 'old':
            with open(name, 'w') as f:
                f.write('before\n')
        o = user(env)
        reports, saves, given = [], [], []

        parse = report_args(env)

        def printpf(*a, **k):
            reports.append(parse(*a, **k))
            if place in ('new', 'old'):
                reports[-1][1].write('report\n')
        env.patch(which, 'printpf', printpf)
        env.patch(which, 'savecase', lambda n, c, *a: saves.append((n, c)))
        if inner:
            def rec(*a, **k):
                given.append(a)
                return {'answer': 1}
            env.patch(which, inner, rec)
            case = dict(mark=1)
        else:
            o['PF_DC'] = True
            bus = np_.array([[1, 3, 0.0, 0, 0, 0, 1, 1, 0, 230, 1, 1.1, 0.9], [2, 1, env.var('pd', -50, 50), 0, 0, 0, 1, 1, 0, 230, 1, 1.1, 0.9]])
            gen = np_.zeros((1, 21))
            gen[0, :9] = [1, 20.0, 0.0, 50.0, -50.0, 1.0, 100.0, 1, 100.0]
            case = dict(version='2', baseMVA=100.0, bus=bus, gen=gen, branch=np_.array([[1, 2, 0.01, 0.1, 0, 0, 0, 0, 0, 0, 1, -360, 360.0]]))
        keep = snapshot(o)
        save = env.choice('save', [0, 1])
        err, sys.stderr = sys.stderr, open(os.devnull, 'w')
        try:
            r = env.fn(which)(case, o, name, 'solved' if save else '')
        finally:
            sys.stderr.close()
            sys.stderr = err
        res = r if inner else r[0]
        if inner:
            env.ok('answer', res == {'answer': 1} and given[0][0] is case)
        else:
            env.ok('answer', bool(r[1]))
            env.eq('flow', res['branch'][0, 13], env.var('pd', -50, 50))
        env.ok('solved case saved when asked', len(saves) == save and all(n == 'solved' and c is res for n, c in saves))
        if place == 'bad':
            env.ok('no report', reports == [])
            return
        env.ok('one report of the answer', len(reports) == 1 and reports[0][0] is res)
        same(env, 'report options', reports[0][2], keep)
        if place == 'none':
            env.ok('report on standard output', not hasattr(reports[0][1], 'name') or reports[0][1].name not in os.listdir(d))
            env.ok('no file', os.listdir(d) == [])
        else:
            env.ok('report file closed', reports[0][1].closed)
            with open(name) as f:
                env.ok('report follows what the file held', f.read() == ('before\n' if place == 'old' else '') + 'report\n')
    finally:
        shutil.rmtree(d)


def h_cpf_files(env, place):
    """report and solved case of the continuation power flow"""
    import os
    import shutil
    import sys
    import tempfile
    np_ = env.np
    bus = np_.array([[1, 3, 0.0, 0, 0, 0, 1, 1, 0, 230, 1, 1.1, 0.9], [2, 1, env.var('pd', -50, 50), 0, 0, 0, 1, 1, 0, 230, 1, 1.1, 0.9]])
    gen = np_.zeros((1, 21))
    gen[0, :9] = [1, 20.0, 0.0, 50.0, -50.0, 1.0, 100.0, 1, 100.0]
    case = dict(version='2', baseMVA=100.0, bus=bus, gen=gen, branch=np_.array([[1, 2, 0.01, 0.1, 0, 0, 0, 0, 0, 0, 1, -360, 360.0]]))
    V = np_.array([env.polar(1.0, 0.0), env.polar(env.var('vm', 0.8, 1.2), env.var('va', -1, 1, angle=True))])
    good = env.choice('solved', [0, 1])
    env.patch('runcpf', 'newtonpf', lambda *a: (V, good, 3))
    reports, saves = [], []
    parse = report_args(env)
    d = tempfile.mkdtemp()
    try:
        name = {'new': os.path.join(d, 'rep'), 'old': os.path.join(d, 'rep'), 'none': '', 'bad': os.path.join(d, 'missing', 'rep')}[place]
        if place == 'old':
            with open(name, 'w') as f:
                f.write('before\n')

        def printpf(*a, **k):
            reports.append(parse(*a, **k))
            if place in ('new', 'old'):
                reports[-1][1].write('report\n')
        env.patch('runcpf', 'printpf', printpf)
        env.patch('runcpf', 'savecase', lambda n, c, *a: saves.append((n, c)))
        o = dict(env.fn('ppoption')())
        o.update(VERBOSE=0, OPF_VIOLATION=env.var('tol', 0, 1))
        keep = dict(o)
        save = env.choice('save', [0, 1])
        err, sys.stderr = sys.stderr, open(os.devnull, 'w')
        try:
            res, ok = env.fn('runcpf')(case, snapshot(case), o, name, 'solved' if save else '')
        finally:
            sys.stderr.close()
            sys.stderr = err
        env.ok('success', bool(ok) == bool(good))
        env.ok('solved case saved when asked', len(saves) == save and all(n == 'solved' and c is res for n, c in saves))
        if place == 'bad':
            env.ok('no report', reports == [])
            return
        env.ok('one report of the answer', len(reports) == 1 and reports[0][0] is res)
        same(env, 'report options', reports[0][2], keep)
        if place == 'none':
            env.ok('no file', os.listdir(d) == [])
        else:
            env.ok('report file closed', reports[0][1].closed)
            with open(name) as f:
                env.ok('report follows what the file held', f.read() == ('before\n' if place == 'old' else '') + 'report\n')
    finally:
        shutil.rmtree(d)


def h_default_case(env, which, inner):
    """without a case the nine bus example that comes with the package is solved"""
    import os
    seen = []

    def rec(*a, **k):
        seen.append(a[0])
        return {'answer': 1}
    env.patch(which, inner, rec)
    env.patch(which, 'printpf', noop)
    o = user(env)
    o['OUT_ALL'] = env.choice('out', [0, 1])
    env.fn(which)(None, o)
    a = seen[0]
    env.ok('case', os.path.basename(str(a)) in ('case9', 'case9.py') if isinstance(a, str) else len(a['bus']) == 9)


def harnesses(tier):
    out = []
    two = [['PF_TOL', 'MY_OWN'], ['PF_TOL', 'PF_DC', 'MY_OWN']]
    shapes = [([None], None), ([None, 0], two), ([None, None], two), ([None, 0, 0], [['PF_TOL'], ['PF_TOL', 'MY_OWN'], ['PF_TOL', 'PF_DC']]),
              ([None, 0, 1, None], [['PF_TOL'], ['MY_OWN'], ['PF_TOL'], ['MY_OWN']])]
    if tier != 'quick':
        shapes += [([None, 0], None), ([None, 0, 1], [NAMES[:2], NAMES[1:], NAMES[:2]])]
    for i, (s, names) in enumerate(shapes):
        out.append(('calls_%d_' % i + '_'.join('n' if b is None else str(b) for b in s), h_seq, dict(shape=s, names=names),
                    dict(budget_s=600)))
    for w, inner, force in (('rundcpf', 'runpf', True), ('rundcopf', 'runopf', True), ('runduopf', 'runuopf', True),
                            ('runopf', 'opf', False), ('runuopf', 'uopf', False), ('dcopf', 'opf', True)):
        for g in (True, False):
            out.append(('%s_%s' % (w, 'given' if g else 'default'), h_wrap, dict(which=w, inner=inner, force=force, given=g), {}))
    for a in (1, 2, 3, 4):
        out.append(('method_%d' % a, h_alg, dict(alg=a), {}))
    for w in ('newtonpf', 'cpf_corrector'):
        out.append(('default_' + w, h_opts_default, dict(which=w), {}))
    for dc, alg in ((True, 0), (False, 0), (False, 560), (False, 565)):
        out.append(('solver_%d_%d' % (dc, alg), h_execute, dict(dc=dc, alg=alg), {}))
    for f in FORMS:
        for infield in (0, 1):
            out.append(('form_case_%d_%s' % (infield, f.replace(' ', '_')), h_args, dict(form=f, tables=False, infield=infield), {}))
        out.append(('form_tables_%s' % f.replace(' ', '_'), h_args, dict(form=f, tables=True, infield=0), {}))
    for w, inner in (('runopf', 'opf'), ('runuopf', 'uopf'), ('runpf', None)):
        for place in ('new', 'old', 'none', 'bad'):
            out.append(('files_%s_%s' % (w, place), h_files, dict(which=w, inner=inner, place=place), {}))
        if inner:
            out.append(('example_%s' % w, h_default_case, dict(which=w, inner=inner), {}))
    out.append(('uopf_verbosity', h_uopf, {}, {}))
    out += [('cpf_files_' + p, h_cpf_files, dict(place=p), {}) for p in ('new', 'old', 'none', 'bad')]
    return out
