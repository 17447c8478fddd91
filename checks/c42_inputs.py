"""C42: no call changes the tables it was given."""
import numpy as np

from checks.c34_reserves import Answer
from checks.lib import snapshot

INFO = dict(
    functions=['makeYbus', 'makeBdc', 'makeB', 'makeSbus', 'makePTDF', 'makeLODF', 'makeAvl', 'makeApq', 'makeAang', 'makeAy', 'bustypes',
               'isload', 'hasPQcap', 'total_load', 'totcost', 'pqcost', 'polycost', 'poly2pwl', 'modcost', 'loadcase', 'ext2int',
               'int2ext', 'e2i_data', 'i2e_data', 'e2i_field', 'i2e_field', 'runpf', 'newtonpf', 'fdpf', 'gausspf', 'dcpf', 'runopf',
               'opf', 'opf_setup', 'opf_execute', 'uopf', 'scale_load', 'printpf', 'runcpf (C40)'],
    bounds='3-4 buses in any numbering, one isolated or renumbered, 3 units, 3 branches, statuses symbolic or patterned, every other table '
           'entry that the call reads symbolic; tables of the documented minimum and full widths; solvers replaced by arbitrary answers',
    outside='functions that update tables by design (add_userfcn, toggle functions, pfsoln, update_mupq); printed text',
    assumptions='none')
NUM = (7, 3, 9, 4)


def tables(env, iso=False, internal=False, wide=False, stat='sym', conc=False, qcap=False):
    """symbolic case; internal: numbered from 0 with everything in service"""
    np_ = env.np
    n, ends, gb = 4, ((0, 1), (1, 2), (2, 3)), (1, 0, 1)
    num = tuple(range(4)) if internal else NUM
    bus, gen, br = np_.zeros((n, 17 if wide else 13)), np_.zeros((3, 25 if wide else 21)), np_.zeros((3, 21 if wide else 13))

    def v(nm, lo, hi, c):
        return c if conc else env.var(nm, lo, hi)
    for i in range(n):
        bus[i, :13] = [num[i], (1, 3, 2, 4 if iso else 1)[i], v('pd%d' % i, -99, 99, 20.0 + i), v('qd%d' % i, -99, 99, 5.0), v('gs%d' % i, -9, 9, 1.0),
                       v('bs%d' % i, -9, 9, 2.0), 1, v('vm%d' % i, .9, 1.1, 1.0), v('va%d' % i, -60, 60, 3.0 * i), 230, 1, 1.1, 0.9]
    for k in range(3):
        st = 1.0 if internal else env.var('gs_%d' % k, dom=[0, 1]) if stat == 'sym' and k != 0 else (1.0, 0.0, 1.0)[k]
        gen[k, :10] = [num[gb[k]], v('pg%d' % k, -50, 99, 30.0), v('qg%d' % k, -50, 50, 4.0), 60.0, -60.0, 1.0, 100.0, st,
                       100.0 + k, 0.0]
        if qcap and k == 1:
            gen[k, 10:16] = [0.0, 100.0, -60.0, 60.0, -30.0, 30.0]
    for k, (f, t) in enumerate(ends):
        st = 1.0 if internal else env.var('bs_%d' % k, dom=[0, 1]) if stat == 'sym' and k else 1.0
        br[k, :13] = [num[f], num[t], v('r%d' % k, .001, .1, .01), v('x%d' % k, .01, .5, .1), v('b%d' % k, 0, .1, .02), 80.0 + k, 0, 0,
                      (v('tap%d' % k, .9, 1.1, 1.0) if k == 1 else 0.0), (v('sh%d' % k, -30, 30, 2.0) if k == 2 else 0.0), st, -360, 360]
    if wide:
        for t, a, b in ((bus, 13, 17), (gen, 21, 25), (br, 13, 21)):
            for i in range(t.shape[0]):
                for c in range(a, b):
                    t[i, c] = 0.5 + i + c
    gc = np_.array([[2, 0, 0, 3, v('c2', 0, 1, .01), v('c1', 1, 50, 3.0), v('c0', 0, 100, 7.0), 0],
                    [1, 0, 0, 2, 0, 0, 100, v('pw', 1, 500, 300.0)],
                    [2, 0, 0, 2, v('d1', 1, 50, 4.0), 1.0, 0, 0]])
    return dict(version='2', baseMVA=v('base', 10, 200, 100.0), bus=bus, gen=gen, branch=br, gencost=gc)


class Keep(object):
    """remembers objects; afterwards they must be the same"""

    def __init__(self, env, **objs):
        self.env, self.objs = env, objs
        self.before = dict((k, self.flat(v)) for k, v in objs.items())
        self.kinds = dict((k, self.kind(v)) for k, v in objs.items())

    def flat(self, v):
        if hasattr(v, 'toarray'):
            return self.env.dense(v).copy()
        if isinstance(v, dict):
            return dict((k, self.flat(w)) for k, w in v.items())
        if isinstance(v, (list, tuple)):
            return [self.flat(w) for w in v]
        return v.copy() if hasattr(v, 'copy') else v

    def kind(self, v):
        if isinstance(v, dict):
            return dict((k, self.kind(w)) for k, w in v.items())
        if hasattr(v, 'shape'):
            return (tuple(v.shape), id(v))
        return None

    def check(self, when=''):
        for k, v in self.objs.items():
            self.env.ok('same entries %s %s' % (k, when), self.kind(v) == self.kinds[k])
            a, b = self.flat(v), self.before[k]
            self.same('%s kept %s' % (k, when), a, b)

    def same(self, label, a, b):
        if isinstance(b, dict):
            for k in b:
                if k in a:
                    self.same(label + ' ' + str(k), a[k], b[k])
        elif hasattr(b, 'shape') or isinstance(b, (int, float)) or not isinstance(b, (str, list, tuple, type(None))):
            if not callable(b):
                self.env.eq(label, a, b)
        elif isinstance(b, list):
            for x, y in zip(a, b):
                self.same(label, x, y)
        else:
            self.env.ok(label, a == b)


def opts(env, **kw):
    o = dict(env.fn('ppoption')())
    o.update(VERBOSE=0, OUT_ALL=0)
    o.update(kw)
    return o


def h_build(env, which):
    """matrix builders and table functions"""
    np_ = env.np
    load = which in ('isload', 'total_load', 'scale_load', 'makeAvl')
    c = tables(env, internal=True, conc=which in ('makePTDF', 'makeLODF') or load, qcap=which in ('makeApq', 'hasPQcap'))
    base, bus, gen, br, gc = c['baseMVA'], c['bus'], c['gen'], c['branch'], c['gencost']
    if load:
        gen[1, 8], gen[1, 9], gen[1, 4], gen[1, 3] = 0.0, -50.0, -20.0, 0.0
        gen[1, 1] = -50.0 * env.var('f', 0, 1)
        gen[1, 2] = gen[1, 1] * 0.4
        bus[0, 2] = env.var('pd0', -99, 99)
    if which in ('makePTDF', 'makeLODF'):
        br[0, 3] = env.var('x0', .05, .5)
        br = c['branch'] = np_.array([list(br[k, :]) for k in range(3)] + [[0, 2, .01, .2, 0, 0, 0, 0, 0, 0, 1, -360, 360]])
    extra = {}
    f = env.fn
    if which == 'makeB':
        run = lambda: [f('makeB')(base, bus, br, a) for a in (2, 3)]
    elif which in ('makeBdc', 'makeYbus'):
        run = lambda: f(which)(base, bus, br)
    elif which == 'makeSbus':
        run = lambda: f(which)(base, bus, gen)
    elif which == 'bustypes':
        gen[0, 7], gen[2, 7] = env.var('g0', dom=[0, 1]), env.var('g2', dom=[0, 1])
        env.assume(env.Or([gen[0, 7] > 0, gen[2, 7] > 0]))
        run = lambda: f(which)(bus, gen)
    elif which == 'makePTDF':
        extra = dict(weights=np_.array([0.25, 0.5, 0.25, 0.0]))
        run = lambda: [f(which)(100.0, bus, br), f(which)(100.0, bus, br, 1), f(which)(100.0, bus, br, extra['weights'])]
    elif which == 'makeLODF':
        H = np_.array([[0, .5, .2, .1], [0, -.3, .4, -.2], [0, .1, .6, .3], [0, env.var('h', .1, .4), .2, .7]])
        extra = dict(H=H)
        run = lambda: f(which)(br, H)
    elif which in ('makeAvl', 'makeApq'):
        run = lambda: f(which)(base, gen)
    elif which == 'makeAang':
        br[0, 11], br[1, 12], br[2, 11] = -30.0, env.var('amax', 1, 60), 0.0
        run = lambda: [f(which)(base, br, 4, opts(env)), f(which)(base, br, 4, opts(env, OPF_IGNORE_ANG_LIM=True))]
    elif which == 'makeAy':
        g2 = np_.array([list(gc[1, :])])
        extra = dict(g2=g2)
        run = lambda: f(which)(base, 1, g2, 0, np_.array([]), 3)
    elif which == 'isload':
        run = lambda: f(which)(gen)
    elif which == 'hasPQcap':
        run = lambda: [f(which)(gen), f(which)(gen, 'U'), f(which)(gen, 'L')]
    elif which == 'total_load':
        z = np_.array([1, 2, 1, 2])
        extra = dict(z=z)
        run = lambda: [f(which)(bus, gen, z, 'BOTH'), f(which)(bus), f(which)(bus, gen, 'all', 'FIXED')]
    elif which == 'scale_load':
        ld = np_.array([env.var('k0', .5, 2), env.var('k1', .5, 2)])
        z, o = np_.array([1, 2, 1, 2]), dict(which='BOTH')
        extra = dict(ld=ld, z=z, o=o)
        run = lambda: [f(which)(ld, bus, gen, z, o), f(which)(1.5, bus), f(which)(ld, bus, None, z)]
    elif which == 'totcost':
        pg = np_.array([env.var('p%d' % k, 0, 90) for k in range(3)])
        extra = dict(pg=pg)
        run = lambda: f(which)(gc, pg)
    elif which == 'pqcost':
        both = np_.array([list(gc[k, :]) for k in (0, 1, 2, 0, 1, 2)])
        on = np_.array([0, 2])
        extra = dict(both=both, on=on)

        def run():
            for r in (f(which)(both, 3), f(which)(both, 3, on)):
                for t in r:
                    env.ok('parts are of their own', t is not both)
    elif which == 'polycost':
        g = np_.array([list(gc[0, :]), list(gc[2, :])])
        pg = np_.array([env.var('p0', 0, 90), env.var('p1', 0, 90)])
        extra = dict(g=g, pg=pg)
        run = lambda: [f(which)(g, pg, d) for d in (0, 1, 2)]
    elif which == 'poly2pwl':
        g = np_.array([list(gc[0, :]), list(gc[2, :])])
        pmin, pmax = np_.array([0.0, 5.0]), np_.array([env.var('u0', 10, 99), env.var('u1', 10, 99)])
        extra = dict(g=g, pmin=pmin, pmax=pmax)
        run = lambda: f(which)(g, pmin, pmax, 4)
    else:
        a = env.var('a', 1, 3)
        run = lambda: [f('modcost')(gc, a, t) for t in ('SCALE_F', 'SCALE_X', 'SHIFT_F', 'SHIFT_X')]
    k = Keep(env, case=c, **extra)
    run()
    k.check()


def h_convert(env, what, iso):
    """loading and converting; the result must not share tables with the input either"""
    np_ = env.np
    c = tables(env, iso=iso)
    c['areas'] = np_.array([[1, 3]])
    c['A'] = env.sparse(np_.array([[env.var('A%d' % j, -9, 9) if j < 2 else 0.0 for j in range(14)]]))
    k = Keep(env, case=c)
    if what == 'loadcase':
        out = env.fn('loadcase')(c)
        k.check('after loading')
        for t in ('bus', 'gen', 'branch', 'gencost', 'areas'):
            out[t][0, 0] = 1.5
            out[t][-1, -1] = 2.5
        out['new'] = 1
        k.check('after changing the loaded case')
        return
    i = env.fn('ext2int')(c)
    k.check('after conversion')
    ki = Keep(env, internal=dict((n, i[n]) for n in ('bus', 'gen', 'branch', 'gencost', 'areas')), state=i['order']['state'])
    if what == 'ext2int':
        for t in ('bus', 'gen', 'branch', 'gencost', 'areas'):
            i[t][0, 0] = 1.5
            i[t][0, -1] = 2.5
        k.check('after changing the converted case')
        return
    if what == 'int2ext':
        i['bus'][0, 7] = 1.07
        ki = Keep(env, internal=dict((n, i[n]) for n in ('bus', 'gen', 'branch', 'gencost', 'areas')), state=i['order']['state'])
        e = env.fn('int2ext')(i)
        ki.check('after converting back')
        e['bus'][0, 0] = 88.0
        e['gen'][0, 1] = 88.0
        k.check('after changing the result')
        ki.check('after changing the result')
        return
    val = np_.array([env.var('d%d' % j, -9, 9) for j in range(4)])
    g3 = np_.array([[env.var('e%d' % j, -9, 9), 1.0] for j in range(3)])
    vi = np_.array([env.var('w%d' % j, -9, 9) for j in range(i['bus'].shape[0])])
    vg = np_.array([[env.var('y%d' % j, -9, 9), 1.0] for j in range(i['gen'].shape[0])])
    kv = Keep(env, val=val, g3=g3, vi=vi, vg=vg)
    r = [env.fn('e2i_data')(i, val, 'bus'), env.fn('e2i_data')(i, g3, 'gen'),
         env.fn('i2e_data')(i, vi, val, 'bus'), env.fn('i2e_data')(i, vg, g3, 'gen')]
    kv.check()
    for t in r:
        t[0] = 123.0
    kv.check('after changing the results')
    ki.check()


def h_field(env, iso):
    """field conversions leave the outer dictionary of the caller's case alone"""
    np_ = env.np
    c = tables(env, iso=iso)
    c['res'] = dict(cost=np_.array([env.var('rc%d' % j, 0, 9) for j in range(3)]))
    k = Keep(env, case=c)
    i = env.fn('ext2int')(c)
    i = env.fn('e2i_field')(i, ['res', 'cost'], 'gen')
    k.check('after e2i_field')
    i = env.fn('i2e_field')(i, ['res', 'cost'], 'gen')
    k.check('after i2e_field')


def h_pf(env, how, iso, wide=False, qlim=0):
    """power flows, with the numerical methods replaced by arbitrary answers"""
    np_ = env.np
    c = tables(env, iso=iso, stat='pattern', wide=wide, conc=True)
    c['bus'][0, 2], c['gen'][0, 1], c['bus'][1, 8] = env.var('pd0', -99, 99), env.var('pg0', -50, 99), env.var('va1', -30, 30)
    if qlim:
        c['bus'][:, 8] = 0.0
        c['gen'][0, 0], c['gen'][2, 7] = c['bus'][2, 0], 1.0
        for g in (0, 2):
            c['gen'][g, 3], c['gen'][g, 4] = env.var('qx%d' % g, 1, 99), env.var('qn%d' % g, -99, -1)
    o = opts(env, PF_DC=how == 'dc', PF_ALG=how if how != 'dc' else 1, ENFORCE_Q_LIMS=qlim)
    env.patch('runpf', 'printpf', lambda *a, **k: None)
    count = [0]

    def method(Y, S, V0, *a):
        count[0] += 1
        n = V0.shape[0]
        if qlim:
            return np_.array([V0[0], V0[1], 1.0 * V0[2], 0.98 * V0[3]]), 1, 2
        return np_.array([V0[i] if i == 1 else env.polar(1.0 + .01 * i, env.var('t%d' % i, -1, 1, angle=True)) for i in range(n)]), 1, 2
    for m in ('newtonpf', 'fdpf', 'gausspf'):
        env.patch('runpf', m, method)
    k = Keep(env, case=c, options=o)
    r, ok = env.fn('runpf')(c, o)
    k.check()
    for t in ('bus', 'gen', 'branch'):
        env.ok('result has tables of its own: ' + t, r[t] is not c[t])
        r[t][0, 0] = 55.0
        r[t][-1, -1] = 66.0
    k.check('after changing the results')


def h_method(env, which):
    """the numerical methods leave their injections, start and indices alone"""
    np_ = env.np
    env.solver('fresh')
    env.assume_denominators()
    env.name_long(8)
    Y = np_.array([[3 - 9j, -1 + 4j, -2 + 5j], [-1 + 4j, 2 - 6j, -1 + 2j], [-2 + 5j, -1 + 2j, 3 - 7j]])
    S = np_.array([0.1 + 0.1j, 0.5 + 0.2j, -0.7 - 0.3j])
    V0 = np_.array([1.0 + 0j, 1.02 + 0.1j, 0.97 - 0.2j])
    I = lambda x: np_.array(x, dtype=int)
    ref, pv, pq = I([0]), I([1]), I([2])
    o = opts(env, PF_TOL=env.choice('tol', [1e-9, 20.0]), PF_MAX_IT=1, PF_MAX_IT_FD=1, PF_MAX_IT_GS=1)
    Ys = env.sparse(Y)
    objs = dict(Y=Ys, S=S, V0=V0, ref=ref, pv=pv, pq=pq, o=o)
    args = [Ys, S, V0]
    if which == 'fdpf':
        objs['Bp'] = env.sparse(np_.array([[9.0, -4, -5], [-4, 6, -2], [-5, -2, 7]]))
        objs['Bpp'] = env.sparse(np_.array([[9.0, -4, -5], [-4, 6, -2], [-5, -2, 7]]))
        args += [objs['Bp'], objs['Bpp']]
    if which == 'newtonpf':
        env.patch('newtonpf', 'pplinsolve', lambda J, F, *a: np_.array([0.01, -0.02, 0.005]))
    k = Keep(env, **objs)
    env.fn(which)(*(args + [ref, pv, pq, o]))
    k.check()


def h_dcpf(env):
    np_ = env.np
    B = env.sparse(np_.array([[9.0, -4, -5], [-4, 6, -2], [-5, -2, 7]]))
    P = np_.array([env.var('p%d' % i, -2, 2) for i in range(3)])
    Va = np_.array([env.var('a%d' % i, -2, 2) for i in range(3)])
    I = lambda x: np_.array(x, dtype=int)
    k = Keep(env, B=B, P=P, Va=Va)
    env.fn('dcpf')(B, P, Va, I([0]), I([1]), I([2]))
    k.check()


def h_opf(env, ac, how, iso, wide, extra=()):
    """optimal power flows, with the solver replaced by an arbitrary answer"""
    np_ = env.np
    c = tables(env, iso=iso, stat='pattern', wide=wide, conc=True, qcap='qcap' in extra)
    c['bus'][0, 2], c['gen'][0, 9] = env.var('pd0', -20, 99), env.var('pmin', 0, 10)
    c['branch'][0, 11] = -30.0
    if 'load' in extra:
        c['gen'][2, 8], c['gen'][2, 9], c['gen'][2, 4], c['gen'][2, 3] = 0.0, -50.0, -20.0, 0.0
        c['gen'][2, 1], c['gen'][2, 2] = -25.0, -10.0
    nb, nl = (3, 2) if iso else (4, 3)
    ans = Answer(env, ac, nl)
    ans.nb = nb
    env.patch('dcopf_solver', 'qps_pypower', ans.qps)
    env.patch('pipsopf_solver', 'pips', ans.pips)
    o = opts(env, PF_DC=not ac)
    objs = dict(case=c, options=o)
    if 'user' in extra:
        ng, nx = 3, (2 * 4 + 2 * 3) if ac else 4 + 3
        A = env.sparse(np_.array([[env.var('A0', 1, 9)] + [1.0] * (nx - 1)]))
        l, u = np_.array([env.var('l', -99, 0)]), np_.array([env.var('u', 0, 99)])
        objs.update(A=A, l=l, u=u)
        c.update(A=A, l=l, u=u)
        objs['case'] = c
    k = Keep(env, **objs)
    if how == 'runopf':
        r = env.fn('runopf')(c, o)
    elif how == 'opf':
        r = env.fn('opf')(c, o)
    elif how == 'dcopf':
        r = env.fn('dcopf')(c, o)
    elif how == 'tables':
        ar = np_.array([[1, 3]])
        r = env.fn('opf')(c['baseMVA'], c['bus'], c['gen'], c['branch'], ar, c['gencost'], o)
    else:
        r = env.fn('uopf')(c, o)
    env.ok('solved', bool(r['success']))
    k.check()
    for t in ('bus', 'gen', 'branch', 'gencost'):
        r[t][0, 0] = 55.0
        r[t][-1, -1] = 66.0
    k.check('after changing the results')


def h_print(env, ac, kind, full):
    """printing leaves the results alone"""
    np_ = env.np
    c = tables(env, stat='pattern', wide=True, conc=True)
    c['bus'][:, 13:17] = 0.0
    if kind == 'opf':
        c['bus'][0, 13], c['bus'][1, 15], c['branch'][0, 17], c['gen'][0, 21] = 12.0, 3.0, 4.0, 5.0
    c.update(success=True, et=0.1)
    if kind == 'opf':
        c['f'] = env.var('f', 0, 100)
    o = opts(env, PF_DC=not ac, OUT_ALL=1 if full else -1, OUT_ALL_LIM=2 if full else -1)

    class Fd(object):
        def write(self, s):
            pass
    k = Keep(env, results=c, options=o)
    env.fn('printpf')(c, Fd(), o)
    k.check()


BUILD = ['makeYbus', 'makeBdc', 'makeB', 'makeSbus', 'makePTDF', 'makeLODF', 'makeAvl', 'makeApq', 'makeAang', 'makeAy', 'bustypes', 'isload',
         'hasPQcap', 'total_load', 'scale_load', 'totcost', 'pqcost', 'polycost', 'poly2pwl', 'modcost']


def harnesses(tier):
    out = []
    for w in BUILD:
        out.append(('build_' + w, h_build, dict(which=w), dict(budget_s=200)))
    for w in ('loadcase', 'ext2int', 'int2ext', 'data'):
        for iso in (False, True):
            out.append(('convert_%s_%d' % (w, iso), h_convert, dict(what=w, iso=iso), dict(budget_s=200)))
    for iso in (False, True):
        out.append(('field_%d' % iso, h_field, dict(iso=iso), {}))
        for how in ('dc', 1, 2, 4):
            for wide in (False, True):
                out.append(('pf_%s_%d_%d' % (how, iso, wide), h_pf, dict(how=how, iso=iso, wide=wide), dict(budget_s=200)))
    for q in (1, 2):
        out.append(('pf_limits_%d' % q, h_pf, dict(how=1, iso=False, qlim=q), dict(budget_s=200)))
    for m in ('newtonpf', 'fdpf', 'gausspf'):
        out.append(('method_' + m, h_method, dict(which=m), dict(budget_s=200, feas_ms=300, validate=m == 'gausspf')))
    out.append(('dcpf', h_dcpf, {}, {}))
    for ac in (False, True):
        for iso in (False, True):
            for wide in (False, True):
                out.append(('opf_%d_%d_%d' % (ac, iso, wide), h_opf, dict(ac=ac, how='opf', iso=iso, wide=wide), dict(budget_s=200)))
        out.append(('runopf_%d' % ac, h_opf, dict(ac=ac, how='runopf', iso=True, wide=False), dict(budget_s=200)))
        out.append(('opf_tables_%d' % ac, h_opf, dict(ac=ac, how='tables', iso=False, wide=False), dict(budget_s=200)))
        out.append(('opf_user_%d' % ac, h_opf, dict(ac=ac, how='opf', iso=False, wide=True, extra=('user',)), dict(budget_s=200)))
        out.append(('uopf_%d' % ac, h_opf, dict(ac=ac, how='uopf', iso=False, wide=False), dict(budget_s=200)))
    out.append(('opf_load_cap', h_opf, dict(ac=True, how='opf', iso=False, wide=False, extra=('load', 'qcap')), dict(budget_s=200)))
    out.append(('dcopf', h_opf, dict(ac=False, how='dcopf', iso=False, wide=False), dict(budget_s=200)))
    for ac in (False, True):
        for kind in ('pf', 'opf'):
            for full in (False, True):
                out.append(('print_%d_%s_%d' % (ac, kind, full), h_print, dict(ac=ac, kind=kind, full=full), {}))
    return out
