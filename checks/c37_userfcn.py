"""C37: registration, removal and execution of user callbacks."""
import io
from copy import copy
from checks.lib import snapshot
from checks.c34_reserves import Answer, network, opts

STAGES = ['ext2int', 'formulation', 'int2ext', 'printpf', 'savecase']
INFO = dict(
    functions=['add_userfcn', 'remove_userfcn', 'run_userfcn', 'ext2int', 'int2ext', 'opf_args2', 'opf', 'opf_setup', 'runopf', 'runpf',
               'rundcpf', 'printpf (callback stage)', 'toggle_reserves', 'toggle_iflims', 'toggle_dcline'],
    bounds='every sequence of 4 (thorough 5) registrations (with and without permission to repeat, with and without arguments) and '
           'removals of 2 functions at a stage, every stage, values passed through symbolic; one optimal power flow (DC, AC) and one '
           'power flow with two callbacks per stage, every answer of the solver',
    outside='names of stages that do not exist (only a message on the terminal); callbacks that raise',
    assumptions='none beyond the bounds')


def h_registry(env, stage, steps):
    add, rem, run = env.fn('add_userfcn'), env.fn('remove_userfcn'), env.fn('run_userfcn')
    log = []

    def make(i):
        def f(rv, *more):
            log.append((i, more[:-1], more[-1]))
            a = more[-1]
            a = 0.5 if isinstance(a, list) and not a else a['v'] if isinstance(a, dict) else a[0] if isinstance(a, list) else a
            return rv * (i + 2) + a
        return f

    fs = [make(0), make(1)]
    other = make(9)
    ppc = {}
    add(ppc, 'int2ext' if stage != 'int2ext' else 'ext2int', other)      # another stage must not be disturbed
    add(ppc, stage, fs[0])
    want = [(0, None)]
    for k in range(steps):
        op = env.choice('op%d' % k, ['add', 'again', 'remove'])
        i = env.choice('f%d' % k, [0, 1])
        if op == 'remove':
            ppc = rem(ppc, stage, fs[i])
            at = [j for j, w in enumerate(want) if w[0] == i]
            if at:
                del want[at[-1]]
        else:
            v = env.var('arg%d' % k, -9, 9)
            a = [v, [v, 1], dict(v=v), None][(k + i) % 4]
            kw = {} if a is None else dict(args=a)
            if op == 'again':
                kw['allow_multiple'] = True
            ppc = add(ppc, stage, fs[i], **kw)
            if op == 'again' or not any(w[0] == i for w in want):
                want.append((i, None if a is None else v))
    rv = env.var('rv', -9, 9)
    more = ('out', 'opt') if stage in ('printpf', 'savecase') else ()
    got = run(ppc['userfcn'], stage, rv, *more)
    env.ok('run once each in order', [e[0] for e in log] == [w[0] for w in want])
    env.ok('extra arguments', all(e[1] == more for e in log))
    ref = rv
    for i, v in want:
        ref = ref * (i + 2) + (0.5 if v is None else v)
    env.eq('each gets the result of the one before', got, ref)
    n = len(log)
    for s in STAGES:
        if s != stage and s not in ('ext2int', 'int2ext'):
            env.eq('nothing registered', run(ppc['userfcn'], s, rv, 1, 2), rv)
    env.ok('nothing else runs', len(log) == n)
    env.eq('other stage', run(ppc['userfcn'], 'int2ext' if stage != 'int2ext' else 'ext2int', rv), rv * 11 + 0.5)


def callbacks(env, log):
    def mk(stage, i):
        def f(rv, *more):
            log.append((stage, i))
            if stage == 'ext2int':
                env.ok('internal numbers', [float(b) for b in rv['bus'][:, 0]] == [0.0, 1.0, 2.0])
                rv = dict(rv)
                rv['seen'] = rv.get('seen', 0.0) * 3 + more[-1]
            elif stage == 'formulation':
                ppc = rv.get_ppc()
                env.eq('formulation sees the converted case', ppc['seen'], env.seen)
                rv.userdata(i and 'two' or 'one', more[-1])
            elif stage == 'int2ext':
                env.ok('still internal numbers', [float(b) for b in rv['bus'][:, 0]] == [0.0, 1.0, 2.0])
                rv = dict(rv)
                rv['out'] = rv.get('out', 0.0) * 5 + more[-1]
            return rv
        return f
    return dict((s, [mk(s, 0), mk(s, 1)]) for s in STAGES[:3])


def h_run(env, kind):
    log = []
    ppc = network(env, [2, 0, 1], [1, 1, kind == 'pf'], kind == 'ac')
    before = snapshot(dict((k, ppc[k]) for k in ('bus', 'gen', 'branch', 'gencost')))
    c = callbacks(env, log)
    v = dict((s, [env.var('%s%d' % (s, i), -9, 9) for i in (0, 1)]) for s in c)
    env.seen = v['ext2int'][0] * 3 + v['ext2int'][1]
    env.out = v['int2ext'][0] * 5 + v['int2ext'][1]
    for s in ('int2ext', 'formulation', 'ext2int'):
        for i in (0, 1):
            ppc = env.fn('add_userfcn')(ppc, s, c[s][i], v[s][i])
    env.patch('runpf', 'printpf', lambda *a: None), env.patch('runopf', 'printpf', lambda *a: None)
    if kind == 'pf':
        env.patch('runpf', 'dcpf', lambda B, P, Va0, *a: env.np.array([env.var('th%d' % i, -3, 3, angle=True) for i in range(len(Va0))]))
        r, ok = env.fn('runpf')(ppc, opts(env, False))
        want = ['ext2int', 'int2ext']
    else:
        a = Answer(env, kind == 'ac', 2)
        a.nb = 3
        env.patch('pipsopf_solver', 'pips', a.pips)
        env.patch('dcopf_solver', 'qps_pypower', a.qps)
        env.patch('dcopf_solver', 'have_fcn', lambda n: False)
        r = env.fn('runopf')(ppc, opts(env, kind == 'ac'))
        want = ['ext2int', 'formulation', 'int2ext']
        env.eq('model of the callbacks', [r['om'].userdata('one'), r['om'].userdata('two')], v['formulation'])
    env.ok('each once, in order, at its stage', log == [(s, i) for s in want for i in (0, 1)])
    env.eq('result of the callbacks', r['out'], env.out)
    for t in before:
        env.eq('caller\'s case', ppc[t], before[t])


def h_print(env, opf):
    """callbacks run when the results are printed, in an optimal power flow and in a power flow"""
    np_ = env.np
    log = []
    ppc = dict(baseMVA=100.0, success=1, et=0.1, bus=np_.zeros((2, 17)), gen=np_.zeros((1, 25)), branch=np_.zeros((1, 21)))
    ppc['bus'][:, :13] = [[5, 3, 0, 0, 0, 0, 1, 1.0, 0.0, 230, 1, 1.1, 0.9], [9, 1, 10.0, 5.0, 0, 0, 1, 1.0, -2.0, 230, 1, 1.1, 0.9]]
    ppc['gen'][0, :10] = [5, 20.0, 0.0, 50.0, -50.0, 1.0, 100.0, 1, 90.0, 0.0]
    ppc['branch'][0, :17] = [5, 9, 0.01, 0.1, 0.0, 80.0, 0, 0, 0, 0, 1, -360, 360, 10, 1, -10, -1]
    if opf:
        ppc['f'] = 12.0
    v = [env.var('a%d' % i, -9, 9) for i in (0, 1)]
    opt = dict(env.fn('ppoption')())
    opt.update(OUT_ALL=-1, OUT_SYS_SUM=False, OUT_BUS=False, OUT_BRANCH=False, OUT_V_LIM=0, OUT_LINE_LIM=0, OUT_PG_LIM=0, OUT_QG_LIM=0,
               PF_DC=False)

    def mk(i):
        def f(rv, fd, o, args):
            log.append(i)
            fd.write('callback')
            env.ok('file and options', fd is out and not o['OUT_BUS'] and (opf or o['OUT_ALL_LIM'] == 0))
            env.eq('arguments', args, v[i])
            return rv
        return f

    for i in (0, 1):
        env.fn('add_userfcn')(ppc, 'printpf', mk(i), v[i])
    out = io.StringIO()
    env.fn('printpf')(ppc, out, opt)
    env.ok('each once, in order', log == [0, 1] and out.getvalue().endswith('callbackcallback'))


def h_model(env):
    """a callback may return another model; the problem that is solved is the returned one"""
    ppc = network(env, [2, 0, 1], [1, 1, 1], False)
    v = env.var('mark', -9, 9)

    def f(om, args):
        om = copy(om)
        om.user_data = dict(om.user_data, mark=v)
        return om

    env.fn('add_userfcn')(ppc, 'formulation', f)
    a = Answer(env, False, 2)
    env.patch('dcopf_solver', 'qps_pypower', a.qps)
    env.patch('dcopf_solver', 'have_fcn', lambda n: False)
    r = env.fn('opf')(ppc, opts(env, False))
    env.eq('returned model is used', r['om'].userdata('mark'), v)


def harnesses(tier):
    n = 3 if tier == 'quick' else 4
    out = [('seq_' + s, h_registry, dict(stage=s, steps=n if s in ('ext2int', 'printpf') else 2), {}) for s in STAGES]
    out.append(('model', h_model, {}, {}))
    out += [('print_opf', h_print, dict(opf=True), {}), ('print_pf', h_print, dict(opf=False), {})]
    out += [('run_' + k, h_run, dict(kind=k), {}) for k in ('dc', 'ac', 'pf')]
    return out
