"""C45: the command line runs the requested analysis with the requested options."""
import inspect

from checks.lib import snapshot

INFO = dict(
    functions=['main.pf', 'main.opf', 'parse_options', 'add_options', 'option_callback', 'exit', 'ppoption'],
    bounds='every option of both commands alone, given twice, next to each other option once, and all at once, in either spelling (--name=value, '
           '--name value) and order; real-valued arguments symbolic, written with two digits before and seven after the point; every word for true and false; every '
           'built-in case or a file name; output and solved case names; either outcome of the analysis',
    outside='help and version text; what runs under --test; both -u and -w at once; options the commands do not offer (external solvers, '
            'continuation power flow); the option parser of the Python library is executed as it is',
    assumptions='the analyses are replaced by recorders; a symbolic number on the command line is a numeral that stands for it')
YES, NO = ('True', 'Yes', 'true', 'yes', '1', 'Y', 'y'), ('False', 'No', 'false', 'no', '0', 'N', 'n')
CASES = [None, '/some/where/my_case.py', 'case4gs', 'case6ww', 'case9', 'case9Q', 'case14', 'case24_ieee_rts', 'case30', 'case30Q', 'case30pwl',
         'case39', 'case57', 'case118', 'case300', 'case30_userfcns']
REAL = ('pf_tol', 'opf_violation', 'pdipm_feastol', 'pdipm_gradtol', 'pdipm_comptol', 'pdipm_costtol')


def offered(env, cmd):
    m = env.mod('ppoption')
    out = []
    for part in (('PF_OPTIONS',) if cmd == 'pf' else ('OPF_OPTIONS', 'PDIPM_OPTIONS')) + ('OUTPUT_OPTIONS',):
        out += [(n, v) for n, v, _ in getattr(m, part)]
    return out


def run(env, cmd, argv, success=1):
    """returns the recorded calls, the exit code and the text on the error stream"""
    calls = []
    main = env.mod('main')

    def recorder(name):
        sig = inspect.signature(getattr(env.mod('runopf' if name == 'runopf_w_res' else name), 'runopf' if name == 'runopf_w_res' else name))

        def rec(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            calls.append((name, dict(b.arguments)))
            return ({'success': success}, success) if name == 'runpf' else {'success': success}
        return rec
    for f in ('runpf', 'runopf', 'runuopf', 'runopf_w_res'):
        env.patch('main', f, recorder(f))
    for f in ('test_pf', 'test_opf'):
        env.patch('main', f, lambda f=f: calls.append((f, None)) or 0)
    import io
    import sys
    old = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    env.patch('main', 'stderr', sys.stderr)
    code = 'returned'
    try:
        getattr(main, cmd)(list(argv))
    except SystemExit as e:
        code = 0 if e.code is None else e.code
    finally:
        sys.stdout, sys.stderr = old
    return calls, code


def word(env, n, v, tag=''):
    """an argument for the option and its meaning"""
    if n in REAL:
        x = env.var('v_' + n + tag, 10, 99)
        return '%.9g' % x, x
    if isinstance(v, bool):
        w = env.choice('w_' + n + tag, YES + NO)
        return w, w in YES
    if isinstance(v, (int, float)):
        x = env.choice('w_' + n + tag, (2, 7, -3))
        return '%d' % x, x
    return 'SuperLU', 'SuperLU'


def judge(env, calls, code, success, fn, want, case=None, fname='', solved=''):
    env.ok('one analysis', len(calls) == 1)
    if len(calls) != 1:
        return
    env.ok('the requested analysis', calls[0][0] == fn)
    env.ok('exit code', code == (0 if success else 2))
    a = calls[0][1]
    o = a['ppopt']
    env.ok('option names', set(o) == set(want))
    for k in sorted(want):
        if isinstance(want[k], str) or isinstance(want[k], bool):
            env.ok('option ' + k, o[k] == want[k] and isinstance(o[k], (bool, str, int)))
        elif k.lower() in REAL:
            env.ok('option %s is a number' % k, not isinstance(o[k], str))
            env.reads('option ' + k, [o[k]], [want[k]])
        else:
            env.ok('option ' + k, not isinstance(o[k], bool) and o[k] == want[k])
    env.ok('output file', a['fname'] == fname)
    env.ok('solved case file', a['solvedcase'] == solved)
    c = a['casedata']
    if isinstance(case, str) and case.startswith('/'):
        env.ok('case file', c == case)
    else:
        ref = getattr(env.mod(case or 'case9'), case or 'case9')() if case != 'case30_userfcns' else env.mod('t.t_case30_userfcns').t_case30_userfcns()
        env.ok('built-in case', isinstance(c, dict) and set(c) == set(ref))
        env.eq('built-in case', [c[k] for k in ('baseMVA', 'bus', 'gen', 'branch')], [ref[k] for k in ('baseMVA', 'bus', 'gen', 'branch')])


def h_each(env, cmd, k):
    """one option, and another after or before it"""
    env.text()
    offer = offered(env, cmd)
    want = dict(env.fn('ppoption')())
    n, v = offer[k]
    m, u = offer[(k + 1) % len(offer)]
    t, x = word(env, n, v)
    argv = ['--%s=%s' % (n, t)] if env.choice('joined', [1, 0]) else ['--' + n, t]
    want[n.upper()] = x
    if env.choice('other', [0, 1]):
        t, x = word(env, m, u) if not isinstance(u, bool) else ('no', False)
        want[m.upper()] = x
        argv = argv + ['--%s=%s' % (m, t)] if env.choice('after', [1, 0]) else ['--%s=%s' % (m, t)] + argv
    success = env.choice('success', [1, 0])
    calls, code = run(env, cmd, argv, success)
    judge(env, calls, code, success, 'run' + cmd, want)


def h_again(env, cmd):
    """an option given twice: the last one counts"""
    env.text()
    offer = offered(env, cmd)
    n, v = offer[env.choice('k', range(len(offer)))]
    want = dict(env.fn('ppoption')())
    t, x = (word(env, n, v) if not isinstance(v, bool) else (('no', False) if v else ('yes', True)))
    a, b = ['--%s=%s' % (n, t)], ['--%s=%s' % (n, v)]
    if env.choice('back', [0, 1]):
        argv = a + b
    else:
        argv = b + a
        want[n.upper()] = x
    calls, code = run(env, cmd, argv)
    judge(env, calls, code, 1, 'run' + cmd, want)


def h_all(env, cmd):
    env.text()
    want = dict(env.fn('ppoption')())
    argv = []
    flag = env.choice('words', [0, 1, 2])
    for k, (n, v) in enumerate(offered(env, cmd)):
        if isinstance(v, bool):
            t, x = ((YES, NO)[(k + flag) % 2][(k + flag) % 7], (k + flag) % 2 == 0)
        elif n in REAL:
            t, x = word(env, n, v)
        elif isinstance(v, (int, float)):
            t, x = str(k + flag), k + flag
        else:
            t, x = 'SuperLU', 'SuperLU'
        argv.append('--%s=%s' % (n, t))
        want[n.upper()] = x
    if env.choice('reversed', [0, 1]):
        argv.reverse()
    success = env.choice('success', [1, 0])
    calls, code = run(env, cmd, argv, success)
    judge(env, calls, code, success, 'run' + cmd, want)


def h_select(env, cmd, cases):
    """analysis, case and files"""
    env.text()
    want = dict(env.fn('ppoption')())
    argv = []
    fn = 'run' + cmd
    if cmd == 'opf':
        f, fn = env.choice('kind', [(None, 'runopf'), ('-u', 'runuopf'), ('--uopf', 'runuopf'), ('-r', 'runopf_w_res'), ('--w_res', 'runopf_w_res')])
        if f:
            argv.append(f)
    case = env.choice('case', cases)
    if case and case.startswith('/'):
        argv.append(case)
    elif case:
        argv += ['-c', case] if len(case) % 2 else ['--testcase=' + case]
    fname, solved = env.choice('files', [('', ''), ('report.txt', ''), ('', 'solved.mat'), ('a report', 'solved.py')])
    short = env.choice('short', [1, 0])
    if fname:
        argv += ['-o', fname] if short else ['--outfile=' + fname]
    if solved:
        argv = (['-s', solved] if short else ['--solvedcase=' + solved]) + argv
    success = 1 - len(argv) % 2
    calls, code = run(env, cmd, argv, success)
    judge(env, calls, code, success, fn, want, case, fname, solved)


def h_bad(env, cmd):
    """wrong usage runs nothing"""
    bad = ['--no_such_option=1', '--verbose=loud', '--out_bus=maybe', '-c=nope', '--testcase=nope', 'a.py b.py', '--verbose']
    bad += ['--pf_tol=small', '--pf_dc=2', '--opf_violation=1e-3', '--uopf'] if cmd == 'pf' else ['--opf_violation=small', '--opf_flow_lim=1.5',
                                                                                              '--pf_tol=1e-3']
    calls, code = run(env, cmd, env.choice('bad', bad).split(' '))
    env.ok('nothing runs', calls == [])
    env.ok('exit code', code not in (0, 'returned'))


def h_test(env, cmd):
    calls, code = run(env, cmd, [env.choice('how', ['-t', '--test'])] + env.choice('more', [[], ['--verbose=0']]))
    env.ok('tests and nothing else', [c[0] for c in calls] == ['test_' + cmd])
    env.ok('leaves', code != 'returned')


def harnesses(tier):
    out = []
    for cmd, n in (('pf', 21), ('opf', 24)):
        out += [('%s_option_%d' % (cmd, k), h_each, dict(cmd=cmd, k=k), {}) for k in range(n)]
        out += [('%s_again' % cmd, h_again, dict(cmd=cmd), {}), ('%s_all' % cmd, h_all, dict(cmd=cmd), {}), 
                ('%s_bad' % cmd, h_bad, dict(cmd=cmd), {}), ('%s_test' % cmd, h_test, dict(cmd=cmd), {})]
        for i in range(0, len(CASES), 4):
            out.append(('%s_select_%d' % (cmd, i // 4), h_select, dict(cmd=cmd, cases=CASES[i:i + 4]), {}))
    return out
