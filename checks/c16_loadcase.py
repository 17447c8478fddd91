"""C16: loadcase from case data, and version 1 conversion."""
from checks.lib import snapshot

INFO = dict(
    functions=['loadcase (dict input, error codes)', 'ppc_1to2'],
    bounds='2 buses, 1-2 generators, 1-2 branches, version 1 generator widths 10 and 14 and branch widths 11, 15 and 17, '
           'version 2 widths 21 and 25, every table entry symbolic, every documented argument combination',
    outside='parsing of case files (only the codes for files that do not exist); tables of other widths',
    assumptions='')


def tables(env, gw, bw, gencost=True, areas=True, ver=None, ng=2, nl=2, extra=False):
    c = dict(baseMVA=env.var('base', 1, 500), bus=env.mat('u', 2, 13), gen=env.mat('g', ng, gw), branch=env.mat('b', nl, bw))
    if gencost:
        c['gencost'] = env.mat('c', ng, 7)
    if areas:
        c['areas'] = env.mat('a', 1, 2)
    if ver:
        c['version'] = ver
    if extra:
        c['user'] = dict(deep=[env.mat('x', 1, 2), dict(y=env.mat('y', 1, 1))], name='n')
    return c


def want_gen(env, g, gw):
    if gw >= 21:
        return [[g[k, j] for j in range(gw)] for k in range(g.shape[0])]
    return [[g[k, j] for j in range(10)] + [0.0] * 11 + [g[k, j] for j in range(10, gw)] for k in range(g.shape[0])]


def want_branch(env, b, bw, v1):
    if not v1:
        return [[b[k, j] for j in range(bw)] for k in range(b.shape[0])]
    return [[b[k, j] for j in range(11)] + [-360.0, 360.0] + [b[k, j] for j in range(11, bw)] +
            ([0.0, 0.0] if bw == 17 else []) for k in range(b.shape[0])]


def h(env, gw, bw, ver, form):
    v1 = gw < 21
    c = tables(env, gw, bw, ver=ver, extra=True)
    k0 = snapshot(c)
    load = env.fn('loadcase')
    if form == 'obj':
        r = load(c)
        keys = set(c) | {'version'}
        env.ok('keys', set(r) == keys)
        env.ok('version', r['version'] == '2')
        got = [r[k] for k in ('baseMVA', 'bus', 'gen', 'branch', 'areas', 'gencost')]
    elif form == 'six':
        got = load(c, False)
    elif form == 'five':
        r = load(c, False, True, False)
        env.ok('count', len(r) == 5)
        got = list(r[:4]) + [None, r[4]]
    else:
        got = load(c, False, False, False)
        env.ok('count', len(got) == 4)
    env.eq('base', got[0], k0['baseMVA'])
    env.eq('bus', got[1], k0['bus'])
    env.ok('gen width', got[2].shape == (2, gw + (11 if v1 else 0)))
    env.eq('gen', got[2], want_gen(env, k0['gen'], gw))
    wb = want_branch(env, k0['branch'], bw, v1)
    env.ok('branch width', got[3].shape == (2, len(wb[0])))
    env.eq('branch', got[3], wb)
    if len(got) > 4:
        if form != 'five':
            env.eq('areas', got[4], k0['areas'])
        env.eq('gencost', got[5], k0['gencost'])
    if form == 'obj':
        env.eq('user data', [r['user']['deep'][0], r['user']['deep'][1]['y']],
               [k0['user']['deep'][0], k0['user']['deep'][1]['y']])
        r0 = snapshot(r)
        # neither side sees later changes of the other
        for t in ('bus', 'gen', 'branch', 'areas', 'gencost'):
            r[t][0, 0] = r[t][0, 0] + 1
        r['user']['deep'][1]['y'][0, 0] = 77.0
        r['user']['deep'].append(1)
        r['new'] = 1
        env.ok('argument keys', set(c) == set(k0) and len(c['user']['deep']) == 2)
        env.eq('argument kept', [c[t] for t in ('bus', 'gen', 'branch', 'areas', 'gencost')] + [c['user']['deep'][1]['y']],
               [k0[t] for t in ('bus', 'gen', 'branch', 'areas', 'gencost')] + [k0['user']['deep'][1]['y']])
        r2 = load(c)
        for t in ('bus', 'gen', 'branch', 'areas', 'gencost'):
            c[t][0, 1] = c[t][0, 1] + 1
        c['user']['deep'][1]['y'][0, 0] = 88.0
        env.eq('result kept', [r2[t] for t in ('bus', 'gen', 'branch', 'areas', 'gencost')] +
               [r2['user']['deep'][1]['y']],
               [r0[t] for t in ('bus', 'gen', 'branch', 'areas', 'gencost')] + [r0['user']['deep'][1]['y']])
    else:
        for q in (1, 2, 3):
            got[q][0, 0] = got[q][0, 0] + 1
        env.eq('argument kept', [c[t] for t in ('bus', 'gen', 'branch')], [k0[t] for t in ('bus', 'gen', 'branch')])


def h_ints(env, ver, fn):
    """a case typed with whole numbers: what is later written into the loaded tables is kept whole"""
    np_ = env.np
    gw, bw = (21, 13) if ver == '2' else (10, 11)
    bus = [[1, 3, 0, 0, 0, 0, 1, 1, 0, 230, 1, 2, 1], [2, 1, 90, 30, 0, 0, 1, 1, 0, 230, 1, 2, 1]]
    gen = [([1, 50, 10, 300, -300, 1, 100, 1, 250, 10] + [0] * 20)[:gw], ([2, 20, 5, 30, -30, 1, 100, 1, 60, 0] + [0] * 20)[:gw]]
    branch = [([1, 2, 1, 2, 0, 250, 250, 250, 0, 0, 1, -360, 360] + [0] * 8)[:bw]] * 2
    c = dict(baseMVA=100, bus=bus, gen=gen, branch=branch, areas=[[1, 1]],
             gencost=[[2, 0, 0, 3, 1, 20, 0], [2, 0, 0, 3, 2, 10, 5]])
    if ver:
        c['version'] = ver
    for t in ('bus', 'gen', 'branch', 'areas', 'gencost'):
        c[t] = np_.array(c[t])
    c0 = snapshot(c)
    r = env.fn('loadcase')(c) if fn else dict(zip(('baseMVA', 'bus', 'gen', 'branch', 'areas', 'gencost'), env.fn('loadcase')(c, False)))
    for t, j in (('bus', 7), ('gen', 1), ('branch', 3), ('gencost', 5)):
        v = env.var('v_' + t, 0, 3)
        r[t][1, j] = v
        env.eq(t + ' keeps fractions', r[t][1, j], v)
    env.eq('argument kept', [c[t] for t in ('bus', 'gen', 'branch', 'gencost')], [c0[t] for t in ('bus', 'gen', 'branch', 'gencost')])


def h_err(env):
    load = env.fn('loadcase')
    miss = env.choice('miss', ['baseMVA', 'bus', 'gen', 'branch', 'areas', 'gencost', None])
    how = env.choice('how', ['absent', 'none'])
    c = tables(env, 21, 13)
    if miss is not None:
        if how == 'absent':
            del c[miss]
        else:
            c[miss] = None
    form = env.choice('form', ['obj', 'six', 'five', 'four'])
    r = dict(obj=lambda: load(c), six=lambda: load(c, False), five=lambda: load(c, False, True, False),
             four=lambda: load(c, False, False, False))[form]()
    need = dict(obj=4, six=6, five=5, four=4)[form]
    req = ['baseMVA', 'bus', 'gen', 'branch'] + (['gencost'] if need >= 5 else []) + (['areas'] if need == 6 else [])
    if miss in req:
        env.ok('code for missing data', isinstance(r, int) and r == 5)
    else:
        env.ok('loaded', not isinstance(r, int))


def h_arg(env):
    load = env.fn('loadcase')
    arg, code = env.choice('arg', [(5, 1), (None, 1), ([1], 1), ('/nonexistent/verif_case', 2),
                                   ('/nonexistent/verif_case.mat', 3), ('/nonexistent/verif_case.py', 4)])
    r = load(arg) if env.choice('obj', [1, 0]) else load(arg, False)
    env.ok('code', isinstance(r, int) and r == code)


def harnesses(tier):
    out = []
    for gw, bw, ver in ((10, 11, None), (14, 15, '1'), (14, 17, None), (10, 17, '1'), (21, 13, '2'), (25, 21, '2'), (21, 17, None)):
        for form in ('obj', 'six', 'five', 'four'):
            out.append(('g%d_b%d_%s_%s' % (gw, bw, ver, form), h, dict(gw=gw, bw=bw, ver=ver, form=form), {}))
    for ver in (None, '2'):
        for fn in (0, 1):
            out.append(('ints_%s_%d' % (ver, fn), h_ints, dict(ver=ver, fn=fn), {}))
    out += [('missing', h_err, {}, {}), ('argument', h_arg, {}, {})]
    return out
