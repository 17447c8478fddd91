"""C36: DC lines (toggle_dcline): formulation, solved flows and restored case, with the solver replaced by an arbitrary answer."""
import warnings
from checks.lib import snapshot
from checks.c34_reserves import Answer, network, opts

INFO = dict(
    functions=['toggle_dcline (ext2int, formulation, int2ext, printpf callbacks)', 'opf', 'opf_setup', 'opf_execute', 'dcopf_solver',
               'pipsopf_solver', 'ext2int', 'int2ext', 'run_userfcn', 'isload', 'makeBdc', 'makeSbus', 'bustypes'],
    bounds='3 buses, 2-3 units, 1-3 DC lines between any of the buses (out-of-service lines in any position), positive, negative and '
           'two-sided flow limits, no / polynomial (order 0-3) / piecewise linear (2-3 points) line costs, line cost tables narrower and '
           'wider than gencost; flows, limits, losses, set-points, costs and bases symbolic; every answer of the solver, DC and AC',
    outside='reactive cost rows together with DC lines; lines ending at isolated buses; saved form',
    assumptions='none beyond the bounds')

# columns of the line table
FB, TB, ST, PF, PT, QF, QT, VF, VT, PMIN, PMAX, QMINF, QMAXF, QMINT, QMAXT, L0, L1 = range(17)
LIM = dict(pos=((1, 5), (10, 20)), neg=((-20, -10), (-5, -1)), both=((-20, -10), (10, 20)), zero=((0, 0), (10, 20)),
           to0=((-20, -10), (0, 0)), neg0=((-20, -10), (-1, -1)))


def lines(env, ends, st, lim, numbers, width=17):
    np_ = env.np
    d = np_.zeros((len(ends), width))
    for k, (f, t) in enumerate(ends):
        lo, hi = LIM[lim[k]]
        v = lambda n, b: env.var('%s%d' % (n, k), *b) if b[0] != b[1] else float(b[0])
        d[k, :17] = [numbers[f], numbers[t], st[k], v('pf', (-20, 20)), v('pt', (-20, 20)), v('qf', (-9, 9)), v('qt', (-9, 9)),
                     v('vf', (0.9, 1.1)), v('vt', (0.9, 1.1)), v('dmin', lo), v('dmax', hi), v('qlf', (-20, -1)), v('quf', (1, 20)),
                     v('qlt', (-20, -1)), v('qut', (1, 20)), v('la', (0, 3)), v('lb', (0, 0.5))]
        for j in range(17, width):
            d[k, j] = 0.5 * j + k
    return d


def costrow(env, k, kind, n, width):
    """one row of dclinecost; returns (row, c(p) in $/h, breakpoints)"""
    if kind == 'poly':
        co = [env.var('dc%d_%d' % (k, i), -5, 5) for i in range(n)]
        row = [2.0, 0.0, 0.0, float(n)] + co
        f = lambda p: sum((c * p ** (n - 1 - i) if n - 1 - i else c for i, c in enumerate(co)), 0.0)
        pts = None
    else:
        xs = [env.var('dx%d_0' % k, -30, 0)]
        ys = [env.var('dy%d_%d' % (k, i), -50, 50) for i in range(n)]
        for i in range(1, n):
            xs.append(xs[-1] + env.var('dw%d_%d' % (k, i), 1, 20))
        row = [1.0, 0.0, 0.0, float(n)]
        for x, y in zip(xs, ys):
            row += [x, y]
        f, pts = None, list(zip(xs, ys))
        if n == 2:
            f = lambda p: ys[0] + (ys[1] - ys[0]) / (xs[1] - xs[0]) * (p - xs[0])
    return row + [0.0] * (width - len(row)), f, pts


def h(env, gbus, gst, ends, st, lim, costs=None, cw=None, ac=False, width=17, numbers=(5, 9, 2)):
    np_ = env.np
    ng, nd = len(gbus), len(ends)
    ppc = network(env, gbus, gst, ac, numbers)
    base = ppc['baseMVA']
    ppc['dcline'] = lines(env, ends, st, lim, numbers, width)
    fs = {}
    if costs:
        w = cw or 4 + max(n if kd == 'poly' else 2 * n for kd, n in costs)
        t = np_.zeros((nd, w))
        for k, (kd, n) in enumerate(costs):
            row, f, pts = costrow(env, k, kd, n, w)
            t[k, :] = row
            fs[k] = (f, pts)
        ppc['dclinecost'] = t
    before = snapshot(dict((k, ppc[k]) for k in ppc if k not in ('version', 'baseMVA')))
    on = [k for k in range(ng) if gst[k]]
    gord = sorted(on, key=lambda k: (gbus[k], k))
    dl = [k for k in range(nd) if st[k] > 0]
    nu, ndc = len(gord), len(dl)
    a = Answer(env, ac, 2)
    a.nb = 3
    if ac:
        env.patch('pipsopf_solver', 'pips', a.pips)
    else:
        env.patch('dcopf_solver', 'qps_pypower', a.qps)
        env.patch('dcopf_solver', 'have_fcn', lambda n: False)
    res = env.fn('opf')(env.fn('toggle_dcline')(dict(ppc), 'on'), opts(env, ac))
    om = res['om']
    vv, ll, _, _ = om.get_idx()
    at = lambda n: list(range(vv['i1'][n], vv['iN'][n]))
    R = lambda n: list(range(ll['i1'][n], ll['iN'][n])) if n in ll['i1'] else []
    x, mu, D = a.x, a.mu, before['dcline']
    pgs = at('Pg')
    env.ok('two terminals per line', len(pgs) == nu + 2 * ndc)
    pf = dict((k, pgs[nu + i]) for i, k in enumerate(dl))
    pt = dict((k, pgs[nu + ndc + i]) for i, k in enumerate(dl))
    # coupling with losses
    rows = R('dcline')
    env.ok('one coupling row per line', len(rows) == ndc)
    row = lambda i: sum((a.A[i, j] * x[j] for j in range(len(x))), 0.0)
    for i, k in zip(rows, dl):
        flow = -x[pf[k]] * base                       # MW leaving the from bus
        want = flow - (D[k, L0] + D[k, L1] * flow) - x[pt[k]] * base
        env.eq('received is sent less losses', (a.l[i] - row(i)) * base, want)
        env.eq('coupling is an equality', a.l[i], a.u[i])
    # limits
    for k in dl:
        lo, hi = D[k, PMIN], D[k, PMAX]
        kind = lim[k]
        f, t = pf[k], pt[k]
        inf = lambda v: env.ok('no limit', bool(env.abs(v) >= 1e10) if not isinstance(v, (int, float)) else abs(v) >= 1e10)
        if kind in ('pos', 'zero', 'both', 'to0'):       # top flow limits what leaves the from bus
            env.eq('flow limit', -a.xl[f] * base, hi)
        if kind in ('pos', 'zero'):
            if kind == 'zero':
                env.ok('flow limit', env.And([env.le(0.0, -a.xu[f] * base), env.le(-a.xu[f] * base, 2e-6)]))
            else:
                env.eq('flow limit', -a.xu[f] * base, lo)
            inf(a.xl[t]), inf(a.xu[t])
        if kind in ('neg', 'both', 'neg0', 'to0'):       # reversed flow is limited where it leaves: the to bus
            env.eq('reverse limit', a.xl[t] * base, lo)
            inf(a.xu[f])
        if kind in ('neg', 'neg0'):
            env.eq('reverse limit', a.xu[t] * base, hi)
            inf(a.xl[f])
        if ac:
            for q, (cl, cu), j in ((at('Qg')[nu + dl.index(k)], (QMINF, QMAXF), 0), (at('Qg')[nu + ndc + dl.index(k)], (QMINT, QMAXT), 1)):
                env.eq('reactive limits', [a.xl[q] * base, a.xu[q] * base], [D[k, cl], D[k, cu]])
    # terminals sit at the right buses
    if not ac:
        mis = R('Pmis')
        for b, i in enumerate(mis):
            for j, p in enumerate(pgs):
                where = gbus[gord[j]] if j < nu else ends[dl[(j - nu) % ndc]][0 if j < nu + ndc else 1]
                env.eq('terminal at its bus', a.A[i, p], -1.0 if where == b else 0.0)
    # costs; a line with several segments has a cost variable above every one of them
    pw = [k for k in dl if costs and not fs[k][0]]
    y = at('y') if 'y' in vv['i1'] else []
    env.ok('one cost variable per line with segments', len(y) == len(pw))
    yv = dict(zip(pw, [x[i] for i in y]))
    cost = sum(((0.01 * k * (x[p] * base)) * (x[p] * base) + (2.0 + k) * (x[p] * base) + 1.0 for k, p in zip(gord, pgs)), 0.0)
    for k in dl if costs else []:
        cost = cost + (yv[k] if k in yv else fs[k][0](-x[pf[k]] * base))
    if ac:
        tot = a.cost
    else:
        n = len(x)
        tot = sum((x[i] * a.H[i, j] * x[j] / 2 for i in range(n) for j in range(n)), 0.0) + \
            sum((a.c[j] * x[j] for j in range(n)), 0.0) + (res['f'] - a.f)
    env.eq('objective', tot, cost)
    want = []
    for k in pw:
        p, pts = -x[pf[k]] * base, fs[k][1]
        for (x1, y1), (x2, y2) in reversed(list(zip(pts, pts[1:]))):
            want.append(yv[k] - (y1 + (y2 - y1) / (x2 - x1) * (p - x1)))
    seg = R('ycon')
    env.ok('one row per segment', len(seg) == len(want))
    for i, w in zip(seg, want):
        env.eq('cost segment', a.u[i] - row(i), w)
    # reported
    o = res['dcline']
    env.ok('shape', tuple(o.shape) == (nd, 23))
    for k in range(nd):
        keep = [FB, TB, ST] + list(range(PMIN, 17))
        env.eq('line data as given', o[k, keep], D[k, keep])
        if k not in dl:
            env.eq('line out of service untouched', o[k, :17], D[k, :17])
            continue
        i = dl.index(k)
        env.eq('flow from', o[k, PF], -x[pf[k]] * base)
        env.eq('flow to', o[k, PT], x[pt[k]] * base)
        m = lambda w, v: mu[w][v] / base
        env.eq('price of the lower limit', o[k, 17], m('upper', pf[k]) + m('lower', pt[k]))
        env.eq('price of the upper limit', o[k, 18], m('lower', pf[k]) + m('upper', pt[k]))
        if ac:
            q, qt = at('Qg')[nu + i], at('Qg')[nu + ndc + i]
            env.eq('reactive power', [o[k, QF], o[k, QT]], [x[q] * base, x[qt] * base])
            env.eq('voltages', [o[k, VF], o[k, VT]], [x[at('Vm')[ends[k][0]]], x[at('Vm')[ends[k][1]]]])
            env.eq('reactive limit prices', [o[k, 19], o[k, 20], o[k, 21], o[k, 22]],
                   [m('lower', q), m('upper', q), m('lower', qt), m('upper', qt)])
    env.ok('units only', res['gen'].shape[0] == ng and res['gencost'].shape == before['gencost'].shape)
    env.eq('outputs', res['gen'][:, 1], [x[pgs[gord.index(k)]] * base if k in gord else 0.0 for k in range(ng)])
    env.eq('unit buses', res['gen'][:, 0], before['gen'][:, 0])
    env.eq('unit costs as given', res['gencost'], before['gencost'])
    if costs:
        env.eq('line costs as given', res['dclinecost'], before['dclinecost'])
    env.eq('bus data', res['bus'][:, [0, 2, 3, 4, 5, 6]], before['bus'][:, [0, 2, 3, 4, 5, 6]])
    for t in before:
        env.ok('caller\'s case', ppc[t].shape == before[t].shape)
        env.eq('caller\'s case', ppc[t], before[t])


def h_pf(env, gbus, ends, st, lim, numbers=(5, 9, 2), kw=21, dup=False):
    """power flow: conversion, arbitrary solved values, conversion back"""
    np_ = env.np
    ng, nd = len(gbus), len(ends)
    ppc = network(env, gbus, [1] * ng, True, numbers, kw)
    ppc['bus'] = ppc['bus'][:, :13]
    del ppc['gencost']
    ppc['dcline'] = lines(env, ends, st, lim, numbers)
    before = snapshot(dict((k, ppc[k]) for k in ppc if k not in ('version', 'baseMVA')))
    D = before['dcline']
    dl = [k for k in range(nd) if st[k] > 0]
    ndc = len(dl)
    i = env.fn('ext2int')(env.fn('toggle_dcline')(dict(ppc), 'on'))
    g = i['gen']
    env.ok('two terminals per line', g.shape[0] == ng + 2 * ndc)
    at = dict((n, j) for j, n in enumerate(numbers))
    for j, k in enumerate(dl):
        f, t = g[ng + j, :], g[ng + ndc + j, :]
        p = D[k, PF]
        env.eq('terminals', [f[0], f[1], f[2], f[3], f[4], f[5]], [float(ends[k][0]), -p, D[k, QF], D[k, QMAXF], D[k, QMINF], D[k, VF]])
        env.eq('terminals', [t[0], t[1], t[2], t[3], t[4], t[5]],
               [float(ends[k][1]), p - (D[k, L0] + D[k, L1] * p), D[k, QT], D[k, QMAXT], D[k, QMINT], D[k, VT]])
        env.ok('terminals in service', bool(f[7] > 0) and bool(t[7] > 0))
    pv = set(e for k in dl for e in ends[k])
    env.eq('bus types', i['bus'][:, 1], [3.0 if b == 1 else 2.0 if b in pv else 1.0 for b in range(3)])
    # injections seen by the power flow
    S = env.fn('makeSbus')(i['baseMVA'], i['bus'], g)
    for b in range(3):
        want = sum((before['gen'][k, 1] for k in range(ng) if gbus[k] == b), 0.0) - before['bus'][b, 2]
        for k in dl:
            p = D[k, PF]
            want = want - (p if ends[k][0] == b else 0.0) + (p - D[k, L0] - D[k, L1] * p if ends[k][1] == b else 0.0)
        env.eq('injection', S[b].real * ppc['baseMVA'], want)
    for r in range(g.shape[0]):
        for c in (1, 2, 5):
            g[r, c] = env.var('s%d_%d' % (r, c), -99, 99)
    solved = snapshot(dict(gen=g))['gen']
    e = env.fn('int2ext')(i)
    gord = sorted(range(ng), key=lambda k: (gbus[k], k))
    env.ok('units only', tuple(e['gen'].shape) == tuple(before['gen'].shape))
    for k in range(ng):
        env.eq('solved units', [e['gen'][k, c] for c in (1, 2, 5)], [solved[gord.index(k), c] for c in (1, 2, 5)])
        env.eq('unit buses', e['gen'][k, 0], before['gen'][k, 0])
    o = e['dcline']
    env.ok('shape', tuple(o.shape) == (nd, 17))
    for k in range(nd):
        if k in dl:
            f, t = solved[ng + dl.index(k), :], solved[ng + ndc + dl.index(k), :]
            env.eq('solved flows', o[k, :9], [D[k, 0], D[k, 1], D[k, 2], -f[1], t[1], f[2], t[2], f[5], t[5]])
            env.eq('line data as given', o[k, 9:], D[k, 9:])
        else:
            env.eq('line out of service untouched', o[k, :], D[k, :])
    for t in before:
        env.eq('caller\'s case', ppc[t], before[t])


def h_toggle(env, col):
    """bad data is rejected, and switching off leaves nothing behind"""
    tog = env.fn('toggle_dcline')
    ppc = network(env, [0, 1], [1, 1], False)
    ppc['dcline'] = lines(env, [(0, 2), (1, 2)], [1, 1], ['pos', 'pos'], (5, 9, 2))
    for bad in ('table', 'narrow', 'rows', 'word'):
        c = dict(ppc)
        if bad == 'table':
            del c['dcline']
        elif bad == 'narrow':
            c['dcline'] = c['dcline'][:, :16]
        elif bad == 'rows':
            c['dclinecost'] = env.np.zeros((3, 6))
        try:
            tog(c, 'off?' if bad == 'word' else 'on')
            env.ok('rejected ' + bad, False)
        except ValueError:
            env.ok('rejected ' + bad, True)
    if col:
        ppc['dcline'][:, L1] = [-0.1, -0.2]
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            tog(dict(ppc), 'on')
        env.ok('one warning per line', len([i for i in w if 'negative' in str(i.message)]) == 2)
    c = tog(tog(dict(ppc), 'on'), 'off')
    env.ok('nothing left', not any(c['userfcn'].values()))


def harnesses(tier):
    b = dict(gbus=[2, 0, 1], gst=[1, 1, 1], ends=[(0, 2), (2, 1)], st=[1, 1], lim=['pos', 'pos'])
    d = [('pos', b), ('neg', dict(b, lim=['neg', 'both'])), ('zero', dict(b, lim=['zero', 'to0'])), ('neg0', dict(b, lim=['neg0', 'pos'])),
         ('off_first', dict(b, ends=[(0, 1), (0, 2), (2, 1)], st=[0, 1, 1], lim=['pos', 'both', 'neg'])),
         ('off_last', dict(b, ends=[(0, 1), (0, 2), (2, 1)], st=[1, 1, 0], lim=['pos', 'both', 'neg'])),
         ('off_mid', dict(b, ends=[(0, 1), (0, 2), (2, 1)], st=[1, -1, 1], lim=['pos', 'both', 'neg'])),
         ('unit_off', dict(b, gst=[1, 0, 1])), ('wide', dict(b, width=23)), ('wide_off', dict(b, width=23, st=[0, 1])),
         ('poly', dict(b, costs=[('poly', 2), ('poly', 3)])), ('poly_wide', dict(b, costs=[('poly', 1), ('poly', 3)], cw=10)),
         ('poly_narrow', dict(b, costs=[('poly', 1), ('poly', 2)], cw=6)),
         ('poly_off', dict(b, costs=[('poly', 2), ('poly', 3)], st=[0, 1])),
         ('pwl', dict(b, costs=[('pwl', 3), ('pwl', 3)])), ('pwl2', dict(b, costs=[('pwl', 2), ('poly', 3)])),
         ('mixed', dict(b, ends=[(0, 1), (0, 2), (2, 1)], st=[1, 1, 1], lim=['pos', 'both', 'neg'], costs=[('poly', 2), ('pwl', 3), ('pwl', 2)])),
         ('pwl_off', dict(b, costs=[('pwl', 3), ('pwl', 4)], st=[0, 1])),
         ('ac', dict(b, ac=True)), ('ac_neg', dict(b, ac=True, lim=['neg', 'both'])),
         ('ac_off', dict(b, ac=True, gst=[1, 0, 1], st=[0, 1])),
         ('ac_poly', dict(b, ac=True, costs=[('poly', 4), ('poly', 2)])), ('ac_pwl', dict(b, ac=True, costs=[('pwl', 3), ('pwl', 3)]))]
    out = [(n, h, k, {}) for n, k in d]
    p = dict(gbus=[2, 1], ends=[(0, 2), (2, 1)], st=[1, 1], lim=['pos', 'both'])
    for n, k in [('flow', p), ('flow_off', dict(p, st=[0, 1])), ('flow_three', dict(p, ends=[(0, 2), (2, 1), (0, 1)], st=[1, 0, 1],
                                                                                    lim=['neg', 'pos', 'zero']))]:
        out.append((n, h_pf, k, {}))
    out.append(('toggle', h_toggle, dict(col=False), {}))
    out.append(('toggle_warn', h_toggle, dict(col=True), {}))
    return out
