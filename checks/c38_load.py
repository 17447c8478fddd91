"""C38: load totals per zone and scaling of loads."""
import numpy as np
from checks.lib import snapshot

INFO = dict(
    functions=['total_load', 'scale_load', 'isload'],
    bounds='4 buses in any numbering, 0-4 units of which any are dispatchable loads (on and off, several at a bus), 1-3 zones given by '
           'areas, by a zone vector (with buses in no zone, empty zones) or none, every kind of load, every option of scaling, '
           'scalar, list, integer and float factors; loads, limits and factors symbolic',
    outside='option words that do not exist (only a message on the terminal)',
    assumptions='zones are not empty unless stated; total to be scaled is nonzero in the target mode, or the target equals it')

NUM = (7, 2, 5, 3)


def tables(env, units, area, numbers=NUM, zero=()):
    """units: list of (bus index, kind, status); kinds u unit, l load with lagging, c capacitive, p without reactive power"""
    np_ = env.np
    bus = np_.zeros((4, 13))
    for i in range(4):
        bus[i, :13] = [numbers[i], 1, env.var('pd%d' % i, 1, 90) if i not in zero else 0.0, env.var('qd%d' % i, -40, 40) if i not in zero else 0.0,
                       0, 0, area[i], 1, 0, 230, 1, 1.1, 0.9]
    if not units:
        return bus, None
    gen = np_.zeros((len(units), 21))
    for k, (b, kind, st) in enumerate(units):
        gen[k, :10] = [numbers[b], 3.0 + k, 1.0, 50.0, -50.0, 1.0, 100.0, st, 60.0, 0.0]
        if kind != 'u':
            gen[k, 1] = env.var('pg%d' % k, -60, 0)
            gen[k, 2] = env.var('qg%d' % k, -60, 60)
            gen[k, 8], gen[k, 9] = 0.0, env.var('pm%d' % k, -90, -1)
            q = env.var('ql%d' % k, -50, -1)
            gen[k, 3], gen[k, 4] = {'l': (0.0, q), 'c': (-q, 0.0), 'p': (0.0, 0.0)}[kind]
    return bus, gen


def mw(units, gen, b):
    """active and reactive power of the dispatchable loads in service at a bus"""
    p = q = 0.0
    for k, (bb, kind, st) in enumerate(units):
        if bb == b and kind != 'u' and st > 0:
            p = p - gen[k, 9]
            q = q - {'l': gen[k, 4], 'c': gen[k, 3], 'p': 0.0}[kind]
    return p, q


def h_total(env, units, area, zone, kind, numbers=NUM, ztype=int):
    np_ = env.np
    bus, gen = tables(env, units, area, numbers)
    b0, g0 = snapshot(dict(b=bus))['b'], snapshot(dict(g=gen))['g'] if gen is not None else None
    z = zone if zone is None or zone == 'all' else np.array(zone, ztype)
    kw = {} if kind is None else dict(which_type=kind)
    P, Q = env.fn('total_load')(bus, gen, z, **kw) if gen is not None or z is not None or kw else env.fn('total_load')(bus)
    zz = [1] * 4 if zone == 'all' else zone if zone is not None else area
    kind = 'FIXED' if gen is None else kind or 'BOTH'
    wantP, wantQ = [], []
    for k in range(1, int(max(zz)) + 1):
        p = q = 0.0
        for b in range(4):
            if zz[b] == k:
                if kind != 'DISPATCHABLE':
                    p, q = p + b0[b, 2], q + b0[b, 3]
                if kind != 'FIXED':
                    pp, qq = mw(units, g0, b)
                    p, q = p + pp, q + qq
        wantP.append(p), wantQ.append(q)
    env.ok('one total per zone', len(P) == len(wantP) and len(Q) == len(wantQ))
    env.eq('active', P, wantP)
    env.eq('reactive', Q, wantQ)
    env.eq('tables as given', bus, b0)
    if gen is not None:
        env.eq('tables as given', gen, g0)


def h_scale(env, units, area, zone, opt, form='array', nz=1, numbers=NUM, empty=(), zero=()):
    np_ = env.np
    bus, gen = tables(env, units, area, numbers, zero)
    b0, g0 = snapshot(dict(b=bus))['b'], snapshot(dict(g=gen))['g'] if gen is not None else None
    quantity = opt is not None and opt.get('scale', 'F')[0] == 'Q'
    if form == 'int':
        f = [int(v) for v in ((70, 40, 90) if quantity else (3, 2, 4))][:nz]
        load = np.array(f)
    else:
        f = [env.var('f%d' % k, 1, 200) if quantity else env.var('f%d' % k, 0, 3) for k in range(nz)]
        load = f[0] if form == 'scalar' else list(f) if form == 'list' else env.arr(f)
    o = None if opt is None else dict(opt)
    z = None if zone is None else np.array(zone)
    if gen is None and opt is None and zone is None:
        nb, ng = env.fn('scale_load')(load, bus)
    else:
        nb, ng = env.fn('scale_load')(load, bus, gen, z, o)
    env.ok('options as given', o == opt)
    env.eq('tables as given', bus, b0)
    kind = 'FIXED' if gen is None else (opt or {}).get('which', 'BOTH')
    pq = (opt or {}).get('pq', 'PQ')
    zz = list(zone) if zone is not None else [1] * 4 if nz == 1 else area
    fac = []
    tot = lambda B, G, k, fx, dp: sum(((B[b, 2] if fx else 0.0) + (mw(units, G, b)[0] if dp else 0.0) for b in range(4) if zz[b] == k), 0.0)
    for k in range(1, nz + 1):
        if quantity:
            # the total of the zone meets the target
            if k in empty:
                fac.append(None)
                continue
            env.eq('target met', tot(nb, ng, k, True, gen is not None), f[k - 1])
            F, D = tot(b0, g0, k, True, False), tot(b0, g0, k, False, gen is not None)
            fac.append({'B': lambda: f[k - 1] / (F + D), 'F': lambda: (f[k - 1] - D) / F, 'D': lambda: (f[k - 1] - F) / D}[kind[0]]())
        else:
            fac.append(f[k - 1])
    want = snapshot(dict(b=b0))['b']
    if kind[0] != 'D':
        for b in range(4):
            if 1 <= zz[b] <= nz and fac[int(zz[b]) - 1] is not None:
                want[b, 2] = b0[b, 2] * fac[int(zz[b]) - 1]
                if pq == 'PQ':
                    want[b, 3] = b0[b, 3] * fac[int(zz[b]) - 1]
    env.eq('fixed loads', nb, want)
    if gen is not None:
        env.eq('tables as given', gen, g0)
        wg = snapshot(dict(g=g0))['g']
        if kind[0] != 'F':
            for r, (b, kd, st) in enumerate(units):
                if kd != 'u' and st > 0 and 1 <= zz[b] <= nz and fac[int(zz[b]) - 1] is not None:
                    for c in (1, 9) + ((2, 3, 4) if pq == 'PQ' else ()):
                        wg[r, c] = g0[r, c] * fac[int(zz[b]) - 1]
        env.eq('units and dispatchable loads', ng, wg)


def h_impossible(env, which):
    """a zone without load of the chosen kind cannot meet a target that differs from its total"""
    units = [(0, 'u', 1), (2, 'l', 1)] if which != 'DISPATCHABLE' else [(0, 'u', 1), (1, 'l', 0)]
    zone = [0, 0, 1, 0] if which == 'FIXED' else [0, 1, 0, 0]
    bus, gen = tables(env, units, [1] * 4, zero=() if which == 'DISPATCHABLE' else (1, 2))
    t = env.var('t', 1, 200)
    g0, b0 = snapshot(dict(g=gen))['g'], snapshot(dict(b=bus))['b']
    have = {'FIXED': mw(units, g0, 2)[0], 'DISPATCHABLE': b0[1, 2], 'BOTH': 0.0}[which]
    try:
        nb, ng = env.fn('scale_load')(env.arr([t]), bus, gen, np.array(zone), dict(scale='QUANTITY', which=which))
        env.eq('only if it is met already', t, have)
        env.eq('nothing scaled', nb, b0), env.eq('nothing scaled', ng, g0)
    except env.mod('scale_load').ScalingError:
        env.ok('rejected', env.Not(env.equal(t, have)))


def h_ints(env, load, opt):
    """tables of whole numbers"""
    np_ = env.np
    bus = np_.array([[i, 1, p, q, 0, 0, a, 1, 0, 230, 1, 2, 0] for i, p, q, a in ((1, 3, 1, 1), (2, 2, 0, 2), (3, 0, 0, 1))])
    gen = np_.array([[3, -2, -1, 0, -1, 1, 100, 1, 0, -3] + [0] * 11, [1, 5, 0, 9, -9, 1, 100, 1, 9, 0] + [0] * 11])
    if load == 'scalar':
        f = [env.var('f', 0, 2)] * 2
        a = f[0]
    else:
        f = [env.var('f', 0, 2), env.var('g', 0, 2)]
        a = env.arr(f)
    b, g = env.fn('scale_load')(a, bus, gen, None, opt)
    env.eq('fixed loads', [b[k, c] for k in range(3) for c in (2, 3)], [3 * f[0], 1 * f[0], 2 * f[1], 0.0, 0.0, 0.0])
    env.eq('dispatchable loads', [g[0, c] for c in (1, 2, 4, 9)], [-2 * f[0], -1 * f[0], -1 * f[0], -3 * f[0]])
    env.eq('units', g[1, :10], [1, 5, 0, 9, -9, 1, 100, 1, 9, 0])


def harnesses(tier):
    U = [(0, 'u', 1), (2, 'l', 1), (1, 'c', 1)]
    V = [(3, 'l', 0), (2, 'l', 1), (2, 'p', 1), (1, 'u', 1)]
    out = []
    T = [('areas', dict(units=U, area=[1, 2, 2, 1], zone=None, kind=None)), ('fixed_only', dict(units=[], area=[1, 3, 3, 1], zone=None, kind=None)),
         ('no_units_disp', dict(units=[], area=[1, 2, 2, 1], zone=None, kind='DISPATCHABLE')),
         ('zones', dict(units=V, area=[1, 1, 1, 1], zone=[0, 2, 3, 1], kind='BOTH')), ('all', dict(units=V, area=[1, 2, 2, 1], zone='all', kind='BOTH')),
         ('all_disp', dict(units=U, area=[1, 2, 2, 1], zone='all', kind='DISPATCHABLE')),
         ('disp', dict(units=V, area=[2, 1, 2, 1], zone=None, kind='DISPATCHABLE')), ('fixed', dict(units=V, area=[2, 1, 2, 1], zone=None, kind='FIXED')),
         ('float_zone', dict(units=U, area=[1, 1, 1, 1], zone=[1, 2, 0, 2], kind='BOTH', ztype=float)),
         ('low_numbers', dict(units=U, area=[1, 2, 1, 2], zone=None, kind='BOTH', numbers=(1, 2, 3, 4)))]
    out += [('total_' + n, h_total, k, {}) for n, k in T]
    S = [('one', dict(units=U, area=[1, 2, 2, 1], zone=None, opt=None)), ('scalar', dict(units=U, area=[1, 2, 2, 1], zone=None, opt=None, form='scalar')),
         ('fixed_only', dict(units=[], area=[1, 2, 2, 1], zone=None, opt=None, nz=2)),
         ('list', dict(units=V, area=[1, 2, 2, 1], zone=None, opt={}, form='list', nz=2)),
         ('areas', dict(units=V, area=[1, 2, 2, 1], zone=None, opt=dict(pq='P'), nz=2)),
         ('zones', dict(units=V, area=[1, 1, 1, 1], zone=[0, 2, 3, 1], opt=dict(which='DISPATCHABLE'), nz=3)),
         ('disp_p', dict(units=U, area=[1, 1, 1, 1], zone=[1, 2, 2, 0], opt=dict(which='DISPATCHABLE', pq='P'), nz=2)),
         ('fixed', dict(units=V, area=[1, 2, 1, 2], zone=None, opt=dict(which='FIXED'), nz=2)),
         ('int', dict(units=V, area=[1, 2, 1, 2], zone=None, opt=dict(which='BOTH'), nz=2, form='int')),
         ('one_zero', dict(units=U, area=[1, 2, 1, 2], zone=None, opt=None, zero=(0, 3)))]
    for w in ('BOTH', 'FIXED', 'DISPATCHABLE'):
        for pq in ('PQ', 'P'):
            o = dict(scale='QUANTITY', which=w, pq=pq)
            S.append(('q_%s_%s' % (w[0], pq), dict(units=U + [(3, 'l', 1)], area=[1, 2, 2, 1], zone=None, opt=o, nz=2)))
            S.append(('qz_%s_%s' % (w[0], pq), dict(units=V + [(3, 'l', 1), (1, 'c', 1)], area=[1, 1, 1, 1], zone=[0, 2, 1, 2], opt=o, nz=2,
                                                    form='int')))
    S.append(('q_one', dict(units=V, area=[1, 2, 2, 1], zone=None, opt=dict(scale='QUANTITY'), form='scalar')))
    S.append(('q_fixed_only', dict(units=[], area=[1, 2, 2, 1], zone=None, opt=dict(scale='QUANTITY'), nz=2)))
    out += [('scale_' + n, h_scale, k, {}) for n, k in S]
    out += [('ints_' + l, h_ints, dict(load=l, opt=None), {}) for l in ('scalar', 'array')]
    out += [('impossible_' + w, h_impossible, dict(which=w), {}) for w in ('FIXED', 'DISPATCHABLE', 'BOTH')]
    return out
