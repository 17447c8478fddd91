"""C07: makeB."""
from checks.lib import branch_rows, bus_rows, snapshot, ybus_stamp, col

INFO = dict(
    functions=['makeB', 'makeYbus'],
    bounds='2-3 buses, 1-3 branches; every branch and bus parameter, base power and status symbolic; XB and BX',
    outside='zero-impedance branches')


def h(env, n, ends, alg):
    base = env.var('base', 0.5, 1000)
    bus = bus_rows(env, [1] * n)
    br = branch_rows(env, ends)
    b0, r0 = snapshot(bus), snapshot(br)
    Bp, Bpp = env.fn('makeB')(base, bus, br, alg)
    env.eq('inputs kept', [bus, br], [b0, r0])
    nl = len(ends)
    z, o, zb = [0.0] * nl, [1.0] * nl, [0.0] * n
    r, x, b, tap, sh, st = [col(br, c) for c in (2, 3, 4, 8, 9, 10)]
    gs, bs = col(bus, 4), col(bus, 5)
    Y1 = ybus_stamp(env, n, ends, z if alg == 2 else r, x, z, o, sh, st, gs, zb, base)
    Y2 = ybus_stamp(env, n, ends, z if alg == 3 else r, x, b, tap, z, st, gs, bs, base)
    env.eq('Bp', env.dense(Bp), -Y1.imag)
    env.eq('Bpp', env.dense(Bpp), -Y2.imag)


def harnesses(tier):
    out = []
    tops = [(2, [(0, 1)]), (2, [(0, 1), (1, 0)]), (3, [(2, 0), (1, 2)])]
    if tier == 'thorough':
        tops += [(3, [(0, 1), (1, 2), (2, 0)]), (3, [(0, 1), (0, 1), (1, 2), (2, 0)])]
    for k, (n, e) in enumerate(tops):
        for alg in (2, 3):
            out.append(('net%d_%s' % (k, {2: 'XB', 3: 'BX'}[alg]), h, dict(n=n, ends=e, alg=alg), None))
    return out
