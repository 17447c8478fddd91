"""C01: makeYbus gives the pi-model currents at every voltage."""
from checks.lib import branch_rows, bus_rows, bus_currents, pi_currents, cart, matvec, snapshot

INFO = dict(
    functions=['makeYbus'],
    bounds='2-3 buses, 1-3 branches incl. parallel lines and both directions; r, x, charging, ratio (incl. 0), shift, '
           'shunts, base power and status symbolic; currents compared at an arbitrary complex voltage',
    outside='branches with zero impedance; base power <= 0')


def h(env, n, ends, xr, stat):
    base = env.var('base', 0.5, 1000)
    bus = bus_rows(env, [1] * n)
    br = branch_rows(env, ends, x=xr, stat=stat)
    b0, r0 = snapshot(bus), snapshot(br)
    Ybus, Yf, Yt = env.fn('makeYbus')(base, bus, br)
    V = cart(env, n)
    If, It = pi_currents(env, br, ends, V)
    env.eq('Yf*V', matvec(env, env.dense(Yf), V), If)
    env.eq('Yt*V', matvec(env, env.dense(Yt), V), It)
    env.eq('Ybus*V', matvec(env, env.dense(Ybus), V), bus_currents(env, bus, br, ends, V, base))
    env.eq('inputs kept', [bus, br], [b0, r0])


def harnesses(tier):
    out = []
    tops = [(2, [(0, 1)]), (2, [(0, 1), (1, 0)]), (2, [(0, 1), (0, 1)]), (3, [(2, 0), (1, 2)]),
            (3, [(0, 1), (1, 2), (2, 0)])]
    if tier == 'thorough':
        tops += [(4, [(0, 1), (1, 2), (2, 3), (3, 0)]), (3, [(0, 1), (0, 1), (1, 2), (2, 0)])]
    for k, (n, e) in enumerate(tops):
        for xn, xr in (('ind', (0.01, 2.0)), ('cap', (-2.0, -0.01))):
            out.append(('net%d_%s' % (k, xn), h, dict(n=n, ends=e, xr=xr, stat=(0, 1)), None))
    return out
