"""C03: makeSbus = in-service generation minus load, per unit."""
from checks.lib import bus_rows, gen_rows, snapshot

INFO = dict(functions=['makeSbus'],
            bounds='2-3 buses, 1-4 generators at enumerated (shared) buses, symbolic status (any real, in service iff > 0), '
                   'dispatch, load and base power')


def h(env, n, gb):
    base = env.var('base', 0.5, 1000)
    bus = bus_rows(env, [1] * n)
    gen = gen_rows(env, gb, stat=(1,))
    for k in range(len(gb)):
        gen[k, 7] = env.var('st%d' % k, -1, 2)
    b0, g0 = snapshot(bus), snapshot(gen)
    S = env.fn('makeSbus')(base, bus, gen)
    want = []
    for i in range(n):
        p, q = -bus[i, 2], -bus[i, 3]
        for k, b in enumerate(gb):
            if b == i and gen[k, 7] > 0:
                p = p + gen[k, 1]
                q = q + gen[k, 2]
        want.append(env.cplx(p / base, q / base))
    env.eq('Sbus', env.np.asarray(S), env.np.array(want))
    env.eq('inputs kept', [bus, gen], [b0, g0])


def harnesses(tier):
    t = [(2, [0]), (2, [1, 1]), (3, [2, 0, 2]), (3, [1, 1, 1, 0]), (2, [])]
    return [('s%d' % k, h, dict(n=n, gb=g), None) for k, (n, g) in enumerate(t)]
