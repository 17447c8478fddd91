"""C02: bustypes partitions the buses."""
INFO = dict(
    functions=['bustypes'],
    bounds='1-4 buses with symbolic type in {PQ, PV, REF}, 1-4 generators with symbolic bus and status (0, 1, or any '
           'status value > 0 / <= 0)',
    outside='isolated buses (removed before), cases where no bus at all qualifies as reference or PV')


def h(env, n, ng, gb):
    types = [env.var('t%d' % i, dom=[1, 2, 3]) for i in range(n)]
    st = [env.var('s%d' % k, -1, 2) for k in range(ng)]
    bus = env.np.zeros((n, 13))
    gen = env.np.zeros((ng, 21))
    gbus = []
    for k in range(ng):
        b = gb[k] if gb else int(env.var('gb%d' % k, dom=list(range(n))))
        gbus.append(b)
        gen[k, 0] = b
        gen[k, 7] = st[k]
    for i in range(n):
        bus[i, 0] = i
        bus[i, 1] = types[i]
    on = [False] * n
    for k in range(ng):
        if st[k] > 0:
            on[gbus[k]] = True
    kinds = []
    for i in range(n):
        if types[i] == 3 and on[i]:
            kinds.append('ref')
        elif types[i] == 2 and on[i]:
            kinds.append('pv')
        else:
            kinds.append('pq')
    env.assume('ref' in kinds or 'pv' in kinds)
    if 'ref' not in kinds:
        kinds[kinds.index('pv')] = 'ref'
    ref, pv, pq = env.fn('bustypes')(bus, gen)
    for nm, got in (('ref', ref), ('pv', pv), ('pq', pq)):
        want = [i for i in range(n) if kinds[i] == nm]
        env.eq(nm, sorted(int(v) for v in got), want)


def harnesses(tier):
    out = [('n2g2', h, dict(n=2, ng=2, gb=None), dict(max_paths=20000)),
           ('n3g2', h, dict(n=3, ng=2, gb=None), dict(max_paths=20000)),
           ('n3g3', h, dict(n=3, ng=3, gb=[2, 0, 2]), dict(max_paths=20000)),
           ('n3g3b', h, dict(n=3, ng=3, gb=[0, 1, 2]), dict(max_paths=20000)),
           ('n1g1', h, dict(n=1, ng=1, gb=[0]), None)]
    if tier == 'thorough':
        out.append(('n3g3sym', h, dict(n=3, ng=3, gb=None), dict(max_paths=60000, budget_s=3600)))
        out.append(('n4g4', h, dict(n=4, ng=4, gb=[3, 1, 0, 1]), dict(max_paths=60000, budget_s=3600)))
    return out
