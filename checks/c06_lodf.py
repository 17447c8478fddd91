"""C06: makeLODF."""
from checks.lib import branch_rows, bus_rows, dc_flows, dc_inj

INFO = dict(
    functions=['makeLODF', 'makePTDF', 'makeBdc'],
    bounds='2-4 buses, 2-5 branches incl. parallel lines and negative reactances; reactance, ratio and injections symbolic; every outage that does not '
           'split the network',
    outside='bridges (undefined factors)', assumptions='linear solver solves')


def h(env, n, ends, slack, cap=()):
    np_ = env.np
    types = [3] + [1] * (n - 1)
    bus = bus_rows(env, types)
    br = branch_rows(env, ends, dc=True, stat=(1,), shift=None)
    for k in cap:       # series compensation: a negative reactance
        br[k, 3] = env.var('xc%d' % k, -2.0, -0.01)
    if cap:
        env.assume_denominators()
    H = env.fn('makePTDF')(100.0, bus, br, slack)
    L = env.dense(env.fn('makeLODF')(br, H))
    nl = len(ends)
    env.eq('own outage', [L[k, k] for k in range(nl)], [-1.0] * nl)
    # post-outage angles th define the injection; the pre-outage flows of that injection come from the PTDF
    # (decided by C05); superposition through the LODF must give the post-outage flows
    for o in range(nl):
        rest = [e for k, e in enumerate(ends) if k != o]
        if not connected(n, rest):
            continue
        br2 = br.copy()
        br2[o, 10] = 0.0
        th = [0.0] + [env.var('o%dth%d' % (o, i), -3, 3) for i in range(1, n)]
        post = dc_flows(env, br2, ends, th)
        P = dc_inj(env, n, ends, post)
        pre = []
        for k in range(nl):
            acc = 0.0
            for i in range(n):
                acc = acc + H[k, i] * P[i]
            pre.append(acc)
        env.eq('outage of branch %d' % o, np_.array([pre[k] + L[k, o] * pre[o] for k in range(nl)]), np_.array(post))


def connected(n, ends):
    s = {0}
    for _ in range(n):
        for f, t in ends:
            if f in s or t in s:
                s |= {f, t}
    return len(s) == n


def harnesses(tier):
    out = [('par2', h, dict(n=2, ends=[(0, 1), (1, 0)], slack=0), None),
           ('par3', h, dict(n=2, ends=[(0, 1), (1, 0), (0, 1)], slack=1), None),
           ('tri', h, dict(n=3, ends=[(0, 1), (1, 2), (2, 0)], slack=1), dict(budget_s=400, goal_ms=60000)),
           ('tri_par', h, dict(n=3, ends=[(0, 1), (1, 2), (1, 2), (0, 1)], slack=0), dict(budget_s=400, goal_ms=60000))]
    out.append(('cap_par', h, dict(n=2, ends=[(0, 1), (1, 0)], slack=0, cap=(1,)), None))
    out.append(('cap_tri', h, dict(n=3, ends=[(0, 1), (1, 2), (2, 0)], slack=1, cap=(2,)), dict(budget_s=400, goal_ms=60000)))
    if tier == 'thorough':
        out.append(('tri4', h, dict(n=3, ends=[(0, 1), (1, 2), (2, 0), (0, 1)], slack=0), dict(budget_s=1800, goal_ms=120000)))
    return out
