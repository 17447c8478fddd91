"""C05: makePTDF."""
from checks.lib import branch_rows, bus_rows, dc_flows, dc_inj, matvec, snapshot

INFO = dict(
    functions=['makePTDF', 'makeBdc'],
    bounds='2-4 buses, 1-5 branches, meshed and radial; reactance, ratio, status and injections symbolic; every scalar slack '
           'position, default slack, a weight vector with symbolic weights of either sign (sum not zero), negative reactances, a full slack matrix',
    outside='disconnected networks (singular reduced matrices); phase shifts do not enter PTDFs',
    assumptions='linear solver solves')


def setup(env, n, ends, stat, ref=0, cap=()):
    types = [1] * n
    types[ref] = 3
    bus = bus_rows(env, types)
    br = branch_rows(env, ends, dc=True, stat=stat, shift=None)
    for k in cap:       # series compensation: a negative reactance
        br[k, 3] = env.var('xc%d' % k, -2.0, -0.01)
    if cap:
        env.assume_denominators()
    return bus, br


def flows_ok(env, label, H, br, ends, th, P, n):
    """H*P equals the flows of angles th whenever P is the injection th produces"""
    want = dc_flows(env, br, ends, th)
    got = [a.real for a in matvec(env, env.dense(H), env.np.array(P))]
    env.eq(label, env.np.array(got), env.np.array(want))


def h(env, n, ends, slack, stat, ref=0, cap=()):
    bus, br = setup(env, n, ends, stat, ref, cap)
    b0, r0 = snapshot(bus), snapshot(br)
    args = () if slack is None else (slack,)
    H = env.fn('makePTDF')(100.0, bus, br, *args)
    th = [env.var('th%d' % i, -3, 3) for i in range(n)]
    P = dc_inj(env, n, ends, dc_flows(env, br, ends, th))
    sb = ref if slack is None else slack
    flows_ok(env, 'balanced pattern', H, br, ends, th, P, n)
    # the slack bus takes up any imbalance: changing its entry changes nothing
    P2 = list(P)
    P2[sb] = P2[sb] + env.var('extra', -3, 3)
    flows_ok(env, 'imbalance taken by slack', H, br, ends, th, P2, n)
    env.eq('inputs kept', [bus, br], [b0, r0])


def hw(env, n, ends, form, lo=0, cap=()):
    np_ = env.np
    bus, br = setup(env, n, ends, (1,), cap=cap)
    w = [env.var('w%d' % i, lo, 5) for i in range(n)]
    tot = w[0]
    for x in w[1:]:
        tot = tot + x
    env.assume(env.abs(tot) > 0.1 if lo else tot > 0.1)
    if form == 'vec':
        sl = env.arr(w)
        keep = snapshot(sl)
        H = env.fn('makePTDF')(100.0, bus, br, sl)
        env.eq('slack kept', sl, keep)
    else:
        # column k: unit injection at k withdrawn by the weights
        M = np_.zeros((n, n))
        for i in range(n):
            for k in range(n):
                M[i, k] = (1.0 if i == k else 0.0) - w[i] / tot
        H = env.fn('makePTDF')(100.0, bus, br, M)
    th = [env.var('th%d' % i, -3, 3) for i in range(n)]
    P = dc_inj(env, n, ends, dc_flows(env, br, ends, th))
    e = env.var('extra', -3, 3)
    P2 = [P[i] + e * w[i] / tot for i in range(n)]
    flows_ok(env, 'balanced pattern', H, br, ends, th, P, n)
    flows_ok(env, 'imbalance shared by weights', H, br, ends, th, P2, n)


def harnesses(tier):
    out = []
    tri = [(0, 1), (1, 2), (2, 0)]
    rad = [(1, 0), (1, 2)]
    sq = [(0, 1), (1, 2), (2, 3), (3, 0)]
    for s in (None, 0, 1, 2):
        out.append(('tri_slack%s' % s, h, dict(n=3, ends=tri, slack=s, stat=(1,), ref=1), None))
        out.append(('rad_slack%s' % s, h, dict(n=3, ends=rad, slack=s, stat=(1,), ref=2), None))
    out.append(('two_par', h, dict(n=2, ends=[(0, 1), (1, 0)], slack=1, stat=(0, 1)), None))
    out.append(('tri_stat', h, dict(n=3, ends=tri + [(0, 2)], slack=2, stat=(0, 1)), None))
    out.append(('w_tri', hw, dict(n=3, ends=tri, form='vec'), None))
    out.append(('m_tri', hw, dict(n=3, ends=tri, form='mat'), None))
    out.append(('w_sign', hw, dict(n=3, ends=tri, form='vec', lo=-5), None))
    out.append(('cap_tri', h, dict(n=3, ends=tri, slack=1, stat=(1,), cap=(2,)), None))
    out.append(('cap_par', h, dict(n=2, ends=[(0, 1), (1, 0)], slack=None, stat=(1,), cap=(0,)), None))
    if tier == 'thorough':
        for s in range(4):
            out.append(('sq_slack%d' % s, h, dict(n=4, ends=sq, slack=s, stat=(1,)), dict(budget_s=1500, goal_ms=60000)))
        out.append(('w_sq', hw, dict(n=4, ends=sq[:3], form='vec'), dict(budget_s=1500, goal_ms=60000)))
    return out
