"""C04: makeBdc, dcpf."""
from checks.lib import branch_rows, bus_rows, dc_flows, dc_inj, matvec, snapshot, dense_vec

INFO = dict(
    functions=['makeBdc', 'dcpf'],
    bounds='2-4 buses, 1-5 branches (parallel, reversed); reactance, ratio (0 or not), shift, status, angles, injections '
           'symbolic; reference bus at any position, PV/PQ lists in any order',
    outside='zero reactance; singular reduced matrices',
    assumptions='the linear solver returns the solution of the system it is given (Cramer rule on a nonsingular matrix)')


def h(env, n, ends, xr):
    base = env.var('base', 0.5, 1000)
    bus = bus_rows(env, [1] * n)
    br = branch_rows(env, ends, x=xr, dc=True)
    b0, r0 = snapshot(bus), snapshot(br)
    Bbus, Bf, Pbusinj, Pfinj = env.fn('makeBdc')(base, bus, br)
    th = [env.var('th%d' % i, -7, 7) for i in range(n)]
    fl = dc_flows(env, br, ends, th)
    D = env.np.array(th)
    env.eq('Bf*Va+Pfinj', env.np.array([a.real + b for a, b in zip(matvec(env, env.dense(Bf), D), dense_vec(env, Pfinj))]),
           env.np.array(fl))
    env.eq('Bbus*Va+Pbusinj',
           env.np.array([a.real + b for a, b in zip(matvec(env, env.dense(Bbus), D), dense_vec(env, Pbusinj))]),
           env.np.array(dc_inj(env, n, ends, fl)))
    env.eq('inputs kept', [bus, br], [b0, r0])


def hp(env, n, ends, ref, pv, pq, stat):
    np_ = env.np
    bus = bus_rows(env, [1] * n)
    br = branch_rows(env, ends, dc=True, stat=stat)
    Bbus, Bf, Pbusinj, Pfinj = env.fn('makeBdc')(100.0, bus, br)
    P = env.arr([env.var('p%d' % i, -5, 5) for i in range(n)])
    Va0 = env.arr([env.var('th%d' % i, -3, 3) for i in range(n)])
    sv = snapshot(Va0)
    Va = env.fn('dcpf')(Bbus, P - dense_vec(env, Pbusinj), Va0, np_.array(ref), np_.array(pv, dtype=int),
                        np_.array(pq, dtype=int))
    th = [Va[i] for i in range(n)]
    inj = dc_inj(env, n, ends, dc_flows(env, br, ends, th))
    rest = [i for i in range(n) if i not in ref]
    env.eq('reference angle kept', [Va[i] for i in ref], [sv[i] for i in ref])
    env.eq('scheduled injection met', np_.array([inj[i] for i in rest]), np_.array([P[i] for i in rest]))
    env.eq('Va0 kept', Va0, sv)


def harnesses(tier):
    out = []
    tops = [(2, [(0, 1)]), (2, [(0, 1), (1, 0)]), (3, [(0, 1), (0, 1), (2, 1)]), (3, [(0, 1), (1, 2), (2, 0)])]
    if tier == 'thorough':
        tops += [(4, [(0, 1), (1, 2), (2, 3), (3, 0), (0, 2)])]
    for k, (n, e) in enumerate(tops):
        for xn, xr in (('ind', (0.01, 2.0)), ('cap', (-2.0, -0.01))):
            out.append(('bdc%d_%s' % (k, xn), h, dict(n=n, ends=e, xr=xr), None))
    pf = [(2, [(0, 1)], [0], [1], [], (1,)), (2, [(1, 0), (0, 1)], [1], [], [0], (0, 1)),
          (3, [(0, 1), (1, 2), (2, 0)], [1], [2], [0], (1,)), (3, [(0, 1), (1, 2)], [2], [], [1, 0], (1,)),
          (3, [(0, 1), (1, 2), (2, 0)], [0, 2], [1], [], (0, 1))]
    if tier == 'thorough':
        pf += [(4, [(0, 1), (1, 2), (2, 3), (3, 0)], [1], [3], [2, 0], (1,))]
    for k, (n, e, r, pv, pq, st) in enumerate(pf):
        out.append(('dcpf%d' % k, hp, dict(n=n, ends=e, ref=r, pv=pv, pq=pq, stat=st), None))
    return out
