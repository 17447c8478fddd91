"""C14: ext2int and int2ext of whole cases, and the old per-table pair."""
from itertools import permutations

from checks.lib import snapshot

INFO = dict(
    functions=['ext2int', 'int2ext', 'ext2int1', 'int2ext1', 'e2i_field', 'e2i_data', 'get_reorder'],
    bounds='2-4 buses in every order of small number pools, every bus type including isolated, 1-4 generators at every bus, '
           '1-3 branches, every status, areas, active or active+reactive costs, dense or sparse A and N with DC or AC columns '
           'and extra columns; every table entry symbolic; results written between the two conversions symbolic; convert, '
           'restore and convert again',
    outside='invalid bus types; bus numbers that are not distinct',
    assumptions='')


def h(env, n, ng, nl, pool, gb=None, ends=None, types=None, gst=None, bst=None, extra=(), again=False, cost=0, acols=None,
      spA=False, areas=0):
    np_ = env.np
    nums = env.choice('nums', [list(p) for p in permutations(pool, n)])
    ty = [int(env.var('ty%d' % i, dom=types[i] if types else [1, 2, 3, 4])) for i in range(n)]
    gb = [env.choice('gb%d' % k, gb[k] if gb else list(range(n))) for k in range(ng)]
    ends = ends or [(k % n, (k + 1) % n) for k in range(nl)]
    base = env.var('base', 1, 500)
    bus = np_.array([[float(nums[i]), float(ty[i])] + [env.var('u%d_%d' % (i, c)) for c in range(11)] for i in range(n)])
    gen = np_.array([[float(nums[gb[k]])] + [env.var('g%d_%d' % (k, c)) for c in range(20)] for k in range(ng)])
    br = np_.array([[float(nums[ends[k][0]]), float(nums[ends[k][1]])] + [env.var('b%d_%d' % (k, c)) for c in range(15)]
                    for k in range(nl)])
    for k in range(ng):
        gen[k, 6] = 100.0 + k
        gen[k, 7] = env.var('gst%d' % k, dom=[0, 1]) if gst is None else float(gst[k])
    for k in range(nl):
        br[k, 10] = env.var('bst%d' % k, dom=[0, 1]) if bst is None else float(bst[k])
    case = dict(version='2', baseMVA=base, bus=bus, gen=gen, branch=br)
    live = [i for i in range(n) if ty[i] != 4]
    env.assume(len(live) > 0)
    gon = [k for k in range(ng) if gen[k, 7] > 0 and gb[k] in live]
    bon = [k for k in range(nl) if br[k, 10] > 0 and ends[k][0] in live and ends[k][1] in live]
    env.assume(len(gon) > 0 and (nl == 0 or len(bon) > 0))
    ab = [k % n for k in range(areas)]
    if areas:
        case['areas'] = np_.array([[float(k + 1), float(nums[ab[k]])] for k in range(areas)])
    if cost:
        case['gencost'] = np_.array([[env.var('c%d_%d' % (k, c)) for c in range(6)] for k in range(cost * ng)])
    if acols:
        nx = 2
        full = (n + ng if acols == 'dc' else 2 * (n + ng)) + nx
        for nm in ('A', 'N'):
            M = np_.array([[env.var('%s%d_%d' % (nm, r, c)) for c in range(full)] for r in range(2)])
            case[nm] = env.sparse(M) if spA else M
    keep = dict((k, snapshot(v)) for k, v in case.items())
    ci = env.fn('ext2int')(case)

    def same(label, a, ref):
        env.ok(label + ' keys', sorted(k for k in a if k != 'order') == sorted(ref))
        for k in ref:
            if k == 'version':
                env.ok('version', a[k] == ref[k])
            else:
                env.eq(label + ' ' + k, env.dense(a[k]), env.dense(ref[k]))

    same('argument kept', case, keep)
    env.ok('argument has no order', 'order' not in case)

    def internal(ci, b0, g0, r0):
        B, G, R = ci['bus'], ci['gen'], ci['branch']
        pos = dict((e, i) for i, e in enumerate(live))
        env.ok('sizes', B.shape == (len(live), b0.shape[1]) and G.shape == (len(gon), g0.shape[1]) and
               R.shape == (len(bon), r0.shape[1]))
        env.eq('bus numbers', B[:, 0], [float(i) for i in range(len(live))])
        env.eq('bus data', B[:, 1:], [[b0[e, c] for c in range(1, b0.shape[1])] for e in live])
        ids = [int(G[k, 6]) - 100 for k in range(len(gon))]
        env.ok('each unit once', sorted(ids) == gon)
        env.eq('unit buses', G[:, 0], [float(pos[gb[e]]) for e in ids])
        env.eq('unit data', G[:, 1:], [[g0[e, c] for c in range(1, g0.shape[1])] for e in ids])
        env.ok('units ordered by bus', all(pos[gb[a]] <= pos[gb[b]] for a, b in zip(ids, ids[1:])))
        env.eq('branch ends', R[:, :2], [[float(pos[ends[e][0]]), float(pos[ends[e][1]])] for e in bon])
        env.eq('branch data', R[:, 2:], [[r0[e, c] for c in range(2, r0.shape[1])] for e in bon])
        if areas:
            env.eq('areas', ci['areas'], [[float(k + 1), float(pos[ab[k]])] for k in range(areas) if ab[k] in live])
        if cost:
            c0 = keep['gencost']
            env.eq('gencost', ci['gencost'], [[c0[s * ng + e, c] for c in range(6)] for s in range(cost) for e in ids])
        if acols:
            s = 1 if acols == 'dc' else 2
            for nm in ('A', 'N'):
                M0 = env.dense(keep[nm])
                sel = [q * n + e for q in range(s) for e in live] + [s * n + q * ng + e for q in range(s) for e in ids]
                sel += [s * (n + ng) + j for j in range(2)]
                env.eq(nm + ' columns', env.dense(ci[nm]), [[M0[r, c] for c in sel] for r in range(2)])
        return ids

    ids = internal(ci, keep['bus'], keep['gen'], keep['branch'])
    c2 = env.fn('ext2int')(ci)
    for k in keep:
        if k != 'version':
            env.eq('internal case unchanged ' + k, env.dense(c2[k]), env.dense(ci[k]))
    # results written in internal order
    for i, e in enumerate(live):
        for c in (7, 8):
            ci['bus'][i, c] = env.var('nb%d_%d' % (e, c))
    for i, e in enumerate(ids):
        for c in (1, 2, 5):
            ci['gen'][i, c] = env.var('ng%d_%d' % (e, c))
    for i, e in enumerate(bon):
        for c in (13, 14, 15, 16):
            ci['branch'][i, c] = env.var('nr%d_%d' % (e, c))
    bi0 = snapshot(ci['bus'])
    back = env.fn('int2ext')(ci)
    env.eq('argument of int2ext kept', ci['bus'], bi0)
    want = dict((k, snapshot(v)) for k, v in keep.items())
    for e in live:
        for c in (7, 8):
            want['bus'][e, c] = env.var('nb%d_%d' % (e, c))
    for e in gon:
        for c in (1, 2, 5):
            want['gen'][e, c] = env.var('ng%d_%d' % (e, c))
    for e in bon:
        for c in (13, 14, 15, 16):
            want['branch'][e, c] = env.var('nr%d_%d' % (e, c))
    same('restored', back, want)
    if again:
        ci3 = env.fn('ext2int')(back)
        internal(ci3, want['bus'], want['gen'], want['branch'])
        same('restored again', env.fn('int2ext')(ci3), want)


def h_old(env, areas):
    """the pair working on separate tables"""
    np_ = env.np
    nums = env.choice('nums', [list(p) for p in permutations([1, 2, 7, 4], 3)])
    gb = [env.choice('gb%d' % k, [0, 1, 2]) for k in range(2)]
    ends = [(0, 1), (2, 1), (2, 0)]
    bus = np_.array([[float(x)] + [env.var('u%d_%d' % (i, c)) for c in range(3)] for i, x in enumerate(nums)])
    gen = np_.array([[float(nums[b])] + [env.var('g%d_%d' % (i, c)) for c in range(3)] for i, b in enumerate(gb)])
    br = np_.array([[float(nums[f]), float(nums[t]), env.var('b%d' % i)] for i, (f, t) in enumerate(ends)])
    ar = np_.array([[float(k + 1), float(nums[k])] for k in range(areas)])
    b0, g0, r0 = snapshot(bus), snapshot(gen), snapshot(br)
    if areas:
        a0 = snapshot(ar)
        i2e, bus, gen, br, ar = env.fn('ext2int', 'ext2int1')(bus, gen, br, ar)
        env.eq('areas', ar, [[float(k + 1), float(k)] for k in range(areas)])
    else:
        i2e, bus, gen, br = env.fn('ext2int', 'ext2int1')(bus, gen, br)
    env.eq('numbers', bus[:, 0], [0.0, 1.0, 2.0])
    env.eq('gen', gen[:, 0], [float(b) for b in gb])
    env.eq('branch', br[:, :2], [[float(f), float(t)] for f, t in ends])
    env.eq('data', [bus[:, 1:], gen[:, 1:], br[:, 2]], [b0[:, 1:], g0[:, 1:], r0[:, 2]])
    if areas:
        bus, gen, br, ar = env.fn('int2ext', 'int2ext1')(i2e, bus, gen, br, ar)
        env.eq('areas back', ar, a0)
    else:
        bus, gen, br = env.fn('int2ext', 'int2ext1')(i2e, bus, gen, br, None)
    env.eq('back', [bus, gen, br], [b0, g0, r0])


def harnesses(tier):
    d = [('types', dict(n=3, ng=2, nl=2, pool=[2, 5, 9], gst=[1, 1], bst=[1, 1], gb=[[2], [0, 1]], areas=2)),
         ('status', dict(n=3, ng=3, nl=2, pool=[4, 2, 3], types=[[3], [1, 4], [2]], gb=[[2, 1], [0, 1], [1, 0]], bst=None)),
         ('reord', dict(n=3, ng=4, nl=1, pool=[1, 4, 6], types=[[3], [1], [2]], bst=[1], gst=[1, 1, 1, 1], gb=[[2, 0], [0, 1, 2], [1, 0], [0, 2]])),
         ('cost', dict(n=2, ng=3, nl=1, pool=[8, 3], types=[[3], [1, 4]], bst=[1], ends=[(0, 0)], cost=1, again=True)),
         ('cost2', dict(n=2, ng=3, nl=1, pool=[8, 3], types=[[3, 4], [1]], bst=[1], ends=[(1, 1)], cost=2, again=True)),
         ('A_dc', dict(n=2, ng=2, nl=1, pool=[8, 3], types=[[3], [1, 4]], bst=[1], ends=[(0, 0)], acols='dc', again=True)),
         ('A_ac', dict(n=2, ng=2, nl=1, pool=[8, 3], types=[[3], [1, 4]], bst=[1], ends=[(0, 0)], acols='ac')),
         ('A_ac_sp', dict(n=2, ng=2, nl=1, pool=[8, 3], types=[[3], [1, 4]], bst=[1], ends=[(0, 0)], acols='ac', spA=True)),
         ('A_dc_sp', dict(n=2, ng=2, nl=1, pool=[8, 3], types=[[3], [1, 4]], bst=[1], ends=[(0, 0)], acols='dc', spA=True))]
    if tier == 'thorough':
        d += [('four', dict(n=4, ng=2, nl=3, pool=[1, 2, 3, 9], ends=[(0, 1), (1, 2), (3, 1)], gst=[1, 1])),
              ('all', dict(n=3, ng=3, nl=2, pool=[2, 5, 9], areas=3, cost=2, again=True, types=[[3, 4], [1, 4], [2]]))]
    out = [(nm, h, kw, dict(budget_s=700)) for nm, kw in d]
    out += [('old', h_old, dict(areas=0), {}), ('old_areas', h_old, dict(areas=2), {})]
    return out
