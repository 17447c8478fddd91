"""C12: runpf with the DC option, end to end (loadcase, ext2int, bustypes, makeBdc, makeSbus, dcpf, int2ext)."""
import numpy as np

from checks.lib import snapshot

INFO = dict(
    functions=['runpf', 'loadcase', 'ext2int', 'int2ext', 'bustypes', 'makeBdc', 'makeSbus', 'dcpf'],
    bounds='2-4 buses with arbitrary numbering, isolated buses, 1-4 generators and 1-4 branches on or off (also attached to '
           'isolated buses), several units per bus, one or two references, reference without unit; reactance, ratio, '
           'shift, shunt, load, dispatch, starting angles symbolic',
    outside='printing and saving of results; disconnected in-service networks; saved gencost/areas (C14)',
    assumptions='linear solver solves')


def noop(*a, **k):
    return None


def connected(nodes, edges, refs):
    seen = set(refs)
    for _ in nodes:
        for f, t in edges:
            if f in seen or t in seen:
                seen |= {f, t}
    return seen >= set(nodes)


def h(env, nums, types, gb, ends, gstat=None, bstat=None, width=13):
    np_ = env.np
    n, ng, nl = len(nums), len(gb), len(ends)
    bus, gen, br = np_.zeros((n, 13)), np_.zeros((ng, 21)), np_.zeros((nl, width))
    base = env.var('base', 1, 500)
    for i in range(n):
        bus[i, 0], bus[i, 1] = float(nums[i]), float(types[i])
        for c, nm, lo, hi in ((2, 'pd', -99, 99), (3, 'qd', -99, 99), (4, 'gs', -9, 9), (5, 'bs', -9, 9),
                              (8, 'va', -60, 60)):
            bus[i, c] = env.var('%s%d' % (nm, i), lo, hi)
        bus[i, 6], bus[i, 7], bus[i, 9], bus[i, 10], bus[i, 11], bus[i, 12] = 1.0, 1.03, 135.0, 1.0, 1.1, 0.9
    for k in range(ng):
        gen[k, 0] = float(nums[gb[k]])
        for c, nm, lo, hi in ((1, 'pg', -99, 300), (2, 'qg', -99, 99)):
            gen[k, c] = env.var('%s%d' % (nm, k), lo, hi)
        gen[k, 3], gen[k, 4], gen[k, 5], gen[k, 6], gen[k, 8] = 99.0, -99.0, 1.02, 100.0, 300.0
        gen[k, 7] = env.var('gst%d' % k, dom=[0, 1]) if gstat is None else float(gstat[k])
    for k, (f, t) in enumerate(ends):
        br[k, 0], br[k, 1] = float(nums[f]), float(nums[t])
        br[k, 2], br[k, 4] = 0.01, 0.02
        br[k, 3] = env.var('x%d' % k, 0.01, 2)
        if env.choice('tz%d' % k, [0, 1]):
            br[k, 8] = env.var('tap%d' % k, 0.4, 2)
        br[k, 9] = env.var('sh%d' % k, -60, 60)
        br[k, 10] = env.var('bst%d' % k, dom=[0, 1]) if bstat is None else float(bstat[k])
        if width > 13:
            for c in range(13, min(width, 17)):
                br[k, c] = env.var('old%d_%d' % (k, c), -5, 5)
    live = [i for i in range(n) if types[i] != 4]
    gon = [k for k in range(ng) if gen[k, 7] > 0 and gb[k] in live]
    bon = [k for k in range(nl) if br[k, 10] > 0 and ends[k][0] in live and ends[k][1] in live]
    hasg = set(gb[k] for k in gon)
    refs = [i for i in live if types[i] == 3 and i in hasg] or [i for i in live if types[i] == 2 and i in hasg][:1]
    env.assume(bool(refs) and connected(live, [ends[k] for k in bon], refs))
    case = dict(version='2', baseMVA=base, bus=bus, gen=gen, branch=br)
    b0, g0, r0 = snapshot(bus), snapshot(gen), snapshot(br)
    opt = dict(env.fn('ppoption')())
    opt.update(PF_DC=True, VERBOSE=0, OUT_ALL=0)
    env.patch('runpf', 'printpf', noop)
    res, ok = env.fn('runpf')(case, opt)
    env.ok('success reported', bool(ok == 1) and bool(res['success'] == 1))
    env.eq('caller case kept', [bus, gen, br], [b0, g0, r0])
    B, G, R = res['bus'], res['gen'], res['branch']
    env.ok('table sizes', B.shape == (n, 13) and G.shape == (ng, 21) and R.shape[0] == nl and R.shape[1] >= 17)
    env.eq('bus data', [B[:, :7], B[:, 9:13]], [b0[:, :7], b0[:, 9:13]])
    env.eq('branch data', R[:, :13], r0[:, :13])
    env.eq('gen data', [G[:, 0], G[:, 3:]], [g0[:, 0], g0[:, 3:]])
    env.eq('magnitudes', [B[i, 7] for i in range(n)], [1.0 if i in live else 1.03 for i in range(n)])
    env.eq('kept angles', [B[i, 8] for i in range(n) if i in refs or i not in live],
           [b0[i, 8] for i in range(n) if i in refs or i not in live])
    th = [B[i, 8] * np.pi / 180 for i in range(n)]
    for k, (f, t) in enumerate(ends):
        if k in bon:
            tap = r0[k, 8]
            tap = 1.0 if tap == 0 else tap
            fl = (th[f] - th[t] - r0[k, 9] * np.pi / 180) / (r0[k, 3] * tap) * base
        else:
            fl = 0.0
        env.eq('branch flow', [R[k, 13], R[k, 14], R[k, 15], R[k, 16]], [fl, 0.0, -fl, 0.0], tol=1e-5)
    for i in live:
        acc = -b0[i, 2] - b0[i, 4]
        for k in gon:
            if gb[k] == i:
                acc = acc + G[k, 1]
        for k in bon:
            if ends[k][0] == i:
                acc = acc - R[k, 13]
            if ends[k][1] == i:
                acc = acc - R[k, 15]
        env.eq('bus balance', acc, 0.0, tol=1e-4)
    slack = [next(k for k in gon if gb[k] == r) for r in refs]
    # among several units at the reference the first in external order may or may not be the one adjusted
    free = [k for k in gon if gb[k] in refs]
    env.eq('other dispatch', [G[k, 1] for k in gon if k not in free], [g0[k, 1] for k in gon if k not in free])
    env.eq('reactive output kept', [G[k, 2] for k in gon], [g0[k, 2] for k in gon])
    env.eq('off units', [[G[k, 1], G[k, 2]] for k in range(ng) if k not in gon],
           [[0.0, 0.0] for k in range(ng) if k not in gon])


def h_ints(env, which):
    """whole-number tables: results are not truncated"""
    np_ = env.np
    bus = [[1, 3, 0, 0, 0, 0, 1, 1, 0, 135, 1, 2, 0], [2, 1, 7, 2, 0, 0, 1, 1, 0, 135, 1, 2, 0]]
    gen = [[1, 3, 0, 99, -99, 1, 100, 1, 300, 0] + [0] * 11, [2, 2, 0, 99, -99, 1, 100, 1, 300, 0] + [0] * 11]
    br = [[1, 2, 0, 1, 0, 0, 0, 0, 0, 0, 1, -360, 360], [1, 2, 0, 1, 0, 0, 0, 0, 0, 0, 1, -360, 360]]
    pd = pg = 0
    if which == 'gen':
        pd = bus[1][2] = env.var('pd', 0.5, 8)
    if which == 'bus':
        pg = gen[1][1] = env.var('pg', 0, 6)
    x = br[0][3] = env.var('x', 0.5, 2)
    case = dict(version='2', baseMVA=100, bus=np_.array(bus), gen=np_.array(gen), branch=np_.array(br))
    opt = dict(env.fn('ppoption')())
    opt.update(PF_DC=True, VERBOSE=0, OUT_ALL=0)
    env.patch('runpf', 'printpf', noop)
    res, ok = env.fn('runpf')(case, opt)
    env.ok('success reported', bool(ok == 1) and bool(res['success'] == 1))
    d = bus[1][2] - gen[1][1]
    env.eq('reference takes up the rest', [res['gen'][k, 1] for k in (0, 1)], [d, gen[1][1]])
    env.eq('flows', [res['branch'][k, c] for k in (0, 1) for c in (13, 15)], [d / (1 + x), -d / (1 + x), d * x / (1 + x), -d * x / (1 + x)], tol=1e-5)
    env.eq('angles', [res['bus'][k, 8] for k in (0, 1)], [0.0, -d * x / (1 + x) / 100 * 180 / np.pi], tol=1e-5)


def harnesses(tier):
    d = [('two', dict(nums=[1, 2], types=[3, 1], gb=[0], ends=[(0, 1), (1, 0)])),
         ('renum', dict(nums=[30, 4, 11], types=[1, 3, 2], gb=[2, 1], ends=[(0, 1), (2, 0)], bstat=[1, 1])),
         ('isolated', dict(nums=[5, 2, 9], types=[3, 4, 2], gb=[1, 2, 0], ends=[(0, 1), (2, 0), (1, 2)],
                           bstat=[1, 1, 1])),
         ('multi', dict(nums=[7, 8], types=[1, 3], gb=[1, 1, 0, 1], ends=[(1, 0)], bstat=[1], gstat=None)),
         ('noref', dict(nums=[3, 1, 2], types=[3, 2, 2], gb=[2, 0, 1], ends=[(0, 1), (1, 2), (2, 0)], bstat=[1, 1, 0])),
         ('tworef', dict(nums=[3, 1, 2], types=[3, 1, 3], gb=[2, 0], ends=[(0, 1), (1, 2)], gstat=[1, 1], width=17)),
         ('flowcols', dict(nums=[4, 3, 8], types=[2, 1, 3], gb=[2, 0, 0], ends=[(0, 1), (1, 2), (2, 0)], gstat=[1, 0, 1],
                           width=21))]
    if tier == 'thorough':
        d += [('four', dict(nums=[30, 4, 11, 2], types=[1, 3, 2, 4], gb=[2, 1, 3, 2], ends=[(0, 1), (2, 0), (1, 2), (3, 0)],
                            bstat=[1, 1, 1, 1])),
              ('four_all', dict(nums=[30, 4, 11, 2], types=[1, 3, 2, 1], gb=[2, 1], ends=[(0, 1), (2, 0), (1, 2), (3, 0)],
                                gstat=[1, 1]))]
    return [(nm, h, kw, dict(budget_s=600)) for nm, kw in d] + [('ints_' + w, h_ints, dict(which=w), {}) for w in ('gen', 'bus')]
