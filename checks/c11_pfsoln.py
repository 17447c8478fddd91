"""C11: pfsoln."""
import numpy as np

from checks.lib import voltages, vbuild, cmat, conj, matvec, snapshot, bus_rows, gen_rows
from checks.c08_derivs import pat

INFO = dict(
    functions=['pfsoln'],
    bounds='2-3 buses, 1-4 generators (several per bus, on or off), 1-3 branches (on or off); voltages, admittance matrices, '
           'loads, dispatch, base power and finite reactive limits symbolic; zero and positive reactive ranges',
    outside='infinite reactive limits (the proportional split is undefined); a reference bus without generator',
    assumptions='the machine-epsilon guard in the split is dropped')


def h(env, n, ends, gb, rng, ref, stat=(1,), bst=(0, 1)):
    env.drop_eps()
    np_ = env.np
    base = env.var('base', 1, 500)
    vm, va = voltages(env, n)
    V = vbuild(env, vm, va)
    nl, ng = len(ends), len(gb)
    Y = cmat(env, 'y', n, n, lo=-3, hi=3)
    Yf, Yt = cmat(env, 'yf', nl, n, pat(n, ends)), cmat(env, 'yt', nl, n, pat(n, ends))
    bus = bus_rows(env, [3 if i in ref else 1 for i in range(n)])
    gen = gen_rows(env, gb, stat=stat)
    for k in range(ng):
        lo = env.var('qmin%d' % k, -100, 0)
        gen[k, 4] = lo
        gen[k, 3] = lo + (env.var('qr%d' % k, 1, 100) if rng[k] else 0.0)
    br = np_.zeros((nl, 17))
    for k, (f, t) in enumerate(ends):
        br[k, 0], br[k, 1] = float(f), float(t)
        br[k, 10] = env.var('bst%d' % k, dom=list(bst)) if len(bst) > 1 else 1.0
        for c in range(13, 17):
            br[k, c] = env.var('old%d_%d' % (k, c), -9, 9)
    on = [k for k in range(ng) if gen[k, 7] > 0]
    for r in ref:
        if not any(gb[k] == r for k in on):
            env.assume(False)
    b0, g0, r0 = snapshot(bus), snapshot(gen), snapshot(br)
    bus, gen, br = env.fn('pfsoln')(base, bus, gen, br, env.sparse(Y), env.sparse(Yf), env.sparse(Yt), V,
                                    np_.array(ref), np_.array([], dtype=int), np_.array([], dtype=int))
    env.eq('VM', bus[:, 7], env.arr(vm))
    env.eq('VA', bus[:, 8], env.arr([a * 180 / np.pi for a in va]))
    I, If, It = matvec(env, Y, V), matvec(env, Yf, V), matvec(env, Yt, V)
    inj = [V[i] * conj(I[i]) for i in range(n)]
    for i in range(n):
        here = [k for k in on if gb[k] == i]
        if not here:
            continue
        q = 0.0
        for k in here:
            q = q + gen[k, 2]
        tot = inj[i].imag * base + b0[i, 3]
        env.eq('total Q at bus', q, tot, tol=1e-5)
        R, m = 0.0, 0.0
        for k in here:
            R, m = R + (g0[k, 3] - g0[k, 4]), m + g0[k, 4]
        for k in here:
            if not any(rng[j] for j in here):
                env.eq('equal split', gen[k, 2] * len(here), tot, tol=1e-5)
            else:
                env.eq('split by range', gen[k, 2], g0[k, 4] + (tot - m) * (g0[k, 3] - g0[k, 4]) / R, tol=1e-5)
        if i in ref:
            p = 0.0
            for k in here:
                p = p + gen[k, 1]
            env.eq('slack P', p, inj[i].real * base + b0[i, 2], tol=1e-5)
    first = [next(k for k in on if gb[k] == r) for r in ref]
    env.eq('other dispatch kept', [gen[k, 1] for k in range(ng) if k not in first],
           [g0[k, 1] for k in range(ng) if k not in first])
    env.eq('off units', [gen[k, 2] for k in range(ng) if k not in on], [0.0] * (ng - len(on)))
    for k, (f, t) in enumerate(ends):
        st = br[k, 10]
        a, b = V[f] * conj(If[k]) * base * st, V[t] * conj(It[k]) * base * st
        env.eq('branch flows', [br[k, c] for c in (13, 14, 15, 16)], [a.real, a.imag, b.real, b.imag], tol=1e-5)
    env.eq('rest of the case kept', [bus[:, :7], bus[:, 9:], gen[:, 0], gen[:, 3:], br[:, :13]],
           [b0[:, :7], b0[:, 9:], g0[:, 0], g0[:, 3:], r0[:, :13]])


def harnesses(tier):
    d = [('one', dict(n=2, ends=[(0, 1)], gb=[0], rng=[1], ref=[0])),
         ('share', dict(n=2, ends=[(0, 1)], gb=[0, 0], rng=[1, 1], ref=[0])),
         ('share_mixed', dict(n=2, ends=[(1, 0)], gb=[1, 1, 0], rng=[0, 1, 0], ref=[1])),
         ('share_zero', dict(n=2, ends=[(1, 0)], gb=[1, 0, 1], rng=[0, 1, 0], ref=[1])),
         ('status', dict(n=2, ends=[(0, 1), (1, 0)], gb=[1, 0, 0], rng=[1, 1, 1], ref=[0], stat=(0, 1), bst=(1,))),
         ('tworef', dict(n=3, ends=[(0, 1), (2, 1)], gb=[2, 0, 1], rng=[1, 1, 1], ref=[0, 2], bst=(1,))),
         ('three', dict(n=3, ends=[(0, 1), (2, 1), (0, 2)], gb=[2, 0, 2], rng=[1, 1, 1], ref=[2])),
         ('order', dict(n=3, ends=[(2, 0)], gb=[2, 1, 2, 1], rng=[1, 1, 1, 0], ref=[1], stat=(0, 1), bst=(1,)))]
    return [(nm, h, kw, dict(budget_s=500)) for nm, kw in d]
