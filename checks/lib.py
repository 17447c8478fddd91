"""Shared builders for the harnesses: symbolic voltages, matrices, case tables."""
import numpy as np

BUS = dict(BUS_I=0, BUS_TYPE=1, PD=2, QD=3, GS=4, BS=5, BUS_AREA=6, VM=7, VA=8, BASE_KV=9, ZONE=10, VMAX=11, VMIN=12,
           LAM_P=13, LAM_Q=14, MU_VMAX=15, MU_VMIN=16)


def voltages(env, n, pre='', lo=0.5, hi=1.5, amax=3.0):
    """(vm list, va list, complex V array)"""
    vm = [env.var('%svm%d' % (pre, i), lo, hi) for i in range(n)]
    va = [env.var('%sva%d' % (pre, i), -amax, amax, angle=True) for i in range(n)]
    return vm, va


def vbuild(env, vm, va):
    return env.np.array([env.polar(m, a) for m, a in zip(vm, va)])


def cmat(env, name, m, n, pattern=None, lo=-10, hi=10):
    """complex matrix with unknown entries at the given pattern"""
    rows = []
    for i in range(m):
        r = []
        for j in range(n):
            if pattern is None or pattern[i][j]:
                r.append(env.cplx(env.var('%sr%d_%d' % (name, i, j), lo, hi),
                                  env.var('%si%d_%d' % (name, i, j), lo, hi)))
            else:
                r.append(env.cplx(0.0, 0.0))
        rows.append(r)
    return env.np.array(rows) if m else env.np.zeros((0, n), dtype=complex)


def diag(env, v):
    n = len(v)
    z = env.np.zeros((n, n), dtype=complex)
    for i in range(n):
        z[i, i] = v[i]
    return z


def cols(env, ders):
    """list of derivative vectors -> matrix with them as columns"""
    np_ = env.np
    n = ders[0].shape[0] if len(ders) else 0
    z = np_.zeros((n, len(ders)), dtype=complex)
    for k, d in enumerate(ders):
        for i in range(n):
            z[i, k] = d[i]
    return z


def cplx_zero(env):
    return env.cplx(0.0, 0.0)


def matvec(env, A, x):
    out = []
    m, n = A.shape
    for i in range(m):
        acc = cplx_zero(env)
        for j in range(n):
            acc = acc + A[i, j] * x[j]
        out.append(acc)
    return out


def conj(z):
    return z.conjugate()


def rand_params(env):
    pass


# -- case tables ------------------------------------------------------------

def branch_rows(env, ends, pre='b', r=(0.0, 1.0), x=(0.01, 2.0), b=(0.0, 1.0), tap=(0.3, 2.0), shift=(-60, 60),
                stat=(0, 1), rate=None, width=21, dc=False):
    """branch table with unknown parameters; ends: list of (from, to)"""
    rows = []
    for k, (f, t) in enumerate(ends):
        row = [0.0] * width
        row[0], row[1] = float(f), float(t)
        row[2] = 0.0 if dc else env.var('%sr%d' % (pre, k), *r)
        row[3] = env.var('%sx%d' % (pre, k), *x)
        row[4] = 0.0 if dc else env.var('%sb%d' % (pre, k), *b)
        if rate is not None:
            row[5] = env.var('%srate%d' % (pre, k), *rate)
        if tap is not None and env.choice('%stz%d' % (pre, k), [1, 0]):
            row[8] = env.var('%stap%d' % (pre, k), *tap)
        row[9] = env.var('%ssh%d' % (pre, k), *shift, angle=True) if shift is not None else 0.0
        row[10] = env.var('%sst%d' % (pre, k), dom=list(stat)) if len(stat) > 1 else float(stat[0])
        row[11], row[12] = -360.0, 360.0
        rows.append(row)
    return env.arr(rows)


def bus_rows(env, types, pre='u', numbers=None, sh=(-50, 50), load=(-100, 100), width=13, vm=None, va=None):
    rows = []
    for k, ty in enumerate(types):
        row = [0.0] * width
        row[0] = float(k if numbers is None else numbers[k])
        row[1] = float(ty) if not hasattr(ty, '_sym') else ty
        row[2] = env.var('%spd%d' % (pre, k), *load)
        row[3] = env.var('%sqd%d' % (pre, k), *load)
        row[4] = env.var('%sgs%d' % (pre, k), *sh)
        row[5] = env.var('%sbs%d' % (pre, k), *sh)
        row[6] = 1.0
        row[7] = 1.0 if vm is None else env.var('%svm%d' % (pre, k), *vm)
        row[8] = 0.0 if va is None else env.var('%sva%d' % (pre, k), *va, angle=True)
        row[9] = 135.0
        row[10] = 1.0
        row[11], row[12] = 1.1, 0.9
        rows.append(row)
    return env.arr(rows)


def gen_rows(env, buses, pre='g', stat=(0, 1), p=(-100, 300), q=(-100, 100), width=21, vg=(0.9, 1.1), qlim=None,
             plim=None, mbase=100.0):
    rows = []
    for k, b in enumerate(buses):
        row = [0.0] * width
        row[0] = float(b)
        row[1] = env.var('%spg%d' % (pre, k), *p)
        row[2] = env.var('%sqg%d' % (pre, k), *q)
        row[3], row[4] = 100.0, -100.0
        if qlim is not None:
            row[3] = env.var('%sqmax%d' % (pre, k), *qlim)
            row[4] = env.var('%sqmin%d' % (pre, k), *qlim)
        row[5] = env.var('%svg%d' % (pre, k), *vg) if vg else 1.0
        row[6] = mbase
        row[7] = env.var('%sst%d' % (pre, k), dom=list(stat)) if len(stat) > 1 else float(stat[0])
        row[8], row[9] = 200.0, 0.0
        if plim is not None:
            row[8] = env.var('%spmax%d' % (pre, k), *plim)
            row[9] = env.var('%spmin%d' % (pre, k), *plim)
        rows.append(row)
    return env.arr(rows) if rows else env.np.zeros((0, width))


def pi_currents(env, br, ends, V):
    """currents into each branch at its from / to end: series impedance, half charging at both ends, ideal
    transformer at the from end (ratio 0 means 1)"""
    If, It = [], []
    for k, (f, t) in enumerate(ends):
        st = br[k, 10]
        z = env.cplx(br[k, 2], br[k, 3])
        y = 1 / z
        tap = br[k, 8]
        tap = 1.0 if tap == 0 else tap
        a = env.polar(tap, br[k, 9] * np.pi / 180)
        vf, vt = V[f] / a, V[t]
        half = env.cplx(0 * br[k, 4], br[k, 4] / 2)
        ia = (vf - vt) * y + half * vf
        ib = (vt - vf) * y + half * vt
        If.append(st * (ia / conj(a)))
        It.append(st * ib)
    return If, It


def bus_currents(env, bus, br, ends, V, base):
    If, It = pi_currents(env, br, ends, V)
    out = []
    for i in range(bus.shape[0]):
        acc = env.cplx(bus[i, 4] / base, bus[i, 5] / base) * V[i]
        for k, (f, t) in enumerate(ends):
            if f == i:
                acc = acc + If[k]
            if t == i:
                acc = acc + It[k]
        out.append(acc)
    return out


def cart(env, n, pre='v'):
    return env.np.array([env.cplx(env.var('%sre%d' % (pre, i), -2, 2), env.var('%sim%d' % (pre, i), -2, 2))
                         for i in range(n)])


def snapshot(x):
    """deep copy of nested tables"""
    if isinstance(x, dict):
        return dict((k, snapshot(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return type(x)(snapshot(v) for v in x)
    if hasattr(x, 'copy'):
        return x.copy()
    return x


def dc_flows(env, br, ends, th):
    """per unit DC flow at the from end of every branch for the angles th (list)"""
    out = []
    for k, (f, t) in enumerate(ends):
        tap = br[k, 8]
        tap = 1.0 if tap == 0 else tap
        out.append(br[k, 10] * (th[f] - th[t] - br[k, 9] * np.pi / 180) / (br[k, 3] * tap))
    return out


def dc_inj(env, nb, ends, flows):
    out = []
    for i in range(nb):
        acc = 0.0
        for k, (f, t) in enumerate(ends):
            if f == i:
                acc = acc + flows[k]
            if t == i:
                acc = acc - flows[k]
        out.append(acc)
    return out


def dense_vec(env, x):
    """1-D view of a vector-like result"""
    return env.np.asarray(env.dense(x)).reshape(-1)


def ybus_stamp(env, nb, ends, r, x, b, tap, shift, stat, gs, bs, base):
    """bus admittance matrix stamped branch by branch (all arguments are lists; tap 0 means 1; shift in degrees)"""
    Y = env.np.zeros((nb, nb), dtype=complex)
    for k, (f, t) in enumerate(ends):
        y = stat[k] / env.cplx(r[k], x[k])
        half = env.cplx(0 * b[k], stat[k] * b[k] / 2)
        tp = tap[k]
        if tp == 0:
            tp = 1.0
        a = env.polar(tp, shift[k] * np.pi / 180)
        Y[f, f] = Y[f, f] + (y + half) / (tp * tp)
        Y[t, t] = Y[t, t] + y + half
        Y[f, t] = Y[f, t] - y / conj(a)
        Y[t, f] = Y[t, f] - y / a
    for i in range(nb):
        Y[i, i] = Y[i, i] + env.cplx(gs[i] / base, bs[i] / base)
    return Y


def col(t, c):
    return [t[k, c] for k in range(t.shape[0])]
