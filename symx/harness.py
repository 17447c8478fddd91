"""Harness environment: the same harness body runs symbolically (deciding) and
on the real code with real numpy (replay of counterexamples, path validation)."""
import contextlib
import copy
import importlib
import io
import json
import math
import os
import sys
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from .core import (World, S, C, B, Unsupported, PathAbort, ZeroDivision, polar as cpolar, sdiff, p2z, padd, pneg,
                   patoms, clear_denoms, num, snap, q2z, bor, band, Atom, psign, smax)
from scipy.sparse.linalg import MatrixRankWarning
from . import arr, sparse
from .explore import Explorer
from .loader import Loader, REPO


class AssumeFail(Exception):
    pass


class CheckFailed(Exception):
    pass


def _flat(x):
    """list of (path, scalar) of a nested value"""
    if getattr(x, '_is_spmat', False):
        if isinstance(x, sparse._BoolSp):
            return _flat(x.m)
        return _flat(x.toarray())
    if hasattr(x, 'toarray'):
        return _flat(x.toarray())
    if isinstance(x, np.ndarray):
        return [(ix, x[ix]) for ix in np.ndindex(x.shape)] if not isinstance(x, np.matrix) else \
            _flat(np.asarray(x) if not isinstance(x, arr.SMat) else arr.asarray(x))
    if isinstance(x, dict):
        out = []
        for k in sorted(x, key=str):
            out += [((k,) + p, v) for p, v in _flat(x[k])]
        return out
    if isinstance(x, (list, tuple)):
        out = []
        for i, v in enumerate(x):
            out += [((i,) + p, w) for p, w in _flat(v)]
        return out
    return [((), x)]


def _args(c):
    out = []
    for x in c:
        out += _args(x) if isinstance(x, (list, tuple)) else [x]
    return out


FRAC = 0.4321234


class Text(object):
    """numbers that stand for symbolic values in written text: each value gets a number of its own, told apart
    by its integer part; the fraction .4321234 tells it from a plain constant and shows the decimals kept"""

    def __init__(self, base, count):
        self.base, self.count = base, count
        self.ids, self.vals = {}, []

    def token(self, s):
        k = tuple(sorted(s.p.items()))
        if k not in self.ids:
            if len(self.vals) >= self.count:
                raise Unsupported('too many different values in one text')
            self.ids[k] = len(self.vals)
            self.vals.append(s)
        return self.base + self.ids[k] + FRAC

    def value(self, x, dec):
        """the symbolic value a printed number stands for; None: it is a plain number"""
        k = int(x) - self.base
        if dec == 0 and 0 <= k < len(self.vals) and x == int(x):
            return self.vals[k]
        if 0 <= k < len(self.vals) and abs(x - round(self.base + k + FRAC, dec)) < 1e-9:
            return self.vals[k]
        return None


def _decimals(t):
    return len(t.split('.')[1]) if '.' in t else 0


class BaseEnv(object):
    symbolic = False

    def choice(self, name, options):
        """a discrete input; options is a list"""
        k = self.var(name, dom=list(range(len(options))))
        return options[int(k)]

    def vec(self, name, n, lo=None, hi=None, **k):
        return self.arr([self.var('%s%d' % (name, i), lo, hi, **k) for i in range(n)])

    def mat(self, name, m, n, lo=None, hi=None):
        return self.arr([[self.var('%s%d_%d' % (name, i, j), lo, hi) for j in range(n)] for i in range(m)])

    def leq(self, label, a, b):
        """a <= b elementwise"""
        self.cmp(label, a, b)


class RealEnv(BaseEnv):
    def __init__(self, values, rtol=1e-6, atol=1e-7):
        self.values = values
        self.np = np
        import scipy.sparse as sp
        self.sp = sp
        self.failed = []
        self.nchecks = 0
        self.rtol, self.atol = rtol, atol
        self.outcome = {}
        self._patches = []

    def mod(self, name):
        return importlib.import_module('pypower.' + name)

    def fn(self, name, attr=None):
        return getattr(self.mod(name), attr or name.split('.')[-1])

    def patch(self, modname, attr, val):
        m = self.mod(modname)
        self._patches.append((m, attr, getattr(m, attr, None), hasattr(m, attr)))
        setattr(m, attr, val)

    def unpatch(self):
        for m, a, v, had in reversed(self._patches):
            if had:
                setattr(m, a, v)
            else:
                delattr(m, a)
        self._patches = []

    def var(self, name, lo=None, hi=None, dom=None, angle=False):
        v = self.values.get(name)
        if v is None:
            if dom is not None:
                v = float(dom[0])
            else:
                a = -1.0 if lo is None else float(lo)
                b = 1.0 if hi is None else float(hi)
                v = 0.5 * (a + b) + 0.137 * (b - a) * 0.5
        if dom is not None:
            v = min(dom, key=lambda d: abs(d - v))
        return float(v)

    fresh = var

    def arr(self, x, dtype=None):
        return np.array(x, dtype=float if dtype is None and not _has_cplx(x) else dtype)

    def obj_scalar(self, x):
        return x

    def polar(self, m, a):
        return m * np.exp(1j * a)

    def cplx(self, re, im):
        return complex(re, im)

    def sparse(self, x):
        return self.sp.csr_matrix(x)

    def dense(self, x):
        if hasattr(x, 'toarray'):
            x = x.toarray()
        return np.asarray(x)

    def assume(self, c):
        if isinstance(c, np.ndarray):
            c = c.all()
        if not c:
            raise AssumeFail()

    def Or(self, *c):
        v = _args(c)
        return True if any(x is not None and bool(x) for x in v) else None if any(x is None for x in v) else False

    def And(self, *c):
        v = _args(c)
        return False if any(x is not None and not bool(x) for x in v) else None if any(x is None for x in v) else True

    # three-valued comparisons: None where rounding could decide
    def le(self, a, b):
        d = abs(a - b)
        if math.isfinite(d) and d <= 1e-7 * (1 + abs(a) + abs(b)):
            return None
        return bool(a <= b)

    def equal(self, a, b):
        d = abs(a - b)
        if not math.isfinite(d):
            return bool(a == b)
        return None if d <= 1e-7 * (1 + abs(a) + abs(b)) else False

    def Not(self, c):
        return None if c is None else not c

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def _fail(self, label, msg):
        self.failed.append((label, msg))

    def ok(self, label, cond, slack=None):
        """cond may be a bool or a pair (margin) : >= 0 means fine"""
        self.nchecks += 1
        if isinstance(cond, np.ndarray):
            cond = bool(np.all(cond))
        if cond is not None and not cond:
            self._fail(label, 'condition is false')

    def cmp(self, label, a, b, tol=None):
        self.nchecks += 1
        tol = tol if tol is not None else self.atol
        A, Bv = np.broadcast_arrays(np.asarray(self.dense(a), dtype=float), np.asarray(self.dense(b), dtype=float))
        for ix in np.ndindex(A.shape):
            x, y = A[ix], Bv[ix]
            if not (x <= y + tol + self.rtol * (abs(y) if np.isfinite(y) else 0)):
                self._fail(label, '%s: %r <= %r does not hold' % (ix, x, y))
                return

    def eq(self, label, a, b, tol=None):
        self.nchecks += 1
        fa, fb = _flat(a), _flat(b)
        if [p for p, _ in fa] != [p for p, _ in fb]:
            self._fail(label, 'shapes differ: %s vs %s' % (_shape_of(a), _shape_of(b)))
            return
        for (p, x), (_, y) in zip(fa, fb):
            if not _close(x, y, tol if tol is not None else self.atol, self.rtol):
                self._fail(label, 'at %s: %r vs %r' % (p[1:] if p else '', x, y))
                return

    def diff(self, f, x, eps=1e-6):
        """central difference of vector-valued f at the list of floats x; returns list of d f / d x_k"""
        out = []
        for k in range(len(x)):
            h = eps * max(1.0, abs(x[k]))
            xp, xm = list(x), list(x)
            xp[k] += h
            xm[k] -= h
            out.append((self.dense(f(xp)) - self.dense(f(xm))) / (2 * h))
        return out

    def cos(self, x):
        return np.cos(x)

    def sin(self, x):
        return np.sin(x)

    def sqrt(self, x):
        return np.sqrt(x)

    def abs(self, x):
        return abs(x)

    def max(self, xs):
        return max(xs)

    def min(self, xs):
        return min(xs)

    def exact(self, x):
        return x

    def text(self, base=10, count=89):
        pass

    def shows(self, label, text, value, dec):
        """the printed number is the value, with at least that many decimals"""
        self.nchecks += 1
        try:
            x = float(text)
        except ValueError:
            return self._fail(label, 'no number printed: %r' % text)
        d = _decimals(text)
        if d < dec or abs(x - float(value)) > 0.5 * 10.0 ** -d + 1e-9 * (1 + abs(float(value))):
            self._fail(label, 'printed %r for %r' % (text, float(value)))

    def reads(self, label, a, want, ab=0.0):
        """numbers read back from text are the written ones up to 9 digits (or ab)"""
        self.nchecks += 1
        A, B_ = np.asarray(self.dense(a), dtype=float), np.asarray(self.dense(want), dtype=float)
        if A.shape != B_.shape:
            return self._fail(label, 'shapes differ: %s vs %s' % (A.shape, B_.shape))
        bad = ~(abs(A - B_) <= 5.1e-9 * abs(B_) + ab) & ~(A == B_)
        if bad.any():
            ix = tuple(int(v[0]) for v in np.nonzero(bad))
            self._fail(label, 'at %s: %r read back for %r' % (ix, A[ix], B_[ix]))

    def solver(self, mode):
        pass

    def assume_denominators(self):
        pass

    def name_long(self, n):
        pass

    def drop_eps(self):
        pass

    def require(self, cond):
        """stop the harness here when cond is concretely false after recording checks"""
        return cond


def _has_cplx(x):
    if isinstance(x, (list, tuple)):
        return any(_has_cplx(v) for v in x)
    if isinstance(x, np.ndarray):
        return x.dtype.kind == 'c'
    return isinstance(x, (complex, np.complexfloating))


def _shape_of(x):
    if hasattr(x, 'shape'):
        return x.shape
    if isinstance(x, (list, tuple)):
        return [_shape_of(v) for v in x][:6]
    if isinstance(x, dict):
        return sorted(map(str, x))
    return type(x).__name__


def _close(x, y, atol, rtol):
    if x is None or y is None or isinstance(x, str) or isinstance(y, str):
        return x is y or x == y
    try:
        xc, yc = complex(x), complex(y)
    except (TypeError, ValueError):
        return x == y
    if xc == yc:
        return True
    if xc != xc and yc != yc:
        return True
    if not (math.isfinite(abs(xc)) and math.isfinite(abs(yc))):
        return False
    return abs(xc - yc) <= atol + rtol * max(abs(xc), abs(yc))


class SymEnv(BaseEnv):
    symbolic = True

    def __init__(self, world, explorer, loader, goal_ms, label_filter=None):
        self.w = world
        self.ex = explorer
        self.loader = loader
        self.np = loader.np
        self.sp = loader.sp
        self.leaves = []
        self.leafset = {}
        self.goal_ms = goal_ms
        self.results = []            # (label, status, assignment, detail)
        self.nchecks = 0
        self.cexs = []
        self._patches = []
        self.label_filter = label_filter

    def mod(self, name):
        return self.loader.load('pypower.' + name)

    def fn(self, name, attr=None):
        return getattr(self.mod(name), attr or name.split('.')[-1])

    def patch(self, modname, attr, val):
        m = self.mod(modname)
        self._patches.append((m, attr, getattr(m, attr, None), hasattr(m, attr)))
        setattr(m, attr, val)

    unpatch = RealEnv.unpatch

    def var(self, name, lo=None, hi=None, dom=None, angle=False):
        at = self.leafset.get(name)
        if at is None:
            at = self.w.bykey.get(('in', name))
            if at is None:
                at = self.w.new(name, 'in', ('in', name))
                at.info = dict(angle=angle, dom=dom)
                if dom is not None:
                    dom = [num(d) for d in dom]
                    at.info['dom'] = dom
                    at.lo, at.hi = min(dom), max(dom)
                    at.defs.append(z3.Or(*[at.var == q2z(d) for d in dom]))
                else:
                    if lo is not None:
                        at.lo = num(lo)
                        at.defs.append(at.var >= q2z(at.lo))
                    if hi is not None:
                        at.hi = num(hi)
                        at.defs.append(at.var <= q2z(at.hi))
            self.leafset[name] = at
            self.leaves.append(at)
        if at.info.get('dom') and len(at.info['dom']) == 1:
            return S.of(at.info['dom'][0])
        return S({((at.id, 1),): 1})

    fresh = var

    def arr(self, x, dtype=None):
        return arr.array(x, dtype=float if dtype is None else dtype)

    def polar(self, m, a):
        if isinstance(m, np.ndarray):
            out = [cpolar(x, y) for x, y in zip(m, a)]
            return arr.array(out)
        return cpolar(m, a)

    def cplx(self, re, im):
        return C(S.of(re), S.of(im))

    def sparse(self, x):
        return sparse.csr_matrix(x)

    def dense(self, x):
        if getattr(x, '_is_spmat', False):
            return x.toarray()
        return arr.asarray(x)

    def assume(self, c):
        if isinstance(c, np.ndarray):
            for v in c.reshape(-1):
                self.assume(v if isinstance(v, B) else bool(v))
            return
        if isinstance(c, B):
            if not self.ex.feasible(c):
                raise PathAbort('assume')
            self.ex.assume(c)
        elif not c:
            raise PathAbort('assume')

    def Or(self, *c):
        return bor(_args(c))

    def And(self, *c):
        return band(_args(c))

    def Not(self, c):
        return ~c if isinstance(c, B) else not c

    def le(self, a, b):
        return S.of(a) <= S.of(b)

    def equal(self, a, b):
        return S.of(a) == S.of(b)

    def Implies(self, a, b):
        return bor([self.Not(a), b])

    # -- goals
    def _goal(self, label, bad, strong=None, detail=''):
        self.nchecks += 1
        if self.label_filter and label not in self.label_filter:
            return
        if isinstance(bad, bool) or isinstance(bad, np.bool_):
            if not bad:
                self.results.append((label, 'unsat', detail))
                return
        st, m = self.ex.prove(bad, self.leaves, self.goal_ms, strong=strong)
        self.results.append((label, st, detail))
        if st != 'unsat':
            self.cexs.append((label, st, m, bad, strong))

    def ok(self, label, cond, slack=None):
        if isinstance(cond, np.ndarray):
            cond = band([v for v in cond.reshape(-1)])
        if isinstance(cond, B):
            self._goal(label, ~cond)
        else:
            self._goal(label, not bool(cond))

    def cmp(self, label, a, b, tol=None):
        A = arr.obj(self.dense(a) if not isinstance(a, (S, int, float)) else a)
        Bv = arr.obj(self.dense(b) if not isinstance(b, (S, int, float)) else b)
        A, Bv = np.broadcast_arrays(A, Bv)
        bads, strongs = [], []
        for ix in np.ndindex(A.shape):
            x, y = A[ix], Bv[ix]
            bads.append(x > y)
            strongs.append(x > y + Fraction(1, 1000))
        self._goal(label, bor(bads), bor(strongs))

    def eq(self, label, a, b, tol=None):
        fa, fb = _flat(a), _flat(b)
        if [p for p, _ in fa] != [p for p, _ in fb]:
            self._goal(label, True, detail='shapes differ: %s vs %s' % (_shape_of(a), _shape_of(b)))
            return
        bads, strongs, ats = [], [], set()
        d = ''
        for (p, x), (_, y) in zip(fa, fb):
            if x is None or y is None or isinstance(x, str) or isinstance(y, str):
                if not (x is y or (isinstance(x, str) and isinstance(y, str) and x == y)):
                    bads.append(z3.BoolVal(True))
                    strongs.append(z3.BoolVal(True))
                    d = 'at %s: %r vs %r' % (p, x, y)
                continue
            if not isinstance(x, (S, C, B, bool, int, float, complex, np.number, np.bool_, Fraction)):
                if not (x is y or x == y):
                    bads.append(z3.BoolVal(True))
                    strongs.append(z3.BoolVal(True))
                    d = 'at %s: %r vs %r' % (p, x, y)
                continue
            if isinstance(x, B) or isinstance(y, B):
                x, y = bool(x), bool(y)
            x, y = C.of(arr.conv(x)), C.of(arr.conv(y))
            for u, v in ((x.re, y.re), (x.im, y.im)):
                if u.sp or v.sp:
                    if u.sp != v.sp:
                        bads.append(z3.BoolVal(True))
                        strongs.append(z3.BoolVal(True))
                        d = 'at %s: %r vs %r' % (p, u, v)
                    continue
                v = S(snap(u.p, v.p))
                if u.p == v.p:
                    if u.p:
                        bads.append(('same', u.p, v.p))
                    continue
                dd = padd(u.p, pneg(v.p))
                bads.append(('ne', u.p, v.p, dd))
                strongs.append(('st', dd))
                if not d:
                    d = 'at %s' % (p[1:],)
        zb, zs = [], []
        for t in bads:
            if not isinstance(t, tuple):
                zb.append(t)
                zs.append(t)
                continue
            up, vp = t[1], t[2]
            if t[0] == 'same':
                zb.append(p2z(up) != p2z(vp))
                ats |= patoms(up)
                continue
            cu, cv = clear_denoms([up, vp])
            cv = snap(cu, cv)
            # cross-multiplied by reciprocals' denominators (non-zero by definition)
            zb.append(p2z(cu) != p2z(cv))
            ats |= patoms(cu) | patoms(cv) | patoms(up) | patoms(vp)
        for t in strongs:
            if isinstance(t, tuple):
                e = p2z(t[1])
                zs.append(z3.Or(e > q2z(Fraction(1, 1000)), e < q2z(Fraction(-1, 1000))))
        bad = B(z3.Or(*zb), ats) if zb else False
        strong = B(z3.Or(*zs), ats) if zs else None
        self._goal(label, bad, strong, detail=d)

    def diff(self, f, x, eps=None):
        y = self.dense(f(list(x)))
        out = []
        for v in x:
            r = np.empty(y.shape, dtype=object)
            for ix in np.ndindex(y.shape):
                r[ix] = sdiff(y[ix], v)
            out.append(r.view(arr.SArr))
        return out

    def cos(self, x):
        return self.np.cos(x)

    def sin(self, x):
        return self.np.sin(x)

    def sqrt(self, x):
        return self.np.sqrt(x)

    def abs(self, x):
        return abs(x)

    def max(self, xs):
        return smax(list(xs))

    def min(self, xs):
        return smax(list(xs), True)

    def exact(self, x):
        return S.of(x)

    def text(self, base=10, count=89):
        self.w.text = Text(base, count)

    def shows(self, label, text, value, dec):
        try:
            x = float(text)
        except ValueError:
            return self._goal(label, True, detail='no number printed: %r' % text)
        d = _decimals(text)
        e = self.w.text.value(x, d)
        value = S.of(value) if not isinstance(value, S) else value
        if d < dec:
            self._goal(label, True, detail='printed %r' % text)
        elif e is not None:
            self.eq(label, e, value)
        else:
            e = S.of(Fraction(text.strip()))
            h = Fraction(1, 2 * 10 ** d) + Fraction(1, 10 ** 9)
            self.ok(label, band([e - h <= value, value <= e + h]))

    def reads(self, label, a, want, ab=0.0):
        A, Wt = arr.obj(self.dense(a)), arr.obj(self.dense(want))
        if A.shape != Wt.shape:
            return self._goal(label, True, detail='shapes differ: %s vs %s' % (A.shape, Wt.shape))
        got = np.empty(A.shape, dtype=object)
        for ix in np.ndindex(A.shape):
            x = float(A[ix])
            if not math.isfinite(x):
                got[ix] = x
                continue
            t = self.w.text
            e = t.value(x, 7)
            if e is None and ab >= 5e-5:
                e = t.value(x, 4)
            if e is None and not S.of(Wt[ix]).isconst():
                for d in range(7):               # digits lost
                    v = t.value(x, d)
                    if v is not None:
                        e = v + Fraction(str(x)) - Fraction(str(round(int(x) + FRAC, 7)))
                        break
            got[ix] = e if e is not None else S.of(x)
        self.eq(label, got, Wt)

    def solver(self, mode):
        self.w.solver_mode = mode

    def drop_eps(self):
        """guards of machine-epsilon size added to unknowns are rounding, not part of the claim"""
        self.w.drop_eps = True

    def name_long(self, n):
        """give values longer than n terms a name of their own when they are stored"""
        self.w.name_over = n

    def assume_denominators(self):
        """divisions by an open value assume it is not zero (instead of forking on it)"""
        self.w.div_nonzero = True

    def require(self, cond):
        return cond


# --------------------------------------------------------------------------

@contextlib.contextmanager
def quiet():
    old = sys.stdout, sys.stderr
    sys.stdout = io.StringIO()
    sys.stderr = io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = old


def real_run(fn, params, values):
    """run the harness on the real code; returns (status, failed list)"""
    import warnings
    env = RealEnv(values)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        warnings.filterwarnings('error', category=MatrixRankWarning)
        with np.errstate(all='ignore'):
            with quiet():
                try:
                    fn(env, **params)
                except AssumeFail:
                    return 'assume', env.failed, env
                except (MatrixRankWarning, np.linalg.LinAlgError) as e:
                    return 'assume', env.failed, env        # singular system: outside the stated assumption
                except RuntimeError as e:
                    if 'singular' in str(e):
                        return 'assume', env.failed, env
                    env.failed.append(('exception', '%s: %s' % (type(e).__name__, e)))
                    return 'exception', env.failed, env
                except Exception as e:
                    env.failed.append(('exception', '%s: %s' % (type(e).__name__, e)))
                    env.tb = traceback.format_exc()
                    return 'exception', env.failed, env
                finally:
                    env.unpatch()
    return ('fail' if env.failed else 'ok'), env.failed, env


def run_harness(name, fn, params, seed=1, goal_ms=20000, budget_s=600, max_paths=4000, feas_ms=2500,
                validate=True, loader=None, known=()):
    """explore one harness symbolically; returns a result dict"""
    t0 = time.time()
    res = dict(name=name, params={k: repr(v) for k, v in params.items()}, violations=[], known=[], errors=[],
               obligations=0, discharged=0, paths=0, aborted=0, validated=0, labels={}, samples=[], assumefail=0)
    loader = loader or Loader()
    world = World()
    World.cur = world
    ex = Explorer(world, seed=seed, feas_ms=feas_ms, max_paths=max_paths)
    seen_viol = set()
    try:
        while True:
            prefix = ex.next_prefix()
            if prefix is None:
                break
            if len(res['violations']) >= 3 or (res['violations'] and time.time() - t0 > 60):
                break
            if time.time() - t0 > budget_s:
                raise Unsupported('time budget exceeded (%d s)' % budget_s)
            ex.begin(prefix)
            world.solver_mode = 'cramer'
            world.div_nonzero = False
            world.drop_eps = False
            world.name_over = None
            world.text = None
            env = SymEnv(world, ex, loader, goal_ms)
            exc = None
            try:
                with quiet():
                    fn(env, **params)
            except PathAbort:
                res['aborted'] += 1
                if not env.cexs:
                    for lab, st, _ in env.results:
                        res['obligations'] += 1
                        res['discharged'] += st == 'unsat'
                    continue
                exc = None
            except Unsupported as e:
                exc = ('unsupported', e, traceback.format_exc())
            except Exception as e:
                exc = ('exception', e, traceback.format_exc())
            finally:
                env.unpatch()
            res['paths'] += 1
            for lab, st, det in env.results:
                res['obligations'] += 1
                d = res['labels'].setdefault(lab, [0, 0])
                d[0] += 1
                if st == 'unsat':
                    res['discharged'] += 1
                    d[1] += 1
            if exc is not None:
                res['obligations'] += 1
                _handle_exc(res, fn, params, env, exc, seen_viol, known, ex)
            for lab, st, m, bad, strong in env.cexs:
                _handle_cex(res, fn, params, env, lab, st, m, bad, strong, seen_viol, known)
            if validate and exc is None and not env.cexs:
                m = ex.path_model(env.leaves)
                if m is not None:
                    st, failed, renv = real_run(fn, params, m)
                    if st == 'assume':
                        res['assumefail'] += 1
                    elif st == 'ok':
                        res['validated'] += 1
                        if len(res['samples']) < 2:
                            res['samples'].append(dict(harness=name, inputs=m))
                    else:
                        _viol(res, failed[0][0], failed[0][1] + ' (path witness)', m, seen_viol, known)
    except Unsupported as e:
        res['errors'].append('unsupported: %s' % e)
    except Exception as e:
        res['errors'].append('engine: %s' % traceback.format_exc())
    if not res['errors'] and not res['violations'] and not res['known']:
        if res['obligations'] == 0:
            res['errors'].append('vacuous: no obligation reached')
        elif validate and res['validated'] == 0:
            res['errors'].append('vacuous: no path could be witnessed on the real code')
    res['stats'] = ex.stats
    res['modules'] = sorted(loader.functions)
    res['wall_s'] = time.time() - t0
    return res


def _viol(res, label, msg, m, seen, known):
    kid = '%s/%s' % (res['name'], label)
    hit = None
    for k in known:
        if k['harness'] in (res['name'], res['name'].split('[')[0]) and k['label'] == label:
            hit = k
    if hit is not None:
        if kid not in [x['id'] for x in res['known']]:
            res['known'].append(dict(id=kid, label=label, msg=msg, inputs=m, what=hit['what']))
        return
    if kid in seen:
        return
    seen.add(kid)
    res['violations'].append(dict(id=kid, label=label, msg=msg, inputs=m))


def _handle_exc(res, fn, params, env, exc, seen, known, ex):
    kind, e, tb = exc
    tries = [ex.path_model(env.leaves, 4)]
    g = ex.generic_model(None, env.leaves, 8000)
    tries.append(g)
    any_model = False
    sts = []
    for m in tries:
        if m is None:
            continue
        any_model = True
        st, failed, renv = real_run(fn, params, m)
        sts.append(st)
        if st in ('exception', 'fail'):
            _viol(res, failed[0][0], failed[0][1], m, seen, known)
            return
    if kind == 'exception' and isinstance(e, ZeroDivision) and any_model and all(s in ('ok', 'assume') for s in sts):
        res.setdefault('divzero', 0)
        res['divzero'] += 1
        res['discharged'] += 1
        return
    if not any_model:
        res['errors'].append('%s on a path without witness: %s\n%s' % (kind, e, tb))
    else:
        res['errors'].append('%s not reproduced on the real code (%s): %s\n%s' % (kind, sts, e, tb))


def _search(fn, params, env, lab, n=60):
    """an input assignment on which the real code fails obligation `lab` (None: any)"""
    import random
    for k in range(n):
        if k < 8:
            c = env.ex.sampled(None, env.leaves, k + 200, ms=1000)
            if c is None:
                continue
        else:
            rnd = random.Random('s%d' % k)
            v = env.ex.random_values(env.leaves, rnd, k)
            c = dict((lf.name, float(v[lf.id])) for lf in env.leaves)
        s, failed, renv = real_run(fn, params, c)
        if s in ('fail', 'exception'):
            f = next((f for f in failed if f[0] == lab), None if lab else failed[0])
            if f is not None:
                return c, f[1]
    return None


def _handle_cex(res, fn, params, env, lab, st, m, bad, strong, seen, known):
    kid = '%s/%s' % (res['name'], lab)
    if kid in seen:
        return
    cands = [m] if m is not None else []
    for c in cands:
        s, failed, renv = real_run(fn, params, c)
        if s in ('fail', 'exception'):
            f = next((f for f in failed if f[0] == lab), failed[0])
            _viol(res, f[0], f[1], c, seen, known)
            return
    # further counterexample candidates
    ex = env.ex
    if st == 'sat':
        goals = [g for g in (strong, bad) if isinstance(g, B)] or [None]
        for g in goals:
            for k in range(12):
                c = ex.sampled(g, env.leaves, k + 100, ms=3000)
                if c is None:
                    continue
                s, failed, renv = real_run(fn, params, c)
                if s in ('fail', 'exception'):
                    f = next((f for f in failed if f[0] == lab), failed[0])
                    _viol(res, f[0], f[1], c, seen, known)
                    return
    # last resort: the solver's verdict stands, look for an input that shows it on the real code
    c = _search(fn, params, env, lab)
    if c is not None:
        _viol(res, lab, c[1], c[0], seen, known)
        return
    res['errors'].append('%s: solver answered %s, %s' % (
        lab, st, 'counterexample not reproduced on the real code: %r' % m if m is not None else 'no input assignment'))
