"""Symbolic scalars: exact real / complex values over named unknowns.

A real value is a Laurent polynomial with rational coefficients over *atoms*.
An atom is an input variable, or a defined quantity (cosine / sine of an angle,
reciprocal, root, absolute value, maximum, solution component of a linear
solve ...) that carries its definition as solver constraints.
Comparisons give symbolic booleans; using one as a Python truth value asks the
active path explorer, which consults z3 and forks.
"""
import math
from fractions import Fraction

import numpy as np
import z3


class Unsupported(Exception):
    """The engine met an operation it has no symbolic meaning for."""


class PathAbort(BaseException):
    """The current path is infeasible / abandoned (BaseException on purpose)."""


# --------------------------------------------------------------------------
# numbers

_PI = Fraction(math.pi)


def snap(p, q):
    """q with the coefficients that differ from p's by float-constant rounding (1e-11 relative) replaced by p's"""
    r = None
    for m, c in q.items():
        d = p.get(m)
        if d is not None and d != c and abs(d - c) <= abs(c) * Fraction(1, 10 ** 11):
            if r is None:
                r = dict(q)
            r[m] = d
    return q if r is None else r


def num(x):
    """exact int/Fraction of a concrete number"""
    if type(x) is int:
        return x
    if isinstance(x, Fraction):
        return x.numerator if x.denominator == 1 else x
    if isinstance(x, bool):
        return int(x)
    f = float(x)
    if f == int(f):
        return int(f)
    # decimal literals keep their decimal meaning when that is what the source said
    fr = Fraction(repr(f))
    ex = Fraction(f)
    if fr.denominator <= 10 ** 12:
        return fr
    # multiples of pi and 1/pi folded by the source (pi/180 and the like)
    for fac, inv in ((_PI, False), (1 / _PI, True)):
        r = Fraction(f / float(fac)).limit_denominator(100000)
        if r and abs(r.numerator) <= 100000 and abs(float(r * fac) - f) <= 4.5e-16 * abs(f):
            return nz(r * fac)
    # computed quotients such as 1/3: recover the simple rational when it is the
    # nearest one to this float
    lim = ex.limit_denominator(100000)
    if float(lim) == f:
        return lim
    return ex


def nz(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


# --------------------------------------------------------------------------
# atoms

class Atom(object):
    __slots__ = ('id', 'name', 'kind', 'var', 'defs', 'deps', 'info', 'lo', 'hi',
                 'inv', 'allatoms')

    def __init__(self, id_, name, kind):
        self.id = id_
        self.name = name
        self.kind = kind
        self.var = z3.Real('%s!%d' % (name, id_))
        self.defs = []          # z3 constraints defining it
        self.deps = set()       # atom ids the definition mentions
        self.info = None
        self.lo = None
        self.hi = None
        self.inv = None         # z3 var for reciprocal


class World(object):
    """All atoms of one harness run; `cur` is the active one."""
    cur = None

    def __init__(self):
        self.atoms = []
        self.bykey = {}
        self.rules = {}         # atom id -> (degree, poly)
        self.mcache = {}
        self.units = {}         # mono -> list of (coef, cid, sid)
        self.explorer = None
        self.solver_mode = 'cramer'
        self.opaque_depth = 0
        self.div_nonzero = False
        self.text = None                 # numbers standing for unknown values in written text
        self.drop_eps = False   # a guard of size EPS added to an unknown is dropped
        self.name_over = None   # values with more terms than this get a name when stored in an array

    def new(self, name, kind, key=None):
        a = Atom(len(self.atoms), name, kind)
        self.atoms.append(a)
        if key is not None:
            self.bykey[key] = a
        return a


def W():
    return World.cur


# --------------------------------------------------------------------------
# polynomials: dict mono -> coef ; mono = tuple of (atomid, exp) sorted by id

def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    out = []
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e:
                out.append((x[0], e))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def padd(p, q):
    if not p:
        return q
    if not q:
        return p
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v == 0:
                del r[m]
            else:
                r[m] = nz(v)
    return r


def pneg(p):
    return dict((m, -c) for m, c in p.items())


def pscale(p, k):
    if k == 0:
        return {}
    if k == 1:
        return p
    return dict((m, nz(c * k)) for m, c in p.items())


MAXTERMS = 60000


def pmul(p, q):
    if not p or not q:
        return {}
    if len(p) == 1 and () in p:
        return pscale(q, p[()])
    if len(q) == 1 and () in q:
        return pscale(p, q[()])
    w = World.cur
    rules = w.rules
    mc = w.mcache
    r = {}
    red = []
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            k = (m1, m2)
            m = mc.get(k)
            if m is None:
                m = mmul(m1, m2)
                mc[k] = m
            c = c1 * c2
            hit = False
            if rules:
                for (a, e) in m:
                    ru = rules.get(a)
                    if ru is not None and e >= ru[0]:
                        hit = True
                        break
            if hit:
                red.append((m, c))
                continue
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v == 0:
                    del r[m]
                else:
                    r[m] = v
    for m in list(r):
        r[m] = nz(r[m])
    for m, c in red:
        r = padd(r, pscale(preduce_mono(m), c))
    if len(r) > MAXTERMS:
        raise Unsupported('polynomial too large (%d terms)' % len(r))
    return r


def preduce_mono(m):
    """rewrite one monomial with the power rules (c^2 -> 1 - s^2, root^2 -> arg)"""
    w = World.cur
    for k, (a, e) in enumerate(m):
        ru = w.rules.get(a)
        if ru is not None and e >= ru[0]:
            deg, rep = ru
            rest = m[:k] + (((a, e - deg),) if e - deg else ()) + m[k + 1:]
            # rest may still be reducible; multiply polynomials (rules apply again)
            base = {rest: 1}
            if any(w.rules.get(x) is not None and y >= w.rules[x][0] for x, y in rest):
                base = preduce_mono(rest)
            return pmul(base, rep)
    return {m: 1}


def ppow(p, n):
    if n == 0:
        return {(): 1}
    if len(p) == 1:
        (m, c), = p.items()
        mm = tuple((a, e * n) for a, e in m)
        cc = nz(Fraction(c) ** n)
        if any(World.cur.rules.get(a) is not None and e >= World.cur.rules[a][0] for a, e in mm):
            return pscale(preduce_mono(mm), cc)
        return {mm: cc}
    if n < 0:
        raise ValueError
    r = {(): 1}
    b = p
    while n:
        if n & 1:
            r = pmul(r, b)
        n >>= 1
        if n:
            b = pmul(b, b)
    return r


def patoms(p):
    s = set()
    for m in p:
        for a, _ in m:
            s.add(a)
    return s


def pkey(p):
    return tuple(sorted(p.items()))


def q2z(c):
    if type(c) is int:
        return z3.RealVal(c)
    return z3.Q(c.numerator, c.denominator) if False else z3.RealVal('%d/%d' % (c.numerator, c.denominator))


def p2z(p):
    if not p:
        return z3.RealVal(0)
    w = World.cur
    terms = []
    for m, c in p.items():
        f = []
        for a, e in m:
            at = w.atoms[a]
            if e > 0:
                f.extend([at.var] * e)
            else:
                if at.inv is None:
                    at.inv = z3.Real('inv_%s!%d' % (at.name, a))
                    at.defs.append(at.inv * at.var == 1)
                f.extend([at.inv] * (-e))
        if not f:
            terms.append(q2z(c))
        else:
            t = f[0]
            if len(f) > 1:
                t = z3.Product(*f)
            if c != 1:
                t = q2z(c) * t
            terms.append(t)
    return terms[0] if len(terms) == 1 else z3.Sum(*terms)


# --------------------------------------------------------------------------
# symbolic booleans

class B(object):
    __slots__ = ('z', 'atoms')

    def __init__(self, z, atoms):
        self.z = z
        self.atoms = frozenset(atoms)

    def __bool__(self):
        return W().explorer.decide(self)

    def __and__(self, o):
        if isinstance(o, B):
            return B(z3.And(self.z, o.z), self.atoms | o.atoms)
        if isinstance(o, (bool,)) or type(o).__name__ in ('bool_', 'bool'):
            return self if o else False
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, B):
            return B(z3.Or(self.z, o.z), self.atoms | o.atoms)
        if isinstance(o, (bool,)) or type(o).__name__ in ('bool_', 'bool'):
            return True if o else self
        return NotImplemented
    __ror__ = __or__

    def __invert__(self):
        return B(z3.Not(self.z), self.atoms)

    def __eq__(self, o):
        return bool(self) == o

    def __ne__(self, o):
        return bool(self) != o

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __index__(self):
        return int(bool(self))

    def _n(self):
        return 1 if bool(self) else 0

    def __add__(self, o):
        return self._n() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self._n() * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    def __neg__(self):
        return -self._n()

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return 'B(%s)' % self.z

    def any(self):
        return self

    all = any


def band(xs):
    zs, at = [], set()
    for x in xs:
        if isinstance(x, B):
            zs.append(x.z)
            at |= x.atoms
        elif not x:
            return False
    if not zs:
        return True
    return B(z3.And(*zs), at)


def bor(xs):
    zs, at = [], set()
    for x in xs:
        if isinstance(x, B):
            zs.append(x.z)
            at |= x.atoms
        elif x:
            return True
    if not zs:
        return False
    return B(z3.Or(*zs), at)


# --------------------------------------------------------------------------
# reals

def _isnum(x):
    return isinstance(x, (int, float, Fraction)) or (hasattr(x, 'dtype') and getattr(x, 'shape', None) == ()
                                                   and x.dtype.kind in 'biuf')


def _iscnum(x):
    return isinstance(x, complex) or (hasattr(x, 'dtype') and getattr(x, 'shape', None) == ()
                                      and x.dtype.kind == 'c')


class S(object):
    """real symbolic scalar (sp: None | 'inf' | '-inf' | 'nan')"""
    __slots__ = ('p', 'sp')
    __array_priority__ = 5

    def __init__(self, p, sp=None):
        self.p = p
        self.sp = sp

    # -- construction
    @staticmethod
    def of(x):
        if isinstance(x, S):
            return x
        if isinstance(x, B):
            return S({(): 1}) if bool(x) else S({})
        if isinstance(x, C):
            if x.im.p:
                raise Unsupported('complex to real')
            return x.re
        t = type(x)
        if t is int:
            return S({(): x}) if x else S({})
        if hasattr(x, 'dtype') and getattr(x, 'shape', None) == ():
            x = x.item()
            if isinstance(x, (S, C)):
                return S.of(x)
        if isinstance(x, bool):
            return S({(): 1}) if x else S({})
        if isinstance(x, float):
            if x != x:
                return S(None, 'nan')
            if x in (math.inf, -math.inf):
                return S(None, 'inf' if x > 0 else '-inf')
        if isinstance(x, complex):
            if x.imag:
                raise Unsupported('complex to real')
            return S.of(x.real)
        c = num(x)
        return S({(): c}) if c else S({})

    def isconst(self):
        return self.sp is not None or not self.p or (len(self.p) == 1 and () in self.p)

    def const(self):
        if self.sp:
            return {'inf': math.inf, '-inf': -math.inf, 'nan': math.nan}[self.sp]
        return self.p.get((), 0)

    # -- arithmetic
    def _co(self, o):
        if isinstance(o, S):
            return o
        if isinstance(o, B) or _isnum(o):
            return S.of(o)
        return None

    def __add__(self, o):
        q = self._co(o)
        if q is None:
            return NotImplemented
        if self.sp or q.sp:
            return _sp(self.const_or_fin() + q.const_or_fin())
        if World.cur.drop_eps:
            for a, b in ((self, q), (q, self)):
                if len(a.p) == 1 and () in a.p and abs(a.p[()]) < 1e-14 and not b.isconst():
                    return b
        return S(padd(self.p, q.p))
    __radd__ = __add__

    def const_or_fin(self):
        return self.const() if self.sp else 0.0

    def __neg__(self):
        if self.sp:
            return _sp(-self.const())
        return S(pneg(self.p))

    def __pos__(self):
        return self

    def __sub__(self, o):
        q = self._co(o)
        if q is None:
            return NotImplemented
        return self + (-q)

    def __rsub__(self, o):
        q = self._co(o)
        if q is None:
            return NotImplemented
        return q + (-self)

    def __mul__(self, o):
        q = self._co(o)
        if q is None:
            return NotImplemented
        if self.sp or q.sp:
            a, b = (self, q) if self.sp else (q, self)
            if b.sp:
                return _sp(a.const() * b.const())
            s = b.signum()
            if s == 0:
                return S(None, 'nan')
            return _sp(a.const() * s)
        return S(pmul(self.p, q.p))
    __rmul__ = __mul__

    def signum(self):
        """-1/0/1, forking when the sign is open"""
        if self > 0:
            return 1
        if self < 0:
            return -1
        return 0

    def __truediv__(self, o):
        q = self._co(o)
        if q is None:
            return NotImplemented
        if q.sp:
            if q.sp == 'nan' or self.sp:
                return S(None, 'nan')
            return S({})
        if self.sp:
            s = q.signum()
            return _sp(self.const() * (s if s else 1))
        if not q.p:
            s = self.signum()
            return S(None, 'nan') if s == 0 else _sp(math.inf * s)
        if not self.p:
            # 0/q : q != 0 by the same rule as recip
            recip(q)
            return S({})
        if q.p == self.p:
            recip(q)
            return S({(): 1})
        return self * recip(q)

    def __rtruediv__(self, o):
        q = self._co(o)
        if q is None:
            return NotImplemented
        return q / self

    def __floordiv__(self, o):
        q = self._co(o)
        if q is None:
            return NotImplemented
        if self.isconst() and q.isconst():
            return S.of(self.const() // q.const())
        raise Unsupported('floor division of symbolic')

    def __mod__(self, o):
        q = self._co(o)
        if q is None:
            return NotImplemented
        if self.isconst() and q.isconst():
            return S.of(self.const() % q.const())
        raise Unsupported('mod of symbolic')

    def __pow__(self, o):
        if isinstance(o, S):
            if not o.isconst():
                raise Unsupported('symbolic exponent')
            o = o.const()
        elif not _isnum(o):
            return NotImplemented
        o = num(o)
        if self.sp:
            return _sp(self.const() ** float(o))
        if type(o) is int:
            if o >= 0:
                return S(ppow(self.p, o))
            return S.of(1) / (self ** (-o))
        if o == Fraction(1, 2):
            return self.sqrt()
        raise Unsupported('exponent %r' % (o,))

    def __rpow__(self, o):
        if self.isconst():
            return S.of(o) ** self
        raise Unsupported('symbolic exponent')

    # -- comparisons
    def _cmp(self, o, op):
        q = self._co(o)
        if q is None:
            if isinstance(o, (C, complex)):
                raise Unsupported('ordering with complex')
            return NotImplemented
        if self.sp or q.sp:
            if self.sp == 'nan' or q.sp == 'nan':
                return op == 'ne'
            a = self.const_or_fin()
            b = q.const_or_fin()
            return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b,
                    'eq': a == b, 'ne': a != b}[op]
        if self.p is q.p:
            return op in ('le', 'ge', 'eq')
        d = padd(self.p, pneg(q.p))
        if not d:
            return op in ('le', 'ge', 'eq')
        if len(d) == 1 and () in d:
            c = d[()]
            return {'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0,
                    'eq': False, 'ne': True}[op]
        sg = psign(d)
        if sg is not None:
            if sg > 0:
                return op in ('gt', 'ge', 'ne')
            return op in ('lt', 'le', 'ne')
        # normalise: strip positive scale
        a, b = p2z(d), z3.RealVal(0)
        z = {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b,
             'eq': a == b, 'ne': a != b}[op]
        return B(z, patoms(d))

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        return self._cmp(o, 'gt')

    def __ge__(self, o):
        return self._cmp(o, 'ge')

    def __eq__(self, o):
        if isinstance(o, (C, complex)):
            return C.of(self) == o
        r = self._cmp(o, 'eq')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        if isinstance(o, (C, complex)):
            return C.of(self) != o
        r = self._cmp(o, 'ne')
        return True if r is NotImplemented else r

    def __hash__(self):
        if self.isconst():
            return hash(self.const())
        return hash(pkey(self.p))

    def __bool__(self):
        r = self != 0
        return r if isinstance(r, bool) else bool(r)

    def __float__(self):
        if self.isconst():
            return float(self.const())
        if W().text is not None:
            return W().text.token(self)
        raise Unsupported('float() of a symbolic value')

    def __int__(self):
        if self.isconst():
            return int(self.const())
        if W().text is not None and not all(W().atoms[a].info.get('dom') for m in self.p for a, e in m):
            return int(W().text.token(self))
        return W().explorer.concretize_int(self)

    def __round__(self, n=None):
        if self.isconst():
            return S.of(round(self.const(), n)) if n is not None else int(round(self.const()))
        raise Unsupported('round of symbolic')

    def __trunc__(self):
        return int(self)

    def __abs__(self):
        return sabs(self)

    def __complex__(self):
        raise Unsupported('complex() of symbolic')

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        if self.isconst():
            return repr(self.const())
        w = W()
        ts = []
        for m, c in list(self.p.items())[:12]:
            ts.append('%s*%s' % (c, '*'.join('%s%s' % (w.atoms[a].name, '' if e == 1 else '^%d' % e) for a, e in m)))
        if len(self.p) > 12:
            ts.append('...(%d)' % len(self.p))
        return 'S(%s)' % ' + '.join(ts)

    def __str__(self):
        if not self.isconst() and W().text is not None:
            return repr(float(self))
        return repr(self)

    def __format__(self, spec):
        if spec:
            if self.isconst() or W().text is not None:
                return format(int(self) if spec[-1] in 'dxXobn' else float(self), spec)
            return format(0.0, spec)      # unknown values print as 0
        return str(self)

    # -- numpy-object protocol
    def conjugate(self):
        return self
    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return S({})

    def item(self):
        return self

    def copy(self):
        return self

    def sqrt(self):
        return ssqrt(self)

    def exp(self):
        if self.isconst() and not self.sp:
            if not self.p:
                return S({(): 1})
            return S.of(math.exp(self.const()))
        return uninterp('exp', self)

    def log(self):
        if self.isconst() and not self.sp:
            return S.of(math.log(self.const()))
        return uninterp('log', self)

    def cos(self):
        return S(cis(self)[0])

    def sin(self):
        return S(cis(self)[1])

    def tan(self):
        c, s = cis(self)
        return S(s) / S(c)

    def arctan(self):
        return sarctan2(self, S({(): 1}))

    def arctan2(self, o):
        return sarctan2(self, S.of(o))

    def sign(self):
        return S.of(self.signum())

    def rint(self):
        if self.isconst():
            return S.of(round(self.const()))
        raise Unsupported('rint of symbolic')

    def floor(self):
        if self.isconst():
            return S.of(math.floor(self.const()))
        raise Unsupported('floor of symbolic')

    def ceil(self):
        if self.isconst():
            return S.of(math.ceil(self.const()))
        raise Unsupported('ceil of symbolic')

    def deg2rad(self):
        return self * (math.pi / 180)

    radians = deg2rad

    def rad2deg(self):
        return self * (180 / math.pi)

    degrees = rad2deg

    def is_integer(self):
        if self.isconst():
            return float(self.const()).is_integer()
        raise Unsupported('is_integer of symbolic')

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1


def _sp(f):
    if f != f:
        return S(None, 'nan')
    if f == math.inf:
        return S(None, 'inf')
    if f == -math.inf:
        return S(None, '-inf')
    return S.of(f)


def _psign(p):
    w = W()
    tot = None
    strict = False
    for m, c in p.items():
        s = 1 if c > 0 else -1
        pos = True
        for a, e in m:
            at = w.atoms[a]
            if at.lo is not None and at.lo > 0:
                continue
            if at.hi is not None and at.hi < 0:
                if e % 2:
                    s = -s
                continue
            if at.lo is not None and at.lo >= 0 or e % 2 == 0:
                pos = False
                continue
            return None
        if tot is None:
            tot = s
        elif tot != s:
            return None
        if pos:
            strict = True
    return tot if strict else None


def psign(p):
    """sign of a polynomial when evident from atom domains, else None (strict)"""
    s = _psign(p)
    if s is None and 0 < len(p) <= 8:
        lo, hi = prange(p)
        if lo is not None:
            s = 1 if lo > 0 else -1 if hi < 0 else None
    return s


# --------------------------------------------------------------------------
# defined quantities

def _key_sign_norm(p):
    """divide by the leading coefficient; returns (lc, monic poly)"""
    ks = sorted(p)
    lc = p[ks[-1]]
    if lc == 1:
        return 1, p
    return lc, pscale(p, nz(Fraction(1) / lc))


def monocontent(p):
    """split off the common Laurent monomial"""
    ms = list(p)
    exps = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        for a in list(exps):
            e = d.get(a, 0)
            if e == 0:
                del exps[a]
            elif (e > 0) == (exps[a] > 0):
                exps[a] = min(exps[a], e) if e > 0 else max(exps[a], e)
            else:
                del exps[a]
        # negative exponents appearing only in some terms stay in the cofactor
    g = tuple(sorted(exps.items()))
    if not g:
        return (), p
    ginv = tuple((a, -e) for a, e in g)
    return g, dict((mmul(m, ginv), c) for m, c in p.items())


def recip(q):
    """1/q for a real q; the q == 0 side is a division by zero (forks)"""
    p = q.p
    ex = W().explorer
    if psign(p) is None:
        zero = (q == 0)
        if isinstance(zero, B):
            if W().div_nonzero:
                ex.assume(~zero)
            elif bool(zero):
                raise ZeroDivision('division by zero')
        elif zero:
            raise ZeroDivision('division by zero')
    return S(precip(p))


class ZeroDivision(ArithmeticError):
    """numpy would give inf/nan here"""


def precip(p):
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple((a, -e) for a, e in m): nz(Fraction(1) / c)}
    lc, p1 = _key_sign_norm(p)
    g, p2 = monocontent(p1)
    key = ('inv', pkey(p2))
    w = W()
    at = w.bykey.get(key)
    if at is None:
        at = w.new('rcp', 'inv', key)
        at.info = p2
        at.deps = patoms(p2)
        at.defs.append(at.var * p2z(p2) == 1)
        sg = psign(p2)
        if sg == 1:
            at.lo = Fraction(1, 10 ** 30)
        elif sg == -1:
            at.hi = Fraction(-1, 10 ** 30)
    gi = tuple((a, -e) for a, e in g)
    return pscale(pmul({gi: 1}, {((at.id, 1),): 1}), nz(Fraction(1) / lc))


def _isqrt(c):
    c = Fraction(c)
    if c < 0:
        return None
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return nz(Fraction(n, d))
    return None


def ssqrt(x):
    if x.sp:
        return x
    if x.isconst():
        r = _isqrt(x.const()) if x.const() >= 0 else None
        if r is not None:
            return S.of(r)
        if x.const() < 0:
            return S(None, 'nan')
    if len(x.p) == 1:
        (m, c), = x.p.items()
        r = _isqrt(c) if c > 0 else None
        if r is not None and all(e % 2 == 0 for _, e in m):
            return sabs(S({tuple((a, e // 2) for a, e in m): r}))
    w = W()
    key = ('sqrt', pkey(x.p))
    at = w.bykey.get(key)
    if at is None:
        at = w.new('sqrt', 'sqrt', key)
        at.info = x.p
        at.deps = patoms(x.p)
        at.defs += [at.var >= 0, at.var * at.var == p2z(x.p)]
        sg = psign(x.p)
        at.lo = Fraction(1, 10 ** 30) if sg == 1 else 0
        w.rules[at.id] = (2, x.p)
    return S({((at.id, 1),): 1})


def sabs(x):
    if x.sp:
        return _sp(abs(x.const()))
    if x.isconst():
        return S.of(abs(x.const()))
    sg = psign(x.p)
    if sg is not None:
        return x if sg > 0 else -x
    w = W()
    # non-strict: every atom known >= 0
    if len(x.p) == 1:
        (m, c), = x.p.items()
        if all((w.atoms[a].lo is not None and w.atoms[a].lo >= 0) or e % 2 == 0 for a, e in m):
            return x if c > 0 else -x
    g, rest = monocontent(x.p)
    pull = tuple((a, e) for a, e in g if (w.atoms[a].kind == 'inv' and e > 0)
                 or (w.atoms[a].lo is not None and w.atoms[a].lo >= 0))
    if pull:
        # |p/q| = |p| / |q|, |r*p| = r*|p| for r >= 0
        r = S(pmul({tuple(t for t in g if t not in pull): 1}, rest))
        out = sabs(r)
        for a, e in pull:
            if w.atoms[a].lo is not None and w.atoms[a].lo >= 0:
                out = S(pmul(out.p, {((a, e),): 1}))
                continue
            d = sabs(S(w.atoms[a].info))
            for _ in range(e):
                out = out * S(precip(d.p))
        return out
    lc, p1 = _key_sign_norm(x.p)
    key = ('abs', pkey(p1))
    at = w.bykey.get(key)
    if at is None:
        at = w.new('abs', 'abs', key)
        at.info = p1
        at.deps = patoms(p1)
        e = p2z(p1)
        at.defs += [at.var >= 0, z3.Or(at.var == e, at.var == -e)]
        at.lo = 0
        w.rules[at.id] = (2, ppow(p1, 2))
    return S({((at.id, 1),): abs(lc)})


def smax(xs, mn=False):
    xs = [S.of(x) for x in xs]
    if any(x.sp for x in xs):
        if any(x.sp == 'nan' for x in xs):
            return S(None, 'nan')
        big = '-inf' if mn else 'inf'
        for x in xs:
            if x.sp == big:
                return x
        fin = [x for x in xs if not x.sp]
        if not fin:
            return xs[0]
        xs = fin
    # drop duplicates / dominated constants
    seen = {}
    best = None
    for x in xs:
        if x.isconst():
            c = x.const()
            best = c if best is None else (min(best, c) if mn else max(best, c))
        else:
            seen[pkey(x.p)] = x
    if best is not None:
        seen[()] = S.of(best)
    items = [seen[k] for k in sorted(seen)]
    if len(items) == 1:
        return items[0]
    # evident dominance
    keep = []
    for i, x in enumerate(items):
        dom = False
        for j, y in enumerate(items):
            if i != j:
                d = padd(y.p, pneg(x.p))
                sg = psign(d) if d else None
                if sg is not None and (sg > 0) != mn:
                    dom = True
                    break
        if not dom:
            keep.append(x)
    if len(keep) == 1:
        return keep[0]
    items = keep or items
    w = W()
    key = ('min' if mn else 'max', tuple(pkey(x.p) for x in items))
    at = w.bykey.get(key)
    if at is None:
        at = w.new('min' if mn else 'max', 'minmax', key)
        es = [p2z(x.p) for x in items]
        at.info = (mn, [x.p for x in items])
        for x in items:
            at.deps |= patoms(x.p)
        at.defs += [(at.var <= e if mn else at.var >= e) for e in es]
        at.defs.append(z3.Or(*[at.var == e for e in es]))
        if not mn:
            los = [Fraction(1, 10 ** 30) if psign(x.p) == 1 else None for x in items if x.p]
            if any(l is not None for l in los):
                at.lo = Fraction(1, 10 ** 30)
            elif any(x.isconst() and x.const() >= 0 for x in items):
                at.lo = 0
            else:
                for x in items:
                    if len(x.p) == 1:
                        (m, c), = x.p.items()
                        if c > 0 and all(w.atoms[a].lo is not None and w.atoms[a].lo >= 0 for a, e in m):
                            at.lo = 0
    return S({((at.id, 1),): 1})


def named(x):
    """x, or a fresh unknown defined equal to it when it is long (keeps later terms short)"""
    w = W()
    lim = w.name_over
    if lim is None:
        return x
    if isinstance(x, C):
        if x.pol is not None:
            return x
        re, im = named(x.re), named(x.im)
        return x if re is x.re and im is x.im else C(re, im)
    if not isinstance(x, S) or x.sp or len(x.p) <= lim:
        return x
    key = ('def', pkey(x.p))
    at = w.bykey.get(key)
    if at is None:
        at = w.new('t', 'def', key)
        at.info = x.p
        at.deps = patoms(x.p)
        at.defs.append(at.var == p2z(x.p))
    return S({((at.id, 1),): 1})


def uninterp(fname, x):
    w = W()
    key = ('uf', fname, pkey(x.p))
    at = w.bykey.get(key)
    if at is None:
        at = w.new(fname, 'uf', key)
        at.info = (fname, x.p)
        at.deps = set()
        if fname == 'exp':
            at.defs.append(at.var > 0)
            at.lo = Fraction(1, 10 ** 30)
    return S({((at.id, 1),): 1})


# -- trigonometry -----------------------------------------------------------

def _unit(mono, coef):
    """(cos, sin) polys of coef*mono"""
    w = W()
    lst = w.units.setdefault(mono, [])
    for (k0, cid, sid) in lst:
        r = Fraction(coef) / Fraction(k0)
        if r.denominator != 1 and abs(r - round(r)) <= Fraction(1, 10 ** 12):
            r = Fraction(round(r))
        if r.denominator == 1 and r.numerator == 0:
            continue
        if r.denominator == 1 and abs(r.numerator) <= 8:
            n = r.numerator
            c1, s1 = {((cid, 1),): 1}, {((sid, 1),): 1}
            c, s = {(): 1}, {}
            for _ in range(abs(n)):
                c, s = padd(pmul(c, c1), pneg(pmul(s, s1))), padd(pmul(c, s1), pmul(s, c1))
            if n < 0:
                s = pneg(s)
            return c, s
    k0 = abs(coef)
    nm = '_'.join(w.atoms[a].name for a, _ in mono) or 'const'
    # sine first: power rule rewrites cos^2
    sa = w.new('sin_' + nm, 'sin')
    ca = w.new('cos_' + nm, 'cos')
    sa.info = ca.info = (mono, k0, ca.id, sa.id)
    circ = ca.var * ca.var + sa.var * sa.var == 1
    ca.defs += [circ, ca.var <= 1, ca.var >= -1]
    sa.defs += [circ, sa.var <= 1, sa.var >= -1]
    sa.deps = {ca.id}
    ca.deps = {sa.id}
    if not mono:
        cv, sv = math.cos(k0), math.sin(k0)
        eps = Fraction(1, 10 ** 12)
        for at, v in ((ca, cv), (sa, sv)):
            f = Fraction(v)
            at.defs += [at.var <= q2z(f + eps), at.var >= q2z(f - eps)]
            if f > eps:
                at.lo = f - eps
            if f < -eps:
                at.hi = f + eps
    else:
        # an angle confined to (-pi/2, pi/2) has a positive cosine
        lo, hi = prange({mono: k0})
        if lo is not None and hi is not None:
            if -1.5707 < lo and hi < 1.5707:
                ca.lo = Fraction(1, 10 ** 30)
                ca.defs.append(ca.var > 0)
            if lo >= 0 and hi < 3.1415:
                sa.lo = 0
                sa.defs.append(sa.var >= 0)
            # chord bounds keep the solver honest about small angles
    w.rules[ca.id] = (2, {(): 1, ((sa.id, 2),): -1})
    lst.append((k0, ca.id, sa.id))
    return _unit(mono, coef)


def prange(p):
    """interval of a polynomial from atom domains (None = unbounded)"""
    w = W()
    tlo = thi = Fraction(0)
    for m, c in p.items():
        lo = hi = Fraction(c)
        for a, e in m:
            at = w.atoms[a]
            if e != 1 or at.lo is None or at.hi is None:
                return None, None
            vs = [lo * at.lo, lo * at.hi, hi * at.lo, hi * at.hi]
            lo, hi = min(vs), max(vs)
        tlo += lo
        thi += hi
    return tlo, thi


def cis(x):
    """(cos x, sin x) as polynomials"""
    if x.sp:
        raise Unsupported('trig of inf')
    c, s = {(): 1}, {}
    w = W()
    for m, k in sorted(x.p.items()):
        if all(w.atoms[a].kind == 'turn' and e > 0 for a, e in m):
            r = Fraction(k) / Fraction(PI)
            q = round(2 * r)
            if abs(2 * r - q) <= Fraction(1, 10 ** 12):
                if not m:
                    c2, s2 = [({(): 1}, {}), ({}, {(): 1}), ({(): -1}, {}), ({}, {(): -1})][q % 4]
                    c, s = padd(pmul(c, c2), pneg(pmul(s, s2))), padd(pmul(c, s2), pmul(s, c2))
                    continue
                if q % 4 == 0:
                    continue
        c2, s2 = _unit(m, k)
        c, s = padd(pmul(c, c2), pneg(pmul(s, s2))), padd(pmul(c, s2), pmul(s, c2))
    return c, s


def sarctan2(y, x):
    if y.isconst() and x.isconst():
        yc, xc = y.const(), x.const()
        if yc == 0 and xc > 0:
            return S({})
        return S.of(math.atan2(yc, xc))
    return cangle(C(x, y))


# --------------------------------------------------------------------------
# complex

class C(object):
    """complex symbolic scalar; pol = (mag, ang) when known in polar form"""
    __slots__ = ('re', 'im', 'pol')
    __array_priority__ = 6

    def __init__(self, re, im, pol=None):
        self.re = re
        self.im = im
        self.pol = pol

    @staticmethod
    def of(x):
        if isinstance(x, C):
            return x
        if isinstance(x, S):
            return C(x, S({}))
        if hasattr(x, 'dtype') and getattr(x, 'shape', None) == ():
            x = x.item()
            if isinstance(x, (S, C)):
                return C.of(x)
        if isinstance(x, complex):
            return C(S.of(x.real), S.of(x.imag))
        return C(S.of(x), S({}))

    def _co(self, o):
        if isinstance(o, (C, S)):
            return C.of(o)
        if isinstance(o, B) or _isnum(o) or _iscnum(o):
            return C.of(o)
        return None

    def isconst(self):
        return self.re.isconst() and self.im.isconst()

    def __add__(self, o):
        q = self._co(o)
        if q is None:
            return NotImplemented
        return C(self.re + q.re, self.im + q.im)
    __radd__ = __add__

    def __neg__(self):
        return C(-self.re, -self.im, (-self.pol[0], self.pol[1]) if self.pol else None)

    def __pos__(self):
        return self

    def __sub__(self, o):
        q = self._co(o)
        if q is None:
            return NotImplemented
        return C(self.re - q.re, self.im - q.im)

    def __rsub__(self, o):
        q = self._co(o)
        if q is None:
            return NotImplemented
        return C(q.re - self.re, q.im - self.im)

    def _pol(self):
        if self.pol:
            return self.pol
        if not self.im.p and not self.im.sp:
            return (self.re, S({}))
        return None

    def __mul__(self, o):
        q = self._co(o)
        if q is None:
            return NotImplemented
        pol = None
        if self.pol or q.pol:
            a, b = self._pol(), q._pol()
            if a and b:
                pol = (a[0] * b[0], a[1] + b[1])
        if not q.im.p and not q.im.sp:
            return C(self.re * q.re, self.im * q.re, pol)
        if not self.im.p and not self.im.sp:
            return C(self.re * q.re, self.re * q.im, pol)
        return C(self.re * q.re - self.im * q.im, self.re * q.im + self.im * q.re, pol)
    __rmul__ = __mul__

    def abs2(self):
        if self.pol:
            return self.pol[0] * self.pol[0]
        return self.re * self.re + self.im * self.im

    def __truediv__(self, o):
        q = self._co(o)
        if q is None:
            return NotImplemented
        pol = None
        if self.pol or q.pol:
            a, b = self._pol(), q._pol()
            if a and b:
                pol = (a[0] / b[0], a[1] - b[1])
        if not q.im.p:
            return C(self.re / q.re, self.im / q.re, pol)
        d = q.abs2()
        n = self * q.conjugate()
        return C(n.re / d, n.im / d, pol)

    def __rtruediv__(self, o):
        q = self._co(o)
        if q is None:
            return NotImplemented
        return q / self

    def __pow__(self, o):
        o = num(o.const() if isinstance(o, S) else o)
        if type(o) is not int:
            raise Unsupported('complex power')
        if o < 0:
            return C.of(1) / (self ** (-o))
        r = C.of(1)
        for _ in range(o):
            r = r * self
        return r

    def __eq__(self, o):
        q = self._co(o)
        if q is None:
            return False
        return band([self.re == q.re, self.im == q.im])

    def __ne__(self, o):
        q = self._co(o)
        if q is None:
            return True
        return bor([self.re != q.re, self.im != q.im])

    def __hash__(self):
        return hash((self.re, self.im))

    def __lt__(self, o):
        raise Unsupported('ordering of complex')
    __gt__ = __le__ = __ge__ = __lt__

    def __bool__(self):
        r = self != 0
        return r if isinstance(r, bool) else bool(r)

    def __float__(self):
        raise TypeError('float() argument must be a real number, not complex')

    def __int__(self):
        raise TypeError('int() argument must be a real number, not complex')

    def __complex__(self):
        return complex(float(self.re), float(self.im))

    def __abs__(self):
        if self.pol:
            return sabs(self.pol[0])
        if not self.im.p and not self.im.sp:
            return sabs(self.re)
        if not self.re.p and not self.re.sp:
            return sabs(self.im)
        return ssqrt(self.abs2())

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return 'C(%r, %r)' % (self.re, self.im)

    def conjugate(self):
        return C(self.re, -self.im, (self.pol[0], -self.pol[1]) if self.pol else None)
    conj = conjugate

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def item(self):
        return self

    def copy(self):
        return self

    def exp(self):
        c, s = cis(self.im)
        if self.re.p or self.re.sp:
            m = self.re.exp()
            return C(m * S(c), m * S(s), (m, self.im))
        return C(S(c), S(s), (S({(): 1}), self.im))

    def sqrt(self):
        raise Unsupported('complex sqrt')

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1


def _mixed(name):
    base = getattr(S, name)

    def f(self, o):
        if _iscnum(o):
            return getattr(C.of(self), name)(C.of(o))
        return base(self, o)
    f.__name__ = name
    setattr(S, name, f)


def _astype(self, t, **k):
    """numpy scalar conversion"""
    if t in (int, 'int', 'int32', 'int64', 'i') or getattr(t, '__name__', '').startswith('int'):
        return int(self)
    if t in (bool, 'bool') or getattr(t, '__name__', '') in ('bool', 'bool_'):
        return bool(self)
    if t in (complex, 'complex') or getattr(t, '__name__', '').startswith('complex'):
        return C.of(self)
    return self


for _c in (S, C):
    _c.astype = _astype
    _c.squeeze = lambda self: self
    _c.tolist = lambda self: self
S.T = property(lambda self: self)
C.T = property(lambda self: self)

for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__truediv__', '__rtruediv__'):
    _mixed(_n)


def polar(mag, ang):
    mag, ang = S.of(mag), S.of(ang)
    c, s = cis(ang)
    return C(mag * S(c), mag * S(s), (mag, ang))


def is_inf(x):
    if isinstance(x, C):
        return bool(x.re.sp in ('inf', '-inf') or x.im.sp in ('inf', '-inf'))
    return S.of(x).sp in ('inf', '-inf')


def is_nan(x):
    if isinstance(x, C):
        return bool(x.re.sp == 'nan' or x.im.sp == 'nan')
    return S.of(x).sp == 'nan'


PI = math.pi


def _turned(ang):
    """ang + 2*pi*k in (-pi, pi] for an unknown whole number k"""
    w = W()
    key = ('turn', pkey(ang.p))
    at = w.bykey.get(key)
    if at is None:
        at = w.new('turn', 'turn', key)
        ki = z3.Int('turnk!%d' % at.id)
        at.defs.append(at.var == z3.ToReal(ki))
        e = p2z(ang.p) + q2z(num(2 * PI)) * at.var
        at.defs += [e <= q2z(num(PI)), e > q2z(-num(PI))]
        at.deps = patoms(ang.p)
        at.info = ang.p
    return ang + S({((at.id, 1),): num(2 * PI)})


def cangle(z):
    """numpy.angle: in (-pi, pi]"""
    if isinstance(z, S) or (not z.im.p and not z.im.sp and not z.pol):
        re = z if isinstance(z, S) else z.re
        s = re.signum()
        return S({}) if s >= 0 else S.of(PI)
    if z.pol:
        mag, ang = z.pol
        s = psign(mag.p)
        if s is None:
            s = mag.signum()
            if s == 0:
                return S({})
        if s < 0:
            ang = ang + PI
        for _ in range(3):
            lo, hi = prange(ang.p)
            if lo is None or hi is None or lo <= -3 * PI or hi >= 3 * PI:
                return _turned(ang)
            if lo is not None and hi is not None and lo > -num(PI) and hi < num(PI):
                return ang
            if ang > PI:
                ang = ang - 2 * PI
            elif ang <= -PI:
                ang = ang + 2 * PI
            else:
                return ang
        raise Unsupported('angle far outside (-pi, pi]')
    w = W()
    key = ('angle', pkey(z.re.p), pkey(z.im.p))
    at = w.bykey.get(key)
    if at is None:
        m = abs(z)
        at = w.new('ang', 'angle', key)
        at.lo, at.hi = -num(PI), num(PI)
        at.defs += [at.var <= q2z(num(PI)), at.var >= q2z(-num(PI))]
        c, s = cis(S({((at.id, 1),): 1}))
        e1 = p2z(padd(pmul(c, m.p), pneg(z.re.p))) == 0
        e2 = p2z(padd(pmul(s, m.p), pneg(z.im.p))) == 0
        at.defs += [e1, e2]
        at.deps = patoms(c) | patoms(s) | patoms(m.p) | patoms(z.re.p) | patoms(z.im.p)
        at.info = (z.re.p, z.im.p)
        for cid in patoms(c) | patoms(s):
            W().atoms[cid].deps.add(at.id)
    return S({((at.id, 1),): 1})


# --------------------------------------------------------------------------
# symbolic differentiation (oracle side)

def pdiff(p, aid, cache=None):
    """d p / d atom aid, through the defined atoms"""
    w = W()
    if cache is None:
        cache = {}
    out = {}
    for b in patoms(p):
        db = adiff(b, aid, cache)
        if not db:
            continue
        part = {}
        for m, c in p.items():
            for k, (a, e) in enumerate(m):
                if a == b:
                    mm = m[:k] + (((a, e - 1),) if e != 1 else ()) + m[k + 1:]
                    part = padd(part, {mm: c * e})
        out = padd(out, pmul(part, db))
    return out


def adiff(b, aid, cache):
    if b == aid:
        return {(): 1}
    if b in cache:
        return cache[b]
    w = W()
    at = w.atoms[b]
    r = {}
    if at.kind in ('cos', 'sin'):
        mono, k0, cid, sid = at.info
        da = pdiff({mono: k0}, aid, cache) if mono else {}
        if da:
            r = pneg(pmul({((sid, 1),): 1}, da)) if at.kind == 'cos' else pmul({((cid, 1),): 1}, da)
    elif at.kind == 'inv':
        dq = pdiff(at.info, aid, cache)
        if dq:
            r = pneg(pmul({((b, 2),): 1}, dq))
    elif at.kind == 'sqrt':
        dq = pdiff(at.info, aid, cache)
        if dq:
            r = pscale(pmul({((b, -1),): 1}, dq), Fraction(1, 2))
    elif at.kind == 'abs':
        dq = pdiff(at.info, aid, cache)
        if dq:      # d|x| = x/|x| dx
            r = pmul(pmul({((b, -1),): 1}, at.info), dq)
    elif at.kind in ('in', 'fresh', 'turn'):
        r = {}
    elif at.kind == 'def':
        r = pdiff(at.info, aid, cache)
    else:
        raise Unsupported('derivative through %s' % at.kind)
    cache[b] = r
    return r


def sdiff(x, v):
    """derivative of scalar x (S or C) w.r.t. input variable v (S leaf)"""
    (m, _), = v.p.items()
    aid = m[0][0]
    if isinstance(x, C):
        return C(S(pdiff(x.re.p, aid)), S(pdiff(x.im.p, aid)))
    return S(pdiff(S.of(x).p, aid))


def clear_denoms(polys):
    """multiply a group of polynomials (compared with each other) by the powers of
    reciprocal denominators needed to make every reciprocal atom disappear"""
    w = W()
    polys = [dict(p) for p in polys]
    guard = 0
    while True:
        guard += 1
        if guard > 200:
            return polys
        ids = set()
        for p in polys:
            ids |= patoms(p)
        invs = sorted((a for a in ids if w.atoms[a].kind == 'inv'), reverse=True)
        if not invs:
            break
        a = invs[0]
        emax = max(dict(m).get(a, 0) for p in polys for m in p)
        emin = min(dict(m).get(a, 0) for p in polys for m in p)
        q = w.atoms[a].info
        out = []
        for p in polys:
            groups = {}
            for m, c in p.items():
                e = dict(m).get(a, 0)
                rest = tuple(x for x in m if x[0] != a)
                groups.setdefault(e, {})[rest] = c
            r = {}
            for e, g in groups.items():
                k = max(emax, 0) - e
                r = padd(r, pmul(g, ppow(q, k)) if k else g)
            out.append(r)
        polys = out
    # clear negative exponents
    mins = {}
    for p in polys:
        for m in p:
            for a, e in m:
                if e < 0:
                    mins[a] = min(mins.get(a, 0), e)
    if mins:
        mul = {tuple(sorted((a, -e) for a, e in mins.items())): 1}
        polys = [pmul(p, mul) for p in polys]
    return polys


# -- scalars meeting plain (concrete) arrays: lift the array
_FN = dict(add='add', sub='subtract', mul='multiply', truediv='true_divide', pow='power', floordiv='floor_divide', mod='remainder')
_CMP = dict(lt='less', le='less_equal', gt='greater', ge='greater_equal', eq='equal', ne='not_equal')


def _lift(cls, meth, ufunc, swap):
    orig = getattr(cls, meth, None)
    fn = getattr(np, ufunc)

    def w(self, o):
        if isinstance(o, np.ndarray) and type(o).__module__ == 'numpy' and o.shape != ():
            from . import arr
            a = arr.obj(o).view(arr.SMat if isinstance(o, np.matrix) else arr.SArr)
            return fn(a, self) if swap else fn(self, a)
        return orig(self, o) if orig is not None else NotImplemented
    setattr(cls, meth, w)


def _lift_all():
    for cls in (S, C):
        for m, f in _FN.items():
            if hasattr(cls, '__%s__' % m):
                _lift(cls, '__%s__' % m, f, False)
            _lift(cls, '__r%s__' % m, f, True)
        for m, f in _CMP.items():
            _lift(cls, '__%s__' % m, f, False)
        cls.__hash__ = cls.__dict__['__hash__']


_lift_all()
B.__array_priority__ = 4


def _blift(meth, op):
    orig = getattr(B, meth, None)

    def w(self, o):
        if isinstance(o, np.ndarray):
            return op(bool(self), o)
        if orig is None and isinstance(o, (S, int, float, np.number)):
            return op(self._n(), o)
        return orig(self, o) if orig is not None else NotImplemented
    setattr(B, meth, w)


for _m, _o in (('and', lambda a, b: b & a), ('or', lambda a, b: b | a), ('xor', lambda a, b: b ^ a)):
    _blift('__%s__' % _m, _o)
    _blift('__r%s__' % _m, _o)
for _m, _o in (('truediv', lambda a, b: a / b), ('rtruediv', lambda a, b: b / a), ('lt', lambda a, b: a < b), ('le', lambda a, b: a <= b),
               ('gt', lambda a, b: a > b), ('ge', lambda a, b: a >= b)):
    _blift('__%s__' % _m, _o)
