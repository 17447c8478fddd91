"""Arrays of symbolic scalars and the stand-in for the `numpy` module.

SArr is an object-dtype ndarray subclass: indexing, broadcasting, slicing and
shape logic are numpy's own; arithmetic and element functions are core.py's.
Integer, boolean and string arrays stay ordinary concrete numpy arrays, so
index arithmetic in the code under test runs as it is.
"""
import math
import types
from fractions import Fraction

import numpy as np

from .core import (S, C, B, Unsupported, smax, cangle, is_inf, is_nan, W, bor, band, sarctan2, named)


def conv(x):
    if isinstance(x, (S, C)):
        return x
    if isinstance(x, B):
        return bool(x)
    if isinstance(x, (bool, np.bool_)):
        return S.of(int(x))
    if isinstance(x, (int, float, np.integer, np.floating)):
        return S.of(x)
    if isinstance(x, (complex, np.complexfloating)):
        return C.of(x) if x.imag else S.of(x.real)
    return x


def obj(x):
    """plain object ndarray with wrapped elements"""
    if isinstance(x, SArr) or isinstance(x, SMat):
        return x.view(np.ndarray)
    a = np.asarray(x)
    if a.dtype == object:
        out = np.empty(a.shape, dtype=object)
        of, af = out.reshape(-1), a.reshape(-1)
        for k in range(af.size):
            of[k] = conv(af[k])
        return of.reshape(a.shape)
    out = np.empty(a.shape, dtype=object)
    if a.size:
        of = out.reshape(-1)
        for k, v in enumerate(a.reshape(-1).tolist()):
            of[k] = conv(v)
        out = of.reshape(a.shape)
    return out


def wrap(a, cls=None):
    if isinstance(a, np.ndarray):
        if a.dtype == object:
            return a.view(cls or SArr)
        return a
    return a


def sarr(x):
    return obj(x).view(SArr)


def _is_sym_arr(x):
    return isinstance(x, np.ndarray) and x.dtype == object


def _elementwise(f, x):
    if isinstance(x, np.ndarray):
        o = obj(x)
        out = np.empty(o.shape, dtype=object)
        oo, of = out.reshape(-1), o.reshape(-1)
        for k in range(of.size):
            oo[k] = f(of[k])
        r = oo.reshape(o.shape)
        return r.view(type(x) if isinstance(x, (SArr, SMat)) else SArr)
    return f(conv(x))


def _elementwise_bool(f, x):
    if isinstance(x, np.ndarray):
        o = obj(x)
        return np.array([bool(f(v)) for v in o.reshape(-1)], dtype=bool).reshape(o.shape)
    return f(conv(x))


_UF_ELEM = {
    'sign': lambda v: v.sign(), 'isnan': None, 'isinf': None, 'isfinite': None,
}
_UF_BOOL = {
    'isnan': is_nan, 'isinf': is_inf, 'isfinite': lambda v: not is_nan(v) and not is_inf(v),
    'signbit': lambda v: v < 0,
}


class _Sym(object):
    """shared behaviour of SArr (ndarray) and SMat (matrix)"""

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        out = kw.pop('out', None)
        cls = SMat if any(isinstance(i, np.matrix) for i in inputs) else SArr
        name = ufunc.__name__
        if any(getattr(i, '_is_spmat', False) for i in inputs):
            return NotImplemented
        if method == '__call__':
            where = kw.pop('where', True)
            kw.pop('casting', None)
            if where is not True:
                if out is None or out[0] is None:
                    raise Unsupported('ufunc where= without out=')
                ins = np.broadcast_arrays(*([np.asarray(obj(i)) for i in inputs] + [_boolarr(where)]))
                res = obj(out[0]).copy()
                for ix in np.ndindex(res.shape):
                    if ins[-1][ix]:
                        one = [sarr(np.array(a[ix], dtype=object)) for a in ins[:-1]]
                        v = getattr(ufunc, '__call__')(*one)
                        res[ix] = v.reshape(-1)[0] if isinstance(v, np.ndarray) else v
                tgt = out[0]
                if isinstance(tgt, (SArr, SMat)):
                    tgt.view(np.ndarray)[...] = res
                    return tgt
                raise Unsupported('ufunc where= into a concrete array')
            if name in _UF_BOOL:
                r = _elementwise_bool(_UF_BOOL[name], np.asarray(inputs[0]))
            elif name == 'sign':
                r = _elementwise(lambda v: v.sign(), inputs[0])
            elif name in ('logical_and', 'logical_or', 'logical_xor', 'logical_not'):
                ins = [_boolarr(i) for i in inputs]
                r = ufunc(*ins)
            elif name == 'arctan2':
                a, b = np.broadcast_arrays(obj(inputs[0]), obj(inputs[1]))
                r = np.empty(a.shape, dtype=object)
                for ix in np.ndindex(a.shape):
                    r[ix] = sarctan2(S.of(a[ix]), S.of(b[ix]))
            elif name in ('bitwise_and', 'bitwise_or', 'bitwise_xor', 'invert'):
                raise TypeError("ufunc '%s' not supported for the input types" % name)
            elif name == 'divide' or name == 'true_divide':
                r = np.true_divide(*[obj(i) for i in inputs], dtype=object)
            elif name == 'square':
                o = obj(inputs[0])
                r = np.multiply(o, o)
            elif name == 'reciprocal':
                r = np.true_divide(obj(1.0), obj(inputs[0]))
            elif name == 'fabs':
                r = np.absolute(obj(inputs[0]))
            elif name == 'hypot':
                a, b = [obj(i) for i in inputs]
                r = np.sqrt(a * a + b * b)
            elif name in ('matmul',):
                r = sdot(*inputs)
            else:
                kw.pop('dtype', None)
                r = ufunc(*[obj(i) for i in inputs], **kw)
        elif method in ('reduce', 'accumulate'):
            kw.pop('dtype', None)
            if name in ('maximum', 'minimum'):
                return _minmax(inputs[0], name == 'minimum', kw.get('axis', 0))
            if name in ('logical_and', 'logical_or'):
                return getattr(ufunc, method)(_boolarr(inputs[0]), *inputs[1:], **kw)
            o = obj(inputs[0])
            if o.size == 0 and method == 'reduce':
                r = getattr(ufunc, method)(np.zeros(o.shape), *inputs[1:], **kw)
                r = conv(r) if np.ndim(r) == 0 else obj(r)
            else:
                r = getattr(ufunc, method)(o, *inputs[1:], **kw)
        elif method == 'at':
            a, idx = inputs[0], inputs[1]
            b = inputs[2:] if len(inputs) > 2 else ()
            ufunc.at(a.view(np.ndarray), idx, *[obj(x) for x in b])
            return None
        elif method == 'reduceat':
            r = getattr(ufunc, method)(obj(inputs[0]), np.asarray(inputs[1], dtype=int), **kw)
        else:
            r = getattr(ufunc, method)(*[obj(i) for i in inputs], **kw)
        if out:
            tgt = out[0]
            if isinstance(tgt, (SArr, SMat)):
                tgt.view(np.ndarray)[...] = r
            else:
                if isinstance(tgt, np.ndarray) and tgt.dtype.kind in 'iub' and isinstance(r, np.ndarray) \
                        and r.dtype == object:
                    raise np._core._exceptions._UFuncOutputCastingError(
                        ufunc, 'same_kind', np.dtype(float), tgt.dtype, 0) \
                        if False else TypeError('Cannot cast ufunc %s output from float64 to int64' % name)
                raise Unsupported('in-place update of a concrete float array with symbolic values')
            return tgt
        if isinstance(r, np.ndarray):
            return wrap(r, cls)
        return r

    def __setitem__(self, idx, val):
        if getattr(val, '_is_spmat', False):
            raise Unsupported('assigning sparse into array')
        if isinstance(idx, tuple):
            idx = tuple(_chk_idx(i) for i in idx)
        else:
            idx = _chk_idx(idx)
        b = self.view(np.ndarray)
        if isinstance(val, (list, tuple)):
            val = np.array(val, dtype=object)
        if isinstance(val, np.ndarray):
            val = obj(val)
            if val.ndim == 0:
                val = val.item()
        else:
            val = conv(val)
            if W().name_over is not None:
                val = named(val)
        b[idx] = val
        if W().name_over is not None and isinstance(val, np.ndarray):
            flat = val.reshape(-1)
            if any(isinstance(v, (S, C)) for v in flat):
                nv = np.empty(val.shape, dtype=object)
                for k in np.ndindex(val.shape):
                    nv[k] = named(val[k])
                b[idx] = nv

    def __getitem__(self, idx):
        if isinstance(idx, tuple):
            idx = tuple(_chk_idx(i) for i in idx)
        else:
            idx = _chk_idx(idx)
        return super(_Sym, self).__getitem__(idx)

    @property
    def real(self):
        return _elementwise(lambda v: v.real, self)

    @real.setter
    def real(self, v):
        raise Unsupported('assignment to .real')

    @property
    def imag(self):
        return _elementwise(lambda v: v.imag, self)

    def conj(self):
        return _elementwise(lambda v: v.conjugate(), self)
    conjugate = conj

    def astype(self, dtype, *a, **k):
        d = np.dtype(dtype)
        if d.kind in 'iu':
            o = obj(self)
            return np.array([int(v) for v in o.reshape(-1)], dtype=d).reshape(o.shape)
        if d.kind == 'b':
            o = obj(self)
            return np.array([bool(v) for v in o.reshape(-1)], dtype=bool).reshape(o.shape)
        if d.kind in 'fcO':
            return self.copy()
        raise Unsupported('astype %s' % d)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        o = obj(self)
        if where is not True:
            m = np.broadcast_to(_boolarr(where), o.shape)
            o = o.copy()
            o[~m] = S.of(0)
            r = o.view(SArr).sum(axis, keepdims=keepdims)
            return r if initial is None else r + initial
        if initial is not None:
            return self.sum(axis, keepdims=keepdims) + initial
        if o.size == 0:
            r = np.sum(np.zeros(o.shape), axis=axis, keepdims=keepdims)
            return conv(r) if np.ndim(r) == 0 else sarr(r)
        r = np.add.reduce(o, axis=axis, keepdims=keepdims) if axis is not None else \
            np.add.reduce(o.reshape(-1))
        if isinstance(self, SMat) and axis is not None and isinstance(r, np.ndarray) and r.ndim == 1:
            r = r.reshape(1, -1) if axis == 0 else r.reshape(-1, 1)
        return wrap(r, type(self)) if isinstance(r, np.ndarray) else r

    def max(self, axis=None, *a, **k):
        return _minmax(self, False, axis)

    def min(self, axis=None, *a, **k):
        return _minmax(self, True, axis)

    def any(self, axis=None, *a, **k):
        return np.any(_boolarr(self), axis=axis)

    def all(self, axis=None, *a, **k):
        return np.all(_boolarr(self), axis=axis)

    def mean(self, axis=None, *a, **k):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis=axis) / n

    def prod(self, axis=None, *a, **k):
        return wrap(np.multiply.reduce(obj(self), axis=axis)) if axis is not None else \
            np.multiply.reduce(obj(self).reshape(-1))

    def dot(self, o):
        return sdot(self, o)

    def nonzero(self):
        return np.nonzero(_boolarr(self))

    def cumsum(self, axis=None):
        o = obj(self)
        if axis is None:
            return wrap(np.add.accumulate(o.reshape(-1)))
        return wrap(np.add.accumulate(o, axis=axis))

    def round(self, decimals=0, out=None):
        return _elementwise(lambda v: v.__round__(decimals), self)

    def argmax(self, axis=None, out=None):
        return _arg(self, False, axis)

    def argmin(self, axis=None, out=None):
        return _arg(self, True, axis)

    def argsort(self, axis=-1, kind=None, order=None):
        return sargsort(self, axis)

    def tolist(self):
        return obj(self).tolist()

    def __float__(self):
        return float(self.item())

    def __matmul__(self, o):
        return sdot(self, o)

    def __rmatmul__(self, o):
        return sdot(o, self)

    def __contains__(self, x):
        return bool(np.any(_boolarr(self == x)))

    def __bool__(self):
        if self.size == 1:
            return bool(self.reshape(-1)[0] if not isinstance(self, SMat) else self.item(0))
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous. '
                         'Use a.any() or a.all()')

    def __reduce__(self):
        raise Unsupported('pickling symbolic array')

    def __deepcopy__(self, memo):
        return self.copy()


def _chk_idx(i):
    if isinstance(i, (S, C)):
        raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or '
                         'boolean arrays are valid indices')
    if isinstance(i, B):
        return bool(i)
    if isinstance(i, np.ndarray) and i.dtype == object:
        raise IndexError('arrays used as indices must be of integer (or boolean) type')
    if isinstance(i, (list, tuple)) and any(isinstance(v, (S, C)) for v in i):
        raise IndexError('arrays used as indices must be of integer (or boolean) type')
    return i


class SArr(_Sym, np.ndarray):
    __array_priority__ = 20.0

    def __array_function__(self, func, types_, args, kwargs):
        return _afun(func, types_, args, kwargs, self)


class SMat(_Sym, np.matrix):
    __array_priority__ = 25.0

    def __array_function__(self, func, types_, args, kwargs):
        return _afun(func, types_, args, kwargs, self)

    def __array_finalize__(self, o):
        np.matrix.__array_finalize__(self, o)

    def __mul__(self, o):
        if isinstance(o, (np.ndarray, list, tuple)):
            return sdot(self, np.asarray(o) if not isinstance(o, np.ndarray) else o, mat=True)
        if np.isscalar(o) or isinstance(o, (S, C)):
            return np.multiply(self, o)
        return NotImplemented

    def __rmul__(self, o):
        if isinstance(o, np.ndarray):
            return sdot(o, self, mat=True)
        return np.multiply(self, o)

    @property
    def A(self):
        return self.view(np.ndarray).view(SArr)

    @property
    def A1(self):
        return self.view(np.ndarray).reshape(-1).view(SArr)

    @property
    def H(self):
        return self.conj().T

    def getH(self):
        return self.H


_SHIM_AF = {}


def _afun(func, types_, args, kwargs, self):
    h = _SHIM_AF.get(func.__name__)
    if h is not None and getattr(np, func.__name__, None) is func:
        return h(*args, **kwargs)
    types2 = tuple(t for t in types_)
    r = np.ndarray.__array_function__(self, func, types2, args, kwargs)
    if isinstance(r, np.ndarray) and r.dtype == object and not isinstance(r, (SArr, SMat)):
        r = sarr(r)
    return r


def _boolarr(x):
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            o = obj(x)
            return np.array([bool(v) for v in o.reshape(-1)], dtype=bool).reshape(o.shape)
        return x
    if isinstance(x, (S, C, B)):
        return bool(x)
    return x


def _minmax(x, mn, axis=None, keepdims=False):
    o = obj(x) if not isinstance(x, np.ndarray) or x.dtype == object else x
    if o.dtype != object:
        return (np.min if mn else np.max)(o, axis=axis)
    if o.size == 0:
        raise ValueError('zero-size array to reduction operation %s which has no identity' %
                         ('minimum' if mn else 'maximum'))
    if axis is None:
        return smax(list(o.reshape(-1)), mn)
    return wrap(np.apply_along_axis(_as_obj(lambda v: smax(list(v), mn)), axis, o))


def _as_obj(f):
    def g(v):
        r = np.empty((), dtype=object)
        r[()] = f(v)
        return r
    return g


def _arg(x, mn, axis=None):
    o = obj(x)
    if axis is None:
        v = o.reshape(-1)
        best = 0
        for k in range(1, v.size):
            if (v[k] < v[best]) if mn else (v[k] > v[best]):
                best = k
        return np.int64(best)
    o = np.moveaxis(o, axis, -1)
    out = np.zeros(o.shape[:-1], dtype=int)
    for ix in np.ndindex(o.shape[:-1]):
        out[ix] = _arg(o[ix], mn)
    return out


def sargsort(x, axis=-1, kind=None, order=None, stable=None):
    o = obj(x)
    if o.ndim != 1:
        raise Unsupported('argsort of 2-D')
    import functools
    idx = list(range(o.size))

    def cmp(i, j):
        if o[i] < o[j]:
            return -1
        if o[i] > o[j]:
            return 1
        return i - j
    return np.array(sorted(idx, key=functools.cmp_to_key(cmp)), dtype=int)


def sdot(a, b, mat=False):
    if getattr(a, '_is_spmat', False):
        return a * b
    if getattr(b, '_is_spmat', False):
        return b.__rmul__(a)
    ismat = mat or isinstance(a, np.matrix) or isinstance(b, np.matrix)
    if not isinstance(a, np.ndarray) and not isinstance(b, np.ndarray):
        if np.isscalar(a) or np.isscalar(b) or isinstance(a, (S, C)) or isinstance(b, (S, C)):
            return a * b
    a_, b_ = a, b
    if isinstance(a, (S, C)) or np.ndim(a) == 0 or isinstance(b, (S, C)) or np.ndim(b) == 0:
        return a * b
    x, y = obj(a_), obj(b_)
    if mat and y.ndim == 1:
        y = y.reshape(1, -1)
    if mat and x.ndim == 1:
        x = x.reshape(1, -1)
    r = matmul_obj(x, y)
    if isinstance(r, np.ndarray):
        return r.view(SMat if ismat and r.ndim == 2 else SArr)
    return r


def matmul_obj(x, y):
    xs, ys = x.shape, y.shape
    if xs[-1] != ys[0 if y.ndim == 1 else -2]:
        raise ValueError('shapes %s and %s not aligned: %d (dim %d) != %d (dim %d)' %
                         (xs, ys, xs[-1], len(xs) - 1, ys[0], 0))
    if x.ndim > 2 or y.ndim > 2:
        raise Unsupported('dot on >2-D')
    X = x.reshape(1, -1) if x.ndim == 1 else x
    Y = y.reshape(-1, 1) if y.ndim == 1 else y
    n, k = X.shape
    m = Y.shape[1]
    out = np.empty((n, m), dtype=object)
    nzx = [[(j, X[i, j]) for j in range(k) if not _zero(X[i, j])] for i in range(n)]
    for j in range(m):
        col = [None if _zero(Y[l, j]) else Y[l, j] for l in range(k)]
        for i in range(n):
            acc = None
            for l, v in nzx[i]:
                w = col[l]
                if w is None:
                    continue
                t = v * w
                acc = t if acc is None else acc + t
            out[i, j] = acc if acc is not None else S({})
    if x.ndim == 1 and y.ndim == 1:
        return out[0, 0]
    if x.ndim == 1:
        return out[0, :]
    if y.ndim == 1:
        return out[:, 0]
    return out


def _zero(v):
    if isinstance(v, S):
        return v.sp is None and not v.p
    if isinstance(v, C):
        return _zero(v.re) and _zero(v.im)
    return v == 0


# --------------------------------------------------------------------------
# the numpy stand-in

def _hassym(x, depth=0):
    if isinstance(x, (S, C, SArr, SMat)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(_hassym(v, depth + 1) for v in x)
    return False


def _hasfloat(x, depth=0):
    if isinstance(x, (float, complex, np.floating, np.complexfloating)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype.kind in 'fc'
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(_hasfloat(v, depth + 1) for v in x)
    return False


def _kind(dtype):
    if dtype is None:
        return 'f'
    try:
        return np.dtype(dtype).kind
    except TypeError:
        return 'f'


def _shape(s):
    if isinstance(s, (S, C)):
        raise TypeError("'numpy.float64' object cannot be interpreted as an integer")
    if isinstance(s, (tuple, list)):
        for v in s:
            if isinstance(v, (S, C, float)):
                raise TypeError("'float' object cannot be interpreted as an integer")
        return tuple(int(v) for v in s)
    if isinstance(s, np.ndarray):
        if s.dtype.kind not in 'iub':
            raise TypeError('expected integer shape')
        return tuple(int(v) for v in s.reshape(-1)) if s.ndim else (int(s),)
    if isinstance(s, float):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return s


def _filled(shape, val, dtype):
    k = _kind(dtype)
    if k in 'fcO':
        a = np.empty(_shape(shape), dtype=object)
        a.fill(val if isinstance(val, (S, C)) else conv(val))
        return a.view(SArr)
    return np.full(_shape(shape), val, dtype=dtype)


def zeros(shape, dtype=None, order='C'):
    return _filled(shape, S({}), dtype) if _kind(dtype) in 'fcO' else np.zeros(_shape(shape), dtype)


def ones(shape, dtype=None, order='C'):
    return _filled(shape, S({(): 1}), dtype) if _kind(dtype) in 'fcO' else np.ones(_shape(shape), dtype)


def empty(shape, dtype=None, order='C'):
    return zeros(shape, dtype)


def full(shape, val, dtype=None, order='C'):
    if dtype is None and not isinstance(val, (S, C, float, complex, np.floating)):
        return np.full(_shape(shape), val)
    return _filled(shape, val, dtype if dtype is not None else float)


def eye(n, m=None, k=0, dtype=None, order='C'):
    if _kind(dtype) in 'iub':
        return np.eye(n, m, k, dtype=dtype)
    return sarr(np.eye(_shape(n), m, k))


def array(x, dtype=None, copy=True, order=None, subok=False, ndmin=0):
    if getattr(x, '_is_spmat', False):
        raise Unsupported('array(sparse)')
    if isinstance(x, SMat):
        r = x.view(np.ndarray).copy().view(SArr) if not subok else x.copy()
    elif isinstance(x, SArr):
        r = x.copy()
    elif _hassym(x):
        a = np.array(_unnest(x), dtype=object)
        r = sarr(a)
    elif _hasfloat(x) or (isinstance(x, (list, tuple)) and len(x) == 0 and dtype is None):
        r = sarr(np.array(x, dtype=complex if _hascomplex(x) else float))
    else:
        r = np.array(x)
        if r.dtype == object:
            r = sarr(r)
    if dtype is not None:
        k = _kind(dtype)
        if k in 'fcO':
            if r.dtype.kind in 'iubfc':
                r = sarr(r)
        else:
            r = r.astype(dtype)
    if r.ndim < ndmin:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r


def _hascomplex(x, depth=0):
    if isinstance(x, (complex, np.complexfloating)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype.kind == 'c'
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(_hascomplex(v, depth + 1) for v in x)
    return False


def _unnest(x):
    if isinstance(x, np.ndarray):
        return x.tolist() if x.dtype != object else obj(x).tolist()
    if isinstance(x, (list, tuple)):
        return [_unnest(v) for v in x]
    return x


def asarray(x, dtype=None, order=None):
    if isinstance(x, SMat):
        return x.view(np.ndarray).view(SArr)
    if isinstance(x, np.ndarray) and dtype is None:
        if x.dtype.kind in 'fc':
            return sarr(x)
        return x.view(np.ndarray) if type(x) is np.matrix else x
    if isinstance(x, SArr) and _kind(dtype) in 'fcO':
        return x
    return array(x, dtype)


def asmatrix(x, dtype=None):
    if getattr(x, '_is_spmat', False):
        x = x.toarray()
    a = asarray(x)
    if a.dtype.kind in 'iub':
        return np.asmatrix(a)
    if a.dtype != object:
        a = sarr(a)
    if a.ndim == 1:
        a = a.reshape(1, -1)
    return a.view(np.ndarray).view(SMat)


def arange(*a, **k):
    if any(isinstance(v, (S, float, np.floating)) for v in a):
        vals = [_conc(v) for v in a]
        r = np.arange(*vals, **k)
        return r if r.dtype.kind in 'iub' else sarr(r)
    return np.arange(*a, **k)


def _conc(v):
    """a concrete number for a symbolic one that only has integer values"""
    if isinstance(v, S):
        return float(v) if v.isconst() else float(int(v))
    return v


def linspace(*a, **k):
    if any(isinstance(v, S) and not v.isconst() for v in a[:2]):
        n = int(a[2]) if len(a) > 2 else int(k.get('num', 50))
        d = n - 1 if k.get('endpoint', True) else n
        return sarr([a[0] + (a[1] - a[0]) * Fraction(i, d) if i else S.of(a[0]) for i in range(n)])
    return sarr(np.linspace(*[float(v) if isinstance(v, S) else v for v in a], **k))


def _cat(f):
    def g(seq, *a, **k):
        seq = list(seq)
        if any(getattr(x, '_is_spmat', False) for x in seq):
            raise Unsupported('numpy stack of sparse')
        if any(_hassym(x) or _hasfloat(x) for x in seq):
            mat = any(isinstance(x, np.matrix) for x in seq)
            return wrap(f([obj(x) for x in seq], *a, **k), SMat if mat else SArr)
        return f(seq, *a, **k)
    return g


concatenate = _cat(np.concatenate)
hstack = _cat(np.hstack)
vstack = _cat(np.vstack)
column_stack = _cat(np.column_stack)


class _RC(object):
    def __init__(self, real):
        self._r = real

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if any(_hassym(k) or _hasfloat(k) for k in key):
            ks = []
            for k in key:
                if isinstance(k, (str, slice)):
                    ks.append(k)
                elif getattr(k, '_is_spmat', False):
                    raise Unsupported('r_ of sparse')
                elif isinstance(k, np.ndarray):
                    ks.append(obj(k))
                elif isinstance(k, (list, tuple)):
                    ks.append(obj(array(k)))
                else:
                    a = np.empty(1, dtype=object)
                    a[0] = conv(k)
                    ks.append(a)
            return wrap(self._r[tuple(ks)])
        return self._r[key]


r_ = _RC(np.r_)
c_ = _RC(np.c_)


def _red(name):
    def g(x, axis=None, *a, **k):
        k.pop('dtype', None)
        if getattr(x, '_is_spmat', False):
            return getattr(x, name)(axis)
        if isinstance(x, np.ndarray) and x.dtype == object:
            return getattr(x if isinstance(x, (SArr, SMat)) else sarr(x), name)(axis, *a, **k)
        if isinstance(x, (list, tuple)):
            if _hassym(x) or _hasfloat(x):
                return getattr(array(x), name)(axis)
            if any(isinstance(v, B) for v in x):
                x = [bool(v) for v in x]
        if isinstance(x, (S, C)):
            return {'any': lambda: bool(x), 'all': lambda: bool(x)}.get(name, lambda: x)()
        if isinstance(x, B):
            return bool(x)
        if isinstance(x, types.GeneratorType):
            x = list(x)
            return g(x, axis)
        return getattr(np, name)(x, axis, *a, **k)
    return g


np_sum = _red('sum')
np_max = _red('max')
np_min = _red('min')
np_any = _red('any')
np_all = _red('all')
np_prod = _red('prod')
np_mean = _red('mean')
np_cumsum = _red('cumsum')
np_argmax = _red('argmax')
np_argmin = _red('argmin')


def np_abs(x):
    if getattr(x, '_is_spmat', False) or isinstance(x, (S, C)):
        return abs(x)
    if isinstance(x, (list, tuple)):
        x = array(x)
    return abs(x)


def real(x):
    if isinstance(x, np.ndarray) or isinstance(x, (S, C)):
        return x.real
    if getattr(x, '_is_spmat', False):
        return x.real
    return np.real(x)


def imag(x):
    if isinstance(x, np.ndarray) and x.dtype != object:
        return np.imag(x)
    if isinstance(x, np.ndarray) or isinstance(x, (S, C)):
        return x.imag
    if getattr(x, '_is_spmat', False):
        return x.imag
    return np.imag(x)


def conj(x):
    if isinstance(x, np.ndarray) or isinstance(x, (S, C)) or getattr(x, '_is_spmat', False):
        return x.conj()
    return np.conj(x)


def angle(z, deg=False):
    if isinstance(z, (list, tuple)):
        z = array(z)
    if isinstance(z, np.ndarray) or isinstance(z, (S, C)):
        r = _elementwise(cangle, z)
        return r * (180 / math.pi) if deg else r
    return np.angle(z, deg)


def _uf1(name):
    uf = getattr(np, name)

    def g(x, *a, **k):
        if isinstance(x, (S, C)):
            return getattr(x, {'absolute': '__abs__'}.get(name, name))()
        if getattr(x, '_is_spmat', False):
            return getattr(x, name)()
        if isinstance(x, (list, tuple)):
            x = array(x)
        return uf(x, *a, **k)
    g.__name__ = name
    return g


def np_sign(x):
    if isinstance(x, S):
        return x.sign()
    if isinstance(x, SArr):
        return _elementwise(lambda v: v.sign(), x)
    return np.sign(x)


def isnan(x):
    if isinstance(x, (S, C)):
        return is_nan(x)
    return np.isnan(array(x) if isinstance(x, (list, tuple)) else x)


def isinf(x):
    if isinstance(x, (S, C)):
        return is_inf(x)
    return np.isinf(array(x) if isinstance(x, (list, tuple)) else x)


def isfinite(x):
    if isinstance(x, (S, C)):
        return not is_inf(x) and not is_nan(x)
    return np.isfinite(array(x) if isinstance(x, (list, tuple)) else x)


def isscalar(x):
    return isinstance(x, (S, C)) or np.isscalar(x)


def flatnonzero(a):
    if isinstance(a, B):
        return np.flatnonzero(bool(a))
    if getattr(a, '_is_spmat', False):
        raise Unsupported('flatnonzero(sparse)')
    if isinstance(a, (list, tuple)):
        a = [bool(v) if isinstance(v, B) else v for v in a]
        a = array(a)
    if isinstance(a, np.ndarray) and a.dtype == object:
        return np.flatnonzero(_boolarr(a))
    return np.flatnonzero(a)


def nonzero(a):
    if getattr(a, '_is_spmat', False):
        return a.nonzero()
    if isinstance(a, (list, tuple)):
        a = array(a)
    if isinstance(a, np.ndarray) and a.dtype == object:
        return np.nonzero(_boolarr(a))
    if isinstance(a, (S, C, B)):
        a = bool(a)
    return np.nonzero(a)


def argsort(a, axis=-1, kind=None, order=None, stable=None):
    if isinstance(a, (list, tuple)):
        a = array(a)
    if isinstance(a, np.ndarray) and a.dtype == object:
        return sargsort(a, axis)
    return np.argsort(a, axis, kind=kind)


def sort(a, axis=-1, kind=None, order=None):
    if isinstance(a, (list, tuple)):
        a = array(a)
    if isinstance(a, np.ndarray) and a.dtype == object:
        if a.ndim == 1:
            return a[sargsort(a)]
        raise Unsupported('sort of 2-D')
    return np.sort(a, axis, kind)


def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None):
    if isinstance(a, (list, tuple)):
        a = array(a)
    if isinstance(a, np.ndarray) and a.dtype == object:
        o = obj(a).reshape(-1)
        idx = sargsort(o)
        keep, inv, cnt = [], np.zeros(o.size, int), []
        for i in idx:
            if keep and bool(o[keep[-1]] == o[i]):
                inv[i] = len(keep) - 1
                cnt[-1] += 1
            else:
                keep.append(int(i))
                cnt.append(1)
                inv[i] = len(keep) - 1
        u = np.empty(len(keep), dtype=object)
        for k, i in enumerate(keep):
            u[k] = o[i]
        out = [u.view(SArr)]
        if return_index:
            out.append(np.array(keep, int))
        if return_inverse:
            out.append(inv)
        if return_counts:
            out.append(np.array(cnt, int))
        return out[0] if len(out) == 1 else tuple(out)
    return np.unique(a, return_index, return_inverse, return_counts, axis)


def _memb(v, others):
    for o in others:
        if bool(v == o):
            return True
    return False


def in1d(a, b, assume_unique=False, invert=False):
    if _hassym(a) or _hassym(b):
        bs = list(obj(array(b) if isinstance(b, (list, tuple)) else b).reshape(-1))
        av = obj(array(a) if isinstance(a, (list, tuple)) else a).reshape(-1)
        r = np.array([_memb(v, bs) for v in av], dtype=bool)
        return ~r if invert else r
    return np.isin(np.asarray(a).reshape(-1), b, assume_unique, invert)


def isin(a, b, assume_unique=False, invert=False):
    r = in1d(a, b, assume_unique, invert)
    return r.reshape(np.shape(a))


def union1d(a, b):
    return unique(concatenate((np.ravel(a), np.ravel(b)))) if (_hassym(a) or _hassym(b)) else np.union1d(a, b)


def setdiff1d(a, b, assume_unique=False):
    if _hassym(a) or _hassym(b):
        u = unique(a)
        return u[in1d(u, b, invert=True)]
    return np.setdiff1d(a, b, assume_unique)


def intersect1d(a, b, **k):
    if _hassym(a) or _hassym(b):
        u = unique(a)
        return u[in1d(u, b)]
    return np.intersect1d(a, b, **k)


def where(cond, *xy):
    if isinstance(cond, B):
        cond = bool(cond)
    if isinstance(cond, np.ndarray) and cond.dtype == object:
        cond = _boolarr(cond)
    if not xy:
        return np.where(cond)
    x, y = xy
    if _hassym(x) or _hassym(y) or _hasfloat(x) or _hasfloat(y):
        return wrap(np.where(cond, obj(x), obj(y)))
    return np.where(cond, x, y)


def dot(a, b):
    if getattr(a, '_is_spmat', False) or getattr(b, '_is_spmat', False):
        raise Unsupported('numpy.dot on sparse')
    if isinstance(a, (list, tuple)):
        a = array(a)
    if isinstance(b, (list, tuple)):
        b = array(b)
    if _hassym(a) or _hassym(b) or _hasfloat(a) or _hasfloat(b):
        return sdot(a, b)
    return np.dot(a, b)


def diff(a, n=1, axis=-1):
    a = array(a) if isinstance(a, (list, tuple)) else a
    if isinstance(a, np.ndarray) and a.dtype == object:
        if n != 1:
            raise Unsupported('diff n>1')
        o = obj(a)
        sl1 = [slice(None)] * o.ndim
        sl2 = [slice(None)] * o.ndim
        sl1[axis] = slice(1, None)
        sl2[axis] = slice(None, -1)
        return wrap(np.subtract(o[tuple(sl1)], o[tuple(sl2)]))
    return np.diff(a, n, axis)


def diag(v, k=0):
    if isinstance(v, (list, tuple)):
        v = array(v)
    if isinstance(v, np.ndarray) and v.dtype == object:
        if isinstance(v, SMat):
            return v.view(np.ndarray).diagonal(k).view(SArr)
        o = obj(v)
        if o.ndim == 1:
            n = o.size + abs(k)
            r = zeros((n, n))
            for i in range(o.size):
                r[(i, i + k) if k >= 0 else (i - k, i)] = o[i]
            return r
        return wrap(np.array([o[i, i + k] if k >= 0 else o[i - k, i]
                              for i in range(min(o.shape) - abs(k))], dtype=object))
    return np.diag(v, k)


def tril(m, k=0):
    if isinstance(m, np.ndarray) and m.dtype == object:
        r = m.copy()
        for i in range(r.shape[0]):
            for j in range(r.shape[1]):
                if j > i + k:
                    r[i, j] = 0
        return r
    return np.tril(m, k)


def copy(x, *a, **k):
    if isinstance(x, (SArr, SMat)):
        return x.view(np.ndarray).copy().view(SArr)
    if isinstance(x, (S, C)):
        r = np.empty((), dtype=object)
        r[()] = x
        return r.view(SArr)
    return array(x)


def interp(x, xp, fp, left=None, right=None):
    if not (_hassym(x) or _hassym(xp) or _hassym(fp)):
        return np.interp(x, xp, fp, left, right)
    xs = obj(x)
    xp, fp = obj(xp).reshape(-1), obj(fp).reshape(-1)
    out = np.empty(xs.shape, dtype=object)
    for ix in np.ndindex(xs.shape):
        v = xs[ix]
        if v <= xp[0]:
            out[ix] = fp[0] if (left is None or bool(v == xp[0])) else conv(left)
            continue
        if v >= xp[-1]:
            out[ix] = fp[-1] if (right is None or bool(v == xp[-1])) else conv(right)
            continue
        for k in range(1, xp.size):
            if v <= xp[k]:
                out[ix] = fp[k - 1] + (fp[k] - fp[k - 1]) * (v - xp[k - 1]) / (xp[k] - xp[k - 1])
                break
    return out.view(SArr) if xs.ndim else out[()]


def polyval(p, x):
    p = obj(array(p) if isinstance(p, (list, tuple)) else p)
    y = x * 0 if isinstance(x, np.ndarray) else S({})
    for c in p:
        y = y * x + c
    return y


def searchsorted(a, v, side='left', sorter=None):
    if not (_hassym(a) or _hassym(v)):
        return np.searchsorted(a, v, side, sorter)
    o = obj(a).reshape(-1)

    def one(x):
        k = 0
        while k < o.size and (bool(o[k] < x) if side == 'left' else bool(o[k] <= x)):
            k += 1
        return k
    if np.ndim(v) == 0:
        return np.int64(one(conv(v) if not isinstance(v, np.ndarray) else v.item()))
    return np.array([one(x) for x in obj(v).reshape(-1)], int).reshape(np.shape(v))


def _tol(*a):
    return None


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    d = np_abs(array(a) - array(b))
    return bool(np_all(d <= atol + rtol * np_abs(array(b))))


def array_equal(a, b, equal_nan=False):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    return bool(np.all(_boolarr(a == b)))


def norm(x, ord=None, axis=None, keepdims=False):
    from .core import ssqrt
    if getattr(x, '_is_spmat', False):
        raise Unsupported('norm of sparse')
    o = obj(array(x) if isinstance(x, (list, tuple)) else x)
    if axis is not None or o.ndim > 1 and ord is not None:
        raise Unsupported('norm axis/matrix norms')
    if o.ndim == 0:
        return abs(o.item())
    v = o.reshape(-1)
    if ord is None or ord == 2:
        acc = S({})
        for e in v:
            acc = acc + (e.abs2() if isinstance(e, C) else e * e)
        return ssqrt(acc)
    if isinstance(ord, S) and ord.sp == 'inf' or ord == math.inf:
        if v.size == 0:
            raise ValueError('zero-size array to reduction operation maximum which has no identity')
        return smax([abs(e) for e in v])
    if ord == 1:
        acc = S({})
        for e in v:
            acc = acc + abs(e)
        return acc
    raise Unsupported('norm ord %r' % (ord,))


def np_solve(a, b):
    from .sparse import linsolve
    return linsolve(a, b)


def np_inv(a):
    from .sparse import linsolve
    a = asarray(a)
    return linsolve(a, eye(a.shape[0]))


def _is_square(a):
    return np.ndim(a) == 2 and np.shape(a)[0] == np.shape(a)[1]


def np_lstsq(a, b, rcond=None):
    if not _hassym(a) and not _hassym(b):
        return np.linalg.lstsq(np.asarray(a, float), np.asarray(b, float), rcond=rcond)
    if not _is_square(a):
        raise Unsupported('lstsq of a non-square matrix')
    return np_solve(a, b), None, np.shape(a)[0], None


def np_det(a):
    if not _hassym(a):
        return np.linalg.det(np.asarray(a, float))
    from . import sparse
    return sparse._det([list(r) for r in obj(a)])


def multi_dot(xs):
    r = xs[0]
    for x in xs[1:]:
        r = dot(r, x)
    return r


def bincount(x, weights=None, minlength=0):
    if weights is None or not _hassym(weights):
        if isinstance(x, np.ndarray) and x.dtype == object:
            x = x.astype(int)
        return np.bincount(x, None if weights is None else np.asarray(weights, float), minlength)
    x = np.asarray(x)
    if x.dtype.kind not in 'iub':
        raise TypeError("Cannot cast array data from dtype('float64') to dtype('int64') according to the rule 'safe'")
    if len(x) != len(weights):
        raise ValueError('The weights and list don\'t have the same length.')
    r = zeros(max(int(x.max()) + 1 if x.size else 0, minlength))
    for i, w in zip(x, obj(weights)):
        r[int(i)] = r[int(i)] + w
    return r


def vdot(a, b):
    return np_sum(conj(asarray(a).ravel()) * asarray(b).ravel())


def inner(a, b):
    a, b = asarray(a), asarray(b)
    return dot(a, b) if a.ndim <= 1 and b.ndim <= 1 else dot(a, b.T)


def fromiter(it, dtype=float, count=-1):
    xs = [x for _, x in zip(range(count), it)] if count >= 0 else list(it)
    if _hassym(xs):
        return array(xs)
    return array(np.fromiter(iter(xs), dtype)) if len(xs) == 0 or dtype in (int, bool) else array(xs, dtype=dtype)


class _LogicUf(object):
    """np.logical_and and the like: a function with the reductions of a ufunc"""

    def __init__(self, name, f):
        self.name, self.f = name, f
        self.__name__ = name

    def __call__(self, *a, **k):
        return self.f(*a, **k)

    def reduce(self, x, axis=0, **k):
        if isinstance(x, (list, tuple)):
            x = np.array([_boolarr(asarray(v)) if not isinstance(v, (S, C, B)) else bool(v) for v in x])
        return getattr(np, self.name).reduce(_boolarr(x), axis=axis, **k)

    def outer(self, a, b):
        return getattr(np, self.name).outer(_boolarr(asarray(a)), _boolarr(asarray(b)))

    def accumulate(self, x, axis=0):
        return getattr(np, self.name).accumulate(_boolarr(asarray(x)), axis=axis)


class _LinAlg(types.ModuleType):
    LinAlgError = np.linalg.LinAlgError

    def __init__(self):
        types.ModuleType.__init__(self, 'numpy.linalg')
        self.norm = norm
        self.solve = np_solve
        self.inv = np_inv
        self.pinv = lambda a, *x, **k: np_inv(a) if _hassym(a) and _is_square(a) else \
            _guard('numpy.linalg.pinv', np.linalg.pinv)(a, *x, **k)
        self.lstsq = np_lstsq
        self.det = np_det
        self.multi_dot = multi_dot

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return _guard('numpy.linalg.' + name, getattr(np.linalg, name))


def _guard(name, f):
    """concrete arguments go to the real function; symbolic ones are not supported"""
    if not callable(f) or isinstance(f, type):
        return f

    def g(*a, **k):
        if any(_hassym(x) for x in a) or any(_hassym(x) for x in k.values()):
            raise Unsupported(name + ' on symbolic values')
        return f(*a, **k)
    g.__name__ = getattr(f, '__name__', 'f')
    return g


def _atleast(f):
    def g(*a):
        r = f(*[sarr(x) if isinstance(x, np.ndarray) and x.dtype.kind in 'fc' else
                (array(x) if isinstance(x, (list, tuple)) else
                 (sarr(np.array(x, dtype=object)) if isinstance(x, (S, C)) else x)) for x in a])
        if isinstance(r, (list, tuple)):
            return [wrap(v) for v in r]
        return wrap(r)
    return g


def _like(val):
    def g(a, dtype=None, **k):
        shp = k.get('shape', None)
        shp = np.shape(a) if shp is None else shp
        if dtype is None:
            if isinstance(a, np.ndarray) and a.dtype.kind in 'iub':
                return np.full(shp, val, dtype=a.dtype)
            if not isinstance(a, np.ndarray) and not _hassym(a) and not _hasfloat(a):
                return np.full(shp, val)
            dtype = float
        return _filled(shp, val, dtype)
    return g


def full_like(a, val, dtype=None, **k):
    return _like(val)(a, dtype, **k)


def delete(a, idx, axis=None):
    if isinstance(a, np.ndarray) and a.dtype == object:
        return wrap(np.delete(obj(a), idx, axis))
    return np.delete(a, idx, axis)


def outer(a, b):
    a, b = asarray(a), asarray(b)
    return a.reshape(-1, 1) * b.reshape(1, -1)


def _pass_obj(name):
    f = getattr(np, name)

    def g(x, *a, **k):
        if getattr(x, '_is_spmat', False):
            raise Unsupported('numpy.%s on sparse' % name)
        if isinstance(x, (list, tuple)):
            x = array(x)
        r = f(x, *a, **k)
        return wrap(r) if isinstance(r, np.ndarray) and not isinstance(r, SMat) else r
    return g


def _uflogic(name):
    f = getattr(np, name)

    def g(*a, **k):
        if any(isinstance(x, (S, C, B)) for x in a) and not any(isinstance(x, np.ndarray) for x in a):
            return f(*[bool(x) if isinstance(x, (S, C, B)) else x for x in a])
        return f(*a, **k)
    return g


class _F64Meta(type):
    def __call__(cls, x=0.0):
        if isinstance(x, S):
            return x
        if _hassym(x):
            return asarray(x)
        return np.float64(x)

    def __instancecheck__(cls, x):
        return isinstance(x, np.float64)


class _Float64(np.float64, metaclass=_F64Meta):
    pass


class NumpyShim(types.ModuleType):
    """looked up as `numpy` by the code under test"""

    def __init__(self):
        types.ModuleType.__init__(self, 'numpy')
        d = dict(
            zeros=zeros, ones=ones, empty=empty, full=full, eye=eye, identity=eye, array=array, asarray=asarray,
            asanyarray=asarray, ascontiguousarray=asarray, asfortranarray=asarray,
            asmatrix=asmatrix, matrix=asmatrix, mat=asmatrix, arange=arange, linspace=linspace,
            concatenate=concatenate, hstack=hstack, vstack=vstack, column_stack=column_stack, r_=r_, c_=c_,
            sum=np_sum, max=np_max, amax=np_max, min=np_min, amin=np_min, any=np_any, all=np_all, prod=np_prod,
            mean=np_mean, cumsum=np_cumsum, argmax=np_argmax, argmin=np_argmin, abs=np_abs, absolute=np_abs,
            real=real, imag=imag, conj=conj, conjugate=conj, angle=angle, sign=np_sign, isnan=isnan, isinf=isinf,
            isfinite=isfinite, isscalar=isscalar, flatnonzero=flatnonzero, nonzero=nonzero, argsort=argsort,
            sort=sort, unique=unique, in1d=in1d, isin=isin, union1d=union1d, setdiff1d=setdiff1d,
            intersect1d=intersect1d, where=where, dot=dot, matmul=dot, inner=inner, vdot=vdot, bincount=bincount, fromiter=fromiter, diff=diff, diag=diag,
            tril=tril, copy=copy, interp=interp, polyval=polyval, searchsorted=searchsorted, allclose=allclose,
            array_equal=array_equal, linalg=_LinAlg(), delete=delete, outer=outer, zeros_like=_like(0),
            ones_like=_like(1), empty_like=_like(0), full_like=full_like,
            atleast_1d=_atleast(np.atleast_1d), atleast_2d=_atleast(np.atleast_2d))
        for n in ('sqrt', 'exp', 'log', 'cos', 'sin', 'tan', 'arctan', 'deg2rad', 'rad2deg', 'radians', 'degrees',
                  'rint', 'floor', 'ceil', 'square'):
            d[n] = _uf1(n)
        for n in ('reshape', 'ravel', 'transpose', 'squeeze', 'tile', 'repeat', 'roll', 'flip', 'fliplr', 'flipud',
                  'append', 'take', 'split', 'broadcast_to', 'triu', 'insert', 'swapaxes', 'expand_dims'):
            d[n] = _pass_obj(n)
        d['square'] = lambda x: x * x
        d['float64'] = d['float_'] = d['double'] = _Float64
        d['nansum'] = lambda x, axis=None, **k: np_sum(where(isnan(asarray(x)), 0.0, asarray(x)), axis) \
            if _hassym(x) else np.nansum(x, axis, **k)
        for n in ('logical_and', 'logical_or', 'logical_xor', 'logical_not'):
            d[n] = _LogicUf(n, _uflogic(n))
        d['fix'] = lambda x: _elementwise(lambda v: S.of(int(v)), x) if _hassym(x) else np.fix(x)
        for k, v in d.items():
            setattr(self, k, v)
        for k, h in d.items():
            if callable(h) and k not in ('zeros', 'ones', 'array', 'asarray'):
                _SHIM_AF.setdefault(k, h)
        for k in ('reshape', 'ravel', 'transpose', 'squeeze', 'tile', 'repeat', 'roll', 'flip', 'fliplr', 'flipud',
                  'append', 'take', 'split', 'broadcast_to', 'triu', 'insert', 'swapaxes', 'copy', 'atleast_1d',
                  'atleast_2d', 'expand_dims', 'delete', 'concatenate', 'hstack', 'vstack', 'column_stack',
                  'zeros_like', 'ones_like', 'empty_like', 'full_like'):
            _SHIM_AF.pop(k, None)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        f = getattr(np, name)
        if isinstance(f, np.ufunc):
            f = _GenUf(f)
            setattr(self, name, f)
        return f


class _GenUf(object):
    """a ufunc without a stand-in of its own: bare symbolic scalars go through __array_ufunc__ as 0-d arrays"""

    def __init__(self, f):
        self._f = f
        self.__name__ = f.__name__

    def __call__(self, *args, **kw):
        if any(isinstance(a, (S, C)) for a in args):
            args = [sarr(np.array(a, dtype=object)) if isinstance(a, (S, C)) else a for a in args]
            r = self._f(*args, **kw)
            return r.item() if isinstance(r, np.ndarray) and r.ndim == 0 else r
        return self._f(*args, **kw)

    def __getattr__(self, name):
        return getattr(self._f, name)


class MathShim(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'math')
        for n in ('sqrt', 'exp', 'log', 'cos', 'sin', 'tan'):
            setattr(self, n, self._mk(n))
        self.fabs = lambda x: abs(x)
        self.isnan = isnan
        self.isinf = isinf
        self.isfinite = isfinite
        self.radians = lambda x: x * math.pi / 180
        self.degrees = lambda x: x * 180 / math.pi
        self.hypot = lambda *a: self.sqrt(sum(x * x for x in a)) if _hassym(a) else math.hypot(*a)
        self.pow = lambda a, b: a ** b if isinstance(a, S) or isinstance(b, S) else math.pow(a, b)
        self.fsum = lambda xs: self._sum(list(xs))
        self.atan2 = lambda a, b: sarctan2(S.of(a), S.of(b)) if isinstance(a, S) or isinstance(b, S) else math.atan2(a, b)

    @staticmethod
    def _sum(xs):
        if not _hassym(xs):
            return math.fsum(xs)
        r = S.of(0)
        for x in xs:
            r = r + x
        return r

    @staticmethod
    def _mk(n):
        f = getattr(math, n)

        def g(x):
            if isinstance(x, S):
                return getattr(x, n)()
            return f(x)
        return g

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(math, name)
