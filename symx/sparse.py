"""Stand-ins for scipy.sparse / scipy.sparse.linalg over symbolic scalars.

SpMat keeps a dense object array plus the structural pattern (which entries are
stored), and follows the *matrix* interface of scipy.sparse.csr_matrix:
`*` is the matrix product, mixed sums with dense arrays give matrices.
"""
import math
import types

import numpy as np

from .core import S, C, B, Unsupported, W, p2z, padd, pneg, pkey, patoms, psign, is_nan
from . import arr
from .arr import SArr, SMat, obj, sarr, conv, wrap, matmul_obj, _zero, _hassym


class SpMat(object):
    _is_spmat = True
    __array_ufunc__ = None
    __array_priority__ = 30.0
    ndim = 2

    def __init__(self, a, st=None, fmt='csr'):
        self.a = a                       # plain object ndarray 2-D
        self.st = st if st is not None else _pattern(a)
        self.format = fmt

    # -- info
    @property
    def shape(self):
        return self.a.shape

    def get_shape(self):
        return self.a.shape

    @property
    def nnz(self):
        return int(self.st.sum())

    def getnnz(self, axis=None):
        return self.nnz if axis is None else self.st.sum(axis=axis)

    @property
    def size(self):
        return self.nnz

    @property
    def dtype(self):
        for v in self.a.reshape(-1):
            if isinstance(v, C):
                return np.dtype(complex)
        return np.dtype(float)

    @property
    def data(self):
        i, j = self._ij()
        r = np.empty(len(i), dtype=object)
        for k in range(len(i)):
            r[k] = self.a[i[k], j[k]]
        return r.view(SArr)

    def _ij(self):
        if self.format == 'csc':
            j, i = np.nonzero(self.st.T)
            return i, j
        return np.nonzero(self.st)

    @property
    def row(self):
        return self._ij()[0]

    @property
    def col(self):
        return self._ij()[1]

    @property
    def indices(self):
        i, j = self._ij()
        return (i if self.format == 'csc' else j).astype(np.int32)

    @property
    def indptr(self):
        c = self.st.sum(axis=0 if self.format == 'csc' else 1)
        return np.concatenate(([0], np.cumsum(c))).astype(np.int32)

    # -- conversions
    def _new(self, a, st=None, fmt=None):
        return SpMat(a, st, fmt or ('csr' if self.format in ('lil', 'coo', 'dok', 'dia') else self.format))

    def copy(self):
        return SpMat(self.a.copy(), self.st.copy(), self.format)

    def __deepcopy__(self, memo):
        return self.copy()

    def tocsr(self, copy=False):
        return SpMat(self.a.copy(), self.st.copy(), 'csr')

    def tocsc(self, copy=False):
        return SpMat(self.a.copy(), self.st.copy(), 'csc')

    def tolil(self, copy=False):
        return SpMat(self.a.copy(), self.st.copy(), 'lil')

    def tocoo(self, copy=False):
        return SpMat(self.a.copy(), self.st.copy(), 'coo')

    def todok(self, copy=False):
        return SpMat(self.a.copy(), self.st.copy(), 'dok')

    def asformat(self, f, copy=False):
        return SpMat(self.a.copy(), self.st.copy(), f or self.format)

    def toarray(self, order=None, out=None):
        return self.a.copy().view(SArr)

    @property
    def A(self):
        return self.toarray()

    def todense(self, order=None, out=None):
        return self.a.copy().view(SMat)

    def astype(self, t, *a, **k):
        kd = np.dtype(t).kind
        if kd in 'fcO':
            return self.copy()
        r = self.toarray().astype(t)
        return SpMat(obj(r), self.st.copy(), self.format)

    # -- structure
    @property
    def T(self):
        return SpMat(self.a.T.copy(), self.st.T.copy(), {'csr': 'csc', 'csc': 'csr'}.get(self.format, self.format))

    def transpose(self, axes=None, copy=False):
        return self.T

    def getH(self):
        return self.T.conj()

    @property
    def H(self):
        return self.getH()

    def _map(self, f):
        out = np.empty(self.a.shape, dtype=object)
        for ix in np.ndindex(out.shape):
            out[ix] = f(self.a[ix]) if self.st[ix] else S({})
        return SpMat(out, self.st.copy(), self.format)

    def conj(self, copy=True):
        return self._map(lambda v: v.conjugate())
    conjugate = conj

    @property
    def real(self):
        return self._map(lambda v: v.real)

    @property
    def imag(self):
        return self._map(lambda v: v.imag)

    def __abs__(self):
        return self._map(abs)

    def sqrt(self):
        return self._map(lambda v: v.sqrt())

    def sign(self):
        return self._map(lambda v: v.sign())

    def power(self, n, dtype=None):
        return self._map(lambda v: v ** n)

    def __neg__(self):
        return self._map(lambda v: -v)

    def diagonal(self, k=0):
        return obj(np.array([self.a[i, i] for i in range(min(self.a.shape))], dtype=object)).view(SArr) if k == 0 \
            else self.toarray().diagonal(k)

    def setdiag(self, v, k=0):
        vs = obj(v).reshape(-1)
        for i in range(min(self.a.shape)):
            self.a[i, i] = vs[i % vs.size]
            self.st[i, i] = True

    def eliminate_zeros(self):
        self.st = _pattern(self.a)

    def sort_indices(self):
        pass

    def sorted_indices(self):
        return self.copy()

    def sum_duplicates(self):
        pass

    def reshape(self, *shape, **k):
        if len(shape) == 1:
            shape = shape[0]
        return self._new(self.a.reshape(shape), self.st.reshape(shape))

    def sum(self, axis=None, dtype=None, out=None):
        d = self.a.view(SArr)
        if axis is None:
            return d.sum()
        r = d.sum(axis=axis)
        r = r.reshape(1, -1) if axis in (0, -2) else r.reshape(-1, 1)
        return r.view(np.ndarray).view(SMat)

    def max(self, axis=None, out=None):
        if axis is None:
            return self.a.view(SArr).max()
        raise Unsupported('sparse max axis')

    def min(self, axis=None, out=None):
        if axis is None:
            return self.a.view(SArr).min()
        raise Unsupported('sparse min axis')

    def mean(self, axis=None):
        if axis is None:
            return self.sum() / (self.shape[0] * self.shape[1])
        return self.sum(axis) / self.shape[axis]

    def nonzero(self):
        m = np.zeros(self.a.shape, bool)
        for ix in np.ndindex(m.shape):
            if self.st[ix]:
                v = self.a[ix]
                m[ix] = bool(v != 0) if isinstance(v, (S, C)) else bool(v)
        if self.format == 'csc':
            j, i = np.nonzero(m.T)
            return i, j
        return np.nonzero(m)

    def count_nonzero(self):
        return len(self.nonzero()[0])

    def getrow(self, i):
        return self[i, :]

    def getcol(self, j):
        return self[:, j]

    # -- algebra
    def _bin(self, o, f):
        if isinstance(o, SpMat):
            if o.shape != self.shape:
                raise ValueError('inconsistent shapes')
            r = f(self.a, o.a)
            return self._new(r, self.st | o.st)
        if isinstance(o, np.ndarray):
            r = f(self.a, obj(o))
            return r.view(SMat)
        if isinstance(o, (S, C, int, float, complex, np.number)):
            if not isinstance(o, (S, C)) and o == 0:
                return self.copy()
            if isinstance(o, S) and o.isconst() and o.const() == 0:
                return self.copy()
            raise NotImplementedError('adding a nonzero scalar to a sparse array is not supported')
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, np.add)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: np.add(b, a))

    def __sub__(self, o):
        return self._bin(o, np.subtract)

    def __rsub__(self, o):
        r = self._bin(o, lambda a, b: np.subtract(b, a))
        if isinstance(r, SpMat):
            return -r
        return r

    def _scale(self, k):
        return self._map(lambda v: v * k)

    def __mul__(self, o):
        if isinstance(o, SpMat):
            if self.shape[1] != o.shape[0]:
                raise ValueError('matmul: dimension mismatch')
            r = matmul_obj(self.a, o.a)
            st = (self.st.astype(int) @ o.st.astype(int)) > 0
            return self._new(r, st)
        if isinstance(o, (S, C)) or np.isscalar(o):
            return self._scale(conv(o))
        if isinstance(o, (list, tuple)):
            o = arr.array(o)
        if isinstance(o, np.ndarray):
            if o.ndim == 0:
                return self._scale(conv(o.item()))
            y = obj(o)
            if y.shape[0] != self.shape[1]:
                raise ValueError('matmul: dimension mismatch')
            r = matmul_obj(self.a, y)
            return r.view(SMat if isinstance(o, np.matrix) else SArr)
        return NotImplemented

    def __matmul__(self, o):
        if isinstance(o, (S, C)) or np.isscalar(o):
            raise ValueError("Scalar operands are not allowed, use '*' instead")
        return self.__mul__(o)

    def dot(self, o):
        return self.__mul__(o)

    def __rmul__(self, o):
        if isinstance(o, (S, C)) or np.isscalar(o):
            return self._scale(conv(o))
        if isinstance(o, (list, tuple)):
            o = arr.array(o)
        if isinstance(o, np.ndarray):
            if o.ndim == 0:
                return self._scale(conv(o.item()))
            x = obj(o)
            if x.shape[-1] != self.shape[0]:
                raise ValueError('matmul: dimension mismatch')
            r = matmul_obj(x, self.a)
            return r.view(SMat if isinstance(o, np.matrix) else SArr)
        return NotImplemented
    __rmatmul__ = __rmul__

    def multiply(self, o):
        if isinstance(o, SpMat):
            return self._new(np.multiply(self.a, o.a), np.broadcast_to(self.st, np.broadcast_shapes(
                self.st.shape, o.st.shape)) & o.st)
        if isinstance(o, (S, C)) or np.isscalar(o):
            return self._scale(conv(o))
        y = obj(o)
        r = np.multiply(self.a, y)
        return SpMat(r, np.broadcast_to(self.st, r.shape).copy(), 'coo')

    def __truediv__(self, o):
        if isinstance(o, (S, C)) or np.isscalar(o):
            o = conv(o)
            return self._map(lambda v: v / o)
        if isinstance(o, SpMat):
            raise Unsupported('sparse / sparse')
        return NotImplemented

    def __pow__(self, n):
        if isinstance(n, S):
            n = int(n)
        if self.shape[0] != self.shape[1]:
            raise TypeError('matrix is not square')
        r = SpMat(obj(np.eye(self.shape[0])))
        for _ in range(n):
            r = r * self
        return r

    def __eq__(self, o):
        if o is None or isinstance(o, (str, dict, list, tuple)):
            return False
        raise Unsupported('sparse comparison')

    def __ne__(self, o):
        if o is None or isinstance(o, (str, dict, list, tuple)):
            return True
        if _isnum0(o):
            m = np.zeros(self.a.shape, bool)
            for ix in np.ndindex(m.shape):
                m[ix] = bool(self.a[ix] != 0)
            return _BoolSp(m)
        raise Unsupported('sparse comparison')

    def __gt__(self, o):
        return self._cmpnum(o, lambda v: v > 0)

    def __lt__(self, o):
        return self._cmpnum(o, lambda v: v < 0)

    def _cmpnum(self, o, f):
        if not _isnum0(o):
            raise Unsupported('sparse comparison with non-zero')
        m = np.zeros(self.a.shape, bool)
        for ix in np.ndindex(m.shape):
            m[ix] = bool(f(self.a[ix]))
        return _BoolSp(m)

    __hash__ = None

    def __bool__(self):
        if self.shape == (1, 1):
            return bool(self.a[0, 0])
        raise ValueError('The truth value of an array with more than one element is ambiguous. '
                         'Use a.any() or a.all().')

    def __len__(self):
        raise TypeError('sparse array length is ambiguous; use getnnz() or shape[0]')

    def __iter__(self):
        for i in range(self.shape[0]):
            yield self[i, :]

    def __iadd__(self, o):
        return self + o

    def __isub__(self, o):
        return self - o

    # -- indexing
    def _nidx(self, idx):
        if not isinstance(idx, tuple):
            if isinstance(idx, np.ndarray) and idx.ndim == 2 and idx.dtype == bool:
                return np.nonzero(idx)
            idx = (idx, slice(None))
        out = []
        for d, i in enumerate(idx):
            if isinstance(i, _BoolSp):
                raise Unsupported('sparse boolean index')
            if isinstance(i, (S, C)):
                raise IndexError('Index dimension must be 1 or 2' if False else 'invalid index')
            if isinstance(i, np.ndarray) and i.dtype == object:
                raise IndexError('arrays used as indices must be of integer (or boolean) type')
            if isinstance(i, np.ndarray) and i.dtype.kind == 'f':
                raise IndexError('arrays used as indices must be of integer (or boolean) type')
            if isinstance(i, (list, tuple, range)):
                i = np.array(list(i), dtype=int) if len(list(i)) == 0 else np.array(list(i))
            if isinstance(i, np.ndarray) and i.dtype == bool and i.ndim == 1:
                i = np.flatnonzero(i)
            out.append(i)
        return tuple(out)

    def __getitem__(self, idx):
        i, j = self._nidx(idx)
        a, st = self.a, self.st
        iint, jint = _isint(i), _isint(j)
        if iint and jint:
            return a[i, j]
        ia = isinstance(i, np.ndarray)
        ja = isinstance(j, np.ndarray)
        if (ia or iint) and (ja or jint):
            r = a[i, j]
            s = st[i, j]
            if r.ndim == 2:
                return self._new(r, s)
            return r.reshape(1, -1).view(SMat)
        r = a[i, j]
        s = st[i, j]
        if r.ndim == 1:
            shp = (1, -1) if iint else (-1, 1)
            r, s = r.reshape(shp), s.reshape(shp)
        if r.ndim != 2:
            raise Unsupported('sparse index giving %d-D' % r.ndim)
        return self._new(r.copy(), s.copy())

    def __setitem__(self, idx, val):
        i, j = self._nidx(idx)
        if isinstance(val, SpMat):
            v, s = val.a, val.st
        elif isinstance(val, np.ndarray):
            v = obj(val)
            s = _pattern(v)
        elif isinstance(val, (list, tuple)):
            v = obj(arr.array(val))
            s = _pattern(v)
        else:
            v = conv(val)
            s = not _zero(v)
        if isinstance(v, np.ndarray):
            tgt = self.a[i, j]
            if isinstance(tgt, np.ndarray) and tgt.ndim == 1 and v.ndim == 2:
                v, s = v.reshape(-1), s.reshape(-1)
            if isinstance(tgt, np.ndarray) and tgt.ndim == 2 and v.ndim == 1 and tgt.shape[1] != v.shape[0] \
                    and tgt.shape == (v.shape[0], 1):
                v, s = v.reshape(-1, 1), s.reshape(-1, 1)
        self.a[i, j] = v
        self.st[i, j] = s


def _isint(i):
    return isinstance(i, (int, np.integer)) and not isinstance(i, (bool, np.bool_))


def _isnum0(o):
    return isinstance(o, (int, float)) and o == 0


class _BoolSp(object):
    """boolean sparse matrix (result of a comparison)"""
    _is_spmat = True
    __array_ufunc__ = None

    def __init__(self, m):
        self.m = m
        self.shape = m.shape
        self.nnz = int(m.sum())

    def nonzero(self):
        return np.nonzero(self.m)

    def toarray(self):
        return self.m.copy()

    def todense(self):
        return np.asmatrix(self.m)

    def __neg__(self):
        raise NotImplementedError('negating a boolean sparse array is not supported')

    def __getattr__(self, n):
        raise Unsupported('boolean sparse .%s' % n)


def _pattern(a):
    p = np.zeros(a.shape, dtype=bool)
    for ix in np.ndindex(a.shape):
        p[ix] = not _zero(a[ix])
    return p


def _ints(x):
    x = np.asarray(x) if not isinstance(x, np.ndarray) else x
    if x.dtype == object:
        return np.array([int(v) for v in x.reshape(-1)], dtype=int)
    return x.astype(int).reshape(-1)


def _make(fmt):
    def ctor(arg, shape=None, dtype=None, copy=False):
        if isinstance(arg, SpMat):
            return SpMat(arg.a.copy(), arg.st.copy(), fmt)
        if isinstance(arg, _BoolSp):
            raise Unsupported('numeric copy of boolean sparse')
        if isinstance(arg, tuple):
            if len(arg) == 2 and all(_isint(v) for v in arg):
                m, n = int(arg[0]), int(arg[1])
                return SpMat(obj(np.zeros((m, n))), np.zeros((m, n), bool), fmt)
            if len(arg) == 2 and isinstance(arg[1], (tuple, list)):
                data, (ii, jj) = arg
                data = obj(arr.array(data) if isinstance(data, (list, tuple)) else data).reshape(-1)
                ii, jj = _ints(ii), _ints(jj)
                if not (len(ii) == len(jj) == len(data)):
                    raise ValueError('row, column, and data array must all be the same length')
                if shape is None:
                    if len(ii) == 0:
                        raise ValueError('cannot infer dimensions from zero sized index arrays')
                    shape = (int(ii.max()) + 1, int(jj.max()) + 1)
                m, n = [int(v) for v in arr._shape(tuple(shape))]
                a = obj(np.zeros((m, n)))
                st = np.zeros((m, n), bool)
                for k in range(len(data)):
                    if not (0 <= ii[k] < m):
                        raise ValueError('axis 0 index %d exceeds matrix dimension %d' % (ii[k], m))
                    if not (0 <= jj[k] < n):
                        raise ValueError('axis 1 index %d exceeds matrix dimension %d' % (jj[k], n))
                    a[ii[k], jj[k]] = a[ii[k], jj[k]] + conv(data[k])
                    st[ii[k], jj[k]] = True
                return SpMat(a, st, fmt)
            if len(arg) == 3:
                data, ind, ptr = arg
                data = obj(data).reshape(-1)
                ind, ptr = _ints(ind), _ints(ptr)
                major = np.repeat(np.arange(len(ptr) - 1), np.diff(ptr))
                if shape is None:
                    k = (len(ptr) - 1, int(ind.max()) + 1)
                    shape = k if fmt != 'csc' else k[::-1]
                ij = (major, ind) if fmt != 'csc' else (ind, major)
                return ctor((data, ij), shape)
            raise Unsupported('sparse constructor')
        if isinstance(arg, (list, tuple)):
            arg = arr.array(arg)
        if isinstance(arg, np.ndarray):
            a = obj(arg)
            if a.ndim == 0:
                a = a.reshape(1, 1)
            if a.ndim == 1:
                a = a.reshape(1, -1)
            return SpMat(a.copy(), None, fmt)
        if isinstance(arg, (S, C)) or np.isscalar(arg):
            return SpMat(obj(np.zeros((1, 1))) + conv(arg), None, fmt)
        raise Unsupported('sparse constructor from %s' % type(arg).__name__)
    return ctor


class _Ctor(type):
    def __call__(cls, *a, **k):
        return _make(cls.fmt)(*a, **k)

    def __instancecheck__(cls, x):
        return isinstance(x, SpMat) and (cls.fmt is None or x.format == cls.fmt)


def _cls(name, fmt):
    return _Ctor(name, (object,), {'fmt': fmt})


csr_matrix = _cls('csr_matrix', 'csr')
csc_matrix = _cls('csc_matrix', 'csc')
lil_matrix = _cls('lil_matrix', 'lil')
coo_matrix = _cls('coo_matrix', 'coo')
dok_matrix = _cls('dok_matrix', 'dok')


class spmatrix(metaclass=type('M', (type,), {'__instancecheck__': lambda c, x: isinstance(x, SpMat)})):
    pass


def issparse(x):
    return isinstance(x, (SpMat, _BoolSp))


def _tosp(b):
    if isinstance(b, SpMat):
        return b
    return csr_matrix(b)


def _stack(blocks, axis, format):
    bl = [_tosp(b) for b in list(blocks) if b is not None]
    if not bl:
        raise ValueError('blocks must be 2-D')
    a = np.concatenate([b.a for b in bl], axis=axis)
    st = np.concatenate([b.st for b in bl], axis=axis)
    fmt = format or ('csr' if all(b.format == 'csr' for b in bl) else 'coo')
    return SpMat(a, st, fmt)


def _chk_dims(bl, axis):
    dims = set(b.shape[1 - axis] for b in bl)
    if len(dims) > 1:
        raise ValueError('incompatible dimensions for axis %d' % (1 - axis))


def hstack(blocks, format=None, dtype=None):
    bl = [_tosp(b) for b in list(blocks) if b is not None]
    _chk_dims(bl, 1)
    return _stack(bl, 1, format)


def vstack(blocks, format=None, dtype=None):
    bl = [_tosp(b) for b in list(blocks) if b is not None]
    _chk_dims(bl, 0)
    return _stack(bl, 0, format)


def bmat(blocks, format=None, dtype=None):
    nr = len(blocks)
    nc = len(blocks[0])
    hs, ws = [None] * nr, [None] * nc
    for i in range(nr):
        for j in range(nc):
            b = blocks[i][j]
            if b is not None:
                hs[i], ws[j] = b.shape
    rows = []
    for i in range(nr):
        rows.append(hstack([blocks[i][j] if blocks[i][j] is not None else csr_matrix((hs[i], ws[j]))
                            for j in range(nc)]))
    return vstack(rows, format)


def block_diag(mats, format=None, dtype=None):
    ms = [_tosp(m) for m in mats]
    R = sum(m.shape[0] for m in ms)
    Cc = sum(m.shape[1] for m in ms)
    out = csr_matrix((R, Cc))
    r = c = 0
    for m in ms:
        out[r:r + m.shape[0], c:c + m.shape[1]] = m
        r += m.shape[0]
        c += m.shape[1]
    out.format = format or 'coo'
    return out


def eye(m, n=None, k=0, dtype=float, format=None):
    n = m if n is None else n
    m, n = arr._shape((m, n))
    return SpMat(obj(np.eye(m, n, k)), None, format or 'dia')


def identity(n, dtype='d', format=None):
    return eye(n, n, format=format)


def spdiags(data, diags_, m=None, n=None, format=None):
    d = obj(data)
    dg = np.atleast_1d(diags_)
    if d.ndim == 1:
        d = d.reshape(1, -1)
    if m is None:
        m = n = d.shape[1]
    out = csr_matrix((int(m), int(n)))
    for r, k in enumerate(dg):
        for j in range(d.shape[1]):
            i = j - int(k)
            if 0 <= i < m and 0 <= j < n:
                out.a[i, j] = d[r, j]
                out.st[i, j] = True
    out.format = format or 'dia'
    return out


def diags(diagonals, offsets=0, shape=None, format=None, dtype=None):
    if np.isscalar(offsets):
        offsets = [offsets]
        if not (isinstance(diagonals, (list, tuple)) and len(diagonals) == 1 and np.ndim(diagonals[0]) == 1):
            diagonals = [diagonals]
    ds = [obj(arr.array(d) if isinstance(d, (list, tuple)) else d).reshape(-1) for d in diagonals]
    if shape is None:
        n = ds[0].size + abs(offsets[0])
        shape = (n, n)
    out = csr_matrix((int(shape[0]), int(shape[1])))
    for d, k in zip(ds, offsets):
        L = min(shape[0], shape[1] - k) if k >= 0 else min(shape[0] + k, shape[1])
        for t in range(L):
            i, j = (t, t + k) if k >= 0 else (t - k, t)
            out.a[i, j] = d[t] if d.size > 1 else d[0]
            out.st[i, j] = True
    out.format = format or 'dia'
    return out


def tril(A, k=0, format=None):
    r = _tosp(A).copy()
    for ix in np.ndindex(r.a.shape):
        if ix[1] > ix[0] + k:
            r.a[ix] = S({})
            r.st[ix] = False
    r.format = format or 'coo'
    return r


def triu(A, k=0, format=None):
    return tril(_tosp(A).T, -k, format).T


def find(A):
    A = _tosp(A)
    i, j = A.nonzero()
    return i, j, obj(np.array([A.a[x, y] for x, y in zip(i, j)] + [None], dtype=object)[:-1]).view(SArr)


def kron(A, Bm, format=None):
    a, b = _tosp(A), _tosp(Bm)
    return SpMat(np.kron(a.a, b.a), None, format or 'csr')


# --------------------------------------------------------------------------
# linear solves: the solver is replaced by its contract  A x = b, A nonsingular

def _det(M):
    n = len(M)
    if n == 0:
        return S({(): 1})
    if n == 1:
        return M[0][0]
    if n == 2:
        return M[0][0] * M[1][1] - M[0][1] * M[1][0]
    # expand along the sparsest row
    zs = [sum(1 for v in r if not _zero(v)) for r in M]
    i = min(range(n), key=lambda k: zs[k])
    acc = S({})
    for j in range(n):
        v = M[i][j]
        if _zero(v):
            continue
        minor = [r[:j] + r[j + 1:] for k, r in enumerate(M) if k != i]
        t = v * _det(minor)
        acc = acc + (t if (i + j) % 2 == 0 else -t)
    return acc


SOLVE_LOG = []


def linsolve(A, b, trans=False):
    w = W()
    Am = A.a if isinstance(A, SpMat) else obj(arr.asarray(A) if isinstance(A, np.matrix) else A)
    if trans:
        Am = Am.T
    if Am.ndim != 2 or Am.shape[0] != Am.shape[1]:
        raise ValueError('matrix must be square (has shape %s)' % (Am.shape,))
    spb = isinstance(b, SpMat)
    if spb:
        bm = b.a
    else:
        if isinstance(b, (list, tuple)):
            b = arr.array(b)
        bm = obj(b)
    n = Am.shape[0]
    if bm.shape[0] != n:
        raise ValueError('matrix - rhs dimension mismatch (%s - %s)' % (Am.shape, bm.shape[0]))
    X = bm.reshape(n, -1)
    out = np.empty(X.shape, dtype=object)
    if n:
        if w.solver_mode == 'fresh':
            _fresh_solve(Am, X, out)
        else:
            _cramer(Am, X, out)
    SOLVE_LOG.append((Am, X, out))
    r = out.reshape(bm.shape)
    if spb:
        if bm.shape[1] == 1:
            return r.reshape(-1).view(SArr)
        return SpMat(r.copy())
    if isinstance(b, np.matrix):
        return r.view(SMat)
    return r.view(SArr)


def _cramer(Am, X, out):
    w = W()
    n = Am.shape[0]
    M = [list(Am[i]) for i in range(n)]
    d = _det(M)
    dd = d.abs2() if isinstance(d, C) else d
    if _zero(dd):
        raise SingularMatrix()
    nzc = (dd != 0)
    w.explorer.assume(nzc)
    inv = S.of(1) / d if isinstance(d, S) else C.of(1) / d
    cof = {}
    for j in range(n):
        for i in range(n):
            minor = [r[:j] + r[j + 1:] for k, r in enumerate(M) if k != i]
            c = _det(minor)
            cof[i, j] = c if (i + j) % 2 == 0 else -c
    for k in range(X.shape[1]):
        for j in range(n):
            acc = S({})
            for i in range(n):
                if not _zero(X[i, k]) and not _zero(cof[i, j]):
                    acc = acc + cof[i, j] * X[i, k]
            out[j, k] = acc * inv if not _zero(acc) else S({})


class SingularMatrix(ArithmeticError):
    pass


def _fresh_solve(Am, X, out):
    w = W()
    n = Am.shape[0]
    akey = tuple(pkey(S.of(v).p) for v in Am.reshape(-1))
    for k in range(X.shape[1]):
        key = ('solve', akey, tuple(pkey(S.of(v).p) for v in X[:, k]))
        ats = w.bykey.get(key)
        if ats is None:
            ats = [w.new('x%d' % i, 'fresh') for i in range(n)]
            w.bykey[key] = ats
            xs = [S({((a.id, 1),): 1}) for a in ats]
            for i in range(n):
                acc = S({})
                for j in range(n):
                    acc = acc + Am[i, j] * xs[j]
                e = acc - X[i, k]
                dep = patoms(e.p)
                z = p2z(e.p) == 0
                for a in ats:
                    a.defs.append(z)
                    a.deps |= dep
            for a in ats:
                a.deps |= set(x.id for x in ats)
        for i in range(n):
            out[i, k] = S({((ats[i].id, 1),): 1})


def spsolve(A, b, permc_spec=None, use_umfpack=True):
    if not isinstance(A, SpMat):
        A = csr_matrix(A)
    if isinstance(b, np.ndarray) and b.ndim == 2 and b.shape[1] == 1:
        b = arr.asarray(b).reshape(-1)
    return linsolve(A, b)


class _LU(object):
    def __init__(self, A):
        self.A = A
        self.shape = A.shape

    def solve(self, b, trans='N'):
        if trans == 'N':
            return linsolve(self.A, b)
        if trans == 'T':
            return linsolve(self.A, b, True)
        return linsolve(self.A.conj(), b, True)


def splu(A, **k):
    return _LU(A)


def factorized(A):
    return _LU(A).solve


def spnorm(A, ord=None, axis=None):
    return arr.norm(A.toarray().reshape(-1), None if ord in (None, 'fro') else ord)


class SparseShim(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'scipy.sparse')
        for n in ('csr_matrix', 'csc_matrix', 'lil_matrix', 'coo_matrix', 'dok_matrix', 'spmatrix', 'issparse',
                  'hstack', 'vstack', 'bmat', 'block_diag', 'eye', 'identity', 'spdiags', 'diags', 'tril', 'triu',
                  'find', 'kron'):
            setattr(self, n, globals()[n])
        self.isspmatrix = issparse
        self.isspmatrix_csr = lambda x: isinstance(x, SpMat) and x.format == 'csr'
        self.isspmatrix_csc = lambda x: isinstance(x, SpMat) and x.format == 'csc'
        for n in ('csr', 'csc', 'lil', 'coo', 'dok'):
            setattr(self, n + '_array', globals()[n + '_matrix'])
        self.diags_array = diags
        self.eye_array = eye
        self.block_array = bmat
        self.linalg = SparseLinalgShim()
        self.SparseEfficiencyWarning = Warning

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('scipy.sparse.%s' % name)


class SparseLinalgShim(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'scipy.sparse.linalg')
        self.spsolve = spsolve
        self.splu = splu
        self.factorized = factorized
        self.norm = spnorm
        self.MatrixRankWarning = Warning
        self.use_solver = lambda *a, **k: None

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('scipy.sparse.linalg.%s' % name)
