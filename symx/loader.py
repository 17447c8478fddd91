"""Loads the modules of /repo/pypower from their current source, with numpy,
scipy.sparse and math bound to the symbolic stand-ins."""
import ast
import builtins
import importlib
import os
import sys
import types

import numpy as np

from .core import S, C, B, W, Unsupported
from . import arr, sparse

REPO = os.environ.get('VERIF_REPO', '/repo')


class _PyRlu(types.ModuleType):
    @staticmethod
    def factor_solve(n, indices, indptr, data, x, trans=False, par=False):
        A = sparse.csc_matrix((data, indices, indptr), (n, n))
        x[...] = sparse.linsolve(A.T if trans else A, x.copy())


def _float(*a, **k):
    """float(x) in the code under test"""
    if a and isinstance(a[0], S):
        return a[0]
    if a and isinstance(a[0], np.ndarray) and a[0].dtype == object and a[0].size == 1:
        return _float(a[0].reshape(-1)[0])
    return float(*a, **k)


def _plain(v):
    """a value to print: what is not known prints as 0"""
    if isinstance(v, S):
        if not v.isconst() and W().text is not None:
            return v             # written as a number that stands for it
        return float(v.const()) if v.isconst() else 0.0
    if isinstance(v, tuple):
        return tuple(_plain(i) for i in v)
    if isinstance(v, np.ndarray) and v.dtype == object:
        r = np.empty(v.shape, dtype=object)
        for i in np.ndindex(*v.shape):
            r[i] = _plain(v[i])
        try:
            return r.astype(float)
        except (TypeError, ValueError):
            return r
    if isinstance(v, dict):
        return dict((k, _plain(i)) for k, i in v.items())
    return v


def _mod(a, b):
    """a % b in the code under test; text with unknown values is formatted with placeholders"""
    if isinstance(a, str):
        return a % _plain(b)
    return a % b


class _Calls(ast.NodeTransformer):
    """float(x) -> _symx_float(x); float as a type name is left alone; a % b -> _symx_mod(a, b)"""

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            f = ast.copy_location(ast.Name('_symx_mod', ast.Load()), node)
            return ast.copy_location(ast.Call(f, [node.left, node.right], []), node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id == 'float':
            node.func = ast.copy_location(ast.Name('_symx_float', ast.Load()), node.func)
        if isinstance(node.func, ast.Name) and node.func.id == 'map' and node.args and \
                isinstance(node.args[0], ast.Name) and node.args[0].id == 'float':
            node.args[0] = ast.copy_location(ast.Name('_symx_float', ast.Load()), node.args[0])
        return node


class Loader(object):
    def __init__(self, root=None):
        self.root = root or REPO
        self.mods = {}
        self.np = arr.NumpyShim()
        self.sp = sparse.SparseShim()
        self.math = arr.MathShim()
        scipy = types.ModuleType('scipy')
        scipy.sparse = self.sp
        self.scipy = scipy
        self.pyrlu = _PyRlu('pyrlu')
        self.overrides = {}          # (module, attr) -> value
        self.functions = set()
        b = types.ModuleType('builtins')
        b.__dict__.update(builtins.__dict__)
        b.__import__ = self._import
        b.print = lambda *a, **k: None
        b._symx_float = _float
        b._symx_mod = _mod
        b.max = self._bmax
        b.min = self._bmin
        b.complex = self._bcomplex
        self.builtins = b

    def _bmax(self, *a, **k):
        return self._mm(builtins.max, arr.smax, False, a, k)

    def _bmin(self, *a, **k):
        return self._mm(builtins.min, arr.smax, True, a, k)

    def _mm(self, f, sf, mn, a, k):
        if k:
            return f(*a, **k)
        xs = list(a[0]) if len(a) == 1 else list(a)
        if any(isinstance(x, S) for x in xs) and all(isinstance(x, (S, int, float, np.number)) for x in xs):
            return sf(xs, mn)
        return f(*a)

    def _bcomplex(self, *a):
        if any(isinstance(x, (S, C)) for x in a):
            return C.of(a[0]) + (C.of(a[1]) * 1j if len(a) > 1 else 0)
        return complex(*a)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or 'pypower'
            parts = pkg.split('.')
            base = '.'.join(parts[:len(parts) - level + 1])
            name = base + ('.' + name if name else '')
        top = name.split('.')[0]
        if top == 'numpy':
            if name == 'numpy' or not fromlist:
                return self.np
            if name == 'numpy.linalg':
                return self.np.linalg
            return importlib.import_module(name)
        if top == 'scipy':
            if not fromlist:
                if name == 'scipy.io':
                    importlib.import_module(name)
                return self.scipy
            if name == 'scipy':
                return self.scipy
            if name == 'scipy.sparse':
                return self.sp
            if name == 'scipy.sparse.linalg':
                return self.sp.linalg
            if name == 'scipy.linalg':
                return self.np.linalg
            return importlib.import_module(name)
        if top == 'math':
            return self.math
        if top == 'pyrlu':
            return self.pyrlu
        if top == 'pypower':
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        try:
                            setattr(m, f, self.load(name + '.' + f))
                        except ImportError:
                            pass
                return m
            return self.load('pypower')
        return builtins.__import__(name, globals, locals, fromlist, level)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        rel = name.replace('.', '/')
        p = os.path.join(self.root, rel + '.py')
        ispkg = False
        if not os.path.exists(p):
            p = os.path.join(self.root, rel, '__init__.py')
            ispkg = True
            if not os.path.exists(p):
                raise ImportError('No module named %r' % name)
        m = types.ModuleType(name)
        m.__file__ = p
        m.__package__ = name if ispkg else name.rpartition('.')[0]
        if ispkg:
            m.__path__ = [os.path.dirname(p)]
        m.__dict__['__builtins__'] = self.builtins.__dict__
        self.mods[name] = m
        with open(p, encoding='utf-8') as f:
            src = f.read()
        try:
            tree = ast.parse(src, p)
            if 'float' in src or '%' in src:
                tree = ast.fix_missing_locations(_Calls().visit(tree))
            exec(compile(tree, p, 'exec'), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        par, _, leaf = name.rpartition('.')
        if par:
            pm = self.load(par)
            if leaf not in pm.__dict__ or isinstance(pm.__dict__.get(leaf), types.ModuleType):
                setattr(pm, leaf, m)
        self.functions.add(name)
        return m
