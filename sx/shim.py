"""numpy / math / scipy stand-ins used while the real code runs on Sym values,
and the loader that imports /repo's AMAT twice: once with these stand-ins
(symbolic set) and once untouched (concrete set, used for replay)."""
import ast
import builtins
import importlib
import math
import os
import sys
import types

import numpy as np

from . import core
from .core import Sym, SymBool, Unsupported, lift

REPO = os.environ.get('AMAT_REPO', '/repo')


def has_sym(*xs):
    for x in xs:
        if isinstance(x, (Sym, SymBool)):
            return True
        if isinstance(x, np.ndarray):
            if x.dtype == object:
                return True
        elif isinstance(x, (list, tuple)):
            if has_sym(*x):
                return True
    return False


def oarr(x):
    """object ndarray view of anything array-like"""
    if isinstance(x, np.ndarray):
        return x if x.dtype == object else x.astype(object)
    if isinstance(x, (list, tuple)):
        a = np.array(x, dtype=object)
        return a
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def unary(f):
    def g(x, *a, **k):
        if isinstance(x, Sym):
            return f(x)
        if isinstance(x, SymBool):
            return f(lift(x))
        if isinstance(x, (np.ndarray, list, tuple)):
            arr = oarr(x)
            out = np.empty(arr.shape, dtype=object)
            for i in np.ndindex(*arr.shape):
                out[i] = g(arr[i])
            if out.shape == ():
                return out[()]
            return out
        if hasattr(x, 'x_sym_array'):
            return g(x.x_sym_array())
        l = lift(x)
        if l is None:
            raise TypeError('bad operand %r' % type(x))
        return f(l)
    return g


def binary(f):
    def g(x, y, *a, **k):
        xa = isinstance(x, (np.ndarray, list, tuple))
        ya = isinstance(y, (np.ndarray, list, tuple))
        if xa or ya:
            X, Y = np.broadcast_arrays(oarr(x), oarr(y))
            out = np.empty(X.shape, dtype=object)
            for i in np.ndindex(*X.shape):
                out[i] = f(lift(X[i]), lift(Y[i]))
            return out
        return f(lift(x), lift(y))
    return g


def s_sign(x):
    if bool(x > 0):
        return Sym.const(1)
    if bool(x < 0):
        return Sym.const(-1)
    return Sym.const(0)


def s_max(a, b):
    return a if bool(a >= b) else b


def s_min(a, b):
    return a if bool(a <= b) else b


def s_tanh(x):
    e = core.sexp(x * 2)
    return (e - 1) / (e + 1)


def s_sinh(x):
    return core.hyp_cs(x)[1]


def s_cosh(x):
    return core.hyp_cs(x)[0]


D2R = lambda x: x * core.PI / 180
R2D = lambda x: x * 180 / core.PI


def s_floor(x):
    if x.is_const():
        return Sym.const(math.floor(x.cval()))
    return Sym.of_atom(core.mk_atom('floor', (x.key,), extra=x))


def s_ceil(x):
    return -s_floor(-x)


UN = {
    'sin': core.ssin, 'cos': core.scos, 'tan': core.stan, 'arccos': core.sacos, 'arcsin': core.sasin,
    'arctan': core.satan, 'acos': core.sacos, 'asin': core.sasin, 'atan': core.satan,
    'sqrt': core.ssqrt, 'exp': core.sexp, 'log': core.sln, 'log10': core.slog10,
    'log2': lambda x: core.slog10(x) / core.slog10(Sym.const(2)),
    'cbrt': lambda x: core.cpow(x, core.Fr(1, 3)),
    'abs': core.sabs, 'absolute': core.sabs, 'fabs': core.sabs, 'sign': s_sign,
    'deg2rad': D2R, 'radians': D2R, 'rad2deg': R2D, 'degrees': R2D,
    'square': lambda x: x * x, 'negative': lambda x: -x, 'positive': lambda x: x, 'reciprocal': lambda x: 1 / x,
    'tanh': s_tanh, 'sinh': s_sinh, 'cosh': s_cosh, 'floor': s_floor, 'ceil': s_ceil,
    'arcsinh': core.sasinh, 'arccosh': lambda x: core.sln(x + core.ssqrt(x * x - 1)),
    'arctanh': core.satanh,
}
UN['asinh'], UN['acosh'], UN['atanh'] = UN['arcsinh'], UN['arccosh'], UN['arctanh']
BI = {
    'arctan2': core.satan2, 'atan2': core.satan2, 'power': core.power, 'pow': core.power, 'float_power': core.power,
    'hypot': lambda a, b: core.ssqrt(a * a + b * b), 'maximum': s_max, 'minimum': s_min, 'fmax': s_max, 'fmin': s_min,
    'add': lambda a, b: a + b, 'subtract': lambda a, b: a - b, 'multiply': lambda a, b: a * b,
    'divide': lambda a, b: a / b, 'true_divide': lambda a, b: a / b, 'mod': lambda a, b: a % b,
    'remainder': lambda a, b: a % b, 'fmod': lambda a, b: a % b,
    'copysign': lambda a, b: core.sabs(a) if bool(b >= 0) else -core.sabs(a),
}


def isfloatdtype(d):
    if d is None:
        return True
    try:
        return np.dtype(d).kind in 'fc'
    except TypeError:
        return False


def zero_arr(shape, v):
    a = np.empty(shape, dtype=object)
    a[...] = Sym.const(v)
    return a


class _Any:
    def __call__(self, *a, **k):
        return self

    def __getattr__(self, n):
        return self


BIG = [10 ** 9]      # norms of larger vectors are taken over named components


def same_vec(a, b):
    """the components of a, named when large, if b is the same vector"""
    if a.shape != b.shape or a.ndim != 1:
        return None
    xs, ys = [lift(v) for v in a], [lift(v) for v in b]
    if any(x.key != y.key for x, y in zip(xs, ys)) or sum(len(x.t) ** 2 for x in xs) <= BIG[0]:
        return None
    return [core.let(x) for x in xs]


class LinalgShim:
    def __init__(self, sh):
        self._sh = sh

    def norm(self, x, ord=None, axis=None, keepdims=False):
        a = oarr(x)
        if ord not in (None, 2, 'fro'):
            raise Unsupported('norm ord')
        if axis is None:
            t = Sym.const(0)
            vs = [lift(v) for v in a.flat]
            if sum(len(v.t) ** 2 for v in vs) > BIG[0]:
                vs = [core.let(v) for v in vs]
            for v in vs:
                t = t + v * v
            return core.ssqrt(t)
        sq = self._sh.sum(self._sh.square(a), axis=axis)
        return self._sh.sqrt(sq)

    def inv(self, m):
        a = oarr(m)
        n = a.shape[0]
        d = self.det(a)
        out = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                minor = np.delete(np.delete(a, i, 0), j, 1)
                out[j, i] = (1 if (i + j) % 2 == 0 else -1) * (self.det(minor) if n > 1 else Sym.const(1)) / d
        return out

    def det(self, m):
        a = oarr(m)
        n = a.shape[0]
        if n == 0:
            return Sym.const(1)
        if n == 1:
            return lift(a[0, 0])
        t = Sym.const(0)
        for j in range(n):
            minor = np.delete(np.delete(a, 0, 0), j, 1)
            t = t + (1 if j % 2 == 0 else -1) * lift(a[0, j]) * self.det(minor)
        return t

    def solve(self, A, b):
        return np.dot(self.inv(A), oarr(b))

    def __getattr__(self, n):
        return getattr(np.linalg, n)


class NpShim:
    """numpy for Sym values; everything not listed is numpy itself."""

    def __init__(self):
        self.linalg = LinalgShim(self)
        for n, f in UN.items():
            setattr(self, n, unary(f))
        for n, f in BI.items():
            setattr(self, n, binary(f))
        self.round = unary(lambda x: Sym.const(core.Fr(repr(float(round(float(x), 10))))) if x.is_const() else _unsup('round'))

    @property
    def pi(self):
        return core.PI

    @property
    def e(self):
        return core.sexp(core.ONE)

    inf = float('inf')
    newaxis = None
    nan = float('nan')

    def float64(self, x=0.0):
        return tosym(x)
    float32 = float64
    double = float64

    # creation
    def zeros(self, shape, dtype=None, **k):
        return zero_arr(shape, 0) if isfloatdtype(dtype) else np.zeros(shape, dtype)

    def empty(self, shape, dtype=None, **k):
        return self.zeros(shape, dtype)

    def ones(self, shape, dtype=None, **k):
        return zero_arr(shape, 1) if isfloatdtype(dtype) else np.ones(shape, dtype)

    def full(self, shape, v, dtype=None, **k):
        a = np.empty(shape, dtype=object)
        a[...] = v
        return a

    def zeros_like(self, a, **k):
        return zero_arr(np.shape(a), 0)

    def empty_like(self, a, **k):
        return zero_arr(np.shape(a), 0)

    def ones_like(self, a, **k):
        return zero_arr(np.shape(a), 1)

    def full_like(self, a, v, **k):
        return self.full(np.shape(a), v)

    def eye(self, n, **k):
        a = zero_arr((n, n), 0)
        for i in range(n):
            a[i, i] = Sym.const(1)
        return a
    identity = eye

    def array(self, x, dtype=None, **k):
        if isinstance(x, types.GeneratorType):
            x = list(x)
        if dtype is not None and not isfloatdtype(dtype) and dtype is not object:
            return np.array(x, dtype=dtype)
        if has_sym(x):
            return np.array(x, dtype=object)
        if isinstance(x, np.ndarray):
            return x.copy()
        a = np.array(x)
        if a.dtype.kind == 'f':
            a = sym_arr(a)
        return a

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, np.ndarray) and dtype is None:
            return x
        return self.array(x, dtype)
    ascontiguousarray = asarray
    asanyarray = asarray

    def copy(self, a, **k):
        return oarr(a).copy() if has_sym(a) else np.copy(a)

    def linspace(self, a, b, num=50, endpoint=True, retstep=False, **k):
        num = int(num)
        a, b = lift(a), lift(b)
        out = np.empty(num, dtype=object)
        div = (num - 1) if endpoint else num
        for i in range(num):
            out[i] = a + (b - a) * core.Fr(i, div if div else 1)
        return (out, (b - a) / div) if retstep else out

    def arange(self, *a, **k):
        if not has_sym(*a):
            r = np.arange(*a)
            return r if r.dtype.kind in 'iu' else sym_arr(r)
        a = [lift(x) for x in a]
        if len(a) == 1:
            a = [Sym.const(0), a[0], Sym.const(1)]
        if len(a) == 2:
            a.append(Sym.const(1))
        s, e, st = a
        q = (e - s) / st
        if q.is_const():
            n = max(0, math.ceil(q.cval()))
        else:
            for n in range(13):
                if bool(q <= n):
                    break
            else:
                raise Unsupported('arange of more than 12 symbolic steps')
        out = np.empty(n, dtype=object)
        for i in range(n):
            out[i] = s + st * i
        return out

    # reductions
    def sum(self, a, axis=None, **k):
        if not has_sym(a):
            return np.sum(a, axis=axis)
        a = oarr(a)
        r = np.sum(a, axis=axis)
        return r if isinstance(r, np.ndarray) else lift(r)

    def mean(self, a, axis=None, **k):
        if not has_sym(a):
            return np.mean(a, axis=axis)
        a = oarr(a)
        n = a.size if axis is None else a.shape[axis]
        return self.sum(a, axis) / n

    def _ext(self, a, axis, f):
        a = oarr(a)
        if axis is not None:
            return np.apply_along_axis(lambda r: self._ext(r, None, f), axis, a)
        it = list(a.flat)
        if not it:
            raise ValueError('zero-size array to reduction operation which has no identity')
        m = it[0]
        for v in it[1:]:
            m = f(m, v)
        return m

    def max(self, a, axis=None, **k):
        if not has_sym(a):
            return np.max(a, axis=axis)
        return self._ext(a, axis, lambda m, v: v if bool(v > m) else m)
    amax = max
    nanmax = max

    def min(self, a, axis=None, **k):
        if not has_sym(a):
            return np.min(a, axis=axis)
        return self._ext(a, axis, lambda m, v: v if bool(v < m) else m)
    amin = min
    nanmin = min

    def argmax(self, a, axis=None, **k):
        if not has_sym(a):
            return np.argmax(a, axis=axis)
        it = list(oarr(a).flat)
        b = 0
        for i in range(1, len(it)):
            if bool(lift(it[i]) > lift(it[b])):
                b = i
        return b

    def argmin(self, a, axis=None, **k):
        if not has_sym(a):
            return np.argmin(a, axis=axis)
        it = list(oarr(a).flat)
        b = 0
        for i in range(1, len(it)):
            if bool(lift(it[i]) < lift(it[b])):
                b = i
        return b

    def prod(self, a, axis=None, **k):
        return np.prod(oarr(a), axis=axis)

    def cumsum(self, a, axis=None, **k):
        return np.cumsum(oarr(a), axis=axis) if has_sym(a) else np.cumsum(a, axis=axis)

    def diff(self, a, n=1, axis=-1, **k):
        a = oarr(a)
        for _ in range(n):
            a = a[1:] - a[:-1]
        return a

    def trapz(self, y, x=None, dx=1.0, axis=-1):
        y = oarr(y)
        t = Sym.const(0)
        for i in range(1, len(y)):
            h = (x[i] - x[i - 1]) if x is not None else dx
            t = t + (y[i] + y[i - 1]) * h / 2
        return t
    trapezoid = trapz

    def clip(self, a, lo, hi, **k):
        r = a
        if lo is not None:
            r = self.maximum(r, lo)
        if hi is not None:
            r = self.minimum(r, hi)
        return r

    def where(self, c, x=None, y=None):
        if x is None:
            return np.where(self._boolarr(c))
        c = self._boolarr(c)
        if c.shape == () and not isinstance(x, np.ndarray) and not isinstance(y, np.ndarray):
            return x if bool(c) else y
        X, Y = oarr(x), oarr(y)
        C, X, Y = np.broadcast_arrays(c, X, Y)
        out = np.empty(C.shape, dtype=object)
        for i in np.ndindex(*C.shape):
            out[i] = X[i] if C[i] else Y[i]
        return out

    def _boolarr(self, c):
        if isinstance(c, SymBool):
            return np.array(bool(c))
        a = np.asarray(c)
        if a.dtype == object:
            a = np.array([bool(v) for v in a.flat], dtype=bool).reshape(a.shape)
        return a

    def any(self, a, axis=None, **k):
        return np.any(self._boolarr(a), axis=axis)

    def all(self, a, axis=None, **k):
        return np.all(self._boolarr(a), axis=axis)

    def logical_and(self, a, b, **k):
        r = np.logical_and(self._boolarr(a), self._boolarr(b))
        return r if r.shape else bool(r)

    def logical_or(self, a, b, **k):
        r = np.logical_or(self._boolarr(a), self._boolarr(b))
        return r if r.shape else bool(r)

    def logical_not(self, a, **k):
        r = np.logical_not(self._boolarr(a))
        return r if r.shape else bool(r)

    def isnan(self, x):
        if isinstance(x, (Sym, SymBool)):
            return False
        if has_sym(x):
            return np.zeros(np.shape(x), dtype=bool)
        return np.isnan(x)

    def isinf(self, x):
        if isinstance(x, (Sym, SymBool)):
            return False
        if has_sym(x):
            return np.zeros(np.shape(x), dtype=bool)
        return np.isinf(x)

    def isfinite(self, x):
        r = self.isnan(x)
        return (not r) if isinstance(r, bool) else ~r

    def isclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        if not has_sym(a, b):
            return np.isclose(a, b, rtol, atol)
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            A, B = np.broadcast_arrays(oarr(a), oarr(b))
            return np.array([bool(self.isclose(x, y, rtol, atol)) for x, y in zip(A.flat, B.flat)]).reshape(A.shape)
        a, b = lift(a), lift(b)
        return core.sabs(a - b) <= lift(atol) + lift(rtol) * core.sabs(b)

    def allclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        return bool(np.all(self._boolarr(self.isclose(oarr(a), oarr(b), rtol, atol))))

    def array_equal(self, a, b, **k):
        A, B = oarr(a), oarr(b)
        return A.shape == B.shape and builtins.all(bool(lift(x) == lift(y)) for x, y in zip(A.flat, B.flat))

    def dot(self, a, b, **k):
        a, b = oarr(a), oarr(b)
        if a.shape == () or b.shape == ():
            return a[()] * b if a.shape == () else a * b[()]
        n = same_vec(a, b) if BIG[0] < 10 ** 9 and a.shape == b.shape else None
        return np.dot(a, b) if n is None else sum((x * x for x in n), Sym.const(0))

    def vdot(self, a, b):
        return self.dot(oarr(a).ravel(), oarr(b).ravel())

    def inner(self, a, b):
        a, b = oarr(a), oarr(b)
        return self.dot(a, b) if a.ndim == b.ndim == 1 else np.inner(a, b)

    def outer(self, a, b):
        return np.outer(oarr(a), oarr(b))

    def matmul(self, a, b, **k):
        return self.dot(a, b)

    def cross(self, a, b, **k):
        a, b = oarr(a), oarr(b)
        if a.shape == (3,) and b.shape == (3,):
            return np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]], dtype=object)
        return np.cross(a, b, **k)

    def einsum(self, *a, **k):
        return np.einsum(*a, **k)

    def interp(self, x, xp, fp, left=None, right=None, **k):
        xp, fp = oarr(xp), oarr(fp)

        def one(v):
            v = lift(v)
            if bool(v <= lift(xp[0])):
                if left is not None and bool(v < lift(xp[0])):
                    return left
                return lift(fp[0])
            for i in range(1, len(xp)):
                if bool(v <= lift(xp[i])):
                    return lift(fp[i - 1]) + (lift(fp[i]) - lift(fp[i - 1])) * (v - lift(xp[i - 1])) / (lift(xp[i]) - lift(xp[i - 1]))
            return lift(fp[-1]) if right is None else right
        if isinstance(x, (np.ndarray, list, tuple)):
            return np.array([one(v) for v in oarr(x).flat], dtype=object)
        return one(x)

    def vectorize(self, f, *a, **k):
        def g(*xs):
            arrs = np.broadcast_arrays(*[oarr(x) for x in xs])
            out = np.empty(arrs[0].shape, dtype=object)
            for i in np.ndindex(*out.shape):
                out[i] = f(*[y[i] for y in arrs])
            return out if out.shape else out[()]
        return g

    def apply_along_axis(self, f, axis, a, *args):
        return np.apply_along_axis(f, axis, oarr(a), *args)

    def select(self, conds, choices, default=0):
        raise Unsupported('np.select')

    def loadtxt(self, f, delimiter=None, skiprows=0, usecols=None, unpack=False, ndmin=0, **k):
        if isinstance(f, str) and f in FILES:
            a = oarr(FILES[f]).copy()
            a = a[skiprows:]
            if usecols is not None:
                a = a[:, usecols]
        else:
            a = sym_arr(np.loadtxt(f, delimiter=delimiter, skiprows=skiprows, usecols=usecols, ndmin=ndmin, **k))
        return a.T if unpack else a

    def genfromtxt(self, f, **k):
        return self.loadtxt(f, **k)

    def savetxt(self, f, a, *args, **k):
        FILES[str(f)] = oarr(a).copy()

    def isscalar(self, x):
        return True if isinstance(x, Sym) else np.isscalar(x)

    def searchsorted(self, a, v, side='left', **k):
        if not has_sym(a, v):
            return np.searchsorted(a, v, side=side)
        if isinstance(v, (np.ndarray, list, tuple)):
            return np.array([self.searchsorted(a, x, side) for x in v])
        i = 0
        for x in oarr(a):
            if bool(lift(x) < v) if side == 'left' else bool(lift(x) <= v):
                i += 1
            else:
                break
        return i

    def sort(self, a, **k):
        import functools
        return np.array(sorted(oarr(a), key=functools.cmp_to_key(lambda x, y: -1 if bool(x < y) else 1)), dtype=object)

    def __getattr__(self, n):
        if n == 'random':
            return ModShim(np.random)
        return getattr(np, n)


def _unsup(n):
    raise Unsupported(n)


def sym_arr(a):
    a = np.asarray(a)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = lift(a[i].item() if hasattr(a[i], 'item') else a[i])
    return out


def tosym(x):
    if isinstance(x, Sym):
        return x
    if isinstance(x, np.ndarray) and x.shape == ():
        return tosym(x.item())
    if isinstance(x, np.ndarray) and x.size == 1:
        return tosym(x.flat[0])
    if isinstance(x, str):
        return Sym.const(core.Fr(x.strip()))
    if isinstance(x, (list, tuple, np.ndarray)):
        return sym_arr(np.asarray(x, dtype=object))
    return lift(x)


class MathShim:
    def __init__(self):
        for n, f in UN.items():
            setattr(self, n, unary(f))
        for n, f in BI.items():
            setattr(self, n, binary(f))

    @property
    def pi(self):
        return core.PI

    tau = property(lambda s: core.PI * 2)
    inf = float('inf')
    nan = float('nan')

    def isnan(self, x):
        return False if isinstance(x, Sym) else math.isnan(x)

    def isfinite(self, x):
        return True if isinstance(x, Sym) else math.isfinite(x)

    def isclose(self, a, b, rel_tol=1e-9, abs_tol=0.0):
        a, b = lift(a), lift(b)
        d = core.sabs(a - b)
        return d <= s_max(lift(rel_tol) * s_max(core.sabs(a), core.sabs(b)), lift(abs_tol))

    def fsum(self, xs):
        t = Sym.const(0)
        for x in xs:
            t = t + x
        return t

    def dist(self, p, q):
        t = Sym.const(0)
        for a, b in zip(p, q):
            t = t + (a - b) * (a - b)
        return core.ssqrt(t)

    def hypot(self, *xs):
        t = Sym.const(0)
        for a in xs:
            t = t + lift(a) * lift(a)
        return core.ssqrt(t)

    def __getattr__(self, n):
        return getattr(math, n)


class FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.float, Sym))

    def __call__(cls, x=0.0):
        if isinstance(x, (int, builtins.float, str)) and not isinstance(x, bool):
            return lift(builtins.float(x))
        return tosym(x)


class FloatShim(metaclass=FloatMeta):
    pass


def int_shim(x=0, *a):
    if isinstance(x, Sym):
        if x.is_const():
            return int(x.cval())
        raise Unsupported('int of symbolic')
    return int(x, *a)


class Interp1dShim:
    """Contract of scipy.interpolate.interp1d, kind='linear'."""

    def __init__(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=float('nan'), assume_sorted=False):
        self.kind = {1: 'linear', None: 'linear'}.get(kind, kind)
        self.x, self.y = oarr(x), oarr(y)
        if len(self.x) != len(self.y):
            raise ValueError('x and y arrays must be equal in length along interpolation axis.')
        if not assume_sorted:
            order = []
            for i in range(len(self.x)):
                k = len(order)
                while k > 0 and bool(lift(self.x[i]) < lift(self.x[order[k - 1]])):
                    k -= 1
                order.insert(k, i)
            if order != list(range(len(order))):
                self.x, self.y = self.x[order], self.y[order]
        self.extrap = isinstance(fill_value, str) and fill_value == 'extrapolate'
        self.fill = fill_value
        if bounds_error is None:
            isnan = isinstance(fill_value, float) and fill_value != fill_value
            bounds_error = (not self.extrap) and isnan
        self.bounds_error = bounds_error

    def one(self, v):
        v = lift(v)
        X, Y = self.x, self.y
        n = len(X)
        if bool(v < lift(X[0])) and not self.extrap:
            return self._out(0)
        if bool(v > lift(X[-1])) and not self.extrap:
            return self._out(1)
        if self.kind != 'linear':
            return core.uf('interp_%s' % self.kind, v, *list(X), *list(Y))
        for i in range(1, n):
            if i == n - 1 or bool(v <= lift(X[i])):
                break
        x0, x1, y0, y1 = lift(X[i - 1]), lift(X[i]), lift(Y[i - 1]), lift(Y[i])
        return y0 + (y1 - y0) / (x1 - x0) * (v - x0)

    def _out(self, side):
        if self.bounds_error:
            raise ValueError('A value in x_new is outside the interpolation range.')
        f = self.fill
        if isinstance(f, tuple):
            f = f[side]
        return lift(f)

    def __call__(self, v):
        if isinstance(v, (np.ndarray, list, tuple)):
            a = oarr(v)
            out = np.empty(a.shape, dtype=object)
            for i in np.ndindex(*a.shape):
                out[i] = self.one(a[i])
            return out
        a = np.empty((), dtype=object)      # scipy returns a 0-d array
        a[()] = self.one(v)
        return a


def cumtrapz_shim(y, x=None, dx=1.0, axis=-1, initial=None):
    y = oarr(y)
    out = []
    t = Sym.const(0)
    if initial is not None:
        if not bool(lift(initial) == 0):
            raise ValueError('`initial` must be `None` or `0`.')
        out.append(Sym.const(0))
    for i in range(1, len(y)):
        h = (lift(x[i]) - lift(x[i - 1])) if x is not None else lift(dx)
        t = t + (lift(y[i]) + lift(y[i - 1])) * h / 2
        out.append(t)
    return np.array(out, dtype=object)


FILES = {}      # in-memory files of the symbolic run
SHIM_NP = NpShim()
SHIM_MATH = MathShim()


class LitTransformer(ast.NodeTransformer):
    """float literals -> exact rational symbolic constants (decimal reading)."""

    def visit_Constant(self, node):
        if isinstance(node.value, float):
            return ast.copy_location(ast.Call(ast.Name('__lit__', ast.Load()), [ast.Constant(repr(node.value))], []), node)
        return node

    def visit_BinOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            def isint(n):
                return (isinstance(n, ast.Constant) and type(n.value) is int) or (isinstance(n, ast.UnaryOp) and isint(n.operand))
            if isint(node.left):
                node.left = ast.copy_location(ast.Call(ast.Name('__lit__', ast.Load()), [node.left], []), node)
        return node

    def visit_JoinedStr(self, node):
        return node


_LITS = {}


_LOADING = [False]


def __lit__(s):
    if _LOADING[0]:
        return float(s) if isinstance(s, str) else s
    v = _LITS.get(s)
    if v is None:
        v = _LITS[s] = Sym.const(core.Fr(s))
    return v


class Blocker:
    """plt / rcParams stand-in."""

    def __getattr__(self, n):
        return lambda *a, **k: Blocker()

    def __setitem__(self, k, v):
        pass

    def __getitem__(self, k):
        return Blocker()

    def __iter__(self):
        return iter((Blocker(), Blocker()))

    def __call__(self, *a, **k):
        return Blocker()


MODS = ['planet', 'launcher', 'approach', 'vehicle', 'maneuver', 'orbiter', 'telecom', 'visibility', 'interplanetary']


def _drop():
    out = {k: sys.modules.pop(k) for k in list(sys.modules) if k == 'AMAT' or k.startswith('AMAT.')}
    return out


class SymLoader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimization=-1):
        tree = ast.parse(data, path)
        tree = LitTransformer().visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, 'exec', dont_inherit=True)

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def exec_module(self, module):
        module.__dict__['__lit__'] = __lit__
        module.__dict__['__builtins__'] = dict(vars(builtins), __import__=sym_import)
        super().exec_module(module)


class SymFinder:
    def find_spec(self, name, path=None, target=None):
        if name == 'AMAT' or name.startswith('AMAT.'):
            base = os.path.join(REPO, *name.split('.'))
            if os.path.isdir(base):
                f = os.path.join(base, '__init__.py')
                return importlib.util.spec_from_file_location(name, f, loader=SymLoader(name, f), submodule_search_locations=[base])
            f = base + '.py'
            if os.path.exists(f):
                return importlib.util.spec_from_file_location(name, f, loader=SymLoader(name, f))
        return None


EXT_HOOK = {}      # 'owner.attr' -> stand-in supplied by the harness
EXT_NEEDS = {'scipy.integrate.odeint', 'scipy.integrate.solve_ivp', 'scipy.optimize.fsolve'}


class ExtFn:
    """an external function whose contract the harness supplies"""

    def __init__(self, name, real):
        self.name, self.real = name, real

    def __call__(self, *a, **k):
        if self.name in EXT_HOOK:
            return EXT_HOOK[self.name](*a, **k)
        if self.name in EXT_NEEDS or self.name.startswith(('random.', 'os.', 'numpy.random.')):
            raise Unsupported('no contract for external function ' + self.name)
        return self.real(*a, **k)


class ModShim:
    """module stand-in: numpy/math/scipy/random/os members resolved on access"""

    def __init__(self, mod):
        self.__dict__['_mod'] = mod

    def __getattr__(self, n):
        return subst(getattr(self._mod, n), self._mod.__name__ + '.' + n)


_PASS_OS = {'path', 'sep', 'getcwd', 'environ', 'linesep', 'listdir', 'fspath'}


def subst(v, name):
    """stand-in for a library object reached by the code under analysis (or the object itself)"""
    import scipy
    import scipy.interpolate
    import scipy.integrate
    import scipy.optimize
    import random
    import matplotlib.pyplot as plt
    import matplotlib
    if v is np:
        return SHIM_NP
    if v is math:
        return SHIM_MATH
    if v is np.linalg:
        return SHIM_NP.linalg
    if v is plt or v is matplotlib.rcParams or v is matplotlib:
        return Blocker()
    if v is scipy.interpolate.interp1d:
        return Interp1dShim
    if v is scipy.integrate.cumulative_trapezoid:
        return cumtrapz_shim
    if v is scipy.integrate.odeint:
        return ExtFn('scipy.integrate.odeint', v)
    if v is scipy.integrate.solve_ivp:
        return ExtFn('scipy.integrate.solve_ivp', v)
    if v in (scipy, scipy.interpolate, scipy.integrate, scipy.optimize, random, os) if isinstance(v, types.ModuleType) else False:
        return ModShim(v)
    if v is np.random:
        return ModShim(v)
    if name.startswith('numpy.random.') and callable(v):
        return ExtFn(name, v)
    if isinstance(v, (types.FunctionType, types.BuiltinFunctionType, types.MethodType)):
        mn = getattr(v, '__module__', None) or getattr(type(getattr(v, '__self__', None)), '__module__', '') or ''
        if mn == 'random':
            return ExtFn('random.' + v.__name__, v)
        if (mn in ('os', 'posix') or name.startswith('os.')) and v.__name__ not in _PASS_OS:
            return ExtFn('os.' + v.__name__, v)
        if mn.startswith('scipy.optimize'):
            return ExtFn('scipy.optimize.' + v.__name__, v)
        if mn.startswith('astropy'):
            return ExtFn('astropy.' + v.__name__, v)
    if isinstance(v, float) and v == math.pi:
        return core.PI
    if isinstance(v, np.ufunc) or (getattr(v, '__module__', None) or '').split('.')[0] in ('numpy', 'math') or \
            (isinstance(v, types.BuiltinFunctionType) and getattr(v, '__self__', None) is math):
        n = getattr(v, '__name__', name.split('.')[-1])
        if hasattr(SHIM_NP, n):
            return getattr(SHIM_NP, n)
    return v


def sym_import(name, globals=None, locals=None, fromlist=(), level=0):
    m = builtins.__import__(name, globals, locals, fromlist, level)
    if _LOADING[0] or level or name.split('.')[0] == 'AMAT':
        return m
    return subst(m, name) if isinstance(subst(m, name), (NpShim, MathShim, ModShim, Blocker, LinalgShim)) else m


def patch_module(m):
    """Replace numpy/math/scipy objects in the module's globals by stand-ins."""
    d = m.__dict__
    for k, v in list(d.items()):
        if not k.startswith('__'):
            d[k] = subst(v, k)
    d['float'] = FloatShim
    d['int'] = int_shim


class ModSet:
    pass


def load(sym):
    """Import a fresh AMAT from /repo. sym=True: with literals exact and stand-ins installed."""
    import importlib.util
    os.environ.setdefault('MPLBACKEND', 'Agg')
    sys.dont_write_bytecode = True
    sys.pycache_prefix = '/nonexistent/amat-verif'
    _drop()
    ms = ModSet()
    saved_path = list(sys.path)
    if sym:
        sys.meta_path.insert(0, SymFinder())
        _LOADING[0] = True
    sys.path.insert(0, REPO)
    import warnings
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for n in MODS:
                setattr(ms, n, importlib.import_module('AMAT.' + n))
    finally:
        sys.path[:] = saved_path
        _LOADING[0] = False
        if sym:
            sys.meta_path.pop(0)
    ms.all = {k: v for k, v in sys.modules.items() if k == 'AMAT' or k.startswith('AMAT.')}
    _drop()
    for n in MODS:
        assert getattr(ms, n).__file__.startswith(REPO), getattr(ms, n).__file__
    if sym:
        for mm in ms.all.values():
            patch_module(mm)
    ms.sym = sym
    return ms
