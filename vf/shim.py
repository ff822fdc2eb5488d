"""The symbolic stand-ins for numpy, math, scipy, torch, matplotlib and the thread pool,
and the loader that executes the package's current source over them.

Arrays are real numpy arrays of dtype object whose elements are symbolic reals, so
indexing, views, in-place updates, broadcasting and einsum are numpy's own.
"""
import builtins
import importlib
import math as _math
import operator
import os
import sys
import types
from fractions import Fraction

import numpy as rnp

from . import sym
from .sym import Node, SymBool, Rounding, Unsupported, lift, band, bor, bnot

REPO = os.environ.get("VERIF_REPO", "/repo")


# ------------------------------------------------------------------ arrays
_FLOAT, _BOOL = rnp.dtype(float), rnp.dtype(bool)


def dt(x):
    """the storage type; the attribute ``dtype`` of symbolic arrays shows what the code sees"""
    return rnp.ndarray.dtype.__get__(x) if isinstance(x, SymArray) else x.dtype


def aswrap(x):
    if isinstance(x, rnp.ndarray):
        if dt(x) == object and not isinstance(x, SymArray):
            return x.view(SymArray)
        return x
    if type(x) is tuple:
        return tuple(aswrap(i) for i in x)
    if type(x) is list:
        return [aswrap(i) for i in x]
    return x


def base(x):
    if isinstance(x, SymArray):
        return x.view(rnp.ndarray)
    if type(x) is tuple:
        return tuple(base(i) for i in x)
    if type(x) is list:
        return [base(i) for i in x]
    return x


def is_symbolic(x):
    if isinstance(x, (Node, SymBool)):
        return True
    if isinstance(x, rnp.ndarray):
        return dt(x) == object
    if isinstance(x, (list, tuple)):
        return any(is_symbolic(i) for i in x)
    return False


def obj(x):
    """Array of symbolic reals from anything array-like of numbers."""
    if isinstance(x, rnp.ndarray):
        a = x
    else:
        a = rnp.empty(rnp.shape(_plain(x)), dtype=object)
        _fill(a, x)
    if dt(a) == object:
        b = rnp.empty(a.shape, dtype=object)
        for i in rnp.ndindex(a.shape):
            b[i] = lift(a[i])
        return b.view(SymArray)
    b = rnp.empty(a.shape, dtype=object)
    for i in rnp.ndindex(a.shape):
        b[i] = lift(a[i])
    return b.view(SymArray)


def _plain(x):
    if isinstance(x, (list, tuple)):
        return [_plain(i) for i in x]
    if isinstance(x, rnp.ndarray):
        return rnp.zeros(x.shape)
    return 0.0


def _fill(a, x):
    if isinstance(x, (list, tuple)):
        for i, xi in enumerate(x):
            if isinstance(xi, (list, tuple)) or (isinstance(xi, rnp.ndarray) and xi.ndim):
                _fill(a[i], xi)
            else:
                a[i] = lift(xi)
    elif isinstance(x, rnp.ndarray):
        for i in rnp.ndindex(x.shape):
            a[i] = lift(x[i])
    else:
        a[()] = lift(x)


_CMP = {
    rnp.less: operator.lt, rnp.less_equal: operator.le, rnp.greater: operator.gt,
    rnp.greater_equal: operator.ge, rnp.equal: operator.eq, rnp.not_equal: operator.ne,
}


def _el(f):
    return rnp.frompyfunc(f, 1, 1)


def _el2(f):
    return rnp.frompyfunc(f, 2, 1)


def _max(x, y):
    x, y = lift(x), lift(y)
    if x.k == "nan" or y.k == "nan":
        return sym.nan()
    return x if bool(x >= y) else y


def _min(x, y):
    x, y = lift(x), lift(y)
    if x.k == "nan" or y.k == "nan":
        return sym.nan()
    return x if bool(x <= y) else y


def _sign(x):
    return lift(sym.sign_of(lift(x)))


def _un(name):
    return _el(lambda x: getattr(lift(x), name)())


_UFUNC = {
    rnp.sqrt: _un("sqrt"), rnp.cbrt: _un("cbrt"), rnp.square: _un("square"),
    rnp.reciprocal: _un("reciprocal"), rnp.exp: _un("exp"), rnp.expm1: _un("expm1"),
    rnp.log: _un("log"), rnp.log1p: _un("log1p"),
    rnp.absolute: _el(lambda x: abs(lift(x))), rnp.fabs: _el(lambda x: abs(lift(x))),
    rnp.negative: _el(lambda x: -lift(x)), rnp.positive: _el(lambda x: lift(x)),
    rnp.conjugate: _el(lambda x: lift(x)), rnp.sign: _el(_sign),
    rnp.add: _el2(lambda x, y: lift(x) + lift(y)),
    rnp.subtract: _el2(lambda x, y: lift(x) - lift(y)),
    rnp.multiply: _el2(lambda x, y: lift(x) * lift(y)),
    rnp.true_divide: _el2(lambda x, y: lift(x) / lift(y)),
    rnp.power: _el2(lambda x, y: lift(x) ** lift(y)),
    rnp.float_power: _el2(lambda x, y: lift(x) ** lift(y)),
    rnp.maximum: _el2(_max), rnp.minimum: _el2(_min),
    rnp.fmax: _el2(_max), rnp.fmin: _el2(_min),
    rnp.log10: _el(lambda x: lift(x).log() / lift(10).log()), rnp.log2: _el(lambda x: lift(x).log() / lift(2).log()),
    rnp.exp2: _el(lambda x: lift(2) ** lift(x)),
    rnp.hypot: _el2(lambda x, y: (lift(x) * lift(x) + lift(y) * lift(y)).sqrt()),
    rnp.sinh: _el(lambda x: (lift(x).exp() - (-lift(x)).exp()) / 2), rnp.cosh: _el(lambda x: (lift(x).exp() + (-lift(x)).exp()) / 2),
    rnp.tanh: _el(lambda x: 1 - 2 / ((2 * lift(x)).exp() + 1)),
    rnp.heaviside: _el2(lambda x, y: lift(1) if bool(lift(x) > 0) else (lift(0) if bool(lift(x) < 0) else lift(y))),
    rnp.copysign: _el2(lambda x, y: abs(lift(x)) if bool(lift(y) >= 0) else -abs(lift(x))),
    rnp.deg2rad: _el(lambda x: lift(x) * (_math.pi / 180)), rnp.radians: _el(lambda x: lift(x) * (_math.pi / 180)),
    rnp.rad2deg: _el(lambda x: lift(x) * (180 / _math.pi)), rnp.degrees: _el(lambda x: lift(x) * (180 / _math.pi)),
}

_BOOLU = {
    rnp.logical_not: _el(bnot), rnp.invert: _el(bnot),
    rnp.logical_and: _el2(lambda x, y: band([x, y])), rnp.bitwise_and: _el2(lambda x, y: band([x, y])),
    rnp.logical_or: _el2(lambda x, y: bor([x, y])), rnp.bitwise_or: _el2(lambda x, y: bor([x, y])),
    rnp.isnan: _el(lambda x: lift(x).k == "nan"), rnp.isfinite: _el(lambda x: lift(x).k != "nan"),
    rnp.isinf: _el(lambda x: False),
    rnp.logical_xor: _el2(lambda x, y: _xor(x, y)), rnp.bitwise_xor: _el2(lambda x, y: _xor(x, y)),
}


def _xor(x, y):
    x, y = sym.blift(x), sym.blift(y)
    return bor([band([x, bnot(y)]), band([bnot(x), y])])


def _boolresult(r):
    """Plain bool array when everything is concrete, otherwise array of SymBool."""
    if not isinstance(r, rnp.ndarray):
        if isinstance(r, SymBool):
            if r.op in ("true", "false"):
                return rnp.bool_(r.op == "true")
            return r
        return rnp.bool_(r)
    if all(not isinstance(x, SymBool) or x.op in ("true", "false") for x in r.flat):
        return rnp.array([bool(x) for x in r.flat], dtype=bool).reshape(r.shape)
    return r.view(SymArray)


def concrete_mask(i):
    """Index expressions: masks of SymBool are decided (forking) element by element."""
    if isinstance(i, tuple):
        return tuple(concrete_mask(k) for k in i)
    if isinstance(i, SymBool):
        return bool(i)
    if isinstance(i, rnp.ndarray) and dt(i) == object:
        if i.size and isinstance(i.flat[0], (SymBool, bool, rnp.bool_)):
            return rnp.array([bool(x) for x in i.flat], dtype=bool).reshape(i.shape)
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if isinstance(i, Node):
        raise IndexError("only integers, slices, ellipsis, newaxis and integer or boolean arrays are valid indices")
    return i


_GU = {getattr(rnp, n): f for n, f in [
    ("vecdot", lambda x, y: rnp.einsum("...i,...i->...", x, y)), ("matvec", lambda x, y: rnp.einsum("...ij,...j->...i", x, y)),
    ("vecmat", lambda x, y: rnp.einsum("...i,...ij->...j", x, y))] if hasattr(rnp, n)}


class SymArray(rnp.ndarray):
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        ins = [base(x) for x in inputs]
        kw.pop("dtype", None)
        kw.pop("casting", None)
        kw.pop("subok", None)
        kw.pop("order", None)
        where = kw.pop("where", True)
        if where is not True:
            where = concrete_mask(where)
        if method == "__call__":
            if ufunc in _CMP:
                op = _CMP[ufunc]
                r = _el2(lambda x, y: op(lift(x), lift(y)) if not _infinite(x) and not _infinite(y) else op(x, y))(*ins)
                return _boolresult(r)
            f = _BOOLU.get(ufunc)
            if f is not None:
                return _boolresult(f(*ins))
            f = _UFUNC.get(ufunc)
            if f is None:
                if ufunc is rnp.matmul or ufunc in _GU:
                    f = rnp.matmul if ufunc is rnp.matmul else _GU[ufunc]
                    r = f(*[rnp.asarray(x, dtype=object) for x in ins])
                    return self._out(r, out, True)
                raise Unsupported(f"ufunc {ufunc.__name__}")
            if where is not True:
                shp = rnp.broadcast_shapes(*[rnp.shape(x) for x in ins], rnp.shape(where))
                bins = [rnp.broadcast_to(rnp.asarray(x, dtype=object) if not isinstance(x, rnp.ndarray) else x, shp) for x in ins]
                w = rnp.broadcast_to(where, shp)
                o = out[0] if out is not None else None
                r = rnp.empty(shp, dtype=object)
                for i in rnp.ndindex(shp):
                    if w[i]:
                        r[i] = f(*[b[i] for b in bins])
                    else:
                        r[i] = lift(o[i]) if o is not None else sym.nan()
                return self._out(r, out, True)
            # copy inputs that overlap the output: numpy does the same
            r = f(*ins)
            return self._out(r, out, where)
        if method == "reduce":
            if ufunc in (rnp.logical_and, rnp.logical_or):
                return _reduce_bool(ufunc, ins[0], kw.get("axis", 0), kw.get("keepdims", False))
            f = _UFUNC.get(ufunc)
            if f is None:
                raise Unsupported(f"ufunc {ufunc.__name__}.reduce")
            a = ins[0]
            init = kw.pop("initial", None)
            if init is rnp._NoValue:
                init = None
            if ufunc in (rnp.add, rnp.multiply):
                neutral = lift(0 if ufunc is rnp.add else 1) if init is None else lift(init)
            else:
                neutral = None if init is None else lift(init)
            if where is not True:
                if neutral is None:
                    raise ValueError("reduction operation does not have an identity, so to use a where mask one has to specify 'initial'")
                w = rnp.broadcast_to(where, rnp.shape(a))
                b = rnp.empty(w.shape, dtype=object)
                for i in rnp.ndindex(w.shape):
                    b[i] = a[i] if w[i] else (lift(1) if ufunc is rnp.multiply else lift(0) if ufunc is rnp.add else neutral)
                a = b
            r = _reduce(a, f, kw.get("axis", 0), kw.get("keepdims", False), neutral)
            return self._out(r, out, True)
        if method == "outer":
            a, b = [rnp.asarray(x) for x in ins]
            r = _UFUNC[ufunc](a.reshape(a.shape + (1,) * b.ndim), b)
            return self._out(r, out, True)
        if method == "accumulate":
            r = _UFUNC[ufunc].accumulate(ins[0], axis=kw.get("axis", 0), dtype=object)
            return self._out(r, out, True)
        if method == "at":
            getattr(_UFUNC[ufunc], "at")(ins[0], concrete_mask(ins[1]), *ins[2:])
            return None
        raise Unsupported(f"ufunc method {method}")

    @staticmethod
    def _out(r, out, where):
        if out is not None and out[0] is not None:
            o = out[0]
            if isinstance(o, rnp.ndarray) and dt(o) == object:
                rs = rnp.shape(r)
                if rnp.broadcast_shapes(rs, o.shape) != o.shape:
                    raise ValueError(f"non-broadcastable output operand with shape {o.shape} doesn't match the broadcast shape {rnp.broadcast_shapes(rs, o.shape)}")
                base(o)[...] = r
                return o
            raise Unsupported("numeric output array for a symbolic result")
        return aswrap(r)

    def __getitem__(self, i):
        return aswrap(rnp.ndarray.__getitem__(self, concrete_mask(i)))

    def __setitem__(self, i, v):
        if isinstance(v, SymArray):
            v = base(v)
        elif isinstance(v, (list, tuple)):
            v = base(_stack(v))
        elif isinstance(v, rnp.ndarray):
            v = v if dt(v) == object else base(obj(v))
        elif isinstance(v, (int, float, rnp.number)) and not isinstance(v, bool):
            v = lift(v)
        rnp.ndarray.__setitem__(self, concrete_mask(i), v)

    def __array_finalize__(self, o):
        pass

    @property
    def dtype(self):
        b = self.view(rnp.ndarray)
        return _BOOL if b.size and all(isinstance(x, (SymBool, bool)) for x in b.flat) else _FLOAT

    def __bool__(self):
        if self.size == 1:
            x = self.reshape(-1).view(rnp.ndarray)[0]
            return bool(x)
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def astype(self, dtype, *a, **k):
        if _floatlike(dtype):
            return self.copy() if k.get("copy", True) else self
        if dtype in (bool, rnp.bool_):
            return rnp.array([bool(x) for x in self.flat], dtype=bool).reshape(self.shape)
        raise Unsupported(f"astype({dtype})")

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return rnp.add.reduce(self, axis=axis, keepdims=keepdims, out=out, **_where(k))

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return rnp.multiply.reduce(self, axis=axis, keepdims=keepdims, out=out, **_where(k))

    def mean(self, axis=None, dtype=None, out=None, **k):
        if k.get("where", True) is not True:
            w = concrete_mask(k["where"])
            r = self.sum(axis=axis, keepdims=k.get("keepdims", False), where=w) / rnp.broadcast_to(w, self.shape).sum(axis=axis, keepdims=k.get("keepdims", False))
            return SymArray._out(r, (out,), True) if out is not None else r
        if out is not None:
            return SymArray._out(self.mean(axis, **k), (out,), True)
        s = self.sum(axis=axis, keepdims=k.get("keepdims", False))
        n = self.size if axis is None else rnp.prod([self.shape[i] for i in ([axis] if not isinstance(axis, tuple) else axis)])
        return s / int(n)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return rnp.maximum.reduce(self, axis=axis, keepdims=keepdims, out=out, **_where(k))

    def min(self, axis=None, out=None, keepdims=False, **k):
        return rnp.minimum.reduce(self, axis=axis, keepdims=keepdims, out=out, **_where(k))

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return NP.zeros(self.shape)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return _reduce_bool(rnp.logical_and, base(self), axis, keepdims)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return _reduce_bool(rnp.logical_or, base(self), axis, keepdims)

    def dot(self, o, out=None):
        return NP.dot(self, o, out)

    def fill(self, v):
        self[...] = v

    def clip(self, min=None, max=None, out=None, **k):
        return NP.clip(self, min, max, out)

    def argsort(self, axis=-1, **k):
        return NP.argsort(self, axis)

    def sort(self, axis=-1, **k):
        self[...] = NP.sort(self, axis)

    def argmax(self, axis=None, **k):
        return NP.argmax(self, axis)

    def argmin(self, axis=None, **k):
        return NP.argmin(self, axis)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        d = self - self.mean(axis=axis, keepdims=True)
        n = self.size if axis is None else int(rnp.prod([self.shape[i] for i in ([axis] if not isinstance(axis, tuple) else axis)]))
        return (d * d).sum(axis=axis, keepdims=keepdims) / (n - ddof)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return NP.sqrt(self.var(axis=axis, ddof=ddof, keepdims=keepdims))

    def round(self, *a, **k):
        raise Rounding("rounding")

    def conj(self):
        return self.copy()

    conjugate = conj

    def nonzero(self):
        return NP.nonzero(self)

    def tolist(self):
        return rnp.ndarray.tolist(self.view(rnp.ndarray))


def _infinite(x):
    return isinstance(x, float) and x in (_math.inf, -_math.inf)


def _where(k):
    return {n: v for n, v in k.items() if n in ("where", "initial")}


def _reduce(a, f, axis, keepdims, neutral):
    if not isinstance(a, rnp.ndarray):
        a = rnp.asarray(a, dtype=object)
    if axis is None:
        axes = tuple(range(a.ndim))
    else:
        axes = tuple(x % a.ndim for x in (axis if isinstance(axis, tuple) else (axis,)))
    rest = [i for i in range(a.ndim) if i not in axes]
    b = a.transpose(list(axes) + rest)
    n = 1
    for i in axes:
        n *= a.shape[i]
    shp = [a.shape[i] for i in rest]
    b = b.reshape([n] + shp)
    r = None
    if neutral is not None:
        r = rnp.empty(shp, dtype=object)
        r[...] = neutral
    elif n == 0:
        raise ValueError("zero-size array to reduction operation")
    for i in range(n):
        r = b[i] if r is None else f(r, b[i])
    if not isinstance(r, rnp.ndarray):
        o = rnp.empty((), dtype=object)
        o[()] = r
        r = o
    if keepdims:
        return r.reshape([1 if i in axes else a.shape[i] for i in range(a.ndim)])
    if r.ndim == 0:
        return r[()]
    return r


def _reduce_bool(uf, a, axis, keepdims=False):
    comb = (lambda x, y: band([x, y])) if uf is rnp.logical_and else (lambda x, y: bor([x, y]))
    neutral = sym.TRUE if uf is rnp.logical_and else sym.FALSE
    r = _reduce(rnp.asarray(a, dtype=object), _el2(comb), axis, keepdims, neutral)
    return _boolresult(r if isinstance(r, rnp.ndarray) else sym.blift(r))


# ------------------------------------------------------------------ numpy module
FLOATS = (float, rnp.float64, object)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (Node, cls.real))

    def __subclasscheck__(cls, c):
        return issubclass(c, (Node, cls.real))

    def __call__(cls, x=0.0):
        if isinstance(x, rnp.ndarray) and x.size == 1 and cls is Float:
            x = x.reshape(-1)[0]
        if isinstance(x, (rnp.ndarray, list, tuple)):
            return NP.array(x, dtype=float)
        if isinstance(x, Node):
            return x
        return cls.real(x) if isinstance(x, str) or cls is Float else lift(x)

    def __eq__(cls, o):
        return o is cls or o is cls.real or (cls.real in (float, rnp.float64) and isinstance(o, rnp.dtype) and o == _FLOAT)

    def __hash__(cls):
        return hash(cls.real)

    def __getattr__(cls, n):
        return getattr(cls.real, n)


class Float(metaclass=_FloatMeta):
    """the builtin float as the code sees it"""
    real = float
    dtype = _FLOAT


class Float64(metaclass=_FloatMeta):
    """numpy.float64 as the code sees it"""
    real = rnp.float64
    dtype = _FLOAT


class Floating(metaclass=_FloatMeta):
    real = rnp.floating


class Number(metaclass=_FloatMeta):
    real = rnp.number


def _floatlike(dtype):
    if dtype is None:
        return True
    if any(dtype is x for x in FLOATS) or dtype in (Float, Float64):
        return True
    try:
        k = rnp.dtype(dtype).kind
    except TypeError:
        return False
    if k == "f":
        if rnp.dtype(dtype) != rnp.float64:
            raise Rounding(f"dtype {dtype}")
        return True
    if k == "c":
        raise Unsupported("complex numbers")
    return k == "O"


class NumpyShim(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self._cache = {}
        self.linalg = LinalgShim()

    def __getattr__(self, name):
        c = self.__dict__.get("_cache", {})
        if name in c:
            return c[name]
        real = getattr(rnp, name)
        if isinstance(real, rnp.ufunc):
            c[name] = _wrap_ufunc(real)
            return c[name]
        if isinstance(real, (type, types.ModuleType)) or not callable(real):
            return real

        def f(*a, **k):
            return aswrap(real(*a, **k))

        f.__name__ = name
        c[name] = f
        return f

    # creation
    def zeros(self, shape, dtype=None, **k):
        return self.full(shape, 0, dtype)

    def ones(self, shape, dtype=None, **k):
        return self.full(shape, 1, dtype)

    def empty(self, shape, dtype=None, **k):
        if _floatlike(dtype):
            # arbitrary content
            a = rnp.empty(shape, dtype=object)
            for i in rnp.ndindex(a.shape):
                a[i] = sym.nan()
            return a.view(SymArray)
        return rnp.empty(shape, dtype=dtype)

    def full(self, shape, v, dtype=None, **k):
        if isinstance(shape, Node) or is_symbolic(shape):
            raise Unsupported("symbolic shape")
        if _floatlike(dtype):
            a = rnp.empty(shape, dtype=object)
            if isinstance(v, rnp.ndarray):
                a[...] = base(obj(v))
            else:
                a[...] = lift(v)
            return a.view(SymArray)
        return rnp.full(shape, v, dtype=dtype)

    def _like(self, a, v, dtype, shape=None):
        shp = rnp.shape(a) if shape is None else shape
        if isinstance(a, Node):
            shp = () if shape is None else shape
        if dtype is None:
            if isinstance(a, rnp.ndarray) and dt(a) != object and dt(a).kind in "iub":
                return rnp.full(shp, v, dtype=dt(a))
            if not is_symbolic(a) and not isinstance(a, rnp.ndarray):
                kind = rnp.asarray(a).dtype
                if kind.kind in "iub":
                    return rnp.full(shp, v, dtype=kind)
        return self.full(shp, v, dtype)

    def zeros_like(self, a, dtype=None, shape=None, **k):
        return self._like(a, 0, dtype, shape)

    def ones_like(self, a, dtype=None, shape=None, **k):
        return self._like(a, 1, dtype, shape)

    def empty_like(self, a, dtype=None, shape=None, **k):
        return self._like(a, float("nan"), dtype, shape) if is_symbolic(a) or _floatlike(dtype) and dtype else self._like(a, 0, dtype, shape)

    def full_like(self, a, v, dtype=None, shape=None, **k):
        return self._like(a, v, dtype, shape)

    def eye(self, N, M=None, k=0, dtype=float, **kw):
        return obj(rnp.eye(N, M, k)) if _floatlike(dtype) else rnp.eye(N, M, k, dtype)

    def identity(self, n, dtype=None):
        return self.eye(n, dtype=dtype if dtype is not None else float)

    def array(self, x, dtype=None, copy=True, ndmin=0, **k):
        if is_symbolic(x) or (isinstance(x, (list, tuple)) and _contains_symbolic(x)):
            if dtype is not None and not _floatlike(dtype):
                if rnp.dtype(dtype).kind == "b":
                    return concrete_mask(rnp.asarray(x, dtype=object))
                raise Unsupported(f"array(dtype={dtype})")
            if isinstance(x, rnp.ndarray) and x.size and isinstance(x.flat[0], SymBool):
                r = x.copy() if copy else x
            elif isinstance(x, rnp.ndarray):
                r = x.copy() if copy else x
                r = r if isinstance(r, SymArray) else r.view(SymArray)
            elif isinstance(x, Node):
                r = obj(x)
            elif isinstance(x, SymBool):
                r = rnp.array(bool(x))
            else:
                r = _stack(x)
        else:
            r = rnp.array(x, dtype=dtype, copy=copy) if copy is not True else rnp.array(x, dtype=dtype)
            if dt(r).kind == "f":
                if dt(r) != rnp.float64:
                    raise Unsupported(f"dtype {dt(r)}")
                r = obj(r)
        while r.ndim < ndmin:
            r = r[None]
        return r

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, SymArray) and (dtype is None or _floatlike(dtype)):
            return x
        if isinstance(x, rnp.ndarray) and dt(x) == object and (dtype is None or _floatlike(dtype)):
            return x.view(SymArray)
        if isinstance(x, rnp.ndarray) and dt(x) != object and (dtype is None or dt(x) == dtype):
            return x
        return self.array(x, dtype=dtype)

    asanyarray = asarray

    def ascontiguousarray(self, x, dtype=None, **k):
        x = self.asarray(x, dtype)
        return aswrap(rnp.ascontiguousarray(base(x)))

    def asfortranarray(self, x, dtype=None, **k):
        return aswrap(rnp.asfortranarray(base(self.asarray(x, dtype))))

    def copy(self, x, **k):
        return self.array(x)

    float64 = double = float_ = Float64
    floating = inexact = Floating
    number = generic = Number

    def issubdtype(self, a, b):
        return rnp.issubdtype(getattr(a, "real", a) if isinstance(a, _FloatMeta) else a, b.real if isinstance(b, _FloatMeta) else b)

    def result_type(self, *a):
        return _FLOAT if any(_contains_symbolic(x) for x in a) else rnp.result_type(*[_FLOAT if x in (Float, Float64) else x for x in a if not is_symbolic(x)])

    def frompyfunc(self, f, nin, nout):
        return lambda *x: aswrap(rnp.frompyfunc(f, nin, nout)(*[_elems(i) for i in x]))

    def fromiter(self, it, dtype=float, count=-1, **k):
        return self.array(list(it)[:None if count < 0 else count], dtype=dtype)

    def real(self, x):
        return x if is_symbolic(x) else rnp.real(x)

    def imag(self, x):
        return self.zeros(rnp.shape(x)) if is_symbolic(x) else rnp.imag(x)

    def isreal(self, x):
        return rnp.ones(rnp.shape(x), dtype=bool) if is_symbolic(x) else rnp.isreal(x)

    def select(self, conds, choices, default=0):
        if not any(_contains_symbolic(x) for x in list(conds) + list(choices)):
            return rnp.select(conds, choices, default)
        r = self.array(default, dtype=float)
        for c, v in reversed(list(zip(conds, choices))):
            r = self.where(c, v, r)
        return r

    def copyto(self, dst, src, casting="same_kind", where=True):
        if where is not True:
            where = concrete_mask(where)
        if isinstance(dst, rnp.ndarray) and dt(dst) == object:
            s = _elems(src)
            b = base(dst)
            s = rnp.broadcast_to(rnp.asarray(s, dtype=object), b.shape).copy()
            for i in rnp.ndindex(b.shape):
                if where is True or rnp.broadcast_to(where, b.shape)[i]:
                    b[i] = lift(s[i])
            return None
        if is_symbolic(src):
            raise Unsupported("copyto a numeric array")
        return rnp.copyto(dst, src, casting, where)

    def putmask(self, a, mask, values):
        return rnp.putmask(a, concrete_mask(self.asarray(mask)), _elems(values))

    def place(self, a, mask, values):
        return rnp.place(a, concrete_mask(self.asarray(mask)), _elems(values))

    def unique(self, a, **k):
        if not is_symbolic(a):
            return rnp.unique(a, **k)
        if k:
            raise Unsupported("unique with options")
        r = list(_elems(self.sort(self.asarray(a).reshape(-1))))
        return self.array([x for i, x in enumerate(r) if i == 0 or not bool(r[i - 1] == x)])

    def median(self, a, axis=None, **k):
        if not _contains_symbolic(a):
            return rnp.median(a, axis=axis, **k)
        a = self.asarray(a)
        a = self.sort(a.reshape(-1), 0) if axis is None else self.moveaxis(self.sort(a, axis), axis, 0)
        n = len(a)
        return a[n // 2] if n % 2 else (a[n // 2 - 1] + a[n // 2]) / 2

    def average(self, a, axis=None, weights=None, **k):
        if weights is None:
            return self.mean(a, axis=axis, **k)
        if not (_contains_symbolic(a) or _contains_symbolic(weights)):
            return rnp.average(a, axis=axis, weights=weights, **k)
        a, w = self.asarray(a), self.array(weights, dtype=float)
        if w.shape != a.shape:
            w = self.moveaxis(self.broadcast_to(w, a.shape[:axis % a.ndim] + a.shape[axis % a.ndim + 1:] + w.shape), -1, axis)
        return (a * w).sum(axis=axis) / w.sum(axis=axis)

    def nanmean(self, a, axis=None, **k):
        if not _contains_symbolic(a):
            return rnp.nanmean(a, axis=axis, **k)
        return self.mean(a, axis=axis, where=~self.isnan(a), **k)

    @property
    def r_(self):
        return _Joiner(0)

    @property
    def c_(self):
        return _Joiner(-1)

    # contractions
    def einsum(self, *ops, out=None, **k):
        k.pop("optimize", None)
        k.pop("order", None)
        k.pop("dtype", None)
        k.pop("casting", None)
        if not isinstance(ops[0], str):
            chars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
            txt = lambda l: "".join("..." if i is Ellipsis else chars[i] for i in l)  # noqa: E731
            n = len(ops) // 2
            subs = ",".join(txt(ops[2 * i + 1]) for i in range(n))
            if len(ops) % 2:
                subs += "->" + txt(ops[-1])
            ops = (subs,) + tuple(ops[2 * i] for i in range(n))
        args = [ops[0]]
        symbolic = any(is_symbolic(o) for o in ops[1:])
        if not symbolic:
            if out is not None and is_symbolic(out):
                base(out)[...] = base(obj(rnp.einsum(*ops)))
                return out
            return rnp.einsum(*ops, out=out)
        for o in ops[1:]:
            if isinstance(o, rnp.ndarray) and dt(o) == object:
                args.append(base(o))
            else:
                args.append(base(obj(o)))
        if out is not None:
            if not (isinstance(out, rnp.ndarray) and dt(out) == object):
                raise Unsupported("numeric einsum output for symbolic operands")
            rnp.einsum(*args, out=base(out), casting="unsafe")
            return out
        return aswrap(rnp.einsum(*args))

    def dot(self, a, b, out=None):
        r = rnp.dot(base(_o(a)), base(_o(b)))
        if out is not None:
            base(out)[...] = r
            return out
        return aswrap(r)

    def inner(self, a, b):
        return aswrap(rnp.inner(base(_o(a)), base(_o(b))))

    def outer(self, a, b, **k):
        return aswrap(rnp.outer(base(_o(a)), base(_o(b))))

    def matmul(self, a, b, out=None, **k):
        return _give(rnp.matmul(base(_o(a)), base(_o(b))), out)

    def tensordot(self, a, b, axes=2):
        return aswrap(rnp.tensordot(base(_o(a)), base(_o(b)), axes=axes))

    def cross(self, a, b, **k):
        return aswrap(rnp.cross(base(_o(a)), base(_o(b)), **k))

    def trace(self, a, *r, **k):
        return aswrap(rnp.trace(base(a), *r, **k))

    # predicates
    def isclose(self, a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        if not (is_symbolic(a) or is_symbolic(b) or _contains_symbolic(a) or _contains_symbolic(b)):
            return rnp.isclose(a, b, rtol, atol, equal_nan)
        rt, at = lift(rtol), lift(atol)

        def one(x, y):
            x, y = lift(x), lift(y)
            if x.k == "nan" or y.k == "nan":
                return sym.FALSE
            d = x - y
            tol = at + (rt * abs(y) if not (y.k == "c" and y.a == 0) else lift(0))
            return band([d <= tol, -d <= tol])

        return _boolresult(_el2(one)(_elems(a), _elems(b)))

    def allclose(self, a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        return self.all(self.isclose(a, b, rtol, atol, equal_nan))

    def array_equal(self, a, b, **k):
        a, b = _elems(a), _elems(b)
        if rnp.shape(a) != rnp.shape(b):
            return False
        if not (is_symbolic(a) or is_symbolic(b)):
            return rnp.array_equal(a, b)
        return self.all(_boolresult(_el2(lambda x, y: lift(x) == lift(y))(a, b)))

    def array_equiv(self, a, b):
        try:
            a, b = rnp.broadcast_arrays(_elems(a), _elems(b))
        except ValueError:
            return False
        return self.array_equal(a, b)

    def all(self, a, axis=None, out=None, keepdims=False, **k):
        if is_symbolic(a) or _contains_symbolic(a):
            return _reduce_bool(rnp.logical_and, _elems(a), axis, keepdims)
        return rnp.all(a, axis=axis, keepdims=keepdims)

    def any(self, a, axis=None, out=None, keepdims=False, **k):
        if is_symbolic(a) or _contains_symbolic(a):
            return _reduce_bool(rnp.logical_or, _elems(a), axis, keepdims)
        return rnp.any(a, axis=axis, keepdims=keepdims)

    def count_nonzero(self, a, axis=None, **k):
        if is_symbolic(a):
            return rnp.count_nonzero(rnp.array([bool(x) for x in _elems(a).flat]).reshape(rnp.shape(a)), axis=axis)
        return rnp.count_nonzero(a, axis=axis)

    def nonzero(self, a):
        if is_symbolic(a):
            return rnp.nonzero(rnp.array([bool(x) for x in _elems(a).flat]).reshape(rnp.shape(a)))
        return rnp.nonzero(a)

    def isscalar(self, x):
        return isinstance(x, Node) or rnp.isscalar(x)

    def where(self, c, *xy):
        if not xy:
            return self.nonzero(c)
        x, y = xy
        if isinstance(c, (SymBool, Node)) or (isinstance(c, rnp.ndarray) and dt(c) == object):
            c = concrete_mask(c) if not isinstance(c, Node) else bool(c)
        if not (is_symbolic(x) or is_symbolic(y)):
            r = rnp.where(c, x, y)
            return obj(r) if dt(r).kind == "f" else r
        x, y = _elems(x), _elems(y)
        r = rnp.where(c, rnp.asarray(x, dtype=object), rnp.asarray(y, dtype=object))
        return aswrap(r) if r.ndim else r[()]

    def nan_to_num(self, x, copy=True, nan=0.0, **k):
        if not is_symbolic(x):
            return rnp.nan_to_num(x, copy=copy, nan=nan, **k)
        r = _el(lambda v: lift(nan) if lift(v).k == "nan" else v)(_elems(x))
        return aswrap(r)

    def clip(self, a, lo=None, hi=None, out=None, **k):
        r = a
        if lo is not None:
            r = self.maximum(r, lo)
        if hi is not None:
            r = self.minimum(r, hi)
        if out is not None:
            base(out)[...] = r
            return out
        return r

    def _sortperm(self, col):
        idx = list(range(len(col)))
        for i in range(1, len(idx)):
            j = i
            while j > 0 and bool(lift(col[idx[j - 1]]) > lift(col[idx[j]])):
                idx[j - 1], idx[j] = idx[j], idx[j - 1]
                j -= 1
        return idx

    def argsort(self, a, axis=-1, **k):
        if not is_symbolic(a):
            return rnp.argsort(a, axis=axis, **k)
        b = rnp.moveaxis(_elems(a), axis, -1)
        r = rnp.empty(b.shape, dtype=int)
        for i in rnp.ndindex(b.shape[:-1]):
            r[i] = self._sortperm(b[i])
        return rnp.moveaxis(r, -1, axis)

    def sort(self, a, axis=-1, **k):
        if not is_symbolic(a):
            return rnp.sort(a, axis=axis, **k)
        return aswrap(rnp.take_along_axis(_elems(a), self.argsort(a, axis), axis))

    def max(self, a, axis=None, **k):
        if is_symbolic(a) or _contains_symbolic(a):
            return self.asarray(a).max(axis=axis, **k)
        return rnp.max(a, axis=axis, **k)

    def min(self, a, axis=None, **k):
        if is_symbolic(a) or _contains_symbolic(a):
            return self.asarray(a).min(axis=axis, **k)
        return rnp.min(a, axis=axis, **k)

    amax, amin = max, min

    def argmax(self, a, axis=None, **k):
        if not is_symbolic(a):
            return rnp.argmax(a, axis=axis)
        if axis is None:
            v = list(_elems(a).flat)
            b = 0
            for i in range(1, len(v)):
                if bool(lift(v[i]) > lift(v[b])):
                    b = i
            return b
        c = rnp.moveaxis(_elems(a), axis, -1)
        r = rnp.empty(c.shape[:-1], dtype=int)
        for i in rnp.ndindex(r.shape):
            r[i] = self.argmax(c[i])
        return r

    def argmin(self, a, axis=None, **k):
        return self.argmax(-a, axis) if is_symbolic(a) else rnp.argmin(a, axis=axis)

    def sum(self, a, axis=None, dtype=None, out=None, keepdims=False, **k):
        if isinstance(a, Node):
            return a
        if is_symbolic(a) or _contains_symbolic(a):
            return self.asarray(a).sum(axis=axis, keepdims=keepdims, out=out, **k)
        return rnp.sum(a, axis=axis, keepdims=keepdims, out=out, **k)

    def prod(self, a, axis=None, keepdims=False, **k):
        if isinstance(a, Node):
            return a
        if is_symbolic(a) or _contains_symbolic(a):
            return self.asarray(a).prod(axis=axis, keepdims=keepdims, **k)
        return rnp.prod(a, axis=axis, keepdims=keepdims, **k)

    def mean(self, a, axis=None, **k):
        if is_symbolic(a) or _contains_symbolic(a):
            return self.asarray(a).mean(axis=axis, **k)
        return rnp.mean(a, axis=axis, **k)

    def concatenate(self, arrays, axis=0, out=None, **k):
        return _give(rnp.concatenate([_arr(a) for a in arrays], axis=axis), out)

    concat = concatenate

    def stack(self, arrays, axis=0, out=None, **k):
        return _give(rnp.stack([_arr(a) for a in arrays], axis=axis), out)

    def vstack(self, arrays, **k):
        return aswrap(rnp.vstack([_arr(a) for a in arrays]))

    def hstack(self, arrays, **k):
        return aswrap(rnp.hstack([_arr(a) for a in arrays]))

    def diag(self, v, k=0):
        v = self.asarray(v)
        if dt(v) != object:
            return rnp.diag(v, k)
        if v.ndim == 1:
            n = len(v) + abs(k)
            r = self.zeros((n, n))
            for i in range(len(v)):
                r[i + max(-k, 0), i + max(k, 0)] = v[i]
            return r
        return aswrap(rnp.diag(base(v), k).copy())

    def isnan(self, x, **k):
        if isinstance(x, Node):
            return rnp.bool_(x.k == "nan")
        return rnp.isnan(x) if not is_symbolic(x) else _boolresult(_BOOLU[rnp.isnan](base(x)))

    def isfinite(self, x, **k):
        if isinstance(x, Node):
            return rnp.bool_(x.k != "nan")
        return rnp.isfinite(x) if not is_symbolic(x) else _boolresult(_BOOLU[rnp.isfinite](base(x)))

    def vectorize(self, f, *a, **k):
        return lambda *x: aswrap(rnp.frompyfunc(f, len(x), 1)(*[_elems(i) for i in x]))

    def save(self, *a, **k):
        raise Unsupported("file output")

    savetxt = savez = load = loadtxt = save


def _give(r, out):
    if out is None:
        return aswrap(r)
    if not (isinstance(out, rnp.ndarray) and dt(out) == object):
        raise Unsupported("numeric output array for a symbolic result")
    if rnp.shape(r) != out.shape:
        raise ValueError("output array has the wrong shape")
    base(out)[...] = rnp.array(r, dtype=object)
    return out


class _Joiner:
    """numpy.r_ and numpy.c_ for plain entries"""

    def __init__(self, axis):
        self.axis = axis

    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        if not any(_contains_symbolic(x) for x in key):
            return (rnp.r_ if self.axis == 0 else rnp.c_)[key]
        if any(isinstance(x, (str, slice)) for x in key):
            raise Unsupported("slices in r_ and c_")
        parts = [NP.atleast_1d(NP.asarray(x)) for x in key]
        if self.axis == -1:
            parts = [x[:, None] if x.ndim == 1 else x for x in parts]
        return NP.concatenate(parts, axis=self.axis)


def max(a, b):  # noqa: A001  (used by diag above)
    return a if a > b else b


def _o(x):
    return x if isinstance(x, rnp.ndarray) and dt(x) == object else obj(x)


def _arr(a):
    a = base(NP.asarray(a))
    return a


def _elems(a):
    if isinstance(a, rnp.ndarray):
        return base(a)
    if isinstance(a, (Node, SymBool)):
        o = rnp.empty((), dtype=object)
        o[()] = a
        return o
    if isinstance(a, (list, tuple)) and _contains_symbolic(a):
        return base(_stack(a))
    return rnp.asarray(a)


def _contains_symbolic(x):
    if isinstance(x, (Node, SymBool)):
        return True
    if isinstance(x, rnp.ndarray):
        return dt(x) == object
    if isinstance(x, (list, tuple)):
        return any(_contains_symbolic(i) for i in x)
    return False


def _stack(x):
    if isinstance(x, (list, tuple)):
        subs = [_stack(i) for i in x]
        shp = {s.shape for s in subs}
        if len(shp) > 1:
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        r = rnp.empty((len(subs),) + (subs[0].shape if subs else ()), dtype=object)
        for i, s in enumerate(subs):
            r[i] = s[()] if s.ndim == 0 else base(s)
        return r.view(SymArray)
    if isinstance(x, rnp.ndarray):
        return x if dt(x) == object else obj(x)
    o = rnp.empty((), dtype=object)
    o[()] = x if isinstance(x, SymBool) else lift(x)
    return o.view(SymArray)


class _Uf:
    """A numpy ufunc as the code sees it."""

    def __init__(self, uf):
        self.uf = uf
        self.__name__ = uf.__name__

    def __call__(self, *a, **k):
        uf = self.uf
        n = uf.nin
        ins, rest = list(a[:n]), a[n:]
        if rest:
            k["out"] = rest[0]
        out = k.get("out")
        if isinstance(out, tuple):
            out = out[0]
            k["out"] = out
        sym_in = any(_contains_symbolic(x) for x in ins)
        root = uf in (rnp.sqrt, rnp.cbrt, rnp.exp, rnp.log)
        if not sym_in and not (out is not None and _contains_symbolic(out)):
            if root and not any(isinstance(x, rnp.ndarray) for x in ins) and isinstance(ins[0], (int, float)) and ins[0] > 0:
                return getattr(lift(ins[0]), uf.__name__)()
            r = uf(*ins, **k)
            return r
        # at least one operand becomes a SymArray so that our implementation runs
        scal = all(not isinstance(x, (rnp.ndarray, list, tuple)) for x in ins)
        conv = [obj0(x) if isinstance(x, (Node, SymBool)) else (_stack(x) if isinstance(x, (list, tuple)) else x) for x in ins]
        if not any(isinstance(x, SymArray) for x in conv):
            conv[0] = aswrap(rnp.asarray(conv[0], dtype=object)) if not isinstance(conv[0], SymArray) else conv[0]
        r = uf(*conv, **k)
        return r

    def __getattr__(self, name):
        f = getattr(self.uf, name)
        if not callable(f):
            return f

        def g(*a, **k):
            a = [(_stack(x) if isinstance(x, (list, tuple)) and _contains_symbolic(x) else x) for x in a]
            return aswrap(f(*a, **k))

        return g


def obj0(x):
    o = rnp.empty((), dtype=object)
    o[()] = x
    return o.view(SymArray)


def _wrap_ufunc(uf):
    return _Uf(uf)


# ------------------------------------------------------------------ linear algebra
def _mat_det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    s = lift(0)
    for j in range(n):
        mm = [r[:j] + r[j + 1:] for r in m[1:]]
        t = m[0][j] * _mat_det(mm)
        s = s + t if j % 2 == 0 else s - t
    return s


class LinalgShim(types.ModuleType):
    def __init__(self):
        super().__init__("numpy.linalg")

    def __getattr__(self, name):
        real = getattr(rnp.linalg, name)
        if isinstance(real, type):
            return real

        def f(*a, **k):
            if any(_contains_symbolic(x) for x in a):
                raise Unsupported(f"numpy.linalg.{name} on symbolic input")
            return real(*a, **k)

        return f

    def _each(self, a, f, outshape):
        a = base(NP.asarray(a))
        lead = a.shape[:-2]
        r = rnp.empty(lead + outshape, dtype=object)
        for i in rnp.ndindex(lead):
            m = [[lift(x) for x in row] for row in a[i]]
            r[i] = f(m)
        return aswrap(r) if r.ndim else r[()]

    def det(self, a):
        return self._each(a, _mat_det, ())

    def inv(self, a):
        n = rnp.shape(a)[-1]

        def one(m):
            d = _mat_det(m)
            out = rnp.empty((n, n), dtype=object)
            for i in range(n):
                for j in range(n):
                    mm = [r[:i] + r[i + 1:] for k, r in enumerate(m) if k != j]
                    c = _mat_det(mm) if n > 1 else lift(1)
                    out[i, j] = (c if (i + j) % 2 == 0 else -c) / d
            return out

        return self._each(a, one, (n, n))

    def solve(self, a, b):
        ai = self.inv(a)
        b = NP.asarray(b)
        if b.ndim == 1:
            return NP.einsum("...ij,j->...i", ai, b)
        return NP.matmul(ai, b)

    def norm(self, x, ord=None, axis=None, keepdims=False):
        if not _contains_symbolic(x):
            return rnp.linalg.norm(x, ord, axis, keepdims)
        x = NP.asarray(x)
        vec = (axis is None and x.ndim == 1) or isinstance(axis, int)
        if vec and ord == 1:
            return NP.sum(abs(x), axis=axis, keepdims=keepdims)
        if vec and ord in (rnp.inf, -rnp.inf):
            return (NP.max if ord > 0 else NP.min)(abs(x), axis=axis, keepdims=keepdims)
        if not (ord is None or (ord == 2 and vec) or (ord == "fro" and not vec)):
            raise Unsupported("norm order")
        return NP.sqrt(NP.sum(x * x, axis=axis, keepdims=keepdims))

    def eigh(self, a, UPLO="L"):
        if not _contains_symbolic(a) or all(isinstance(x, Node) and x.k == "c" for x in NP.asarray(a).flat) and not getattr(sym.get_ctx(), "frames", []):
            a = rnp.array([float(x.a) if isinstance(x, Node) else x for x in rnp.asarray(base(a)).flat], dtype=float).reshape(rnp.shape(a))
            w, v = rnp.linalg.eigh(a, UPLO)
            return _EighResult((obj(w), obj(v)))
        a = base(NP.asarray(a))
        lead = a.shape[:-2]
        n = a.shape[-1]
        if n != 3:
            raise Unsupported("eigh of a matrix that is not 3x3")
        w = rnp.empty(lead + (3,), dtype=object)
        v = rnp.empty(lead + (3, 3), dtype=object)
        for i in rnp.ndindex(lead):
            m = a[i]
            # only one triangle is read
            if UPLO == "L":
                full = [[lift(m[max(r, c), min_(r, c)]) for c in range(3)] for r in range(3)]
            else:
                full = [[lift(m[min_(r, c), max(r, c)]) for c in range(3)] for r in range(3)]
            wi, vi = eig_contract(full)
            for k in range(3):
                w[i + (k,)] = wi[k]
                for r in range(3):
                    v[i + (r, k)] = vi[r][k]
        w, v = aswrap(w), aswrap(v)
        return _EighResult((w, v))

    def eigvalsh(self, a, UPLO="L"):
        return self.eigh(a, UPLO)[0]

    def slogdet(self, a):
        if not _contains_symbolic(a):
            return rnp.linalg.slogdet(a)
        d = self.det(a)
        return NP.sign(d), NP.log(abs(d))

    def vector_norm(self, x, axis=None, keepdims=False, ord=2):
        x = NP.asarray(x)
        return self.norm(x.reshape(-1) if axis is None else x, ord, axis, keepdims)

    def matrix_norm(self, x, keepdims=False, ord="fro"):
        return self.norm(x, ord, (-2, -1), keepdims)

    def matrix_power(self, a, n):
        if not _contains_symbolic(a):
            return rnp.linalg.matrix_power(a, n)
        if n < 0:
            a, n = self.inv(a), -n
        r = NP.broadcast_to(NP.eye(a.shape[-1]), a.shape)
        for _ in range(n):
            r = NP.matmul(r, a)
        return r

    def multi_dot(self, arrays, out=None):
        r = arrays[0]
        for a in arrays[1:]:
            r = NP.dot(r, a)
        return _give(base(r), out)

    def pinv(self, a, *r, **k):
        return self.inv(a) if _contains_symbolic(a) else rnp.linalg.pinv(a, *r, **k)

    def trace(self, x, *, offset=0):
        return NP.trace(x, offset, -2, -1)

    def diagonal(self, x, *, offset=0):
        return NP.diagonal(x, offset, -2, -1)

    def matrix_transpose(self, x):
        return NP.swapaxes(x, -2, -1)

    def outer(self, a, b):
        return NP.outer(a, b)

    def cross(self, a, b, axis=-1):
        return NP.cross(a, b, axis=axis)

    def matmul(self, a, b):
        return NP.matmul(a, b)

    def tensordot(self, a, b, axes=2):
        return NP.tensordot(a, b, axes)

    def vecdot(self, a, b, axis=-1):
        return NP.sum(NP.multiply(a, b), axis=axis)

    def tensorsolve(self, a, b):
        return self.solve(a, b)

    def eig(self, a):
        raise Unsupported("eig")


class _EighResult(tuple):
    eigenvalues = property(lambda s: s[0])
    eigenvectors = property(lambda s: s[1])


def min_(a, b):
    return a if a < b else b


def eig_contract(m):
    """The documented contract of eigh: ascending eigenvalues w and an orthonormal frame.

    The scenario registers the frames (arbitrary rotations) its matrices were built from;
    the contract's answer for a matrix is the frame that provably diagonalises it."""
    ctx = sym.get_ctx()
    frames = getattr(ctx, "frames", [])
    for fr in frames:
        r = fr(m)
        if r is not None:
            return r
    raise Unsupported("eigh of a matrix that is not built from a registered frame")


NP = NumpyShim()


# ------------------------------------------------------------------ math
class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__("math")

    def __getattr__(self, name):
        real = getattr(_math, name)
        if not callable(real):
            return real

        def f(*a, **k):
            a = [x.reshape(-1)[0] if isinstance(x, rnp.ndarray) and dt(x) == object and x.size == 1 and x.ndim == 0 else x for x in a]
            if name in ("fsum", "prod", "sumprod"):
                a = [list(x) for x in a]
                if any(_contains_symbolic(x) for x in a):
                    from functools import reduce
                    if name == "sumprod":
                        return reduce(operator.add, (x * y for x, y in zip(*a)), lift(0))
                    return reduce(operator.add if name == "fsum" else operator.mul, a[0], lift(k.get("start", 1) if name == "prod" else 0))
            if any(isinstance(x, Node) for x in a):
                if name in ("sqrt", "exp", "log", "cbrt", "expm1", "log1p") and len(a) == 1:
                    return getattr(a[0], name)()
                if name == "pow":
                    return a[0] ** a[1]
                if name == "fabs":
                    return abs(a[0])
                if name == "isclose":
                    x, y = lift(a[0]), lift(a[1])
                    d, rel, ab = abs(x - y), lift(k.get("rel_tol", 1e-9)), lift(k.get("abs_tol", 0.0))
                    return bool(bor([d <= rel * abs(x), d <= rel * abs(y), d <= ab]))
                if name in ("hypot", "dist"):
                    return NP.sqrt(sum(x * x for x in a)) if name == "hypot" else NP.linalg.norm(NP.asarray(a[0]) - NP.asarray(a[1]))
                if name in ("isfinite",):
                    return a[0].k != "nan"
                if name in ("isinf",):
                    return False
                if name == "isnan":
                    return a[0].k == "nan"
                raise Unsupported("math." + name)
            if name == "sqrt" and len(a) == 1 and isinstance(a[0], (int, float)) and a[0] > 0:
                return lift(a[0]).sqrt()
            return real(*a, **k)

        return f


# ------------------------------------------------------------------ environment stubs
class Permissive(types.ModuleType):
    """A library whose effects are not part of any property (plotting)."""

    def __init__(self, name="stub"):
        super().__init__(name)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Anything(name)


class Anything:
    calls = []

    def __init__(self, name="x"):
        self._n = name

    def __call__(self, *a, **k):
        Anything.calls.append((self._n, a, k))
        if self._n == "subplots":
            return Anything("fig"), Anything("ax")
        return Anything(self._n + "()")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Anything(name)

    def __iter__(self):
        return iter(())


class SyncPool:
    """A thread pool run synchronously; the number of workers is the scenario's."""
    nproc = 4

    def __init__(self, *a, **k):
        pass

    @property
    def _processes(self):
        return SyncPool.nproc

    def apply_async(self, f, args=(), kwds={}):
        r = f(*args, **kwds)

        class R:
            def get(self, *a):
                return r

        return R()


SINGLE = [False]     # a result left torch in single precision


class Drawing:
    """a pyplot function, also when it is imported by name"""
    hooks = {}

    def __init__(self, name):
        self.name = name

    def __call__(self, *a, **k):
        return Drawing.hooks.get(self.name, Anything(self.name))(*a, **k)


class CurveFit:
    """scipy.optimize.curve_fit: documented contract only.  It evaluates the model at
    points of its own choice and returns some parameters and some covariance."""
    hook = None

    def __call__(self, f, xdata, ydata, p0=None, *a, **k):
        return CurveFit.hook(f, xdata, ydata, p0, *a, **k)

    __name__ = "curve_fit"
    __doc__ = ""


# ------------------------------------------------------------------ loader
class World:
    """One execution of the package's source over the stand-ins."""

    PKG = "hyperelastic"

    def __init__(self, repo=None):
        self.src = os.path.join(repo or REPO, "src")
        self.mods = {}
        self.files = []
        cf = CurveFit()
        so = types.ModuleType("scipy.optimize")
        so.curve_fit = cf
        sp = types.ModuleType("scipy")
        sp.optimize = so
        plt = Permissive("matplotlib.pyplot")
        plt.subplots, plt.figure = Drawing("subplots"), Drawing("figure")
        mpl = Permissive("matplotlib")
        mpl.pyplot = plt
        mpp = types.ModuleType("multiprocessing.pool")
        mpp.ThreadPool = SyncPool
        mp = types.ModuleType("multiprocessing")
        mp.pool = mpp
        self.stubs = {
            "numpy": NP, "numpy.linalg": NP.linalg, "math": MathShim(),
            "scipy": sp, "scipy.optimize": so,
            "matplotlib": mpl, "matplotlib.pyplot": plt,
            "multiprocessing.pool": mpp, "multiprocessing": mp,
        }

    def torch(self):
        from . import torchstub
        t = torchstub.make()
        self.stubs["torch"] = t
        for k, v in list(vars(t).items()):
            if isinstance(v, types.ModuleType):
                self.stubs["torch." + k] = v
        return t

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            parts = pkg.split(".")
            parts = parts[: len(parts) - (level - 1)]
            full = ".".join(parts) + ("." + name if name else "")
            m = self.load(full)
            if not fromlist:
                return m
            for n in fromlist:
                if n != "*" and not hasattr(m, n):
                    try:
                        self.load(full + "." + n)
                    except ModuleNotFoundError:
                        pass
            return m
        top = name.split(".")[0]
        if top == self.PKG or name in self.mods:
            m = self.load(name)
            if fromlist:
                for n in fromlist:
                    if n != "*" and not hasattr(m, n):
                        try:
                            self.load(name + "." + n)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.load(top)
        if top == "torch" and "torch" not in self.stubs:
            self.torch()
        if name in self.stubs:
            if fromlist or "." not in name:
                return self.stubs[name]
            return self.stubs[top]
        if top == "einsumt":
            return self.load_einsumt()
        if top == "numpy" and name.split(".")[1][0] == "_" and level == 0:
            # numpy's C code imports its own helpers with the caller's import
            return builtins.__import__(name, globals, locals, fromlist, level)
        if name == "numpy.typing":
            return builtins.__import__(name, globals, locals, fromlist, level)
        if top in ("scipy", "felupe", "numpy"):
            raise Unsupported(f"import of {name}")
        return builtins.__import__(name, globals, locals, fromlist, level)

    def _exec(self, name, path, package):
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if package else name.rpartition(".")[0]
        if package:
            m.__path__ = [os.path.dirname(path)]
        b = dict(vars(builtins))
        b["__import__"] = self._import
        b["float"] = Float
        m.__dict__["__builtins__"] = b
        self.mods[name] = m
        with open(path, encoding="utf-8") as fh:
            src = fh.read()
        self.files.append(path)
        exec(compile(src, path, "exec"), m.__dict__)
        return m

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        parent, _, last = name.rpartition(".")
        if parent:
            self.load(parent)
        if name in self.mods:
            return self.mods[name]
        p = os.path.join(self.src, *name.split("."))
        if os.path.isdir(p):
            m = self._exec(name, os.path.join(p, "__init__.py"), True)
        elif os.path.exists(p + ".py"):
            m = self._exec(name, p + ".py", False)
        else:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        if parent:
            setattr(self.mods[parent], last, m)
        return m

    def load_einsumt(self):
        if "einsumt" in self.mods:
            return self.mods["einsumt"]
        import glob
        c = sorted(glob.glob("/opt/venv/lib/python3*/site-packages/einsumt.py"))
        if not c:
            raise Unsupported("einsumt source not found")
        return self._exec("einsumt", c[0], False)
