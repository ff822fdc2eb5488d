#!/opt/veriftools/pyvenv/bin/python
"""The stand-in numpy against numpy itself, expression by expression (used by no check)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as rnp
from vf import sym, shim, engine
from vf.base import *  # noqa
from vf.solve import evaluate

EXPR = """
np.abs(A); np.absolute(A); np.fabs(A); np.sign(A); np.square(A); np.sqrt(P); np.cbrt(P); np.power(P, 2); np.power(P, 0.5); P**1.5; P**-2; np.float_power(P, 3)
np.reciprocal(P); np.negative(A); np.positive(A); np.exp(np.log(P)); np.log(P**2); np.log10(P); np.log2(P); np.log1p(P); np.expm1(A); np.exp2(A)
np.add(A, A); np.subtract(A, 1); np.multiply(A, 2); np.divide(A, P); np.true_divide(A, P); np.floor_divide(P, 10); np.mod(P, 10); np.hypot(P, P)
np.maximum(A, 0); np.minimum(A, P); np.fmax(A, 0); np.fmin(A, 0); np.clip(A, -1, 1); np.heaviside(A, 0.5); np.copysign(P, A); np.deg2rad(A)
np.sum(A); np.sum(A, axis=0); np.sum(A, axis=(0, 1)); np.sum(A[:3], 0, keepdims=True); A.sum(-1); np.prod(P, axis=0); np.mean(A); np.mean(A, axis=1); np.average(A, axis=0); np.average(A, axis=0, weights=[1,2,3,4,5,6])
np.var(A); np.std(A); np.std(A, axis=0, ddof=1); np.median(C); np.ptp(C); np.max(A); np.amax(A, axis=0); np.min(A); np.argmax(C); np.argmin(A, axis=0); np.argsort(C); np.sort(C); np.sort(A, axis=0); C[::-1]; np.flip(C); np.flip(A, 0)
np.nansum(A, axis=0); np.nanmean(A); np.nanmax(A); np.cumsum(C); np.cumprod(C); np.cumsum(A, axis=0); np.diff(C); np.ediff1d(C); np.gradient(C); np.trapezoid(C); np.convolve(C, C)
np.concatenate([A, A]); np.concatenate([A, A], axis=1); np.concatenate((C, [1.0])); np.stack([A, A]); np.stack([A, A], axis=-1); np.vstack([C, C]); np.hstack([C, C]); np.dstack([C, C]); np.column_stack([C, C]); np.block([[B[..., 0], B[..., 1]]]); np.append(C, 1.0); np.append(C, C); np.insert(C, 1, 0.0); np.delete(C, 1); np.r_[C, C]; np.c_[C, C]; np.array([C, C]); np.array([C[0], 1.0, s]); np.array([[s, 0], [0, s]]); np.asarray([s, s]); np.asarray(A, dtype=float); np.array(A, copy=True, dtype=np.float64); np.ascontiguousarray(A); np.atleast_1d(s); np.atleast_2d(C); np.atleast_3d(C); np.atleast_1d(A)
np.reshape(A, (3, 4)); A.reshape(-1); A.ravel(); np.ravel(A); A.flatten(); A.T; np.transpose(A); np.swapaxes(B, 0, 1); np.moveaxis(B, 0, -1); np.rollaxis(B, 2); np.roll(C, 1); np.roll(A, 1, axis=0); np.expand_dims(A, 0); np.squeeze(A[:1]); np.broadcast_to(C, (2, 3)); np.broadcast_arrays(C, B[..., 0])[0]; np.tile(C, 2); np.tile(C, (2, 1)); np.repeat(C, 2); np.repeat(A, 2, axis=1); A[..., None]; A[..., np.newaxis]; np.resize(C, (2, 3)); np.pad(C, 1); np.rot90(B[..., 0]); np.fliplr(B[..., 0])
np.split(A, 2)[0]; np.array_split(A, 4)[0]; np.split(C, 3)[1]; np.take(A, [0, 2], axis=0); A.take([0, 1], axis=0); np.take_along_axis(A, np.argsort(A, axis=0), axis=0); np.compress([True, False, True], C); np.choose([0, 1, 0], [C, -C]); np.select([C > 0, C <= 0], [C, -C]); np.extract(C > 0, C); np.where(C > 0, C, 0); np.where(A > 0, A, -A); np.piecewise(C, [C > 0, C <= 0], [lambda x: x, lambda x: -x]); np.nonzero(C > 0)[0]; np.flatnonzero(C > 0); np.argwhere(C > 0); C[C > 0]; C[np.array([2, 0, 1])]; A[[0, 1, 2]]; A[np.ix_([0, 1], [1])]; B[[0, 1, 2], [0, 1, 2]]; np.searchsorted([0.0, 1.0], C); np.unique(C)
np.diag(C); np.diag(B[..., 0]); np.diagonal(B); np.diagflat(C); np.trace(B); B.trace(); B.diagonal(); np.tril(B[..., 0]); np.triu(B[..., 0], 1); B[..., 0][np.tril_indices(3)]; B[np.triu_indices(3, 1)]; np.eye(3) * s; np.identity(3) * s; np.outer(C, C); np.inner(C, C); np.dot(C, C); C.dot(C); np.vdot(C, C); C @ C; B[..., 0] @ C; B[..., 0] @ B[..., 1]; np.matmul(B.T, B.T); np.cross(C, [1, 2, 3]); np.kron(C, C); np.tensordot(B, C, axes=(0, 0)); np.tensordot(C, C, axes=0); np.einsum("i,i", C, C); np.einsum("ij...,kj...->ik...", B, B); np.einsum("ii...->...", B); np.einsum("ii...->i...", B); np.einsum("ij...,kj...->ik...", B, B, optimize=True); np.einsum(B, [0, 1, 2], [1, 0, 2]); np.multiply.outer(C, C); np.add.outer(C, C); np.add.reduce(A); np.add.reduce(A, axis=1); np.multiply.reduce(P, axis=0); np.maximum.reduce(A); np.add.accumulate(C); np.logaddexp(A, 0)
np.linalg.det(B.T); np.linalg.inv(B.T); np.linalg.norm(C); np.linalg.norm(A, axis=0); np.linalg.norm(C, 2); np.linalg.norm(C, 1); np.linalg.norm(C, np.inf); np.linalg.norm(B[..., 0]); np.linalg.solve(B[..., 0], C); np.linalg.matrix_power(B[..., 0], 2); np.linalg.multi_dot([B[..., 0], B[..., 1], B[..., 0]]); np.linalg.vector_norm(C); np.linalg.trace(B.T); np.linalg.diagonal(B.T); np.linalg.matrix_transpose(B); np.linalg.outer(C, C); np.linalg.pinv(B[..., 0]); np.linalg.slogdet(B.T)[1]; np.linalg.cond(B[..., 0]); np.linalg.matrix_norm(B[..., 0]); np.linalg.tensorsolve(B[..., 0], C); np.linalg.vecdot(C, C); np.vecdot(C, C); np.matvec(B[..., 0], C)
np.isnan(A).any(); np.isfinite(A).all(); np.isinf(A).any(); np.isclose(A, A); np.allclose(A, A); np.array_equal(A, A); np.any(A > 0); np.all(P > 0); (A > 0).sum(); np.count_nonzero(A > 0); np.logical_and(A > 0, A < 1); np.logical_or(A > 0, A < 1); np.logical_not(A > 0); ~(A > 0); (A > 0) & (A < 1); (A > 0) | (A < 1); np.logical_xor(A > 0, A < 1); (A > 0) ^ (A < 1); np.equal(A, A); np.not_equal(A, 0); np.greater(A, 0); np.less_equal(A, 0); np.isin(C, [0.0]); np.nan_to_num(A); np.real(A); np.iscomplexobj(A); np.isrealobj(A); np.isreal(A); np.ndim(A); np.shape(A); np.size(A); np.isscalar(s); np.result_type(A, 1.0) == float; np.issubdtype(A.dtype, np.floating); A.dtype == float; np.can_cast(A.dtype, float); np.promote_types(A.dtype, float) == float; np.iterable(A); np.may_share_memory(A, A); np.shares_memory(A, A[:1]); A.ndim; A.size; A.nbytes; A.itemsize; A.flags.writeable; A.strides is not None
np.apply_along_axis(np.sum, 0, A); np.vectorize(lambda x: 2 * x)(C); np.frompyfunc(lambda x: 2 * x, 1, 1)(C); np.fromiter((x for x in C), dtype=float); np.fromfunction(lambda i, j: i + j, (2, 2)) * s; np.arange(3) * s; np.linspace(0, 1, 3) * s; np.linspace(0, 1, 3) + C; np.ones(3) * C; np.full(3, s); np.full((2, 3), C); np.full_like(A, 2); np.full_like(C, s); np.zeros_like(A); np.zeros(3) + C; np.zeros_like(A, dtype=float); np.empty_like(A).shape; np.zeros(A.shape, dtype=A.dtype) + A; np.interp(0.5, [0, 1], [0.0, 1.0]); np.polyval([1, 2, 3], C); np.polyval(C, 2.0); np.poly1d([1.0, 2.0])(C); np.meshgrid(C, C)[0]; np.ndarray.sum(A); float(A.size); max(C); min(C); sum(C); sorted(C); abs(C); list(C); tuple(C); [x * 2 for x in C]; round(1.2); divmod(5, 2)[0]; pow(P, 2); A.copy(); A.astype(float); A.astype(np.float64, copy=False); A.item(0); C[0].item(); s + 0; s * C; C * s; s / P; -s; +s; abs(s); s**2; 2.0**s; np.sqrt(s * s); s > 0; bool(s > 0); s == s; np.float64(2.0) * s; np.float64(2) * A; np.int64(2) * s; A * np.arange(2); A / 2; 2 / P; A // 1 * 0; A[0, 0]; A[:, 0].tolist(); A.squeeze(); A.max(); A.min(axis=0); A.mean(); A.std(); A.prod(); A.cumsum(axis=0); A.clip(0, 1); A.argsort(axis=0); A.all(); A.any(); A.swapaxes(0, 1); A.transpose(1, 0); A.repeat(2); A.round(2); A.view(); A.real; A.conj(); np.ndarray.reshape(A, -1); A.T @ A; A.T.dot(A); C.T; np.asarray(C).T; np.lib.stride_tricks.sliding_window_view(C, 2); np.unravel_index(3, (2, 2)); np.ravel_multi_index((1, 1), (2, 2)); np.put_along_axis; np.nditer; np.ndindex(2, 2); [C[i] for i in np.ndindex(3)]; [x for i, x in np.ndenumerate(C)]; np.empty((0, 3)).size; np.concatenate([np.zeros((0, 2)), A]); np.sinh(A); np.cosh(A); np.tanh(A); np.arctan(A); np.sin(A); np.cos(A); np.arccos(A / 10)
"""
STMT = """
X = A.copy(); X += A; R = X
X = A.copy(); X *= 2; X -= 1; X /= 3; R = X
X = A.copy(); X **= 2; R = X
X = A.copy(); X[0] = 1; X[1:] += A[:-1]; R = X
X = A.copy(); X[A > 0] = 0; R = X
X = A.copy(); X[..., 0] *= 2; R = X
X = A.copy(); np.add(X, A, out=X); R = X
X = A.copy(); np.multiply(X, 2, out=X); R = X
X = np.zeros_like(A); np.divide(A, P, out=X, where=A > 0); R = X
X = np.zeros(3); X[:] = C; R = X
X = np.zeros((3, 3)); X[0, 1] = s; X[np.diag_indices(3)] = C; R = X
X = np.zeros((3, 3)); np.fill_diagonal(X, s); R = X
X = np.zeros((3, 3)); np.fill_diagonal(X, C); R = X
X = np.zeros((3, 3)); X[np.tril_indices(3)] = 1.0; X *= s; R = X
X = A.copy(); np.copyto(X, P); R = X
X = A.copy(); np.copyto(X, P, where=A > 0); R = X
X = A.copy(); np.putmask(X, A > 0, 0); R = X
X = A.copy(); np.put(X, [0, 1], [1.0, 2.0]); R = X
X = A.copy(); np.place(X, A > 0, [0.0]); R = X
X = A.copy(); X.fill(2); R = X
X = A.copy(); X.sort(axis=0); R = X
X = A.copy(); np.add.at(X, [0, 0], 1.0); R = X
X = np.empty(A.shape); X[...] = A; R = X
X = np.empty(A.shape, dtype=A.dtype); X[...] = A; R = X
X = np.empty_like(A); np.copyto(X, A); R = X
X = np.empty((2,) + A.shape); np.stack([A, A], out=X); R = X
X = np.empty((12, 2)); np.concatenate([A, A], out=X); R = X
X = np.empty((3, 3, 2)); np.einsum("ij...,jk...->ik...", B, B, out=X); R = X
X = np.empty((3, 3)); np.matmul(B[..., 0], B[..., 1], out=X); R = X
X = np.empty(2); np.sum(A, axis=0, out=X); R = X
X = np.empty_like(A); np.sqrt(P, out=X); R = X
X = np.empty_like(A); np.multiply(A, P, X); R = X
X = A.copy(); X.flat[0] = 1; R = X
X = A.copy(); X.flat[:] = 1; R = X
X = A.copy(); X.shape = (3, 4); R = X
with np.errstate(all="ignore"): R = A / P
with np.errstate(divide="ignore", invalid="ignore"): R = np.where(P > 0, A / P, 0)
it = iter(C); R = [next(it), next(it)]
a, b, c = C; R = a + b + c
a, *b = C; R = b[0]
X = A[0]; X = X + 1; R = A
X = A.copy(); Y = X[0]; Y += 1; R = X
X = A.copy(); Y = X[[0]]; Y += 1; R = X
X = A.copy(); Y = X.reshape(3, 4); Y += 1; R = X
X = A.copy(); Y = X.T; Y[0, 0] = 5; R = X
X = A.copy(); Y = X.ravel(); Y[0] = 5; R = X
X = A.copy(); Y = X.flatten(); Y[0] = 5; R = X
X = np.broadcast_to(C[:, None], (3, 2)).copy(); X += 1; R = X
X = [A, P]; R = np.array(X)
X = np.array([None, None], dtype=object); X[0] = s; R = X[0]
R = np.array([[C[0], 0, 0], [0, C[1], 0], [0, 0, C[2]]])
R = np.array([A[0], A[1], np.zeros_like(A[0])])
R = np.array([A[0], A[1], np.zeros(2)])
R = sum([C, C], np.zeros(3))
import functools, operator; R = functools.reduce(operator.add, [C, C])
import math; R = math.prod([2, 3]) * s
import math; R = math.sqrt(4) * s
import math; R = math.sqrt(P[0, 0])
import math; R = math.pow(P[0, 0], 2)
import math; R = math.isclose(P[0, 0], 1.0)
import math; R = math.fsum([P[0, 0], 1.0])
import itertools; R = [C[i] * C[j] for i, j in itertools.combinations(range(3), 2)]
from copy import deepcopy, copy; X = deepcopy(A); X += 1; R = [X, A, copy(A)]
R = np.sqrt(np.float64(2.0)) * s
R = isinstance(A, np.ndarray)
R = isinstance(A[0, 0], float)
R = isinstance(s, (int, float))
R = isinstance(s, np.floating)
R = np.asarray(s).ndim
R = hasattr(A, "shape")
R = "%s" % A.shape[0]
R = len(A)
R = A.shape == (6, 2)
R = C in [C]
R = {0: C}[0]
R = float(np.float64(2)) * C
R = C.astype(float, copy=True)
R = np.zeros(3, dtype=int)
R = np.arange(3)[::-1]
R = C[np.arange(3)[::-1]]
X = np.array([0, 1, 2]); R = C[X % 2]
R = np.array(C, ndmin=2)
R = np.array(list(C))
R = np.array(tuple(map(lambda x: x * 2, C)))
R = np.array([*C, s])
R = np.stack((C, C), 1)
R = np.asarray([C, C]).sum(0)
R = np.linalg.eigvalsh(np.eye(3))
R = np.triu(np.ones((3, 3)))
R = np.einsum("a,ai->ai", C, B[..., 0])
R = np.einsum("...,i->i...", s, C)
R = np.einsum("i...,i->...", A[:3], C)
R = np.einsum("i,ij->j", np.array([1.0, 2.0, 3.0]), B[..., 0])
R = np.apply_over_axes(np.sum, B, [0, 1])
R = np.squeeze(np.sum(B, axis=0, keepdims=True), axis=0)
R = np.sum([A, A], axis=0)
R = np.sum([s, s])
R = np.mean([s, 2 * s])
R = np.prod([s, s])
R = np.max([s, 2 * s])
R = np.dot([s, s], [1.0, 2.0])
R = np.linalg.norm([s, s])
R = np.concatenate([[s], C])
R = np.add(*[A, A])
R = np.subtract.reduce([A, A])
R = np.sum(x for x in [1.0, 2.0])
R = np.multiply(np.eye(3), s)
R = np.eye(3)[:, :, None] * A[0]
R = np.where([True, False, True], C, 0)
R = np.where(np.eye(3, dtype=bool), s, 0)
R = C * np.eye(3, dtype=int)
R = C * [1, 2, 3]
R = [1, 2, 3] * C
R = C - (1, 2, 3)
R = 1 - C
R = C**2 + 2 * C - 1 / (C**2 + 1)
R = np.e * C + np.pi
R = np.inf > C[0]
R = C < np.inf
R = C[0] != C[0]
R = np.nan != C[0]
R = np.square(C, where=C > 0, out=np.zeros_like(C))
R = np.sum(C, where=C > 0)
R = np.sum(C, initial=1.0)
R = np.max(C, initial=0.0)
R = np.mean(C, where=C > -100)
R = np.any(C > 0, axis=0)
R = np.any(A > 0, axis=0)
R = np.finfo(float).eps * C
R = np.finfo(np.float64).eps * C
R = np.finfo(A.dtype).eps * C
R = np.zeros(3, float) + C
R = np.dtype(float) == A.dtype
R = np.array([1, 2, 3], float) * C
R = np.arange(3, dtype=float) * C
R = np.ones(3, dtype=np.float64) * C
R = np.ones(3, dtype="float64") * C
R = np.ones(3, dtype="d") * C
R = np.linspace(0, 1, 3, dtype=float) * C
R = C.astype("float64")
R = C.astype(C.dtype)
R = np.issubdtype(A.dtype, float)
R = np.issubdtype(A.dtype, np.number)
R = A.dtype == np.float64
R = A.dtype in (float, np.float64)
R = A.dtype.kind
R = np.asarray(C, dtype=np.result_type(C, float))
R = np.asarray(C, dtype=np.result_type(*[C, C, float]))
R = np.empty_like(C, dtype=np.result_type(C, C)) * 0 == 0
R = np.zeros(np.broadcast_shapes(C.shape, (3,))) + C
R = np.zeros((3, *A.shape[1:]), dtype=A.dtype) + A[:3]
R = isinstance(3, float)
R = isinstance(3.0, float)
R = isinstance(np.float64(3.0), float)
R = isinstance(A, (list, tuple, np.ndarray))
R = float(3)
R = float("1.5") * C
R = float("nan") == 1
R = float("inf") > C
R = [float(x) for x in C]
R = list(map(float, C))
R = float(C.sum())
R = float(np.sum(C)) + int(2.0)
R = np.float64(C.sum())
R = np.double(C.sum())
R = np.isclose(C, 0.0, atol=1e-12).any()
R = np.abs(C).max() < 1e-12
R = np.maximum(np.abs(C), np.finfo(float).tiny)
R = np.where(np.abs(C) < np.finfo(float).eps, 1.0, C)
R = np.errstate
R = np.ma
R = np.all(A > 0, axis=1, keepdims=True)
"""


def val(v, env, memo):
    if isinstance(v, sym.Node):
        return evaluate(v, env, memo)
    if isinstance(v, sym.SymBool):
        return bool(v)
    if isinstance(v, rnp.ndarray):
        b = shim.base(v)
        if b.dtype == object:
            r = rnp.empty(b.shape, dtype=object)
            for i in rnp.ndindex(b.shape):
                r[i] = val(b[i], env, memo)
            return rnp.array(r.tolist()).reshape(b.shape)
        return b
    if isinstance(v, (list, tuple)):
        return [val(x, env, memo) for x in v]
    if isinstance(v, dict):
        return {k: val(x, env, memo) for k, x in v.items()}
    return v


class T:
    id = "t"


def same(a, b):
    if isinstance(b, (list, tuple)) and not isinstance(b, rnp.ndarray):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if not isinstance(b, (rnp.ndarray, float, int, rnp.generic)):
        return True
    return rnp.shape(a) == rnp.shape(b) and bool(rnp.allclose(rnp.asarray(a, dtype=float), rnp.asarray(b, dtype=float), rtol=1e-9, atol=1e-12))


import builtins
BI = dict(vars(builtins), float=shim.Float)
MATH = shim.MathShim()
BI['__import__'] = lambda n, *a: MATH if n == 'math' else builtins.__import__(n, *a)


def main():
    bad = 0
    codes = [("R = " + e.strip(), e.strip()) for e in EXPR.replace("\n", ";").split(";") if e.strip()] + [(x, x) for x in STMT.strip().splitlines()]
    only = sys.argv[1:]
    for code, name in codes:
        if only and not any(o in name for o in only):
            continue
        S = engine.Session(T, 1, {}, (), True)
        I = {"A": S.arr("A", (6, 2)), "P": S.arr("P", (6, 2), 0.5, 2.0, pos=True), "B": S.arr("B", (3, 3, 2)), "C": S.arr("C", (3,)), "s": S.var("s", 0.3, 2.0)}
        env = {k: float(v) for k, v in S.asg.items()}
        memo = {}
        N = {k: val(v, env, memo) for k, v in I.items()}
        N["s"] = rnp.float64(N["s"])
        try:
            with rnp.errstate(all="ignore"):
                g = dict(N, np=rnp)
                exec(code, g)
            ref = g["R"]
        except Exception as e:
            ref = e
        try:
            g = dict(I, np=shim.NP, __builtins__=BI)
            exec(code, g)
            got = val(g["R"], env, {})
            if isinstance(ref, Exception):
                r = f"numpy raises {type(ref).__name__}, stand-in does not"
            else:
                r = "" if same(got, ref) else f"DIFFERENT {got} {ref}"[:200].replace("\n", " ")
        except BaseException as e:
            r = "" if isinstance(ref, Exception) else f"{type(e).__name__}: {str(e)[:110]}"
        if r:
            bad += 1
            print(f"{name[:70]:70s} {r}")
    print(len(codes), "expressions", bad, "differ")


main()
