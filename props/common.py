"""Shared inputs, generic materials and textbook oracles."""
from fractions import Fraction

import numpy as _np

from vf.base import FULL, VI, VJ, VW, Scenario  # noqa: F401
from vf import sym

W = VW


def F1(a, b=1):
    return Fraction(a, b)


# ------------------------------------------------------------------ generic models
class InvModel:
    """Any twice differentiable energy of the invariants, at a point: the first and
    second derivatives are arbitrary.  mask: which invariants it uses."""

    def __init__(self, a, B, mask=(1, 1, 1), hess=None, state=False):
        self.a, self.B, self.mask, self.state = a, B, mask, state
        self.hess = hess
        self.calls = []

    def gradient(self, I1, I2, I3, statevars):
        I = [I1, I2, I3]
        out = []
        for i in range(3):
            if not self.mask[i]:
                out.append(None)
                continue
            w = self.a[i]
            for j in range(3):
                if self.mask[j]:
                    w = w + self.B[i][j] * I[j] if self.hess is None or tuple(sorted((i, j))) in self.hess else w
            out.append(w)
        return out[0], out[1], out[2], statevars

    def hessian(self, I1, I2, I3, statevars):
        out = []
        for i, j in ((0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)):
            if self.mask[i] and self.mask[j] and (self.hess is None or (i, j) in self.hess):
                out.append(self.B[i][j])
            else:
                out.append(None)
        return out


class TLModel:
    """Any Total-Lagrange material at a point: dpsi/dC = g + H:C with H major symmetric.
    full: return arrays of the deformation's own trailing shape (otherwise of size one, or
    of the shape of g and H if they differ between the points)."""

    def __init__(self, np, g, H, nstatevars=0, full=False):
        self.np, self.g, self.H, self.full = np, g, H, full
        self.x = [np.eye(3), np.zeros(nstatevars)]

    def gradient(self, C, statevars):
        np = self.np
        one = (1,) * (C.ndim - 1)
        g = self.g if self.g.ndim > 1 else self.g.reshape((6,) + one)
        if self.H is not None:
            w = np.array(W).reshape((6,) + one)
            g = g + np.einsum("ij,j...->i..." if self.H.ndim == 2 else "ij...,j...->i...", self.H, w * C)
        elif self.full:
            g = g + np.zeros(C.shape)
        return g, statevars

    def hessian(self, C, statevars):
        np = self.np
        one = (1,) * (C.ndim - 1)
        h = np.zeros((6, 6) + one) if self.H is None else self.H if self.H.ndim > 2 else self.H.reshape((6, 6) + one)
        if self.full:
            h = h + np.zeros((6, 6) + tuple(C.shape[1:]))
        return h


def sym3(S, name, n=3, lo=-1.2, hi=1.2, scale=0):
    """symmetric n x n matrix of free coefficients (list of lists)"""
    out = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n):
            out[i][j] = out[j][i] = S.var(f"{name}{i}{j}", lo, hi, scale=scale)
    return out


def symarr(S, name, n=6, lo=-1.2, hi=1.2, scale=0):
    m = sym3(S, name, n, lo, hi, scale)
    a = _np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            a[i, j] = m[i][j]
    return S.like(a)


def B_of(I, prefix="B", idx=None):
    """B matrix (list of lists) from the six upper-triangle inputs (of the point idx)."""
    g = lambda i, j: pt(I[f"{prefix}{min(i, j)}{max(i, j)}"], idx)  # noqa: E731
    return [[g(i, j) for j in range(3)] for i in range(3)]


def pt(x, idx):
    """a coefficient at a point: the same for all points, or one entry per point"""
    return x if idx is None or isinstance(x, sym.Node) else sym.lift(at(_np.asarray(x, dtype=object), (), idx))


def coeff(S, name, trax, vary=None):
    """a coefficient of a material: one for all points, or different along the axes ``vary``"""
    if vary is None:
        return S.var(name)
    return S.arr(name, tuple(n if k in vary else 1 for k, n in enumerate(trax)))


def inv_coeffs(S, mask, trax=(), vary=None, hess=None):
    """coefficients of an energy of the invariants"""
    I = {}
    for i in range(3):
        I[f"a{i}"] = coeff(S, f"a{i}", trax, vary)
        for j in range(i, 3):
            used = mask[i] and mask[j] and (hess is None or (i, j) in hess)
            I[f"B{i}{j}"] = coeff(S, f"B{i}{j}", trax, vary) if used else sym.const(0)
    return I


# ------------------------------------------------------------------ tensors
def det6(c):
    return c[0] * c[1] * c[2] + 2 * c[3] * c[4] * c[5] - c[4] ** 2 * c[0] - c[5] ** 2 * c[1] - c[3] ** 2 * c[2]


def cof6(c):
    return [c[1] * c[2] - c[4] * c[4], c[0] * c[2] - c[5] * c[5], c[0] * c[1] - c[3] * c[3],
            c[4] * c[5] - c[3] * c[2], c[3] * c[5] - c[0] * c[4], c[3] * c[4] - c[1] * c[5]]


def inv6(c, d=None):
    d = det6(c) if d is None else d
    return [x / d for x in cof6(c)]


def tr6(c):
    return c[0] + c[1] + c[2]


def dd6(a, b):
    return sum((W[i] * a[i] * b[i] for i in range(1, 6)), W[0] * a[0] * b[0])


def invariants6(c):
    """principal invariants straight from their definition"""
    I1 = c[0] + c[1] + c[2]
    I2 = c[0] * c[1] + c[1] * c[2] + c[0] * c[2] - c[3] * c[3] - c[4] * c[4] - c[5] * c[5]
    return I1, I2, det6(c)


def det3(F):
    return (F[0][0] * (F[1][1] * F[2][2] - F[1][2] * F[2][1])
            - F[0][1] * (F[1][0] * F[2][2] - F[1][2] * F[2][0])
            + F[0][2] * (F[1][0] * F[2][1] - F[1][1] * F[2][0]))


def spd(S, c):
    """assume the Voigt vector c is positive definite"""
    S.pos(c[0])
    S.pos(c[0] * c[1] - c[3] * c[3])
    return S.pos(det6(c))


def sym_C(S, name="C", trax=(), assume=True):
    """right Cauchy-Green tensor(s), arbitrary symmetric positive definite"""
    a = _np.empty((6,) + tuple(trax), dtype=object)
    for idx in _np.ndindex(*trax):
        suf = "".join(f"_{k}" for k in idx)
        for k in range(6):
            lo, hi = (0.65, 1.75) if k < 3 else (-0.35, 0.35)
            a[(k,) + idx] = S.var(f"{name}{k}{suf}", lo, hi, pos=k < 3)
        if assume:
            spd(S, [a[(k,) + idx] for k in range(6)])
    return S.like(a)


def sym_F(S, name="F", trax=(), cut=True):
    """deformation gradient(s), arbitrary with positive determinant.  Registers C = F^T F
    and J = det F as known quantities."""
    a = _np.empty((3, 3) + tuple(trax), dtype=object)
    for idx in _np.ndindex(*trax):
        suf = "".join(f"_{k}" for k in idx)
        for i in range(3):
            for j in range(3):
                lo, hi = (0.75, 1.4) if i == j else (-0.3, 0.3)
                a[(i, j) + idx] = S.var(f"{name}{i}{j}{suf}", lo, hi)
        Fm = [[a[(i, j) + idx] for j in range(3)] for i in range(3)]
        if cut:
            register_F(S, Fm, f"c{name}{suf}")
        else:
            S.pos(det3(Fm))
    return S.like(a)


def register_F(S, Fm, cname):
    J = S.pos(det3(Fm))
    c = []
    for k in range(6):
        i, j = VI[k], VJ[k]
        d = sum((Fm[m][i] * Fm[m][j] for m in range(1, 3)), Fm[0][i] * Fm[0][j])
        c.append(sym.cut(f"{cname}{k}", d, pos=k < 3))
    I3 = det6(c)
    # det(F^T F) = (det F)^2 > 0
    S.ctx.known_pos.add(I3)
    S.ctx.known_nz.add(I3)
    sym.register(I3)
    sym.register(I3.sqrt(), J)
    if not hasattr(S, "cs"):
        S.cs = {}
    S.cs[cname] = c
    for t in inv6(c):
        sym.register(t)
    return c


def voigt_of(full):
    return [full[VI[k]][VJ[k]] for k in range(6)]


def full_of(v):
    return [[v[FULL[i][j]] for j in range(3)] for i in range(3)]


def col(a, idx=()):
    """list of entries of the leading axes at trailing index idx"""
    a = _np.asarray(a.view(_np.ndarray) if isinstance(a, _np.ndarray) else a)
    if a.ndim - len(idx) == 1:
        return [a[(k,) + idx] for k in range(a.shape[0])]
    return [[a[(k, l) + idx] for l in range(a.shape[1])] for k in range(a.shape[0])]


def at(a, lead, idx):
    """entry of an output at leading index, with broadcasting of size-1 trailing axes"""
    tail = a.shape[len(lead):]
    idx = idx[len(idx) - len(tail):] if tail else ()
    return a[tuple(lead) + tuple(0 if n == 1 else k for n, k in zip(tail, idx))]


def grid(*shape):
    return _np.ndindex(*shape)


def obj(shape, f):
    a = _np.empty(shape, dtype=object)
    for i in _np.ndindex(*shape):
        a[i] = f(*i)
    return a


# ------------------------------------------------------------------ frames and stretches
def cayley(q):
    """rotation from the Cayley parameters q (each rotation up to column signs has
    parameters in [-1, 1])"""
    q0, q1, q2 = q
    n = q0 * q0 + q1 * q1 + q2 * q2
    den = 1 + n
    qq = [q0, q1, q2]
    eps = {(0, 1): -q2, (0, 2): q1, (1, 2): -q0, (1, 0): q2, (2, 0): -q1, (2, 1): q0}
    R = [[None] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(3):
            x = 2 * qq[i] * qq[j] + (1 - n if i == j else 2 * eps[i, j])
            R[i][j] = x / den
    return R, den


def sym_frame(S, name="q", signs=(1, 1, 1), cut=True):
    """arbitrary orthonormal frame: N[i][a] is component i of vector a"""
    q = [S.var(f"{name}{k}", -0.9, 0.9) for k in range(3)]
    den = 1 + (q[0] * q[0] + q[1] * q[1] + q[2] * q[2])
    S.ctx.known_pos.add(den)
    S.ctx.known_nz.add(den)
    R, _ = cayley(q)
    N = [[R[i][a] * signs[a] for a in range(3)] for i in range(3)]
    if cut:
        N = [[sym.cut(f"{name}N{i}{a}", N[i][a], pos=False) for a in range(3)] for i in range(3)]
    return N


PATTERNS = {"distinct": (0, 1, 2), "low pair": (0, 0, 1), "high pair": (0, 1, 1), "all equal": (0, 0, 0)}
GAP = F1(1, 10 ** 6)


def sym_stretches(S, pattern="distinct", name="lam"):
    """principal stretches in ascending order with the given coincidences"""
    base = [(0.6, 0.9), (1.0, 1.3), (1.4, 1.8)]
    p = PATTERNS[pattern]
    v = [S.var(f"{name}{k}", *base[k], pos=True) for k in range(max(p) + 1)]
    for i, x in enumerate(v):
        for y in v[i + 1:]:
            S.assume(sym.cmp0("ge", y * y - x * x - GAP))
            S.ctx.known_pos.add(y - x)
            S.ctx.known_pos.add(y * y - x * x)
            S.ctx.known_nz.add(x - y)
            S.ctx.known_nz.add(x * x - y * y)
    return [v[k] for k in p]


def register_frame(S, lam, N, cname="cC"):
    """C = sum lam_a^2 N_a (x) N_a as known quantities; eigh of it (and of its multiples)
    returns that frame"""
    c = []
    for k in range(6):
        i, j = VI[k], VJ[k]
        if all(x is lam[0] for x in lam):
            d = lam[0] * lam[0] if i == j else sym.const(0)
            c.append(d)
            continue
        d = sum((lam[a] ** 2 * N[i][a] * N[j][a] for a in range(1, 3)), lam[0] ** 2 * N[i][0] * N[j][0])
        c.append(sym.cut(f"{cname}{k}", d, pos=k < 3))
    full = full_of(c)

    def frame(m):
        # m must be s * C with a common factor s > 0
        s = None
        if m[0][0] is full[0][0]:
            s = sym.const(1)
        else:
            s = sym.div(sym.lift(m[0][0]), full[0][0])
            if not sym.is_pos(s):
                return None
        for i in range(3):
            for j in range(3):
                x = sym.lift(m[i][j])
                if x is not full[i][j] and x is not sym.mul(s, full[i][j]):
                    return None
        return [sym.mul(s, x * x) for x in lam], N

    S.ctx.frames.append(frame)

    def unit(m):
        # a multiple of the identity: any frame
        x = sym.lift(m[0][0])
        for i in range(3):
            for j in range(3):
                y = sym.lift(m[i][j])
                if (i == j and y is not x) or (i != j and not (y.k == "c" and y.a == 0)):
                    return None
        return [x, x, x], N

    S.ctx.frames.append(unit)
    return c


def basis(N):
    """eigenbases M_a in Voigt storage"""
    return [[N[VI[k]][a] * N[VJ[k]][a] for k in range(6)] for a in range(3)]


def dk_tensors(lam, N, w, ww, pattern):
    """dpsi/dC and d2psi/dCdC of an isotropic energy with stretch derivatives w, ww
    (coaxiality and the Daleckii-Krein formula, with its limit for equal stretches)"""
    M = basis(N)
    t = [w[a] / (2 * lam[a]) for a in range(3)]       # dpsi/d(lam^2)
    G = [sum((t[a] * M[a][k] for a in range(1, 3)), t[0] * M[0][k]) for k in range(6)]
    tt = [[None] * 3 for _ in range(3)]                # d2psi/d(lam^2)d(lam^2)
    for a in range(3):
        for b in range(3):
            x = ww[a][b] / (4 * lam[a] * lam[b])
            if a == b:
                x = x - w[a] / (4 * lam[a] ** 3)
            tt[a][b] = x
    H = [[None] * 6 for _ in range(6)]
    for k in range(6):
        for m in range(6):
            h = sym.const(0)
            for a in range(3):
                for b in range(3):
                    h = h + tt[a][b] * M[a][k] * M[b][m]
            for a in range(3):
                for b in range(a + 1, 3):
                    if lam[a] is lam[b]:
                        th = tt[a][a] - tt[a][b]
                    else:
                        th = (t[b] - t[a]) / (lam[b] ** 2 - lam[a] ** 2)
                    # projector on the mixed term N_a N_b + N_b N_a
                    p = N[VI[k]][a] * N[VJ[k]][b] + N[VI[k]][b] * N[VJ[k]][a]
                    q = N[VI[m]][a] * N[VJ[m]][b] + N[VI[m]][b] * N[VJ[m]][a]
                    h = h + th * p * q / 2
            H[k][m] = h
    return G, H


class StretchModel:
    """Any isotropic stretch energy at a point: derivatives a + B lam.
    form: 'array' (6 rows), 'list' (list of 6), 'diag' (separable: mixed terms None),
    'linear' (first derivatives do not depend on the stretches, no second ones)"""

    def __init__(self, np, a, B, form="array"):
        self.np, self.a, self.B, self.form = np, a, B, form

    def gradient(self, stretches, statevars):
        out = []
        if self.form == "linear":
            return self.np.array(self.a), statevars
        for i in range(3):
            w = self.a[i] + 0 * stretches[i]
            for j in range(3):
                if i == j or self.form != "diag":
                    w = w + self.B[i][j] * stretches[j]
            out.append(w)
        return (self.np.array(out) if self.form == "array" else out), statevars

    def hessian(self, stretches, statevars):
        out = []
        for i, j in ((0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)):
            if i != j and self.form == "diag" or self.form == "linear":
                out.append(None)
            elif self.form == "array":
                out.append(self.B[i][j] + 0 * stretches[0])
            else:
                out.append(self.B[i][j])
        return self.np.array(out) if self.form == "array" else out


def stretch_coeffs(S, pattern, form="array", names=("a", "B")):
    """coefficients compatible with isotropy: equal stretches have equal derivatives"""
    p = PATTERNS[pattern]
    a, B = names
    I = {}
    n = max(p) + 1
    al = [S.var(f"{a}{k}") for k in range(n)]
    bl = {}
    for i in range(n):
        for j in range(i, n):
            bl[i, j] = S.var(f"{B}{i}{j}")
        if p.count(i) > 1:
            bl["x", i] = S.var(f"{B}x{i}")   # mixed derivative of two equal stretches
    for i in range(3):
        I[f"{a}{i}"] = al[p[i]]
        for j in range(i, 3):
            u, v = sorted((p[i], p[j]))
            key = ("x", u) if (i != j and u == v) else (u, v)
            I[f"{B}{i}{j}"] = bl[key]
            if i != j and form == "diag" or form == "linear":
                I[f"{B}{i}{j}"] = sym.const(0)
    return I


def stretch_coeffs_at(S, pattern, form, trax, vary):
    """the same, different along the axes ``vary`` of the batch"""
    shape = tuple(n if k in vary else 1 for k, n in enumerate(trax))
    parts = {idx: stretch_coeffs(S, pattern, form, ("a" + "_".join(map(str, idx)) + "x", "B" + "_".join(map(str, idx)) + "x")) for idx in grid(*shape)}
    I = {}
    for n in [f"a{i}" for i in range(3)] + [f"B{i}{j}" for i in range(3) for j in range(i, 3)]:
        v = _np.empty(shape, dtype=object)
        for idx, c in parts.items():
            v[idx] = c[n[0] + "_".join(map(str, idx)) + "x" + n[1:]]
        I[n] = S.like(v)
    return I


def stretch_derivs(I, lam, names=("a", "B"), idx=None):
    a, Bn = names
    B = B_of(I, Bn, idx)
    w = [pt(I[f"{a}{i}"], idx) + sum((B[i][j] * lam[j] for j in range(1, 3)), B[i][0] * lam[0]) for i in range(3)]
    return w, B


# ------------------------------------------------------------------ large batches
# as many points as a tensor has components, and large ones
EDGE = ((3,), (6,), (3, 3), (6, 6))
WIDE = EDGE + ((2, 3, 2), (129,), (8, 16), (1030,))
WIDE_DEEP = ((6, 2), (3, 4), (4, 6), (2, 3), (3, 6), (6, 3), (3, 3, 3), (6, 6, 2), (9,), (33,), (70,), (131,), (200,), (256,), (3, 90), (4, 130), (40, 4), (2, 3, 30), (2050,))


class Large(Scenario):
    """A scenario on large batches: five different points of any value, each at many
    positions in an irregular order, get the results of a batch of just these five (which the
    scenario itself judges)."""
    inner = None
    shape = (130,)
    K = 5

    def __init__(self, inner, shape, alone=None, second=None):
        """``alone`` ("trax" or "trax2") keeps that operand at the batch axes ``second``"""
        import copy
        self.small, self.big = copy.copy(inner), copy.copy(inner)
        for s, t in ((self.small, (self.K,)), (self.big, shape)):
            s.given = (self.K,)
            s.relaxed = t is shape
            for a in ("trax", "trax2"):
                if hasattr(s, a):
                    setattr(s, a, t if a != alone else second)
        Scenario.__init__(self, f"large {inner.id} {shape}" + (f" {alone} {second}" if alone else ""), shape=shape)
        for a in ("generic", "atol", "max_paths", "budget"):
            setattr(self, a, getattr(inner, a))
        self.max_validate = min(1, inner.max_validate)

    def bounds(self):
        return f"{self.small.bounds()}; these points at the positions of a batch of shape {self.shape} in a fixed irregular order"

    def inputs(self, S):
        return self.small.inputs(S)

    def places(self):
        return _np.array([(n * n // 5 + n // 7 + n) % self.K for n in range(int(_np.prod(self.shape)))]).reshape(self.shape)

    def run(self, api, **I):
        where = self.places()

        def tile(v):
            if isinstance(v, list):
                return [tile(x) for x in v]
            if isinstance(v, dict):
                return {k: tile(x) for k, x in v.items()}
            if getattr(v, "ndim", 0) and v.shape[-1] == self.K:
                return v[..., where].copy()
            return v.copy() if hasattr(v, "copy") else v

        B = {k: tile(v) for k, v in I.items()}
        return {"small": self.small.run(api, **I), "big": self.big.run(api, **B)}

    def check(self, S, I, O):
        self.small.check(S, I, O["small"])
        where = self.places()

        def compare(name, a, b):
            if isinstance(a, dict) or isinstance(a, (list, tuple)):
                S.require("results of " + name, type(b) is type(a) and len(a) == len(b))
                for k in a if isinstance(a, dict) else range(len(a)):
                    if k in self.small.calls:
                        continue  # how often the material is called is free
                    compare(f"{name} {k}", a[k], b[k])
            elif isinstance(a, _np.ndarray) and a.ndim:
                nd = a.ndim - 1
                S.require("structure of " + name, isinstance(b, _np.ndarray))
                if a.shape[-1] == self.K and b.shape != a.shape:
                    S.require("batch axes of " + name, b.shape == a.shape[:nd] + self.shape)
                    S.eq("large batch: " + name, b, a[..., where])
                elif a.shape[-1] == 1 and b.shape == a.shape[:nd] + (1,) * len(self.shape):
                    S.eq("large batch: " + name, b.reshape(a.shape), a)
                else:
                    S.eq("large batch: " + name, b, a)
            elif isinstance(a, (sym.Node, _np.ndarray, float)):
                S.eq("large batch: " + name, b, a)
            else:
                S.require("large batch: " + name, a == b)

        compare("", O["small"], O["big"])


def mixed(tier, scn, seconds, shapes=((3,), (6, 6), (129,), (1030,))):
    """one of the two operands on large batches, the other one alone"""
    return [Large(scn, t, a, b) for t in shapes for a in ("trax", "trax2") for b in seconds]


class Part:
    """A session whose inputs carry a name of their own, except for the shared ones"""

    def __init__(self, S, tag, shared):
        self.__dict__.update(S_=S, tag_=tag, shared_=shared)

    def __getattr__(self, name):
        return getattr(self.__dict__["S_"], name)

    def name(self, n):
        return n if self.shared_(n) else self.tag_ + n

    def var(self, name, *a, **kw):
        return self.S_.var(self.name(name), *a, **kw)

    def arr(self, name, *a, **kw):
        if not self.shared_(name):
            return self.S_.arr(self.tag_ + name, *a, **kw)
        return self.S_.arr(name, *a, **kw)

    def eq(self, label, *a, **kw):
        return self.S_.eq(self.tag_ + label, *a, **kw)

    def zero(self, label, *a, **kw):
        return self.S_.zero(self.tag_ + label, *a, **kw)

    def require(self, label, *a, **kw):
        return self.S_.require(self.tag_ + label, *a, **kw)

    def ineq(self, label, *a, **kw):
        return self.S_.ineq(self.tag_ + label, *a, **kw)


class Twice(Scenario):
    """Two scenarios one after the other in one process, with different inputs of any value
    (``share``: all but those whose names begin like this), then the first one again. All are
    judged by the scenarios themselves, after all have run: nothing may be left behind by, or
    taken from, another evaluation."""

    def __init__(self, first, second=None, share=(), refill=False):
        """``refill``: the second one gets the arrays of the first one with other contents"""
        import copy
        self.refill = refill
        self.parts = [copy.copy(first), copy.copy(second or first)]
        self.share = tuple(share)
        both = first.id + (f" and {second.id}" if second is not None else "")
        Scenario.__init__(self, ("refill " if refill else "twice ") + both + (f" same {' '.join(share)}" if share else ""))
        for a in ("generic", "atol", "max_paths", "budget"):
            setattr(self, a, getattr(first, a))
        self.max_validate = min(1, first.max_validate, self.parts[1].max_validate)

    def bounds(self):
        return (f"{self.parts[0].bounds()}; then {self.parts[1].bounds()} with other inputs"
                + (" in the same arrays" if self.refill else "")
                + (f" (same {', '.join(self.share)})" if self.share else "") + "; then the first again")

    def inputs(self, S):
        I = {}
        S.parts = []
        rename = sym.RENAME[0]
        for k, s in enumerate(self.parts):
            shared = (lambda n: n.startswith(self.share)) if self.share else (lambda n: False)
            P = Part(S, "2nd " if k else "", shared)
            sym.RENAME[0] = P.name
            try:
                S.parts.append((P, s.inputs(P)))
            finally:
                sym.RENAME[0] = rename
            I.update({f"p{k}_{n}": v for n, v in S.parts[-1][1].items()})
        return I

    def run(self, api, **I):
        import copy
        one, two = ({n[3:]: v for n, v in I.items() if n.startswith(f"p{k}_")} for k in (0, 1))
        if self.refill:
            def snapshot(v):
                if isinstance(v, dict):
                    return {k: snapshot(x) for k, x in v.items()}
                if isinstance(v, (list, tuple)):
                    return type(v)(snapshot(x) for x in v)
                return v.copy() if hasattr(v, "copy") else v

            def fill(a, b):
                if isinstance(a, list):
                    return [fill(x, y) for x, y in zip(a, b)]
                if getattr(a, "ndim", 0):
                    a[...] = b
                    return a
                return b

            first = snapshot(self.parts[0].run(api, **one))
            return {"first": first, "second": self.parts[1].run(api, **{n: fill(a, two[n]) for n, a in one.items()})}
        again = {n: [x.copy() if hasattr(x, "copy") else x for x in v] if isinstance(v, list) else v.copy() if hasattr(v, "copy") else v for n, v in one.items()}
        return {"first": self.parts[0].run(api, **one), "second": self.parts[1].run(api, **two),
                "again": copy.copy(self.parts[0]).run(api, **again)}

    def check(self, S, I, O):
        rename = sym.RENAME[0]
        for k, name in ((0, "first"), (1, "second"), (0, "again")):
            if name not in O:
                continue
            P, i = S.parts[k]
            sym.RENAME[0] = P.name
            try:
                self.parts[k].check(P, i, O[name])
            finally:
                sym.RENAME[0] = rename


def thresholds(lo=1030, hi=20000):
    """whole numbers in the package's source beyond the usual batch sizes: if the code tells
    batches of such sizes apart, the batches have to be as large"""
    import ast
    import glob
    import os
    found = set()

    def value(n):
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            return n.value
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mult, ast.Pow, ast.LShift, ast.Add, ast.Sub)):
            a, b = value(n.left), value(n.right)
            if a is None or b is None or abs(a) > 1e6 or abs(b) > 1e6 or isinstance(n.op, (ast.Pow, ast.LShift)) and not 0 <= b <= 20:
                return None
            if isinstance(n.op, ast.LShift):
                return int(a) << int(b)
            return {ast.Mult: a * b, ast.Pow: a ** b, ast.Add: a + b, ast.Sub: a - b}[type(n.op)]
        return None

    for f in sorted(glob.glob(os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src", "hyperelastic", "**", "*.py"), recursive=True)):
        try:
            with open(f) as fh:
                tree = ast.parse(fh.read())
        except (OSError, SyntaxError):
            continue
        for n in ast.walk(tree):
            v = value(n)
            if v is not None and lo < v < hi and v == int(v):
                found.add(int(v))
    return sorted(found)[:2]


def beyond():
    return [(n + 1,) for n in thresholds()]


def large(tier, *scns, shapes=None):
    """the scenarios (of a list, chosen by identifier) on large batches"""
    shapes = shapes or (WIDE if tier == "quick" else WIDE + WIDE_DEEP)
    out = [Large(s, t) for s in scns for t in shapes]
    for t in beyond():
        for s in scns[:2]:
            b = Large(s, t)
            b.optional, b.budget = True, 400.0
            out.append(b)
    return out


def pick(scns, *ids):
    by = {s.id: s for s in scns}
    return [by[i] for i in ids]
