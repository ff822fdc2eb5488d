"""Properties of complete material formulations: model, framework and space together."""
from .common import *  # noqa: F401,F403
from .common import _np
from .spaces import NAMES, second_pk, name_stress, transform, first_pk, tl_energy
from vf import sym

MASKS = [(1, 1, 1), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0, 1, 1), (1, 0, 1)]
TOD = ("C10", "C01", "C11", "C20", "C30")


def space_C(kind, c):
    """the deformation tensor at which the space evaluates its material"""
    if kind == "deformation":
        return list(c)
    z = sym.const(0)
    if kind == "distortional":
        s = det6(c) ** F1(-1, 3)
        return [s * x for x in c]
    s = det6(c) ** F1(1, 3)
    return [s, s, s, z, z, z]


def inv_energy(I, e, mask):
    inv = invariants6(e)
    B = B_of(I)
    psi = sym.const(0)
    for i in range(3):
        if not mask[i]:
            continue
        psi = psi + I[f"a{i}"] * inv[i]
        for j in range(3):
            if mask[j]:
                psi = psi + B[i][j] * inv[i] * inv[j] / 2
    return psi


def tod_energy(I, e):
    I1, I2, _ = invariants6(e)
    return (I["C10"] * (I1 - 3) + I["C01"] * (I2 - 3) + I["C11"] * (I1 - 3) * (I2 - 3)
            + I["C20"] * (I1 - 3) ** 2 + I["C30"] * (I1 - 3) ** 3)


class Whole(Scenario):
    """invariant-based material in a space: stress and tangent from the energy"""
    kind = "deformation"
    model = "any"
    mask = (1, 1, 1)
    names = TOD
    trax = (1,)
    what = ("P", "A")
    kw = {}
    atol = 1e-12
    generic = True

    def bounds(self):
        m = {"any": f"any energy of the invariants {self.mask}", "tod": f"third-order deformation with any non-zero {self.names}"}[self.model]
        return f"{m}; {self.kind} space; F any with det > 0, trailing shape {self.trax}"

    def inputs(self, S):
        I = {"F": sym_F(S, "F", self.trax)}
        if self.model == "any":
            for i in range(3):
                I[f"a{i}"] = S.var(f"a{i}")
                for j in range(i, 3):
                    I[f"B{i}{j}"] = S.var(f"B{i}{j}") if self.mask[i] and self.mask[j] else sym.const(0)
        else:
            for n in TOD:
                I[n] = S.nz(S.var(n)) if n in self.names else sym.const(0)
        S.points = {}
        for idx in grid(*self.trax):
            suf = "".join(f"_{k}" for k in idx)
            c = S.cs[f"cF{suf}"]
            e = space_C(self.kind, c)
            for x in e + list(invariants6(e)):
                sym.register(x)
            psi = inv_energy(I, e, self.mask) if self.model == "any" else tod_energy(I, e)
            S.points[idx] = (c,) + name_stress(S, c, *second_pk(psi, c), f"{suf}_")
        return I

    def run(self, api, F, **I):
        he = api.he
        if self.model == "any":
            m = InvModel([I[f"a{i}"] for i in range(3)], B_of(I), self.mask)
        else:
            m = he.models.invariants.ThirdOrderDeformation(**{n: I[n] for n in self.names})
        u = getattr(he, NAMES[self.kind])(he.InvariantsFramework(m), **self.kw)
        return {"P": u.gradient([F, None])[0], "A": u.hessian([F, None])[0]}

    def check(self, S, I, O):
        for idx in grid(*self.trax):
            c, Sc, Kc = S.points[idx]
            Fm = col(I["F"], idx)
            t, T = transform(Fm, c, det3(Fm), Sc, Kc, None, 0)
            S.eq("stress", obj((3, 3), lambda i, j: at(O["P"], (i, j), idx)), obj((3, 3), lambda i, j: t[i, j]))
            S.eq("tangent", obj((3, 3, 3, 3), lambda *q: at(O["A"], q, idx)), obj((3, 3, 3, 3), lambda *q: T[q]))


def c11(tier):
    out = []
    for kind in NAMES:
        for m in MASKS:
            out.append(Whole(f"{kind}-{''.join(map(str, m))}", kind=kind, mask=m))
        out.append(Whole(f"{kind}-tod", kind=kind, model="tod"))
        for n in TOD:
            out.append(Whole(f"{kind}-tod-{n}", kind=kind, model="tod", names=(n,), trax=(2,)))
    return out + c11_stretch(tier)


def sym_F_polar(S, pattern, name="F"):
    """F = Q diag(lam) N^T with any rotation Q, eigenframe N and stretches lam: every F with
    positive determinant whose C has the given eigenvalue pattern."""
    lam = sym_stretches(S, pattern, name + "lam")
    N = sym_frame(S, name + "q")
    Q = sym_frame(S, name + "r", cut=False)
    c = register_frame(S, lam, N, "c" + name)
    Fm = [[sym.cut(f"{name}{i}{j}", sum((Q[i][a] * lam[a] * N[j][a] for a in range(1, 3)), Q[i][0] * lam[0] * N[j][0]), pos=False)
           for j in range(3)] for i in range(3)]
    for k in range(6):
        i, j = VI[k], VJ[k]
        # Q^T Q = 1
        sym.register(c[k], sum((Fm[m][i] * Fm[m][j] for m in range(1, 3)), Fm[0][i] * Fm[0][j]))
    I3 = det6(c)
    if I3.k != "c":
        # det C = (lam1 lam2 lam3)^2
        S.ctx.known_pos.add(I3)
        S.ctx.known_nz.add(I3)
    return Fm, c, lam, N


class WholeStretch(Scenario):
    """stretch-based material in the deformation space: stress and tangent from the energy"""
    model = "any"
    pattern = "distinct"
    atol = 1e-12
    generic = True
    max_validate = 2

    def bounds(self):
        m = {"any": "any energy of the principal stretches", "ogden": "two-term Ogden, any moduli and real exponents"}[self.model]
        return f"{m}; deformation space; F = Q diag(lam) N^T, any rotations Q, N, stretches {self.pattern} (distinct ones at least 1e-6 apart in squares)"

    def inputs(self, S):
        Fm, S.c, S.lam, S.N = sym_F_polar(S, self.pattern)
        I = {"F": S.like(obj((3, 3, 1), lambda i, j, k: Fm[i][j]))}
        if self.model == "any":
            I.update(stretch_coeffs(S, self.pattern))
        else:
            for k in range(2):
                I[f"mu{k}"] = S.var(f"mu{k}")
                I[f"k{k}"] = S.nz(S.var(f"k{k}", 0.4, 3.0, pos=True) if k == 0 else S.var(f"k{k}", -3.0, -0.4))
        return I

    def run(self, api, F, **I):
        he = api.he
        if self.model == "any":
            m = StretchModel(api.np, [I[f"a{i}"] for i in range(3)], B_of(I))
        else:
            m = he.models.stretches.Ogden([I["mu0"], I["mu1"]], [I["k0"], I["k1"]])
        u = he.DeformationSpace(he.StretchesFramework(m))
        return {"P": u.gradient([F, None])[0], "A": u.hessian([F, None])[0]}

    def check(self, S, I, O):
        lam = S.lam
        if self.model == "any":
            w, ww = stretch_derivs(I, lam)
        else:
            psi = [sum((2 * I[f"mu{k}"] / I[f"k{k}"] ** 2 * (l ** I[f"k{k}"] - 1) for k in range(1, 2)),
                       2 * I["mu0"] / I["k0"] ** 2 * (l ** I["k0"] - 1)) for l in lam]
            w = [sym.diff(psi[a], lam[a]) for a in range(3)]
            ww = [[sym.diff(w[a], lam[a]) if a == b else sym.const(0) for b in range(3)] for a in range(3)]
        G, H = dk_tensors(lam, S.N, w, ww, self.pattern)
        Fm = col(I["F"], (0,))
        Sv = [2 * g for g in G]
        K = [[4 * h for h in r] for r in H]
        t, T = transform(Fm, S.c, None, Sv, K, None, 0)
        S.eq("stress", obj((3, 3), lambda i, j: at(O["P"], (i, j), (0,))), obj((3, 3), lambda i, j: t[i, j]))
        S.eq("tangent", obj((3, 3, 3, 3), lambda *q: at(O["A"], q, (0,))), obj((3, 3, 3, 3), lambda *q: T[q]))


def c11_stretch(tier):
    out = []
    for p in PATTERNS:
        out.append(WholeStretch(f"stretch-{p}", pattern=p))
        out.append(WholeStretch(f"ogden-{p}", pattern=p, model="ogden"))
    return out
