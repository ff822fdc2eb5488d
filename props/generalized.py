from .common import *  # noqa: F401,F403
from .common import _np
from .frameworks import MASKS
from vf import sym

PAIRS = ((0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2))


class Strain:
    """An arbitrary strain-stretch relation, given by its values and first two
    derivatives at the stretches of interest (and those of the reference at one)."""

    def __init__(self, api, keys, rows, ref, factor=None):
        self.api, self.keys, self.rows, self.ref, self.factor = api, keys, rows, ref, factor
        self.seen = []

    def lookup(self, x, scale, unit=False):
        """unit: prefer the row of the undeformed state (the last one)"""
        pairs = list(zip(self.keys, self.rows))
        for k, r in pairs[::-1] if unit else pairs:
            if x is k or (not isinstance(x, sym.Node) and not isinstance(k, sym.Node) and abs(x - k) < 1e-9):
                return [v * scale for v in r]
        if isinstance(x, sym.Node):
            for k, r in zip(self.keys, self.rows):
                d = sym.sub(x, sym.lift(k))
                if d.k == "c" and d.a == 0:
                    return [v * scale for v in r]
        raise KeyError(f"strain evaluated at an unexpected stretch {x}")

    def __call__(self, stretch, scale=1, **kw):
        np = self.api.np
        self.seen.append(dict(kw))
        if isinstance(stretch, (list, tuple)):
            stretch = np.array(stretch)
        if getattr(stretch, "ndim", 0) == 0:
            x = sym.lift(stretch) if self.api.symbolic else float(stretch)
            r = self.lookup(x, scale, unit=True)
        else:
            out = [np.zeros(stretch.shape) for _ in range(3)]
            for i in _np.ndindex(*stretch.shape):
                v = self.lookup(sym.lift(stretch[i]) if self.api.symbolic else float(stretch[i]), scale)
                for k in range(3):
                    out[k][i] = v[k]
            r = out
        return (*r, *[v * scale for v in self.ref])


def strain_inputs(S, names, I, zero_ref=False):
    """rows (E, E', E'') for the named points, the material's own unit stretch and the reference"""
    for n in list(names) + ["one", "ref"]:
        I[f"E{n}"] = S.var(f"E{n}", 0.2, 1.2)
        I[f"dE{n}"] = S.var(f"dE{n}", 0.4, 1.4)
        I[f"ddE{n}"] = S.var(f"ddE{n}", -0.3, 0.9)
    for n in ("one", "ref"):
        S.nz(I[f"ddE{n}"] + I[f"dE{n}"])
        S.nz(3 * (I[f"ddE{n}"] + I[f"dE{n}"]) * I[f"E{n}"] - F1(3, 2) * I[f"dE{n}"] ** 2)


def row(I, n):
    return [I[f"E{n}"], I[f"dE{n}"], I[f"ddE{n}"]]


def factors(one, ref):
    """the documented normalisation of the first and second invariant"""
    J1 = lambda r: F1(3, 2) * (r[2] + r[1])  # noqa: E731
    J2 = lambda r: F1(3, 2) * (2 * r[0] * (r[2] + r[1]) - r[1] ** 2)  # noqa: E731
    return J1(ref) / J1(one), J2(ref) / J2(one)


def gen_invariants(E, one, ref):
    c1, c2 = factors(one, ref)
    e = one[0]
    J1 = E[0] + E[1] + E[2]
    J2 = E[0] * E[1] + E[1] * E[2] + E[0] * E[2]
    J3 = E[0] * E[1] * E[2]
    return [c1 * (J1 - 3 * e) + 3 * e, c2 * (J2 - 3 * e * e) + 3 * e * e, J3], c1, c2


def gen_derivs(E, dE, ddE, one, ref, a, B, mask, name=None):
    """first and second derivatives of psi(I(E(lam))) by the chain rule"""
    inv, c1, c2 = gen_invariants(E, one, ref)
    z = sym.const(0)
    w = [z, z, z]
    for i in range(3):
        if mask[i]:
            w[i] = a[i] + sum((B[i][j] * inv[j] for j in range(3) if mask[j]), z)
            if name:
                w[i] = sym.cut(f"{name}{i}", w[i], pos=False)
    d1 = [[c1, c1, c1], [c2 * (E[1] + E[2]), c2 * (E[0] + E[2]), c2 * (E[0] + E[1])],
          [E[1] * E[2], E[0] * E[2], E[0] * E[1]]]

    def d2(i, x, y):
        if x == y or i == 0:
            return z
        return c2 if i == 1 else E[3 - x - y]

    g = [sum((w[i] * d1[i][x] for i in range(3)), z) * dE[x] for x in range(3)]
    h = [[None] * 3 for _ in range(3)]
    for x in range(3):
        for y in range(3):
            t = z
            for i in range(3):
                t = t + w[i] * d2(i, x, y)
                if mask[i]:
                    for j in range(3):
                        if mask[j]:
                            t = t + B[i][j] * d1[i][x] * d1[j][y]
            t = t * dE[x] * dE[y]
            if x == y:
                t = t + sum((w[i] * d1[i][x] for i in range(3)), z) * ddE[x]
            h[x][y] = t
    return inv, g, h


class Generalized(Scenario):
    """The generalized-invariants material at model level: any stretches."""
    mask = (1, 1, 1)
    trax = (1,)
    kw = False
    vary = None          # axes of the batch along which the material differs
    hess = None          # second derivatives which the material provides (others: omitted and zero)

    def bounds(self):
        return f"three stretches, trailing shape {self.trax}; any strain values/derivatives; any energy of the invariants {self.mask}" + ("" if self.hess is None else f", second derivatives {self.hess} only (the others are omitted)") + ("" if self.vary is None else f", different along axes {self.vary} of the batch")

    def inputs(self, S):
        I = {}
        lam = _np.empty((3,) + self.trax, dtype=object)
        names = []
        for k in range(3):
            for idx in grid(*self.trax):
                n = f"{k}" + "".join(f"_{q}" for q in idx)
                # (sampled ones all differ, also from one)
                lo = 0.605 + 0.06 * len(names)
                lam[(k,) + idx] = S.var(f"lam{n}", lo, lo + 0.03, pos=True)
                names.append(n)
        I["lam"] = S.like(lam)
        I["points"] = S.like(lam.reshape(3, -1, 1))
        strain_inputs(S, names, I)
        if self.kw:
            I["scale"] = S.var("scale", 0.5, 1.5)
            S.nz(I["scale"])
        I.update(inv_coeffs(S, self.mask, self.trax, self.vary, self.hess))
        S.names = names
        return I

    def run(self, api, lam, points, **I):
        trax = getattr(self, "given", self.trax)
        keys = list(points.reshape(-1)) + [sym.const(1) if api.symbolic else 1.0]
        names = [f"{k}" + "".join(f"_{q}" for q in idx) for k in range(3) for idx in grid(*trax)] + ["one"]
        st = Strain(api, keys, [row(I, n) for n in names], row(I, "ref"))
        kw = {"scale": I["scale"]} if self.kw else {}
        m = api.he.models.stretches.GeneralizedInvariantsModel(
            InvModel([I[f"a{i}"] for i in range(3)], B_of(I), self.mask, self.hess), st, **kw)
        g = m.gradient(lam, None)[0]
        h = m.hessian(lam, None)
        return {"g": api.np.asarray(g), "h": api.np.asarray(h)}

    def check(self, S, I, O):
        s = I["scale"] if self.kw else sym.const(1)
        sc = lambda r: [x * s for x in r]  # noqa: E731
        for idx in grid(*self.trax):
            suf = "".join(f"_{q}" for q in idx)
            R = [sc(row(I, f"{k}{suf}")) for k in range(3)]
            E, dE, ddE = [[r[m] for r in R] for m in range(3)]
            _, g, h = gen_derivs(E, dE, ddE, sc(row(I, "one")), sc(row(I, "ref")), [pt(I[f"a{i}"], idx) for i in range(3)], B_of(I, idx=idx), self.mask)
            S.eq("dpsi/dlam", obj((3,), lambda k: at(O["g"], (k,), idx)), _np.array(g, dtype=object))
            S.eq("d2psi/dlamdlam", obj((6,), lambda m: at(O["h"], (m,), idx)), obj((6,), lambda m: h[PAIRS[m][0]][PAIRS[m][1]]))


class GeneralizedFramework(Scenario):
    """The generalized-invariants framework: stress and elasticity of the composed energy."""
    pattern = "distinct"
    trax = (1,)
    what = "stress"
    mask = (1, 1, 1)

    def bounds(self):
        return f"C: any SPD tensor with eigenvalues {self.pattern} (distinct ones >= 1e-6 apart); any strain values/derivatives; any energy of the invariants"

    def inputs(self, S):
        I = {}
        lam = sym_stretches(S, self.pattern)
        N = sym_frame(S)
        c = register_frame(S, lam, N)
        p = PATTERNS[self.pattern]
        S.pt = (lam, N)
        C = _np.empty((6,) + self.trax, dtype=object)
        for k in range(6):
            C[k] = c[k]
        I["C"] = S.like(C)
        strain_inputs(S, [str(k) for k in range(max(p) + 1)], I)
        for k in range(max(p) + 1):
            I[f"lam{k}"] = lam[p.index(k)]
        for i in range(3):
            I[f"a{i}"] = S.var(f"a{i}")
            for j in range(i, 3):
                I[f"B{i}{j}"] = S.var(f"B{i}{j}") if self.mask[i] and self.mask[j] else sym.const(0)
        R = [row(I, str(p[k])) for k in range(3)]
        E, dE, ddE = [[r[m] for r in R] for m in range(3)]
        for x, n in zip(factors(row(I, "one"), row(I, "ref")), ("kc1", "kc2")):
            sym.cut(n, x, pos=False)
        _, g, h = gen_derivs(E, dE, ddE, row(I, "one"), row(I, "ref"), [I[f"a{i}"] for i in range(3)], B_of(I), self.mask, name="w")
        named = {}

        def nm(tag, x):
            if x not in named:
                named[x] = sym.cut(tag, x, pos=False)
            return named[x]

        g = [nm(f"kg{k}", g[k]) for k in range(3)]
        h = [[nm(f"kh{min(i, j)}{max(i, j)}", h[min(i, j)][max(i, j)]) for j in range(3)] for i in range(3)]
        S.gh = (g, h)
        return I

    def run(self, api, C, **I):
        n = max(PATTERNS[self.pattern]) + 1
        st = Strain(api, [I[f"lam{k}"] for k in range(n)] + [sym.const(1) if api.symbolic else 1.0],
                    [row(I, str(k)) for k in range(n)] + [row(I, "one")], row(I, "ref"))
        fw = api.he.GeneralizedInvariantsFramework(InvModel([I[f"a{i}"] for i in range(3)], B_of(I), self.mask), st)
        if self.what == "stress":
            return {"G": fw.gradient(C, None)[0]}
        return {"H": fw.hessian(C, None)}

    def check(self, S, I, O):
        lam, N = S.pt
        g, h = S.gh
        G, H = dk_tensors(lam, N, g, h, self.pattern)
        for idx in grid(*self.trax):
            if self.what == "stress":
                S.eq("dpsi/dC", obj((6,), lambda k: at(O["G"], (k,), idx)), _np.array(G, dtype=object))
            else:
                S.eq("d2psi/dCdC", obj((6, 6), lambda k, l: at(O["H"], (k, l), idx)), obj((6, 6), lambda k, l: H[k][l]))


def c05(tier):
    out = [Generalized(f"model-{''.join(map(str, m))}", mask=m) for m in MASKS]
    out.append(Generalized("model-kwargs", kw=True))
    for p in ((0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)):
        out.append(Generalized(f"model-only{p[0]}{p[1]}", hess=[p]))
    out += [Generalized(f"model-linear-{''.join(map(str, m))}", mask=m, hess=[]) for m in MASKS]
    out.append(Generalized("model-point", trax=()))
    out.append(Generalized("model-batch", trax=(2,)))
    out.append(Generalized("model-batch2", trax=(2, 2)))
    for k, m in enumerate(MASKS):
        for v in ((0,), (1,), (0, 1)):
            if tier == "thorough" or (0, 1) == v or k % 2 == v[0]:
                out.append(Generalized(f"model-{''.join(map(str, m))}-along{v}", mask=m, trax=(2, 2), vary=v))
                out.append(Generalized(f"model-linear-{''.join(map(str, m))}-along{v}", mask=m, hess=[], trax=(2, 2), vary=v))
    for p in PATTERNS:
        for w in ("stress", "elasticity"):
            out.append(GeneralizedFramework(f"framework-{w}-{p}", pattern=p, what=w))
    if tier == "thorough":
        out.append(Generalized("model-batch3", trax=(3, 1, 2)))
        for m in MASKS:
            for w in ("stress", "elasticity"):
                out.append(GeneralizedFramework(f"framework-{w}-{''.join(map(str, m))}", mask=m, what=w))
        out.append(GeneralizedFramework("framework-elasticity-batch", what="elasticity", trax=(2,)))
    out += large(tier, *pick(out, "model-111", "model-batch", "framework-stress-distinct", "framework-elasticity-distinct"))
    return out


class RecordModel(InvModel):
    def gradient(self, I1, I2, I3, statevars):
        self.calls.append((I1, I2, I3))
        return super().gradient(I1, I2, I3, statevars)


class Normalised(Scenario):
    """The undeformed state of the generalized-invariants material."""
    measure = "any"       # any / strain / deformation
    mask = (1, 1, 0)
    trax = (1,)

    k = None            # a number for the exponent

    def bounds(self):
        return f"undeformed state; strain relation: {self.measure}" + (f" of exponent {self.k!r}" if self.k is not None else "") + "; any energy derivatives"

    def inputs(self, S):
        I = {}
        if self.measure == "any":
            strain_inputs(S, [], I)
        elif self.k is None:
            I["k"] = S.var("k", 0.3, 3.0, pos=True) if self.sign > 0 else S.var("k", -3.0, -0.3)
            S.nz(I["k"])
        for i in range(3):
            I[f"a{i}"] = S.var(f"a{i}")
            for j in range(i, 3):
                I[f"B{i}{j}"] = S.var(f"B{i}{j}") if self.mask[i] and self.mask[j] else sym.const(0)
        return I

    sign = 1

    def run(self, api, **I):
        m = RecordModel([I[f"a{i}"] for i in range(3)], B_of(I), self.mask)
        if self.measure == "any":
            one = sym.const(1) if api.symbolic else 1.0
            fun, kw = Strain(api, [one], [row(I, "one")], row(I, "ref")), {}
        else:
            fun, kw = getattr(api.he.models.generalized, self.measure), {"exponent": I["k"] if self.k is None else self.k}
        g = api.he.models.stretches.GeneralizedInvariantsModel(m, fun, **kw)
        lam = api.np.ones((3,) + self.trax)
        dw = g.gradient(lam, None)[0]
        inv = [x * api.np.ones(self.trax) for x in m.calls[-1]]
        h = g.hessian(lam, None)
        return {"I": inv, "g": api.np.asarray(dw), "h": api.np.asarray(h)}

    def check(self, S, I, O):
        if self.measure == "any":
            one, ref = row(I, "one"), row(I, "ref")
        else:
            k = I["k"] if self.k is None else sym.lift(self.k)
            c = sym.const
            if self.measure == "strain":
                one, ref = [c(0), c(1), k - 1], [c(0), c(1), c(1)]
            else:
                one, ref = [c(1), k, k * (k - 1)], [c(1), c(2), c(2)]
        e = one[0]
        inv = [3 * e, 3 * e * e, e * e * e]
        B = B_of(I)
        z = sym.const(0)
        w = [(I[f"a{i}"] + sum((B[i][j] * inv[j] for j in range(3) if self.mask[j]), z)) if self.mask[i] else z for i in range(3)]
        E0, dE0, ddE0 = ref
        mu2 = w[0] * (ddE0 + dE0) + w[1] * (2 * E0 * (ddE0 + dE0) - dE0 ** 2)
        for idx in grid(*self.trax):
            for i in range(3):
                S.eq("invariants of the undeformed state", O["I"][i][idx], inv[i])
            g = at(O["g"], (0,), idx)
            S.eq("initial shear modulus", at(O["h"], (0,), idx) - at(O["h"], (3,), idx) + g, mu2)
            for q in range(1, 3):
                S.eq("equal principal derivatives", at(O["g"], (q,), idx), g)
                S.eq("equal principal stiffness", at(O["h"], (q,), idx), at(O["h"], (0,), idx))
                S.eq("equal mixed stiffness", at(O["h"], (3 + q,), idx), at(O["h"], (3,), idx))


def c06(tier):
    out = []
    for m in ((1, 1, 0), (1, 0, 0), (0, 1, 0)):
        out.append(Normalised(f"any-{''.join(map(str, m))}", mask=m))
    for meas in ("strain", "deformation"):
        for sg in (1, -1):
            for m in MASKS if tier == "thorough" else ((1, 1, 1), (1, 0, 0), (0, 1, 0)):
                out.append(Normalised(f"{meas}{sg:+d}-{''.join(map(str, m))}", measure=meas, sign=sg, mask=m))
        for k in (1, 2, 3, -1, -2, 2.0) + ((4, 5, -3, -4, 0.5, -0.5) if tier == "thorough" else ()):
            out.append(Normalised(f"{meas}-exponent-{k!r}", measure=meas, k=k, mask=(1, 1, 1)))
    out.append(Normalised("any-batch", trax=(2, 1)))
    out.append(Normalised("any-point", trax=()))
    out += large(tier, *pick(out, "any-110"))
    return out
