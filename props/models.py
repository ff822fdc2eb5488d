"""Built-in material formulations: polynomial, Ogden, strain measures."""
from .common import *  # noqa: F401,F403
from .common import _np
from vf import sym

NAMES = ("C10", "C01", "C11", "C20", "C30")
PAIRS = ((0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2))


def none0(x, idx):
    """entry of a derivative which may be omitted (zero), a number or an array"""
    if x is None:
        return sym.const(0)
    x = _np.asarray(x if not isinstance(x, sym.Node) else sym._obj0(x), dtype=object)
    if x.ndim == 0:
        return sym.lift(x[()])
    return sym.lift(at(x, (), idx))


class TOD(Scenario):
    """third-order deformation polynomial: derivatives of the documented energy"""
    names = NAMES
    trax = (1,)
    strain = False
    fixed = None        # numbers for the parameters
    max_validate = 40

    def bounds(self):
        if self.fixed:
            return f"any invariants, trailing shape {self.trax}; parameters {self.fixed}; strain={self.strain}"
        return f"any invariants, trailing shape {self.trax}; parameters {self.names} any values (zero included), others default; strain={self.strain}"

    def inputs(self, S):
        I = {n: S.var(n) for n in self.names} if not self.fixed else {}
        for k in range(3):
            I[f"I{k + 1}"] = S.arr(f"I{k + 1}", self.trax, 0.5, 4.5) if self.trax else S.var(f"I{k + 1}", 0.5, 4.5)
        return I

    def run(self, api, I1, I2, I3, **par):
        cls = api.he.models.invariants.ThirdOrderDeformation
        par = dict(self.fixed or par)
        m = cls(**par, strain=True) if self.strain else cls(**par)
        I1, I2, I3 = api.np.asarray(I1), api.np.asarray(I2), api.np.asarray(I3)
        z = object()
        g = m.gradient(I1, I2, I3, z)
        h = m.hessian(I1, I2, I3, z)
        O = {"n": len(g), "nh": len(h), "z": g[3] is z}
        for k in range(3):
            O[f"g{k}"] = g[k]
        for k in range(6):
            O[f"h{k}"] = h[k]
        return O

    def check(self, S, I, O):
        S.require("four results and six second derivatives", O["n"] == 4 and O["nh"] == 6)
        S.require("state variables returned", O["z"])
        par = {n: sym.lift(v) for n, v in self.fixed.items()} if self.fixed else I
        c = {n: par.get(n, sym.const(0)) for n in NAMES}
        o = 0 if self.strain else 3
        for idx in grid(*self.trax):
            inv = [none0(I[f"I{k + 1}"], idx) for k in range(3)]
            x, y = inv[0] - o, inv[1] - o
            psi = c["C10"] * x + c["C01"] * y + c["C11"] * x * y + c["C20"] * x * x + c["C30"] * x * x * x
            d = [sym.diff(psi, inv[k]) for k in range(3)]
            for k in range(3):
                S.eq("first derivatives", none0(O[f"g{k}"], idx), d[k], f"I{k + 1}")
            for k, (i, j) in enumerate(PAIRS):
                S.eq("second derivatives", none0(O[f"h{k}"], idx), sym.diff(d[i], inv[j]), f"I{i + 1} I{j + 1}")


def c21(tier):
    out = [TOD("all", max_paths=400), TOD("all-strain", strain=True, max_paths=400)]
    out += [TOD(f"only-{n}", names=(n,)) for n in NAMES]
    out += [TOD(f"pair-{a}-{b}-batch", names=(a, b), trax=(2, 2)) for a, b in (("C10", "C01"), ("C20", "C11"), ("C11", "C30"))]
    out += [TOD("none", names=()), TOD("all-point", trax=(), max_paths=400)]
    for n, fx in enumerate(({"C10": 1}, {"C10": 1, "C01": 2, "C11": -3, "C20": 1, "C30": 2}, {"C20": 3, "C30": -1}, {"C10": 0, "C01": 0.0, "C11": 2},
                            {"C01": 1, "C30": 1}, {"C20": -3, "C30": 1, "C11": 1})):
        out += [TOD(f"numbers{n}", fixed=fx, strain=bool(n % 2)), TOD(f"numbers{n}-point", fixed=fx, trax=(), strain=not n % 2)]
    if tier == "thorough":
        out += [TOD(f"all-{t}", trax=t, max_paths=400) for t in [(2, 2), (3,), (1, 2, 1)]]
        out += [TOD(f"all-strain-{t}", trax=t, strain=True, max_paths=400) for t in [(), (2, 3)]]
    out += large(tier, *pick(out, "pair-C10-C01-batch", "pair-C20-C11-batch", "pair-C11-C30-batch"))
    return out


class OgdenScn(Scenario):
    """Ogden material: derivatives of sum 2 mu / k^2 (lam^k - 1)"""
    terms = 1
    trax = (1,)
    signs = (1,)
    container = "list"
    repeat = ()         # terms which repeat the exponent (and modulus) of another one
    fixed = None        # numbers for the moduli and exponents

    def bounds(self):
        if self.fixed:
            return f"any three stretches > 0, trailing shape {self.trax}; moduli and exponents {self.fixed} as {self.container}"
        return f"any three stretches > 0, trailing shape {self.trax}; {self.terms} term(s){' of equal exponents' if self.repeat else ''}, any moduli, any real exponents with signs {self.signs}"

    def inputs(self, S):
        I = {"lam": S.arr("lam", (3,) + self.trax, 0.6, 1.7, pos=True)}
        for k in range(0 if self.fixed else self.terms):
            I[f"mu{k}"] = S.var(f"mu{k}")
            sg = self.signs[k % len(self.signs)]
            I[f"k{k}"] = S.var(f"k{k}", 0.4, 3.0, pos=True) if sg > 0 else S.var(f"k{k}", -3.0, -0.4)
            S.nz(I[f"k{k}"])
        for k, j, both in self.repeat:
            I[f"k{k}"] = I[f"k{j}"]
            if both:
                I[f"mu{k}"] = I[f"mu{j}"]
        return I

    def run(self, api, lam, **I):
        mu = [I[f"mu{k}"] for k in range(self.terms)] if not self.fixed else list(self.fixed[0])
        al = [I[f"k{k}"] for k in range(self.terms)] if not self.fixed else list(self.fixed[1])
        if self.container == "array":
            mu, al = api.np.array(mu), api.np.array(al)
        elif self.container == "tuple":
            mu, al = tuple(mu), tuple(al)
        m = api.he.models.stretches.Ogden(mu, al)
        z = object()
        g, zn = m.gradient(lam, z)
        h = m.hessian(lam, z)
        g2 = m.gradient(lam, z)[0]
        return {"g": g, "z": zn is z, "n": len(h), "h": list(h), "g2": g2, "lam": lam}

    def check(self, S, I, O):
        S.require("six second derivatives", O["n"] == 6)
        S.require("state variables returned", O["z"])
        S.eq("stretches unchanged", O["lam"], I["lam"])
        terms = [[sym.lift(v) for v in t] for t in zip(*self.fixed)] if self.fixed else [(I[f"mu{k}"], I[f"k{k}"]) for k in range(self.terms)]
        for idx in grid(*self.trax):
            l = [I["lam"][(a,) + idx] for a in range(3)]
            psi = sym.const(0)
            for mu, al in terms:
                for a in range(3):
                    psi = psi + 2 * mu / al ** 2 * (l[a] ** al - 1)
            d = [sym.diff(psi, l[a]) for a in range(3)]
            S.eq("first derivatives", obj((3,), lambda a: at(O["g"], (a,), idx)), _np.array(d, dtype=object))
            S.eq("repeated evaluation", obj((3,), lambda a: at(O["g2"], (a,), idx)), _np.array(d, dtype=object))
            for m, (i, j) in enumerate(PAIRS):
                S.eq("second derivatives", none0(O["h"][m], idx), sym.diff(d[i], l[j]))


def c22(tier):
    out = [OgdenScn("one", signs=(1,)), OgdenScn("one-negative", signs=(-1,)), OgdenScn("two", terms=2, signs=(1, -1)),
           OgdenScn("three", terms=3, signs=(1, -1, 1)), OgdenScn("two-array", terms=2, signs=(1, -1), container="array"),
           OgdenScn("two-tuple", terms=2, signs=(1, 1), container="tuple"),
           OgdenScn("one-point", trax=()), OgdenScn("two-batch", terms=2, signs=(-1, 1), trax=(2, 2)), OgdenScn("none", terms=0)]
    if tier == "thorough":
        out += [OgdenScn(f"terms{n}", terms=n, signs=(1, -1, -1), trax=(2, 1)) for n in (4, 5, 6)]
    out += [OgdenScn("equal-exponents", terms=2, repeat=((1, 0, False),)), OgdenScn("equal-exponents-three", terms=3, signs=(-1, 1), repeat=((2, 0, False),)),
            OgdenScn("equal-terms", terms=2, repeat=((1, 0, True),)), OgdenScn("equal-terms-array", terms=3, signs=(1, -1), repeat=((2, 0, True),), container="array")]
    for c in ("list", "array", "tuple"):
        for n, fx in enumerate((((1, 2), (3, -2)), ((3, -1), (2, 1)), ((1,), (3,)), ((1, 0.5), (4, -3)), ((0, 2), (2.5, 1)))):
            out.append(OgdenScn(f"numbers{n}-{c}", fixed=fx, container=c, trax=((1,), (), (2,))[n % 3]))
    out += large(tier, *pick(out, "two"))
    return out


class Measure(Scenario):
    """one-dimensional strain measures: value, derivatives, and the reference state"""
    fun = "strain"
    sign = 1
    trax = (3, 1)
    k = None            # a fixed exponent

    def bounds(self):
        return f"any stretches > 0, shape {self.trax}; " + (f"exponent {self.k}" if self.k is not None else f"any real exponent of sign {self.sign:+d}")

    def inputs(self, S):
        I = {"lam": S.arr("lam", self.trax, 0.6, 1.7, pos=True) if self.trax else S.var("lam", 0.6, 1.7, pos=True)}
        if self.k is None:
            I["k"] = S.var("k", 0.4, 3.0, pos=True) if self.sign > 0 else S.var("k", -3.0, -0.4)
            S.nz(I["k"])
        return I

    def run(self, api, lam, k=None):
        f = getattr(api.he.models.generalized, self.fun)
        k = self.k if k is None else k
        r = f(lam, exponent=k)
        one = f(1, exponent=k)
        return {"n": len(r), "r": list(r), "one": list(one)}

    def check(self, S, I, O):
        S.require("six results", O["n"] == 6)
        k = I["k"] if self.k is None else sym.lift(self.k)
        c = sym.const

        def parts(l):
            if self.fun == "strain":
                E = (l ** k - 1) / k
            else:
                E = l ** k
            return E

        for idx in grid(*self.trax):
            l = none0(I["lam"], idx)
            E = parts(l)
            d1 = sym.diff(E, l)
            S.eq("value", none0(O["r"][0], idx), E)
            S.eq("first derivative", none0(O["r"][1], idx), d1)
            S.eq("second derivative", none0(O["r"][2], idx), sym.diff(d1, l))
        one = [c(0), c(1), k - 1] if self.fun == "strain" else [c(1), k, k * (k - 1)]
        ref = [c(0), c(1), c(1)] if self.fun == "strain" else [c(1), c(2), c(2)]
        for q in range(3):
            S.eq("undeformed state", none0(O["one"][q], ()), one[q])
            S.eq("reference measure", none0(O["r"][3 + q], ()), ref[q])
            S.eq("reference measure", none0(O["one"][3 + q], ()), ref[q])


def c23(tier):
    out = []
    for f in ("strain", "deformation"):
        for sg in (1, -1):
            out.append(Measure(f"{f}{sg:+d}", fun=f, sign=sg))
        for k in (2, 1, -2, 3, 4):
            out.append(Measure(f"{f}-exponent{k}", fun=f, k=k))
        out.append(Measure(f"{f}-number", fun=f, trax=()))
        out.append(Measure(f"{f}-large", fun=f, trax=(3, 130) if tier == "quick" else (3, 8, 130)))
        out.append(Measure(f"{f}-batch", fun=f, trax=(3, 2, 2), sign=-1))
        if tier == "thorough":
            for k in (5, 6, -1, -3, -4, -5, 8, -8):
                out.append(Measure(f"{f}-exponent{k}", fun=f, k=k))
    return out
