"""The automatic-differentiation material: derivatives of a user-given energy."""
import itertools
from fractions import Fraction

from .common import *  # noqa: F401,F403
from .common import _np
from .models import none0, PAIRS
from vf import sym, shim


class Ops:
    """the functions an energy may use, for the oracle"""
    exp = staticmethod(lambda x: sym.fexp(sym.lift(x)))
    log = staticmethod(lambda x: sym.flog(sym.lift(x)))
    sqrt = staticmethod(lambda x: sym.powr(sym.lift(x), Fraction(1, 2)))


def yeoh(T, I1, I2, I3, a, b, c):
    return a * (I1 - 3) + b * (I1 - 3) ** 2 + c * (I1 - 3) ** 3


def linear(T, I1, I2, I3, a, b, c):
    return a * (I1 - 3) + b * (I2 - 3)


def linear1(T, I1, I2, I3, a, b, c):
    return a * I1


def linear2(T, I1, I2, I3, a, b, c):
    return I2 / a


def volume(T, I1, I2, I3, a, b, c):
    return a * (I3 - 1) ** 2


def identity(T, I1, I2, I3, a, b, c):
    return I1


def mixed12(T, I1, I2, I3, a, b, c):
    return a * I1 * I2 + b * I1 ** 2 - c * I2


def mixed13(T, I1, I2, I3, a, b, c):
    return a * (I1 - 3) * (I3 - 1) + b * I3 ** 2


def mixed23(T, I1, I2, I3, a, b, c):
    return a * I2 * I3 - b * I3 + c * I2 ** 2


def neohooke(T, I1, I2, I3, a, b, c):
    return a / 2 * (I1 - 3 - T.log(I3)) + b / 2 * (T.sqrt(I3) - 1) ** 2


def isochoric(T, I1, I2, I3, a, b, c):
    return a * (I3 ** (-1 / 3) * I1 - 3) + b * (I3 ** (-2 / 3) * I2 - 3)


def fung(T, I1, I2, I3, a, b, c):
    return a * (T.exp(b * (I1 - 3)) - 1) + c * (I3 - 1) ** 2


def logarithmic(T, I1, I2, I3, a, b, c):
    return a * T.log(I2 / 3) + b * I1


def cubic(T, I1, I2, I3, a, b, c):
    return a * I1 * I2 * I3 + b * I1 ** 2 * I3 + c * I2 ** 3


def rational(T, I1, I2, I3, a, b, c):
    return (a * I1 + b * I2) / (I3 + c ** 2 + 1)


def shared(T, I1, I2, I3, a, b, c):
    x = I1 - 3
    y = x * (I2 - 3)
    return a * x * y + b * y * y + c * y / I3


def constant(T, I1, I2, I3, a, b, c):
    return a


def powers(T, I1, I2, I3, a, b, c):
    return a * I1 ** 1.5 + b * I2 ** (-0.5) + c * (I1 / I3) ** 2


ENERGIES = [yeoh, linear, linear1, linear2, volume, identity, mixed12, mixed13, mixed23, neohooke, isochoric, fung,
            logarithmic, cubic, rational, shared, powers]


class Torch(Scenario):
    """gradient and hessian of the material are the derivatives of the energy"""
    energy = None
    trax = (1,)
    order = "ghgh"
    max_validate = 1

    def bounds(self):
        return f"energy {self.energy.__name__}, any parameters, any invariants > 0 of shape {self.trax}; calls {self.order}"

    def inputs(self, S):
        I = {n: S.var(n, 0.3, 1.5) for n in "abc"}
        S.nz(I["a"])
        for k in range(3):
            n = f"I{k + 1}"
            I[n] = S.arr(n, self.trax, 0.5, 4.5, pos=True) if self.trax else S.var(n, 0.5, 4.5, pos=True)
        return I

    def run(self, api, I1, I2, I3, a, b, c):
        T = api.torch
        energy = self.energy
        seen = []

        def fun(I1, I2, I3, **par):
            seen.append(sorted(par))
            return energy(T, I1, I2, I3, par["a"], par["b"], par["c"])

        m = api.he.models.invariants.TorchModel(fun, a=a, b=b, c=c)
        I1, I2, I3 = api.np.asarray(I1), api.np.asarray(I2), api.np.asarray(I3)
        z = object()
        O = {"calls": [], "z": True, "n": [], "plain": True, "double": True}
        for o in self.order:
            r = m.gradient(I1, I2, I3, z) if o == "g" else m.hessian(I1, I2, I3, z)
            if o == "g":
                O["z"] = O["z"] and r[3] is z
                r = r[:3]
            O["n"].append(len(r))
            r = list(r)
            O["plain"] = O["plain"] and all(x is None or api.is_array(x) for x in r)
            O["double"] = O["double"] and all(x is None or api.double(x) for x in r)
            O["calls"].append(r)
        O["par"] = all(s == ["a", "b", "c"] for s in seen) and len(seen) >= len(self.order)
        O["I1"], O["I2"], O["I3"] = I1, I2, I3
        return O

    def check(self, S, I, O):
        S.require("numbers of results", O["n"] == [3 if o == "g" else 6 for o in self.order])
        S.require("state variables returned", O["z"])
        S.require("results are numpy arrays", O["plain"])
        S.require("double precision when enabled", O["double"])
        S.require("the energy receives the given parameters", O["par"])
        for k in range(3):
            S.eq("invariants unchanged", O[f"I{k + 1}"], I[f"I{k + 1}"])
        for idx in grid(*self.trax):
            inv = [none0(I[f"I{k + 1}"], idx) for k in range(3)]
            psi = sym.lift(self.energy(Ops, *inv, I["a"], I["b"], I["c"]))
            d = [sym.diff(psi, inv[k]) for k in range(3)]
            for o, r in zip(self.order, O["calls"]):
                if o == "g":
                    for k in range(3):
                        S.require("shape", r[k] is None or _np.shape(r[k]) == self.trax)
                        S.eq("first derivatives", none0(r[k], idx), d[k], f"I{k + 1}")
                else:
                    for k, (i, j) in enumerate(PAIRS):
                        S.require("shape", r[k] is None or _np.shape(r[k]) == self.trax)
                        S.eq("second derivatives", none0(r[k], idx), sym.diff(d[i], inv[j]), f"I{i + 1} I{j + 1}")


class TorchFramework(Scenario):
    """the same material inside the invariants framework, at deformation tensors"""
    energy = None
    trax = (1,)
    generic = True
    max_validate = 1

    def bounds(self):
        return f"energy {self.energy.__name__}, any parameters, any SPD tensor, shape {self.trax}"

    def inputs(self, S):
        I = {n: S.var(n, 0.3, 1.5) for n in "abc"}
        S.nz(I["a"])
        I["C"] = sym_C(S, "C", self.trax)
        return I

    def run(self, api, C, a, b, c):
        T = api.torch
        energy = self.energy
        m = api.he.models.invariants.TorchModel(lambda I1, I2, I3, a, b, c: energy(T, I1, I2, I3, a, b, c), a=a, b=b, c=c)
        f = api.he.frameworks.Invariants(m)
        g, z = f.gradient(C, None)
        return {"g": g, "z": z is None, "h": f.hessian(C, None), "C": C}

    def check(self, S, I, O):
        S.eq("tensor unchanged", O["C"], I["C"])
        S.require("shape", O["g"].shape[1:] == self.trax and O["h"].shape[2:] == self.trax)
        for idx in grid(*self.trax):
            c = col(I["C"], idx)
            inv = invariants6(c)
            psi = sym.lift(self.energy(Ops, *inv, I["a"], I["b"], I["c"]))
            d = [sym.diff(psi, c[k]) for k in range(6)]
            S.eq("stress", obj((6,), lambda k: W[k] * at(O["g"], (k,), idx)), _np.array(d, dtype=object))
            S.eq("elasticity", obj((6, 6), lambda k, l: W[k] * W[l] * at(O["h"], (k, l), idx)),
                 obj((6, 6), lambda k, l: sym.diff(d[k], c[l])))


class Mixture(Scenario):
    """two materials and two energies at a time: results belong to the asked material"""
    trax = (2,)
    max_validate = 1

    def bounds(self):
        return f"two materials with different energies and parameters, any two sets of invariants of shape {self.trax}, interleaved calls"

    def inputs(self, S):
        I = {n: S.var(n, 0.3, 1.5) for n in ("a1", "a2", "b1", "b2")}
        for n in "xy":
            for k in range(3):
                I[f"{n}{k}"] = S.arr(f"{n}{k}", self.trax, 0.5, 4.5, pos=True)
        return I

    def run(self, api, a1, a2, b1, b2, **I):
        T = api.torch
        M = api.he.models.invariants.TorchModel
        m = M(lambda I1, I2, I3, a, b: mixed12(T, I1, I2, I3, a, b, 0), a=a1, b=b1)
        n = M(lambda I1, I2, I3, a, b: mixed13(T, I1, I2, I3, a, b, 0), a=a2, b=b2)
        x, y = ([I[f"{k}{i}"] for i in range(3)] for k in "xy")
        r = [m.gradient(*x, None)[:3], n.gradient(*x, None)[:3], m.hessian(*y, None), n.hessian(*y, None),
             m.gradient(*y, None)[:3], n.hessian(*x, None), m.hessian(*x, None), n.gradient(*y, None)[:3]]
        return {"r": [list(v) for v in r]}

    def check(self, S, I, O):
        plan = ["mxg", "nxg", "myh", "nyh", "myg", "nxh", "mxh", "nyg"]
        for idx in grid(*self.trax):
            for (w, v, o), r in zip(plan, O["r"]):
                inv = [none0(I[f"{v}{k}"], idx) for k in range(3)]
                k = "1" if w == "m" else "2"
                psi = (mixed12 if w == "m" else mixed13)(Ops, *inv, I["a" + k], I["b" + k], sym.const(0))
                d = [sym.diff(psi, q) for q in inv]
                if o == "g":
                    for j in range(3):
                        S.eq("first derivatives", none0(r[j], idx), d[j])
                else:
                    for j, (p, q) in enumerate(PAIRS):
                        S.eq("second derivatives", none0(r[j], idx), sym.diff(d[p], inv[q]))


class Refill(Scenario):
    """the caller's arrays of invariants are refilled between the evaluations"""
    trax = (2,)
    order = "gHhGg"
    max_validate = 1
    energy = None

    def bounds(self):
        return f"energy {self.energy.__name__}, any parameters, any two sets of invariants > 0 of shape {self.trax} handed over in the same arrays; calls {self.order} (capitals: second set)"

    def inputs(self, S):
        I = {n: S.var(n, 0.3, 1.5) for n in "abc"}
        S.nz(I["a"])
        for n in "xy":
            for k in range(3):
                I[f"{n}{k}"] = S.arr(f"{n}{k}", self.trax, 0.5, 4.5, pos=True)
        return I

    def run(self, api, a, b, c, **I):
        T = api.torch
        energy = self.energy
        m = api.he.models.invariants.TorchModel(lambda I1, I2, I3, **p: energy(T, I1, I2, I3, p["a"], p["b"], p["c"]), a=a, b=b, c=c)
        buf = [I[f"x{k}"].copy() for k in range(3)]
        out = []
        for o in self.order:
            for k in range(3):
                buf[k][...] = I[("x" if o in "gh" else "y") + str(k)]
            r = list(m.gradient(*buf, None)[:3] if o in "gG" else m.hessian(*buf, None))
            out.append([None if v is None else v.copy() for v in r])
            for v in r:
                if v is not None and getattr(v, "ndim", 0) and v.flags.writeable and not any(n > 1 and s == 0 for n, s in zip(v.shape, v.strides)):
                    v[...] = 0 * v - 1
        return {"r": out, "buf": buf}

    def check(self, S, I, O):
        for k in range(3):
            S.eq("invariants unchanged", O["buf"][k], I[("x" if self.order[-1] in "gh" else "y") + str(k)])
        for idx in grid(*self.trax):
            for o, r in zip(self.order, O["r"]):
                inv = [none0(I[("x" if o in "gh" else "y") + str(k)], idx) for k in range(3)]
                psi = self.energy(Ops, *inv, I["a"], I["b"], I["c"])
                d = [sym.diff(psi, q) for q in inv]
                if o in "gG":
                    for j in range(3):
                        S.eq("first derivatives", none0(r[j], idx), d[j])
                else:
                    for j, (p, q) in enumerate(PAIRS):
                        S.eq("second derivatives", none0(r[j], idx), sym.diff(d[p], inv[q]))


class Options(Scenario):
    """one energy function whose terms are selected by keyword arguments: several materials"""
    order = ("a", "ab", "abc", "a", "c", "bc", "b")
    what = "gh"
    trax = (1,)
    max_validate = 1

    def bounds(self):
        return f"any positive invariants, one function with optional terms, materials with the terms {', '.join(self.order)} one after the other, all evaluated twice"

    def inputs(self, S):
        I = {n: S.var(n) for n in "abc"}
        for k in range(3):
            I[f"x{k}"] = S.arr(f"x{k}", self.trax, 0.5, 4.5, pos=True)
        return I

    @staticmethod
    def energy(I1, I2, I3, a=None, b=None, c=None):
        W = 0
        if a is not None:
            W = W + a * (I1 - 3) ** 2
        if b is not None:
            W = W + b * I1 * I2
        if c is not None:
            W = W + c * (I3 - 1) ** 3 + c * I2
        return W

    def run(self, api, **I):
        M = [api.he.models.invariants.TorchModel(self.energy, **{n: I[n] for n in o}) for o in self.order]
        x = [I[f"x{k}"] for k in range(3)]
        out = []
        for rep in range(2):
            for m in M:
                out.append([list(m.gradient(*x, None)[:3]) if w == "g" else list(m.hessian(*x, None)) for w in self.what])
        return {"r": out}

    def check(self, S, I, O):
        for idx in grid(*self.trax):
            inv = [none0(I[f"x{k}"], idx) for k in range(3)]
            for o, r in zip(self.order * 2, O["r"]):
                psi = self.energy(*inv, **{n: I[n] for n in o})
                d = [sym.diff(psi, q) for q in inv]
                for w, v in zip(self.what, r):
                    if w == "g":
                        for j in range(3):
                            S.eq("first derivatives", none0(v[j], idx), d[j])
                    else:
                        for j, (p, q) in enumerate(PAIRS):
                            S.eq("second derivatives", none0(v[j], idx), sym.diff(d[p], inv[q]))


def c24(tier):
    out = [Options("options"), Options("options hessian first", what="hg", trax=(2,)), Options("options reversed", order=("abc", "b", "c", "bc", "a"), trax=())]
    out += [Refill(f"refill {e.__name__}", energy=e) for e in (mixed12, volume, cubic)]
    if tier == "thorough":
        out += [Refill(f"refill {e.__name__} {o}", energy=e, order=o, trax=(1, 2)) for e in ENERGIES for o in ("hGgH", "gGhHg")]
    for e in ENERGIES:
        out.append(Torch(f"{e.__name__}", energy=e))
        out.append(Torch(f"{e.__name__} batch", energy=e, trax=(2, 2) if tier == "thorough" else (2,), order="hhg"))
        out.append(Torch(f"{e.__name__} point", energy=e, trax=(), order="hggh"))
        if tier == "thorough":
            for t in [(3,), (1, 2), (2, 1, 2)]:
                out.append(Torch(f"{e.__name__} {t}", energy=e, trax=t, order="ggghhh"))
    out.append(Torch("constant", energy=constant, trax=(2,)))
    out.append(Mixture("two materials"))
    for e in [yeoh, linear, mixed12, volume, mixed23] + ([mixed13, cubic, neohooke, rational, shared] if tier == "thorough" else []):
        out.append(TorchFramework(f"framework {e.__name__}", energy=e))
    out.append(TorchFramework("framework yeoh batch", energy=yeoh, trax=(2,)))
    out.append(TorchFramework("framework linear point", energy=linear, trax=()))
    out += large(tier, *pick(out, "yeoh batch", "mixed13 batch", "framework yeoh batch"))
    return out
