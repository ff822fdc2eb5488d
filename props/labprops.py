"""Load cases, experiments, simulations and the parameter fit."""
from .common import *  # noqa: F401,F403
from .common import _np
from .models import none0
from vf import shim, sym

CASES = ("Uniaxial", "Biaxial", "Planar")


def loadF(case, l):
    """principal stretches of the incompressible load case"""
    one = sym.const(1)
    if case == "Uniaxial":
        return [l, l ** F1(-1, 2), l ** F1(-1, 2)]
    if case == "Biaxial":
        return [l, l, l ** -2]
    return [l, one, l ** -1]


class Defgrad(Scenario):
    case = "Uniaxial"
    trax = (2,)

    def bounds(self):
        return f"any stretches > 0 of shape {self.trax}" + (f", stored {self.layout}" if self.layout else "")

    def inputs(self, S):
        return {"x": S.arr("x", self.trax, 0.5, 2.5, pos=True) if self.trax else S.var("x", 0.5, 2.5, pos=True)}

    def run(self, api, x):
        c = getattr(api.he.lab, self.case)()
        c2 = getattr(api.he.lab, self.case)(label="my label")
        c3 = getattr(api.he.lab, self.case)("other")
        x = api.np.asarray(x)
        F = c.defgrad(x)
        again = c.defgrad(x)
        now = F.copy()
        other = c.defgrad(1 / x)
        return {"F": now, "later": F, "again": again, "other": other, "F2": c2.defgrad(x), "label": isinstance(c.label, str) and len(c.label) > 0, "own": c2.label == "my label" and c3.label == "other", "x": x}

    def check(self, S, I, O):
        S.require("label", O["label"] and O["own"])
        S.require("shape", O["F"].shape == (3, 3) + self.trax)
        S.eq("stretches unchanged", O["x"], I["x"])
        S.eq("label does not matter", O["F"], O["F2"])
        S.eq("repeated evaluation", O["again"], O["F"])
        S.eq("earlier result unchanged", O["later"], O["F"])
        for idx in grid(*self.trax):
            l = none0(I["x"], idx)
            d = loadF(self.case, l)
            F = [[O["F"][(i, j) + idx] for j in range(3)] for i in range(3)]
            S.eq("deformation gradient", obj((3, 3), lambda i, j: F[i][j]), obj((3, 3), lambda i, j: d[i] if i == j else sym.const(0)))
            S.eq("incompressible", det3(F), sym.const(1))
            o = loadF(self.case, 1 / l)
            S.eq("deformation gradient of other stretches", obj((3, 3), lambda i, j: O["other"][(i, j) + idx]), obj((3, 3), lambda i, j: o[i] if i == j else sym.const(0)))


class Whole(Scenario):
    """stretches given as whole numbers, with any material"""
    case = "Uniaxial"
    values = (1, 2, 3)

    def bounds(self):
        return f"stretches {self.values} stored as integers, any material and parameters"

    def inputs(self, S):
        return {"Q": S.arr("Q", (2, 2, 3, 3)), "p": S.arr("p", (2,)), "P": S.arr("P", (3, 3, len(self.values)))}

    def run(self, api, Q, p, P):
        np = api.np
        x = np.array(list(self.values))
        lc = getattr(api.he.lab, self.case)()
        F = lc.defgrad(x)
        s = api.he.lab.Simulation(lc, x, ["a", "b"], lambda **kw: Umat(api, Q, kw, []), list(p))
        return {"F": F, "N": lc.stress(F, P), "s": s.stress(), "one": lc.defgrad(x[-1]), "x": x.tolist()}

    def check(self, S, I, O):
        S.require("stretches unchanged", O["x"] == list(self.values))
        S.require("shape", O["F"].shape == (3, 3, len(self.values)) and O["one"].shape == (3, 3))
        for n, v in enumerate(self.values):
            d = loadF(self.case, sym.const(v))
            want = obj((3, 3), lambda i, j: d[i] if i == j else sym.const(0))
            S.eq("deformation gradient", O["F"][:, :, n], want)
            if n == len(self.values) - 1:
                S.eq("deformation gradient of one stretch", O["one"], want)
            S.eq("normal force per undeformed area", O["N"][n], I["P"][0, 0, n] - I["P"][2, 2, n] * d[2] / d[0])
            S.eq("simulated normal force", O["s"][n], sim_stress(I["Q"], list(I["p"]), self.case, sym.const(v)))


class WholeData(Scenario):
    """measured data given as whole numbers"""
    container = "array"

    def bounds(self):
        return f"displacement and force data of whole numbers as {self.container}, area and length any positive values"

    def inputs(self, S):
        return {k: S.var(k, 0.5, 2.0, pos=True) for k in ("area", "length")}

    def run(self, api, area, length):
        d, f = [0, 1, 2, 5], [0, 3, 7, -4]
        if self.container == "array":
            d, f = api.np.array(d), api.np.array(f)
        e = api.he.lab.Experiment("name", d, f, area=area, length=length)
        g = api.he.lab.Experiment("name", d, f, area=2, length=4)
        return {"x": e.stretch, "s": e.stress(), "x2": g.stretch, "s2": g.stress()}

    def check(self, S, I, O):
        for n, (d, f) in enumerate(zip([0, 1, 2, 5], [0, 3, 7, -4])):
            S.eq("stretch", O["x"][n], 1 + d / I["length"])
            S.eq("stress", O["s"][n], f / I["area"])
            S.eq("stretch", sym.lift(O["x2"][n]), sym.const(F1(4 + d, 4)), "integer length")
            S.eq("stress", sym.lift(O["s2"][n]), sym.const(F1(f, 2)), "integer area")


class NormalForce(Scenario):
    """normal force per area from any stress and any diagonal incompressible deformation"""
    case = "Uniaxial"
    trax = (2,)
    kw = {}
    pressure = False

    def bounds(self):
        return f"any first Piola-Kirchhoff stress, any diagonal volume-preserving deformation, trailing shape {self.trax}, axes {self.kw}"

    def inputs(self, S):
        I = {"P": S.arr("P", (3, 3) + self.trax), "l": S.arr("l", (2,) + self.trax, 0.6, 1.7, pos=True)}
        if self.pressure:
            I["p"] = S.arr("p", self.trax)
        return I

    def run(self, api, P, l, p=None):
        np = api.np
        z = np.zeros(self.trax)
        F = np.array([[l[0], z, z], [z, l[1], z], [z, z, 1 / (l[0] * l[1])]])
        c = getattr(api.he.lab, self.case)()
        if p is not None:
            # superposed hydrostatic pressure: P + p F^-T
            iF = np.array([[1 / l[0], z, z], [z, 1 / l[1], z], [z, z, l[0] * l[1]]])
            P = P + p * iF
        P0, F0 = P.copy(), F.copy()
        s = c.stress(F, P, **self.kw)
        return {"s": s, "P": P - P0 + P, "F": F - F0 + F, "P0": P0, "F0": F0}

    def check(self, S, I, O):
        S.eq("operands unchanged", O["P"], O["P0"])
        S.eq("operands unchanged", O["F"], O["F0"])
        a, t = self.kw.get("axis", 0) % 3, self.kw.get("traction_free", -1) % 3
        for idx in grid(*self.trax):
            l = [I["l"][(k,) + idx] for k in range(2)]
            l = l + [1 / (l[0] * l[1])]
            P = [[I["P"][(i, j) + idx] for j in range(3)] for i in range(3)]
            # Cauchy stress of the constrained material: P F^T / J + q I with sigma_tt = 0
            sa, st = P[a][a] * l[a], P[t][t] * l[t]
            S.eq("normal force per undeformed area", at(O["s"], (), idx), (sa - st) / l[a])


def c25(tier):
    out = []
    for c in CASES:
        for t in [(2,), (), (1,), (2, 2), (2, 1), (1, 2)] + ([(5,), (1, 2, 2), (3, 3)] if tier == "thorough" else []):
            out.append(Defgrad(f"defgrad-{c}-{t}", case=c, trax=t))
        out.append(Defgrad(f"defgrad-{c}-(2, 2)-fortran", case=c, trax=(2, 2), layout="fortran"))
        out.append(Defgrad(f"defgrad-{c}-(2,)-reversed", case=c, trax=(2,), layout="reversed"))
        out.append(NormalForce(f"force-{c}", case=c))
        out.append(NormalForce(f"force-{c}-pressure", case=c, pressure=True))
    for a in range(3):
        for t in range(-3, 3):
            if a != t % 3:
                out.append(NormalForce(f"force-axes{a}{t}", kw={"axis": a, "traction_free": t}))
    out.append(NormalForce("force-base", case="IncompressibleHomogeneousStretch"))
    out.append(NormalForce("force-batch", trax=(2, 2)))
    out += [Whole(f"integers-{c}", case=c) for c in CASES]
    out += large(tier, *[s for s in out if s.id.endswith("-(2,)")], *pick(out, "force-Uniaxial", "force-Biaxial-pressure", "force-axes12"))
    return out


# ------------------------------------------------------------------ experiments and simulations
class Lists(Scenario):
    """measured data to stretch and stress"""
    container = "array"
    n = 3
    kw = ("area", "length")

    def bounds(self):
        return f"{self.n} data points of any value as {self.container}; area and length any positive value or default ({self.kw})"

    def inputs(self, S):
        I = {"d": S.arr("d", (self.n,)), "f": S.arr("f", (self.n,))}
        for k in self.kw:
            I[k] = S.var(k, 0.5, 2.0, pos=True)
        return I

    def run(self, api, d, f, **kw):
        conv = {"array": lambda x: x, "list": lambda x: [v for v in x], "tuple": lambda x: tuple(v for v in x)}[self.container]
        a, b = conv(d), conv(f)
        e = api.he.lab.Experiment("name", a, b, **kw)
        t, T = conv(d), conv(f)
        more = api.he.lab.Experiment("other", a, b, time=t, temperature=T)
        s1 = e.stress()
        x = api.np.asarray(e.stretch)
        s2 = e.stress()
        return {"stretch": x, "stress": s1, "again": s2, "label": e.label == "name",
                "kept": e.displacement is a and e.force is b, "a": list(a), "b": list(b),
                "defaults": [e.area, e.length], "time": e.time is None and e.temperature is None and more.time is t and more.temperature is T}

    def check(self, S, I, O):
        one = sym.const(1)
        A, L = I.get("area", one), I.get("length", one)
        S.require("label and data are kept", O["label"] and O["kept"] and O["time"])
        for i in range(self.n):
            S.eq("stretch", O["stretch"][i], (L + I["d"][i]) / L)
            S.eq("stress", O["stress"][i], I["f"][i] / A)
            S.eq("stress", O["again"][i], I["f"][i] / A, "second evaluation")
            S.eq("data unchanged", sym.lift(O["a"][i]), I["d"][i])
            S.eq("data unchanged", sym.lift(O["b"][i]), I["f"][i])


class Umat:
    """any material: the stress is an arbitrary function of the deformation that depends
    on named parameters (here: sum_k p_k (Q_k0 + Q_k1 F_ij))"""

    def __init__(self, api, Q, kw, log):
        self.api, self.Q, self.kw = api, Q, kw
        log.append(dict(kw))

    def gradient(self, x):
        F = x[0]
        P = self.api.np.zeros(F.shape)
        for k, name in enumerate(sorted(self.kw)):
            q = self.Q[k]
            P = P + self.kw[name] * (q[0].reshape(3, 3, 1, 1) + q[1].reshape(3, 3, 1, 1) * F)
        return P, None


def umat_stress(Q, pars, d, i):
    """P_ii of that material at the diagonal deformation d"""
    s = sym.const(0)
    for k, p in enumerate(pars):
        s = s + p * (Q[k, 0, i, i] + Q[k, 1, i, i] * d[i])
    return s


def sim_stress(Q, pars, case, l):
    d = loadF(case, l)
    return umat_stress(Q, pars, d, 0) - umat_stress(Q, pars, d, 2) * d[2] / d[0]


class Sim(Scenario):
    case = "Uniaxial"
    labels = ("a", "b")
    n = 2
    default = False
    container = "list"

    def bounds(self):
        return f"{self.n} stretches > 0, {len(self.labels)} parameters of any value, any material"

    def inputs(self, S):
        I = {"x": S.arr("x", (self.n,), 0.6, 1.8, pos=True), "y": S.arr("y", (self.n + 1,), 0.6, 1.8, pos=True),
             "Q": S.arr("Q", (len(self.labels), 2, 3, 3)), "p": S.arr("p", (len(self.labels),)), "r": S.arr("r", (len(self.labels),))}
        # other stretches between the same ends
        I["w"] = S.like([I["x"][0]] + [S.var(f"w{k}", 0.6, 1.8, pos=True) for k in range(1, self.n - (self.n > 2))] + ([I["x"][-1]] if self.n > 2 else []))
        return I

    def run(self, api, x, y, w, Q, p, r):
        log = []
        mat = lambda **kw: Umat(api, Q, kw, log)  # noqa: E731
        lc = getattr(api.he.lab, self.case)("lc")
        pp = None if self.default else (list(p) if self.container == "list" else p)
        kw = {} if self.default else {"parameters": pp}
        s = api.he.lab.Simulation(lc, x, list(self.labels), mat, **kw)
        O = {"stress": s.stress()}
        O["ends"] = s.stress_curve_fit(w, *r)
        O["other"] = s.stress_curve_fit(y, *r)
        O["again"] = s.stress()
        O["names"] = all(sorted(k) == sorted(self.labels) for k in log) and len(log) >= 1
        O["label"] = s.label == "lc"
        O["x"] = s.stretch
        s.parameters = list(r)
        O["changed"] = s.stress()
        # the same array with other stretches in it
        buf = y.copy()
        s.stress_curve_fit(buf, *r)
        buf[...] = 1 / y
        O["refilled"] = s.stress_curve_fit(buf, *r)
        s.stretch = w
        O["new stretch"] = s.stress()
        return O

    def check(self, S, I, O):
        S.require("the material is called with the labelled parameters", O["names"])
        S.require("label of the load case", O["label"])
        S.eq("stretch unchanged", O["x"], I["x"])
        order = [list(self.labels).index(n) for n in sorted(self.labels)]
        p = [sym.const(1) if self.default else I["p"][k] for k in order]
        r = [I["r"][k] for k in order]
        for name, par, xs in (("stress", p, "x"), ("again", p, "x"), ("changed", r, "x"), ("other", r, "y"), ("ends", r, "w"),
                              ("refilled", r, 1 / I["y"]), ("new stretch", r, "w")):
            xs = I[xs] if isinstance(xs, str) else xs
            S.require("one value per stretch", O[name].shape == xs.shape)
            S.eq("simulated normal force", O[name], _np.array([sim_stress(I["Q"], par, self.case, l) for l in xs], dtype=object), name)


class ClosedForm(Scenario):
    """simulated load cases of the built-in materials against the closed-form solutions"""
    case = "Uniaxial"
    space = "DeformationSpace"
    model = "tod"
    names = ("C10", "C01", "C20")
    side = 1
    n = 1

    def bounds(self):
        return f"any stretch {'> 1' if self.side > 0 else '< 1'}, any parameters {self.names if self.model == 'tod' else '(one Ogden term, any exponent)'}"

    def inputs(self, S):
        lo, hi = (1.1, 2.2) if self.side > 0 else (0.5, 0.9)
        l = S.var("x", lo, hi, pos=True)
        I = {"x": S.like([l])}
        if self.model == "tod":
            for n in self.names:
                I[n] = S.var(n)
                S.nz(I[n])
            if self.space == "DistortionalSpace":
                pass
        else:
            I["mu"] = S.var("mu")
            I["k"] = S.var("k", 0.4, 3.0, pos=True)
            # equal or separated squared stretches, in ascending order
            d = loadF(self.case, l)
            if self.side > 0:
                S.assume(sym.cmp0("ge", l - 1 - GAP))
            else:
                S.assume(sym.cmp0("ge", 1 - l - GAP))
            asc = {("Uniaxial", 1): (1, 2, 0), ("Uniaxial", -1): (0, 1, 2), ("Biaxial", 1): (2, 0, 1), ("Biaxial", -1): (0, 1, 2),
                   ("Planar", 1): (2, 1, 0), ("Planar", -1): (0, 1, 2)}[self.case, self.side]
            one, zero = sym.const(1), sym.const(0)
            N = [[one if asc[a] == i else zero for a in range(3)] for i in range(3)]
            w = [d[i] ** 2 for i in asc]
            for a in range(3):
                for b in range(a + 1, 3):
                    if w[a] is not w[b]:
                        S.ctx.known_pos.add(w[b] - w[a])
                        S.ctx.known_nz.add(w[b] - w[a])
                        S.ctx.known_nz.add(w[a] - w[b])

            def frame(m):
                for i in range(3):
                    for j in range(3):
                        x = sym.lift(m[i][j])
                        if i == j and x is not d[i] ** 2:
                            return None
                        if i != j and not (x.k == "c" and x.a == 0):
                            return None
                return w, N

            S.ctx.frames.append(frame)
        return I

    def run(self, api, x, **par):
        he = api.he

        def tod(**kw):
            return getattr(he, self.space)(he.InvariantsFramework(he.models.invariants.ThirdOrderDeformation(**kw)))

        def ogden(mu, k):
            return getattr(he, self.space)(he.StretchesFramework(he.models.stretches.Ogden([mu], [k])))

        lc = getattr(he.lab, self.case)()
        labels = list(par)
        s = he.lab.Simulation(lc, x, labels, tod if self.model == "tod" else ogden, [par[k] for k in labels])
        return {"s": s.stress()}

    def check(self, S, I, O):
        l = I["x"][0]
        d = loadF(self.case, l)
        if self.model == "tod":
            c = {n: I.get(n, sym.const(0)) for n in ("C10", "C01", "C11", "C20", "C30")}
            b = [x ** 2 for x in d]
            I1 = b[0] + b[1] + b[2]
            I2 = b[0] * b[1] + b[1] * b[2] + b[0] * b[2]
            w1 = c["C10"] + c["C11"] * (I2 - 3) + 2 * c["C20"] * (I1 - 3) + 3 * c["C30"] * (I1 - 3) ** 2
            w2 = c["C01"] + c["C11"] * (I1 - 3)
            # Rivlin: sigma_1 - sigma_3 = 2 (b1 - b3) (W1 + b2 W2)
            e = 2 * (b[0] - b[2]) * (w1 + b[1] * w2) / d[0]
        else:
            e = 2 * I["mu"] / I["k"] * (d[0] ** I["k"] - d[2] ** I["k"]) / d[0]
        S.eq("closed-form normal force", O["s"][0], e)


def spoil(v):
    """what a caller may do with a result"""
    if getattr(v, "ndim", 0) and v.flags.writeable and not any(t == 0 and n > 1 for t, n in zip(v.strides, v.shape)):
        v[...] = 0 * v - 7


class Together(Scenario):
    """several experiments and simulations at once, used alternately; the caller works with the results"""
    n = 2
    area = True

    def bounds(self):
        return f"three experiments and three simulations with any data, material, stretches ({self.n}) and parameters or default ones; results are overwritten by the caller, default parameters changed in place"

    def inputs(self, S):
        I = {}
        for k in range(2):
            I[f"d{k}"], I[f"f{k}"] = S.arr(f"d{k}", (self.n,)), S.arr(f"f{k}", (self.n,))
            if self.area:
                I[f"A{k}"], I[f"L{k}"] = S.var(f"A{k}", 0.5, 2.0, pos=True), S.var(f"L{k}", 0.5, 2.0, pos=True)
            I[f"x{k}"] = S.arr(f"x{k}", (self.n,), 0.6, 1.8, pos=True)
            I[f"Q{k}"] = S.arr(f"Q{k}", (2, 2, 3, 3))
            I[f"p{k}"] = S.arr(f"p{k}", (2,))
        return I

    def run(self, api, **I):
        lab = api.he.lab
        kw = [{"area": I[f"A{k}"], "length": I[f"L{k}"]} if self.area else {} for k in (0, 1)]
        e = [lab.Experiment(f"e{k}", I[f"d{k}"].copy(), I[f"f{k}"].copy(), **kw[k]) for k in (0, 1)]
        e.append(lab.Experiment("e2", I["d0"].copy(), I["f0"].copy()))
        O = {"e": [], "s": [], "d": [], "names": []}
        for rep in range(2):
            for k in range(3):
                v = e[k].stress()
                O["e"].append([e[k].stretch * 1, v * 1])
                spoil(v)
        O["data"] = [[x.displacement * 1, x.force * 1] for x in e]
        O["names"].append([x.label for x in e] == ["e0", "e1", "e2"])
        log = [[], []]
        mat = [(lambda k: lambda **kw: Umat(api, I[f"Q{k}"], kw, log[k]))(k) for k in (0, 1)]
        lc = [lab.Uniaxial(), lab.Biaxial(), lab.Planar("own"), lab.Uniaxial("other"), lab.Planar()]
        O["names"].append([x.label for x in lc[2:4]] == ["own", "other"])
        O["labels"] = [x.label for x in (lc[0], lc[1], lc[4])] == [getattr(lab, c)().label for c in ("Uniaxial", "Biaxial", "Planar")]
        one = lab.Simulation(lc[0], I["x0"].copy(), ["a", "b"], mat[0])
        two = lab.Simulation(lc[1], I["x1"].copy(), ["b", "a"], mat[1])
        three = lab.Simulation(lc[2], I["x0"].copy(), ["a", "b"], mat[1], I["p0"].copy())
        for s in (one, two, three):
            v = s.stress()
            O["s"].append(v * 1)
            spoil(v)
        if api.is_array(one.parameters) and one.parameters.flags.writeable and one.parameters.dtype.kind != "i":
            one.parameters[...] = I["p1"]
        else:
            one.parameters = I["p1"].copy()
        four = lab.Simulation(lc[4], I["x1"].copy(), ["a", "b"], mat[0])
        for s in (one, two, three, four):
            O["s"].append(s.stress())
        return O

    def check(self, S, I, O):
        S.require("labels", all(O["names"]) and O["labels"])
        unit = sym.const(1)
        for q, (x, y) in enumerate(O["e"]):
            k = q % 3
            src = 0 if k == 2 else k
            A, L = (I[f"A{k}"], I[f"L{k}"]) if self.area and k < 2 else (unit, unit)
            S.eq("stretch", x, _np.array([1 + v / L for v in I[f"d{src}"]], dtype=object))
            S.eq("stress", y, _np.array([v / A for v in I[f"f{src}"]], dtype=object))
        for k, (d, f) in enumerate(O["data"]):
            S.eq("measured displacements are kept", d, I[f"d{k % 2}"])
            S.eq("measured forces are kept", f, I[f"f{k % 2}"])
        ones = [unit, unit]
        want = [("Uniaxial", 0, 0, ones), ("Biaxial", 1, 1, ones), ("Planar", 1, 0, list(I["p0"])),
                ("Uniaxial", 0, 0, list(I["p1"])), ("Biaxial", 1, 1, ones), ("Planar", 1, 0, list(I["p0"])), ("Planar", 0, 1, ones)]
        for v, (case, q, x, p) in zip(O["s"], want):
            S.eq("simulated normal force", v, _np.array([sim_stress(I[f"Q{q}"], p, case, l) for l in I[f"x{x}"]], dtype=object))


def c26(tier):
    out = [Together("together"), Together("together-default", area=False)]
    for c in ("array", "list", "tuple"):
        out.append(Lists(f"experiment-{c}", container=c))
        out.append(Lists(f"experiment-{c}-default", container=c, kw=()))
    out.append(Lists("experiment-area", kw=("area",)))
    out.append(Lists("experiment-length", kw=("length",)))
    for c in CASES:
        out.append(Sim(f"simulation-{c}", case=c))
        out.append(Sim(f"simulation-{c}-three", case=c, n=3))
    out.append(Sim("simulation-default", default=True))
    out.append(Sim("simulation-order", labels=("z", "a", "m")))
    out.append(Sim("simulation-array", container="array", labels=("b", "a")))
    out.append(Sim("simulation-one", labels=("mu",), n=1))
    for c in CASES:
        for sp in ("DeformationSpace", "DistortionalSpace"):
            out.append(ClosedForm(f"closed-{c}-{sp}", case=c, space=sp))
            if tier == "thorough":
                out.append(ClosedForm(f"closed-{c}-{sp}-all", case=c, space=sp, names=("C10", "C01", "C11", "C20", "C30")))
            for sd in (1, -1):
                if tier == "thorough" or sp == "DeformationSpace" or sd > 0:
                    out.append(ClosedForm(f"closed-ogden-{c}-{sp}{sd:+d}", case=c, space=sp, model="ogden", side=sd))
    if tier == "thorough":
        out.append(Sim("simulation-many", labels=("z", "a", "m", "b"), n=4))
    out += [Whole(f"integers-{c}", case=c) for c in CASES] + [WholeData("experiment-integers"), WholeData("experiment-integers-list", container="list")]
    out += [Lists("experiment-large", n=130), Lists("experiment-large-list", n=70, container="list"), Sim("simulation-large", n=130)]
    return out


# ------------------------------------------------------------------ optimisation
class Fit(Scenario):
    """the bookkeeping of the fit around an arbitrary optimiser result"""
    nsim = 2
    npar = 2
    mask = None           # None, "slice", "index", "bool", "permutation", "repeated"
    options = "keyword"
    start = "array"
    rounds = 1
    npts = 2
    init_only = False
    sizes = (2, 3, 2)
    units = False         # areas and lengths of any value
    change = ()           # what is changed between the fits: mask, force, start, experiment

    def bounds(self):
        return f"{self.nsim} experiments with {self.sizes[:self.nsim]} points{' of any area and length' if self.units else ''}, {self.npar} parameters, mask {self.mask}; the optimiser returns any parameters and covariance after evaluating the model anywhere" \
            + (f"; {self.rounds} fits" if self.rounds > 1 else "") + (f", with changed {', '.join(self.change)} in between" if self.change else "")

    def inputs(self, S):
        I = {}
        n = self.npar
        for k in range(self.nsim):
            I[f"d{k}"] = S.arr(f"d{k}", (self.sizes[k],), 0.1, 0.9)
            I[f"f{k}"] = S.arr(f"f{k}", (self.sizes[k],))
            if self.units:
                I[f"A{k}"], I[f"L{k}"] = S.var(f"A{k}", 0.5, 2.0, pos=True), S.var(f"L{k}", 0.5, 2.0, pos=True)
            if "experiment" in self.change:
                I[f"d{k}x"] = S.arr(f"d{k}x", (self.sizes[k],), 0.1, 0.9)
            if set(self.change) & {"experiment", "force"}:
                I[f"f{k}x"] = S.arr(f"f{k}x", (self.sizes[k],))
            for i, v in enumerate(list(I[f"d{k}"]) + list(I.get(f"d{k}x", []))):
                S.pos(v + I[f"L{k}"] if self.units else v + 1)
                if self.units:
                    sym.cut(f"l{k}_{i}", 1 + v / I[f"L{k}"], pos=True)
            I[f"Q{k}"] = S.arr(f"Q{k}", (n, 2, 3, 3))
        I["p"] = S.arr("p", (n,))
        if "start" in self.change:
            I["px"] = S.arr("px", (n,))
        if self.start == "ints":
            I["p"] = shim.obj([sym.const(k) for k in range(1, n + 1)])
        for r in range(self.rounds):
            I[f"popt{r}"] = S.arr(f"popt{r}", (n,))
            I[f"trial{r}"] = S.arr(f"trial{r}", (n,))
            cov = symarr(S, f"cov{r}_", n)
            for i in range(n):
                cov[i, i] = S.var(f"cov{r}_{i}{i}d", 0.2, 2.0, pos=True)
            I[f"pcov{r}"] = cov
            for v in I[f"popt{r}"]:
                S.nz(v)
        S.res = {}
        for n in ["p"] + [f"popt{r}" for r in range(self.rounds)]:
            x, y, f, _ = self.data(I, I[n], int(n[4:] or 0))
            S.res[n] = [sym.cut(f"r{n}_{k}", v, pos=False) for k, v in enumerate(f - y)]
            s = sum((v * v for v in S.res[n][1:]), S.res[n][0] * S.res[n][0])
            S.nz(s)
            S.pos(s)
        return I

    def norm(self, S, n):
        return sum((v * v for v in S.res[n][1:]), S.res[n][0] * S.res[n][0]).sqrt()

    def masks(self, np, r=0):
        if "mask" in self.change and r:
            return [slice(0, 1), [1], [-1, 0]][:self.nsim] if r % 2 else [slice(None)] * self.nsim
        if self.mask is None:
            return None
        if self.mask == "large":
            return [_np.arange(n) % 3 != 1 for n in self.sizes[:self.nsim]]
        full = {"slice": [slice(1, None), slice(0, 2), slice(None, None, -1)],
                "index": [[1, 0], [0, 2], [1]],
                "permutation": [[1, 0], [2, 0, 1], slice(None, None, -1)],
                "repeated": [[0, 0, 1], [2, 2], [1, 0, 1]],
                "bool": [np.array([True, False]), np.array([True, False, True]), np.array([False, True])]}[self.mask]
        return full[:self.nsim]

    def build(self, api, p, **I):
        np, lab = api.np, api.he.lab
        labels = ["m", "a", "z"][:self.npar]
        log = []
        exps, sims, orig = [], [], []
        for k in range(self.nsim):
            e = lab.Experiment(f"e{k}", I[f"d{k}"], I[f"f{k}"], **({"area": I[f"A{k}"], "length": I[f"L{k}"]} if self.units else {}))
            exps.append(e)
            lc = getattr(lab, CASES[k])()
            mat = (lambda Q: lambda **kw: Umat(api, Q, kw, log))(I[f"Q{k}"])
            sims.append(lab.Simulation(lc, e.stretch, labels, mat))
        p0 = {"array": lambda: p.copy(), "list": lambda: [v for v in p], "tuple": lambda: tuple(v for v in p),
              "ints": lambda: _np.arange(1, self.npar + 1)}[self.start]()
        kw = {} if self.mask is None else {"mask": self.masks(_np)}
        return lab.Optimize(exps, sims, p0, **kw), exps, sims

    def read(self, api, o, sims, ret, r=0):
        np = api.np
        return {f"n{r}": len(ret), f"p{r}": np.asarray(ret[0]) * 1, f"cov{r}": ret[1], f"own{r}": np.asarray(o.parameters) * 1, f"err{r}": o.errors * 1,
                f"res{r}": o.residuals * 1, f"norm{r}": o.norm_residuals(), f"std{r}": o.mean_relative_std(),
                f"simp{r}": [np.asarray(s.parameters) * 1 for s in sims], f"sims{r}": [s.stress() for s in sims]}

    def hook(self, api, I, rounds):
        np = api.np

        def hook(f, xdata, ydata, p0=None, *a, **k):
            r = len(rounds)
            d = {"x": np.asarray(xdata) * 1, "y": np.asarray(ydata) * 1, "p0": np.asarray(p0) * 1,
                 "f": f(xdata, *I[f"trial{r}"]), "f2": f(xdata, *I[f"popt{r}"]), "kw": sorted(k), "args": len(a),
                 "val": str(k.get("method")), "pos": repr(a)}
            rounds.append(d)
            return I[f"popt{r}"].copy(), I[f"pcov{r}"].copy()

        return hook

    def run(self, api, **I):
        np, lab = api.np, api.he.lab
        o, exps, sims = self.build(api, **I)
        O = {}
        if self.init_only:
            r = o.init_curve_fit()
            O["p"] = np.asarray(r) * 1
            O["res"] = o.residuals
            O["norm"] = o.norm_residuals()
            O["simp"] = [np.asarray(s.parameters) * 1 for s in sims]
            return O
        rounds = []
        api.curve_fit(self.hook(api, I, rounds))
        for r in range(self.rounds):
            if r:
                if "mask" in self.change:
                    o.mask = self.masks(_np, r)
                if "start" in self.change and r == 1:
                    o.parameters = I["px"].copy()
                for k in range(self.nsim):
                    if "experiment" in self.change:
                        exps[k] = lab.Experiment(f"e{k}", I[f"d{k}x"], I[f"f{k}x"], **({"area": I[f"A{k}"], "length": I[f"L{k}"]} if self.units else {}))
                        sims[k].stretch = exps[k].stretch
                    elif "force" in self.change:
                        exps[k].force = I[f"f{k}x"]
                o.experiments = exps
            ret = o.curve_fit(method="lm") if self.options == "keyword" else o.curve_fit(None, True, check_finite=False)
            O.update(self.read(api, o, sims, ret, r))
            O[f"call{r}"] = rounds[r]
        return O

    def data(self, I, pars, r=0):
        """masked stretches, stresses and the model's response for the parameters"""
        ms = self.masks(_np, r) or [slice(None)] * self.nsim
        labels = ["m", "a", "z"][:self.npar]
        order = [labels.index(n) for n in sorted(labels)]
        xs, ys, fs, full = [], [], [], []
        for k in range(self.nsim):
            d, fo = I[f"d{k}"], I[f"f{k}"]
            if r:
                d, fo = I.get(f"d{k}x", d), I.get(f"f{k}x", fo)
            L, A = (I[f"L{k}"], I[f"A{k}"]) if self.units else (1, 1)
            st = _np.array([1 + v / L if self.units else 1 + v for v in d], dtype=object)
            fo = _np.array([v / A if self.units else v for v in fo], dtype=object)
            xs += list(st[ms[k]])
            ys += list(fo[ms[k]])
            fs += [sim_stress(I[f"Q{k}"], [pars[q] for q in order], CASES[k], l) for l in st[ms[k]]]
            full.append([sim_stress(I[f"Q{k}"], [pars[q] for q in order], CASES[k], l) for l in st])
        a = lambda v: _np.array(v, dtype=object)  # noqa: E731
        return a(xs), a(ys), a(fs), [a(v) for v in full]

    def check(self, S, I, O):
        if self.init_only:
            x, y, f, _ = self.data(I, I["p"])
            S.eq("initial parameters", O["p"], I["p"])
            S.eq("initial residuals", O["res"], f - y)
            S.eq("norm of the residuals", O["norm"], self.norm(S, "p"))
            for v in O["simp"]:
                S.eq("simulations hold the parameters", v, I["p"])
            return
        start = I["p"]
        for r in range(self.rounds):
            popt, cov = I[f"popt{r}"], I[f"pcov{r}"]
            x, y, f, full = self.data(I, popt, r)
            call = O[f"call{r}"]
            S.require("two results", O[f"n{r}"] == 2)
            if self.options == "keyword":
                S.require("options are passed on", call["kw"] == ["method"] and call["val"] == "lm" and call["args"] == 0)
            else:
                S.require("options are passed on", call["kw"] == ["check_finite"] and call["pos"] == "(None, True)")
            S.require("one data vector over all experiments", call["x"].shape == x.shape and call["y"].shape == y.shape
                      and call["f"].shape == x.shape)
            S.eq("fitted stretches", call["x"], x)
            S.eq("fitted data", call["y"], y)
            S.eq("initial guess", call["p0"], start)
            S.eq("objective", call["f"], self.data(I, I[f"trial{r}"], r)[2])
            S.eq("objective", call["f2"], f)
            S.eq("returned parameters", O[f"p{r}"], popt)
            S.eq("stored parameters", O[f"own{r}"], popt)
            S.eq("returned covariance", O[f"cov{r}"], cov)
            S.eq("standard deviations", O[f"err{r}"], _np.array([cov[i, i].sqrt() for i in range(self.npar)], dtype=object))
            S.eq("residuals", O[f"res{r}"], f - y)
            S.eq("norm of the residuals", O[f"norm{r}"], self.norm(S, f"popt{r}"))
            e = sum((cov[i, i].sqrt() / abs(sym.lift(popt[i])) for i in range(self.npar)), sym.const(0)) * 100 / self.npar
            S.eq("mean relative standard deviation", O[f"std{r}"], e)
            for k in range(self.nsim):
                S.eq("simulations hold the parameters", O[f"simp{r}"][k], popt)
                S.eq("simulations use the parameters", O[f"sims{r}"][k], full[k])
            start = I["px"] if "start" in self.change and r == 0 else popt


class Fits(Scenario):
    """two optimisations set up together, fitted one after the other, read out at the end"""
    order = (0, 1)

    def __init__(self, id, first, second, **kw):
        self.parts = [first, second]
        Scenario.__init__(self, id, **kw)

    def bounds(self):
        return f"{self.parts[0].bounds()} -- and -- {self.parts[1].bounds()}; both set up, then fitted in the order {self.order}, then read out"

    def inputs(self, S):
        I = {}
        S.parts = []
        for k, s in enumerate(self.parts):
            P = Part(S, "2nd " if k else "", lambda n: False)
            rename, sym.RENAME[0] = sym.RENAME[0], P.name
            try:
                S.parts.append((P, s.inputs(P)))
            finally:
                sym.RENAME[0] = rename
            I.update({f"p{k}_{n}": v for n, v in S.parts[-1][1].items()})
        return I

    def run(self, api, **I):
        P = [{n[3:]: v for n, v in I.items() if n.startswith(f"p{k}_")} for k in (0, 1)]
        B = [s.build(api, **p) for s, p in zip(self.parts, P)]
        rounds, ret = [[], []], [None, None]
        for k in self.order:
            api.curve_fit(self.parts[k].hook(api, P[k], rounds[k]))
            ret[k] = B[k][0].curve_fit(method="lm")
        out = []
        for k in (0, 1):
            o = self.parts[k].read(api, B[k][0], B[k][2], ret[k])
            o["call0"] = rounds[k][0]
            out.append(o)
        return {"r": out}

    def check(self, S, I, O):
        for k, s in enumerate(self.parts):
            P, i = S.parts[k]
            s.check(P, i, O["r"][k])


def c27(tier):
    pair = [("one", dict(nsim=1, npar=2), dict(nsim=1, npar=2)), ("same", dict(nsim=2), dict(nsim=2)), ("mixed", dict(nsim=1, npar=1, units=True), dict(nsim=2, mask="slice"))]
    fits = [Fits(f"together-{n}{''.join(map(str, o))}", Fit("first", **a), Fit("second", **b), order=o) for n, a, b in pair for o in ((0, 1), (1, 0))]
    return fits + c27_fits(tier)


def c27_fits(tier):
    out = [Fit("two", nsim=2), Fit("one", nsim=1, npar=1), Fit("three", nsim=3, npar=2), Fit("init", init_only=True), Fit("init-mask", init_only=True, mask="index")]
    for m in ("slice", "index", "bool", "permutation", "repeated"):
        out.append(Fit(f"mask-{m}", mask=m))
    for s in ("list", "tuple", "ints"):
        out.append(Fit(f"start-{s}", start=s))
    out.append(Fit("options", options="positional"))
    out.append(Fit("refit", rounds=2))
    if tier == "thorough":
        out.append(Fit("three-mask", nsim=3, npar=3, mask="slice"))
        out.append(Fit("refit3", rounds=3, nsim=2, mask="bool"))
    out += [Fit("units", units=True), Fit("units-mask", units=True, mask="index"), Fit("units-init", units=True, init_only=True)]
    for c in ("mask", "force", "start", "experiment"):
        out.append(Fit(f"refit-{c}", rounds=2, change=(c,)))
    out.append(Fit("refit-all", rounds=2, change=("mask", "experiment", "start"), units=True, mask="bool"))
    out += [Fit("large", sizes=(40, 25, 2)), Fit("large-mask", sizes=(25, 40, 2), mask="large")]
    return out
