"""How the classes behave as objects: batches, purity and history, state variables."""
import copy

from .common import *  # noqa: F401,F403
from .common import _np
from .spaces import NAMES
from .integration import sym_F_polar, TOD
from vf import sym

PK = ("distinct", "low pair", "high pair", "all equal")


# ------------------------------------------------------------------ what is exercised
class Target:
    """makes objects and their inputs: x is one argument (a batch of points)"""
    lead = 1                    # leading axes of x
    state = None

    def params(self, S, trax):
        return {}

    def x(self, S, name, trax):
        raise NotImplementedError

    def make(self, api, I):
        raise NotImplementedError

    def g(self, o, x):
        raise NotImplementedError

    def h(self, o, x):
        raise NotImplementedError

    def owned(self, o):
        """arrays which belong to the user's model"""
        return []


class SpaceT(Target):
    lead = 2

    def __init__(self, kind, force=None, area=0, finalize=True, linear=False, full=False, parallel=False):
        self.kind, self.force, self.area, self.finalize, self.linear, self.full, self.parallel = kind, force, area, finalize, linear, full, parallel
        self.name = f"{kind} space" + (f" f{force} a{area}" if (force, area) != (None, 0) else "") + ("" if finalize else " raw") \
            + (" linear" if linear else "") + (" full" if full else "") + (" parallel" if parallel else "")

    def params(self, S, trax):
        return {"g": S.arr("g", (6,)), "H": None if self.linear else symarr(S, "H")}

    def x(self, S, name, trax):
        return sym_F(S, name, trax)

    def make(self, api, I):
        self.m = TLKeep(api.np, I["g"], I["H"], full=self.full)
        if self.parallel:
            api.nproc(2)
        return getattr(api.he, NAMES[self.kind])(self.m, force=self.force, area=self.area, finalize=self.finalize, parallel=self.parallel)

    def g(self, o, x):
        return o.gradient([x, None])[:1]

    def h(self, o, x):
        return o.hessian([x, None])


class TLKeep(TLModel):
    """a material which keeps what it returned and returns it again for the same argument"""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.kept = []

    def remember(self, x):
        self.kept.append((x, x.copy()))
        return x

    def gradient(self, C, statevars):
        g, z = super().gradient(C, statevars)
        return self.remember(g), z

    def hessian(self, C, statevars):
        return self.remember(super().hessian(C, statevars))


class InvT(Target):
    def __init__(self, mask=(1, 1, 1), full=False):
        self.mask, self.full = mask, full
        self.name = "invariants framework " + "".join(map(str, mask)) + (" full" if full else "")

    def params(self, S, trax):
        I = {}
        for i in range(3):
            I[f"a{i}"] = S.var(f"a{i}")
            for j in range(i, 3):
                I[f"B{i}{j}"] = S.var(f"B{i}{j}") if self.mask[i] and self.mask[j] else sym.const(0)
        return I

    def x(self, S, name, trax):
        return sym_C(S, name, trax)

    def make(self, api, I):
        self.m = InvKeep([I[f"a{i}"] for i in range(3)], B_of(I), self.mask)
        self.m.full = self.full
        self.m.kept = []
        return api.he.InvariantsFramework(self.m)

    def g(self, o, x):
        return o.gradient(x, None)[:1]

    def h(self, o, x):
        return [o.hessian(x, None)]


class InvKeep(InvModel):
    def keep(self, out, like):
        r = []
        for v in out:
            if v is not None and self.full:
                v = v + 0 * like
            if hasattr(v, "shape") and getattr(v, "ndim", 0):
                self.kept.append((v, v.copy()))
            r.append(v)
        return r

    def gradient(self, I1, I2, I3, statevars):
        out = super().gradient(I1, I2, I3, statevars)
        return (*self.keep(out[:3], I1), out[3])

    def hessian(self, I1, I2, I3, statevars):
        return self.keep(super().hessian(I1, I2, I3, statevars), I1)


class StretchT(Target):
    def __init__(self, patterns=("distinct",), form="array", model="any"):
        self.patterns, self.form, self.model = patterns, form, model
        self.name = f"stretches framework {'+'.join(patterns)} {form} {model}"

    def params(self, S, trax):
        if self.model == "ogden":
            I = {}
            for k in range(2):
                I[f"mu{k}"] = S.var(f"mu{k}")
                I[f"k{k}"] = S.nz(S.var(f"k{k}", 0.4, 3.0, pos=True) if k == 0 else S.var(f"k{k}", -3.0, -0.4))
            return I
        pats = set(self.patterns)
        pat = next(iter(pats)) if len(pats) == 1 else "all equal"
        return stretch_coeffs(S, pat, self.form)

    def x(self, S, name, trax):
        C = _np.empty((6,) + trax, dtype=object)
        for n, idx in enumerate(grid(*trax)):
            suf = name + "".join(f"_{k}" for k in idx)
            lam = sym_stretches(S, self.patterns[n % len(self.patterns)], f"lam{suf}_")
            N = sym_frame(S, f"q{suf}_")
            c = register_frame(S, lam, N, f"c{suf}_")
            for k in range(6):
                C[(k,) + idx] = c[k]
        return S.like(C)

    def make(self, api, I):
        if self.model == "ogden":
            self.m = api.he.models.stretches.Ogden([I["mu0"], I["mu1"]], [I["k0"], I["k1"]])
        else:
            self.m = StretchKeep(api.np, [I[f"a{i}"] for i in range(3)], B_of(I), self.form)
        self.m.kept = []
        return api.he.StretchesFramework(self.m)

    def g(self, o, x):
        return o.gradient(x, None)[:1]

    def h(self, o, x):
        return [o.hessian(x, None)]


class StretchKeep(StretchModel):
    def gradient(self, stretches, statevars):
        out, z = super().gradient(stretches, statevars)
        return self.remember(out), z

    def hessian(self, stretches, statevars):
        return self.remember(super().hessian(stretches, statevars))

    def remember(self, out):
        for v in (out if isinstance(out, list) else [out]):
            if hasattr(v, "shape") and getattr(v, "ndim", 0):
                self.kept.append((v, v.copy()))
        return out


class GenT(Target):
    """generalized invariants, framework level, on the built-in strain measures"""

    def __init__(self, patterns=("distinct",), fun="strain", mask=(1, 1, 0), level="framework"):
        self.patterns, self.fun, self.mask, self.level = patterns, fun, mask, level
        self.name = f"generalized {level} {fun} {'+'.join(patterns) if level == 'framework' else ''} {''.join(map(str, mask))}"

    def params(self, S, trax):
        I = InvT.params(self, S, trax)
        I["k"] = S.var("k", 0.4, 1.8, pos=True)
        if self.fun == "strain":
            pass
        else:
            # the normalisation factors of the invariants exist
            S.nz(I["k"])
        return I

    def x(self, S, name, trax):
        if self.level == "framework":
            return StretchT.x(self, S, name, trax)
        return S.arr(name, (3,) + trax, 0.6, 1.7, pos=True)

    def make(self, api, I):
        self.m = InvKeep([I[f"a{i}"] for i in range(3)], B_of(I), self.mask)
        self.m.full, self.m.kept = False, []
        f = getattr(api.he.models.generalized, self.fun)
        if self.level == "framework":
            return api.he.GeneralizedInvariantsFramework(self.m, f, exponent=I["k"])
        return api.he.models.stretches.GeneralizedInvariantsModel(self.m, f, exponent=I["k"])

    def g(self, o, x):
        return o.gradient(x, None)[:1]

    def h(self, o, x):
        return [o.hessian(x, None)]


class OgdenT(StretchT):
    """Ogden model, model level"""

    def __init__(self, container="list"):
        StretchT.__init__(self, ("distinct",), model="ogden")
        self.container = container
        self.name = f"ogden {container}"

    def x(self, S, name, trax):
        return S.arr(name, (3,) + trax, 0.6, 1.7, pos=True)

    def make(self, api, I):
        mu, al = [I["mu0"], I["mu1"]], [I["k0"], I["k1"]]
        if self.container == "array":
            mu, al = api.np.array(mu), api.np.array(al)
        self.m = api.he.models.stretches.Ogden(mu, al)
        self.m.kept = []
        if self.container == "array":
            self.m.kept = [(mu, mu.copy()), (al, al.copy())]
        return self.m

    def g(self, o, x):
        return o.gradient(x, None)[:1]

    def h(self, o, x):
        return [h for h in o.hessian(x, None) if h is not None]


class TodT(Target):
    def __init__(self, strain=False):
        self.strain = strain
        self.name = "third-order deformation" + (" strain" if strain else "")

    def params(self, S, trax):
        return {n: S.nz(S.var(n)) for n in TOD}

    def x(self, S, name, trax):
        return S.arr(name, (3,) + trax, 0.5, 4.5)

    def make(self, api, I):
        self.m = api.he.models.invariants.ThirdOrderDeformation(**{n: I[n] for n in TOD}, **({"strain": True} if self.strain else {}))
        self.m.kept = []
        return self.m

    def g(self, o, x):
        return [v for v in o.gradient(x[0], x[1], x[2], None)[:3] if v is not None]

    def h(self, o, x):
        return [v for v in o.hessian(x[0], x[1], x[2], None) if v is not None]


class WholeT(Target):
    lead = 2

    def __init__(self, kind, model, pattern="distinct"):
        self.kind, self.model, self.pattern = kind, model, pattern
        self.name = f"{model} {pattern if model == 'ogden' else ''} in the {kind} space"

    def params(self, S, trax):
        return TodT.params(self, S, trax) if self.model == "tod" else StretchT.params(self, S, trax)

    def x(self, S, name, trax):
        if self.model == "tod":
            return sym_F(S, name, trax)
        F = _np.empty((3, 3) + trax, dtype=object)
        for idx in grid(*trax):
            Fm = sym_F_polar(S, self.pattern, name + "".join(f"_{k}" for k in idx))[0]
            for i in range(3):
                for j in range(3):
                    F[(i, j) + idx] = Fm[i][j]
        return S.like(F)

    def make(self, api, I):
        he = api.he
        if self.model == "tod":
            m = he.models.invariants.ThirdOrderDeformation(**{n: I[n] for n in TOD})
            fw = he.InvariantsFramework(m)
        else:
            m = he.models.stretches.Ogden([I["mu0"], I["mu1"]], [I["k0"], I["k1"]])
            fw = he.StretchesFramework(m)
        self.m = m
        m.kept = []
        return getattr(he, NAMES[self.kind])(fw)

    g = SpaceT.g
    h = SpaceT.h


def targets(tier, wide=True):
    T = []
    for kind in NAMES:
        T += [SpaceT(kind), SpaceT(kind, full=True), SpaceT(kind, linear=True)]
        for f, a in ((0, 0), (None, None), (0, None)):
            T.append(SpaceT(kind, f, a))
            T.append(SpaceT(kind, f, a, full=True))
        T.append(SpaceT(kind, finalize=False))
        T.append(SpaceT(kind, finalize=False, full=True))
        T.append(SpaceT(kind, parallel=True, full=True))
        T.append(WholeT(kind, "tod"))
    T.append(WholeT("deformation", "ogden"))
    for m in ((1, 1, 1), (1, 0, 0), (0, 1, 0), (0, 0, 1)):
        T += [InvT(m), InvT(m, True)]
    for p in PK:
        T.append(StretchT((p,)))
        T.append(StretchT((p,), form="list"))
    T.append(StretchT(("distinct", "low pair", "all equal", "high pair")))
    T.append(StretchT(("all equal", "distinct")))
    T.append(StretchT(("low pair", "high pair"), form="diag"))
    T.append(StretchT(("distinct", "high pair"), model="ogden"))
    T += [GenT(), GenT(("low pair", "distinct"), "deformation"), GenT(("distinct",), "strain", (0, 0, 1))]
    T += [GenT(level="model", mask=(1, 1, 1)), GenT(level="model", fun="deformation", mask=(0, 1, 1))]
    T += [OgdenT(), OgdenT("array"), TodT(), TodT(True)]
    return T


# ------------------------------------------------------------------ C18
class Batch(Scenario):
    """every point of a batch gets the result of that point alone"""
    target = None
    trax = (2,)
    single = (1,)
    generic = True
    atol = 1e-9
    max_validate = 1

    def bounds(self):
        return f"{self.target.name}: all parameters, any points, batch shape {self.trax} against each point alone (shape {self.single})" + (f", array stored {self.layout}" if self.layout else "")

    def inputs(self, S):
        I = self.target.params(S, self.trax)
        I["x"] = self.target.x(S, "x", self.trax)
        return I

    def run(self, api, x, **I):
        T = self.target
        o = T.make(api, I)
        O = {"g": T.g(o, x), "h": T.h(o, x)}
        for n, idx in enumerate(grid(*self.trax)):
            xi = x[(slice(None),) * T.lead + idx].copy()
            xi = xi.reshape(xi.shape + self.single)
            o = T.make(api, I)
            O[f"g{n}"], O[f"h{n}"] = T.g(o, xi), T.h(o, xi)
        return O

    def check(self, S, I, O):
        nt = len(self.trax)
        for w in "gh":
            for n, idx in enumerate(grid(*self.trax)):
                S.require("number of results", len(O[w]) == len(O[f"{w}{n}"]))
                for q, (a, b) in enumerate(zip(O[w], O[f"{w}{n}"])):
                    a = _np.asarray(a if not isinstance(a, sym.Node) else sym._obj0(a), dtype=object)
                    b = _np.asarray(b if not isinstance(b, sym.Node) else sym._obj0(b), dtype=object)
                    nb = b.ndim - len(self.single)
                    if b.ndim == 0 or a.ndim == 0:
                        S.eq("point result", a, b)
                        continue
                    tail = a.shape[nb:]
                    S.require("batch axes", len(tail) == nt and all(t in (1, m) for t, m in zip(tail, self.trax)))
                    pa = a[(slice(None),) * nb + tuple(0 if t == 1 else k for t, k in zip(tail, idx))]
                    S.eq({"g": "stress or gradient", "h": "elasticity or hessian"}[w], pa, b.reshape(b.shape[:nb]))


class Wide(Batch):
    """large batches: a few different points of any value, each at many positions"""
    distinct = 3

    def bounds(self):
        return f"{self.target.name}: all parameters, batch shape {self.trax} filled with {self.distinct} different points of any value in a fixed irregular order"

    def inputs(self, S):
        I = self.target.params(S, (self.distinct,))
        I["x"] = self.target.x(S, "x", (self.distinct,))
        return I

    def places(self):
        return [(n * n // 5 + n // 7 + n) % self.distinct for n in range(int(_np.prod(self.trax)))]

    def run(self, api, x, **I):
        T = self.target
        o = T.make(api, I)
        big = x[..., self.places()].reshape(x.shape[:-1] + self.trax).copy()
        O = {"g": T.g(o, big), "h": T.h(o, big)}
        for n in range(self.distinct):
            xi = x[..., n:n + 1].copy()
            o = T.make(api, I)
            O[f"g{n}"], O[f"h{n}"] = T.g(o, xi), T.h(o, xi)
        return O

    def check(self, S, I, O):
        nt = len(self.trax)
        where = _np.array(self.places()).reshape(self.trax)
        for w in "gh":
            S.require("number of results", all(len(O[w]) == len(O[f"{w}{n}"]) for n in range(self.distinct)))
            for q, a in enumerate(O[w]):
                a = _np.asarray(a if not isinstance(a, sym.Node) else sym._obj0(a), dtype=object)
                B = []
                for n in range(self.distinct):
                    b = O[f"{w}{n}"][q]
                    B.append(_np.asarray(b if not isinstance(b, sym.Node) else sym._obj0(b), dtype=object))
                if a.ndim == 0 or B[0].ndim == 0:
                    S.eq("point result", a, B[0])
                    continue
                nb = B[0].ndim - 1
                tail = a.shape[nb:]
                S.require("batch axes", a.shape[:nb] == B[0].shape[:nb] and len(tail) == nt and all(t in (1, m) for t, m in zip(tail, self.trax)))
                want = _np.stack([b[..., 0] for b in B], axis=-1)[..., where]
                S.eq({"g": "stress or gradient", "h": "elasticity or hessian"}[w], _np.broadcast_to(a, want.shape), want)


def wide_targets():
    T = []
    for kind in NAMES:
        T += [SpaceT(kind), SpaceT(kind, full=True), SpaceT(kind, 0, 0, full=True), SpaceT(kind, parallel=True, full=True), SpaceT(kind, finalize=False, full=True)]
    T += [InvT(), InvT(full=True), InvT((1, 0, 0)), StretchT(("distinct", "low pair", "all equal")), StretchT(("all equal", "high pair", "distinct"), form="list"), StretchT(("distinct",)),
          GenT(), GenT(level="model", mask=(1, 1, 1)), OgdenT(), TodT()]
    return T


def c18(tier):
    out = []
    for n, T in enumerate(wide_targets()):
        for trax in EDGE + ((17,), (129,), (8, 16)) if tier == "quick" else EDGE + ((6, 2), (3, 4), (4, 6), (3, 3, 3), (9,), (17,), (33,), (131,), (200,), (256,), (1030,), (8, 16), (4, 130), (2, 1030)):
            out.append(Wide(f"wide {T.name} {trax}", target=T, trax=trax))
        for trax in beyond():
            if n in (1, 6, 11, 15, 18, 19, 21, 23):
                out.append(Wide(f"wide {T.name} {trax}", target=T, trax=trax, optional=True, budget=300.0))
    for T in targets(tier):
        mixed = getattr(T, "patterns", ("x",))
        trax = (4,) if len(mixed) == 4 else (2,)
        out.append(Batch(f"{T.name} {trax}", target=T, trax=trax))
        if tier == "thorough" or isinstance(T, (InvT, SpaceT)) and T.full and getattr(T, "area", 0) == 0:
            out.append(Batch(f"{T.name} (2, 2)", target=T, trax=(2, 2), single=(1, 1)))
            out.append(Batch(f"{T.name} (1, 2)", target=T, trax=(1, 2), single=()))
            out.append(Batch(f"{T.name} (2, 1)", target=T, trax=(2, 1), single=(1,)))
    # the same points stored differently
    lay = ["fortran", "strided", "reversed"]
    for n, T in enumerate(targets(tier)):
        some = isinstance(T, (SpaceT, InvT)) and T.full and getattr(T, "area", 0) == 0 or isinstance(T, GenT) or isinstance(T, StretchT) and len(T.patterns) > 1
        if some or tier == "thorough":
            for k, how in enumerate(lay):
                if tier == "thorough" or k == n % 3:
                    out.append(Batch(f"{T.name} (2, 2) {how}", target=T, trax=(2, 2), layout=how))
    return out


# ------------------------------------------------------------------ C19
def overwrite(v):
    """what a caller may do with a result: scale it in place"""
    if getattr(v, "ndim", 0) and v.flags.writeable and not any(t == 0 and n > 1 for t, n in zip(v.strides, v.shape)):
        v[...] = v * 3 + 1


class History(Scenario):
    """results depend on the arguments only: not on earlier calls, other objects or later
    writes; arguments, earlier results and the model's arrays are left alone"""
    target = None
    trax = (1,)
    order = "ghGHg"
    frozen = False
    trax2 = None                # shape of the second argument, if different
    mutate = False              # the caller overwrites the results
    generic = True
    atol = 1e-9
    max_validate = 1

    def bounds(self):
        second = "" if self.trax2 is None else f" and {self.trax2}"
        return f"{self.target.name}: all parameters, any two arguments of shape {self.trax}{second}; call sequence {self.order} (capitals: second argument)" \
            + ("; read-only arguments" if self.frozen else "") + ("; the caller overwrites every result before the next call" if self.mutate else "")

    def inputs(self, S):
        I = self.target.params(S, self.trax)
        I["x"] = self.target.x(S, "x", self.trax)
        I["y"] = self.target.x(S, "y", self.trax if self.trax2 is None else self.trax2)
        return I

    def run(self, api, x, y, **I):
        T = self.target
        x0, y0 = x.copy(), y.copy()
        if self.frozen:
            x.flags.writeable = False
            y.flags.writeable = False
        o = T.make(api, I)
        m = T.m
        other = T.make(api, I)
        first, live = [], []
        for k, c in enumerate(self.order):
            r = (T.g if c in "gG" else T.h)(o, x if c in "gh" else y)
            r = list(r)
            first.append([v.copy() if hasattr(v, "copy") else v for v in r])
            live.append(first[-1] if self.mutate else r)
            if self.mutate:
                for v in r:
                    overwrite(v)
            if k == 1:
                T.h(other, y)     # an independent object in between
                T.g(other, x)
        fresh = []
        for c in self.order:
            fresh.append(list((T.g if c in "gG" else T.h)(T.make(api, I), (x0 if c in "gh" else y0).copy())))
        kept = [] if self.mutate else m.kept    # a result may be the model's own array
        return {"first": first, "live": live, "fresh": fresh, "x": x, "y": y, "x0": x0, "y0": y0,
                "kept": [a for a, b in kept], "kept0": [b for a, b in kept]}

    def check(self, S, I, O):
        S.eq("argument unchanged", O["x"], I["x"])
        S.eq("argument unchanged", O["y"], I["y"])
        for a, b, c in zip(O["first"], O["live"], O["fresh"]):
            S.require("number of results", len(a) == len(b) == len(c))
            for p, q, r in zip(a, b, c):
                S.eq("independent of earlier calls", p, r)
                S.eq("earlier results unchanged", q, p)
        for a, b in zip(O["kept"], O["kept0"]):
            S.eq("arrays of the model unchanged", a, b)


class Reuse(Scenario):
    """the caller's array (and list of arguments) is refilled between the evaluations"""
    target = None
    trax = (1,)
    trax2 = None
    order = "gGhH"
    generic = True
    atol = 1e-9
    max_validate = 1

    def bounds(self):
        return f"{self.target.name}: all parameters, any two arguments of shape {self.trax} passed in the same array and list, refilled between the calls; call sequence {self.order} (capitals: second argument)"

    inputs = History.inputs

    def run(self, api, x, y, **I):
        T = self.target
        o = T.make(api, I)
        buf = x.copy()
        arg = [buf, None]
        got, want = [], []
        for c in self.order:
            buf[...] = x if c in "gh" else y
            if T.lead == 2:
                r = o.gradient(arg)[:1] if c in "gG" else o.hessian(arg)
            else:
                r = (T.g if c in "gG" else T.h)(o, buf)
            got.append([v.copy() if hasattr(v, "copy") else v for v in r])
        for c in self.order:
            want.append(list((T.g if c in "gG" else T.h)(T.make(api, I), (x if c in "gh" else y).copy())))
        return {"got": got, "want": want, "n": len(arg)}

    def check(self, S, I, O):
        S.require("argument list unchanged", O["n"] == 2)
        for a, b in zip(O["got"], O["want"]):
            S.require("number of results", len(a) == len(b))
            for p, q in zip(a, b):
                S.eq("result belongs to the present content of the argument", p, q)


class Pair(Scenario):
    """two objects used alternately: each behaves as if it were alone"""
    first = second = None
    trax = (1,)
    order = "gGhHg"
    generic = True
    atol = 1e-9
    max_validate = 1

    def bounds(self):
        return f"{self.first.name} and {self.second.name} with independent parameters, created one after the other; calls {self.order} on any two arguments of shape {self.trax} (capitals: second object, second argument; then the second object at the first argument)"

    def inputs(self, S):
        I = {}
        for k, T in enumerate((self.first, self.second)):
            P = Part(S, "2nd " if k else "", lambda n: False)
            rename, sym.RENAME[0] = sym.RENAME[0], P.name
            try:
                I.update({f"p{k}_{n}": v for n, v in T.params(P, self.trax).items()})
            finally:
                sym.RENAME[0] = rename
        I["x"] = self.first.x(S, "x", self.trax)
        I["y"] = self.first.x(S, "y", self.trax)
        return I

    def run(self, api, x, y, **I):
        import copy
        T = [copy.copy(self.first), copy.copy(self.second)]
        P = [{n[3:]: v for n, v in I.items() if n.startswith(f"p{k}_")} for k in (0, 1)]
        o = [t.make(api, p) for t, p in zip(T, P)]
        calls = [(c.isupper(), c.lower(), c.isupper()) for c in self.order] + [(1, "g", 0), (0, "h", 0), (1, "h", 0), (0, "g", 1)]
        got = [list(getattr(T[k], c)(o[k], (y if at else x).copy())) for k, c, at in calls]
        want = []
        for k, c, at in calls:
            t = copy.copy(T[k])
            want.append(list(getattr(t, c)(t.make(api, P[k]), (y if at else x).copy())))
        return {"got": got, "want": want}

    def check(self, S, I, O):
        for a, b in zip(O["got"], O["want"]):
            S.require("number of results", len(a) == len(b))
            for p, q in zip(a, b):
                S.eq("independent of the other object", p, q)


class Alike(History):
    """one object at two arguments which agree in some summary quantity (invariants, determinant,
    right Cauchy-Green tensor, stretches, some of the components): neither is taken for the other"""
    relation = "mirrored"
    trax = (1,)

    def bounds(self):
        how = {"mirrored": "with the mirrored one (F D or D C D with D = diag(1, -1, -1): the same invariants and determinant)",
               "rotated": "with the rotated one (D F with D = diag(-1, -1, 1): the same right Cauchy-Green tensor)",
               "permuted": "with permuted axes or components (the same symmetric functions)",
               "frame": "with another one of the same principal directions",
               "one": "with one which differs in one component only",
               "points": "with the same points in another order"}[self.relation]
        return f"{self.target.name}: all parameters, any argument of shape {self.trax} together {how}; call sequence {self.order} (capitals: second argument)"

    def inputs(self, S):
        T = self.target
        I = T.params(S, self.trax)
        I["x"], I["y"] = alike(S, T, self.relation, self.trax)
        return I


FLIP = ((0, 1), (1, -1), (2, -1))          # component taken and its sign
CYCLE = ((1, 1), (2, 1), (0, 1))


def alike(S, T, relation, trax):
    if relation == "points":
        x = T.x(S, "x", trax)
        return x, S.like(_np.array(x, dtype=object)[..., ::-1].copy())
    framed = isinstance(T, StretchT) and not isinstance(T, OgdenT) or isinstance(T, GenT) and T.level == "framework"
    if framed:
        lam = sym_stretches(S, T.patterns[0], "lamx_")
        N = sym_frame(S, "qx_")
        c = register_frame(S, lam, N, "cx_")
        if relation == "frame":
            M, mu = N, sym_stretches(S, T.patterns[0], "lamy_")
        else:
            way = FLIP if relation == "mirrored" else CYCLE
            M, mu = [[N[i][a] * s for a in range(3)] for i, s in way], lam
        d = register_frame(S, mu, M, "cy_")
        return [S.like(_np.array(v, dtype=object).reshape(6, 1)) for v in (c, d)]
    x = T.x(S, "x", trax)
    v = _np.array(x, dtype=object)
    if relation == "one":
        w = v.copy()
        w[T.moved] = T.x(S, "y", trax)[T.moved]
        return x, S.like(w)
    way = FLIP if relation == "mirrored" else CYCLE
    if T.lead == 2:
        if relation == "rotated":
            w = [[v[i, j, 0] * (1 if i == 2 else -1) for j in range(3)] for i in range(3)]
        elif relation == "mirrored":
            w = [[v[i, j, 0] * s for j, s in way] for i in range(3)]
        else:
            w = [[v[i, j, 0] for j, s in way] for i in range(3)]
        register_F(S, w, "cy_")
        return x, S.like(_np.array(w, dtype=object).reshape(3, 3, 1))
    if len(v) == 6:
        full = full_of([v[k, 0] for k in range(6)])
        w = [full[way[VI[k]][0]][way[VJ[k]][0]] * (way[VI[k]][1] * way[VJ[k]][1]) for k in range(6)]
        spd(S, w)
        return x, S.like(_np.array(w, dtype=object).reshape(6, 1))
    return x, S.like(v[[i for i, s in way]])


def lookalikes(tier):
    out = []
    def add(T, relation, trax=(1,), od="gGhHg"):
        out.append(Alike(f"{T.name} look-alike {relation}", target=T, relation=relation, order=od, trax=trax))
    for kind in NAMES:
        for r in ("mirrored", "rotated", "permuted"):
            add(SpaceT(kind), r)
            if tier == "thorough":
                add(SpaceT(kind, 0, 0), r, od="hHgGh")
                add(WholeT(kind, "tod"), r)
        add(SpaceT(kind, full=True), "points", (2,))
    for m in ((1, 1, 1), (1, 0, 0), (0, 1, 0), (0, 0, 1)):
        for r in ("mirrored", "permuted"):
            add(InvT(m), r, od="gGhHg" if r == "mirrored" else "hHgGh")
        add(InvT(m, True), "points", (2,))
    for p in PK:
        for r in ("mirrored", "permuted", "frame"):
            add(StretchT((p,)), r, od="gGhHg" if r != "permuted" else "hHgGh")
    add(StretchT(("distinct", "low pair")), "points", (2,))
    for r in ("mirrored", "frame"):
        add(GenT(), r)
    for T in (OgdenT(), OgdenT("array"), GenT(level="model", mask=(1, 1, 1)), GenT(level="model", fun="deformation", mask=(0, 1, 1)), TodT(), TodT(True)):
        if not isinstance(T, TodT):
            add(T, "permuted")
        for k in range(3):
            t = copy.copy(T)
            t.moved = k
            t.name += f" {k}"
            add(t, "one")
        add(T, "points", (2,))
    return out


def pairs(tier):
    T = []
    for kind in NAMES:
        T += [(SpaceT(kind), SpaceT(kind)), (SpaceT(kind, 0, 0), SpaceT(kind, None, None)), (SpaceT(kind, None, None), SpaceT(kind)), (SpaceT(kind), SpaceT(kind, finalize=False, full=True)),
              (SpaceT(kind, full=True, parallel=True), SpaceT(kind, full=True)), (SpaceT(kind, linear=True), SpaceT(kind)), (WholeT(kind, "tod"), WholeT(kind, "tod"))]
    for a, b in (("deformation", "distortional"), ("distortional", "dilatational"), ("dilatational", "deformation")):
        T += [(SpaceT(a), SpaceT(b)), (SpaceT(b, full=True), SpaceT(a, full=True))]
    T += [(InvT(a), InvT(b)) for a, b in (((1, 1, 1), (1, 1, 1)), ((1, 0, 0), (1, 1, 1)), ((0, 1, 1), (1, 0, 1)), ((1, 1, 1), (0, 1, 0)))]
    for p in PK:
        T += [(StretchT((p,)), StretchT((p,))), (StretchT((p,), form="list"), StretchT((p,), form="diag")), (StretchT((p,), form="diag"), StretchT((p,)))]
    T += [(GenT(), GenT()), (GenT(mask=(1, 0, 0)), GenT()), (GenT(), GenT(fun="deformation"))]
    T += [(GenT(level="model", mask=a, fun=f), GenT(level="model", mask=b, fun=g)) for a, b, f, g in
          (((1, 1, 1), (1, 1, 1), "strain", "strain"), ((1, 1, 1), (1, 1, 1), "strain", "deformation"), ((1, 0, 0), (0, 1, 1), "strain", "strain"), ((1, 1, 1), (1, 1, 1), "deformation", "deformation"))]
    T += [(OgdenT(), OgdenT()), (OgdenT("array"), OgdenT()), (OgdenT("array"), OgdenT("array"))]
    T += [(TodT(), TodT()), (TodT(), TodT(True)), (TodT(True), TodT())]
    return [Pair(f"pair {a.name} and {b.name}", first=a, second=b) for a, b in T]


def c19(tier):
    out = pairs(tier) + lookalikes(tier)
    for T in targets(tier):
        if tier == "thorough" or isinstance(T, (InvT, StretchT, GenT)) or getattr(T, "full", False) and T.finalize and T.force is None:
            for od in (["gGhH"] if tier == "quick" else ["gGhH", "hHgG", "hGHg"]):
                out.append(Reuse(f"{T.name} reuse {od}", target=T, order=od))
    orders = ["ghGHg", "HgGh"] if tier == "quick" else ["ghGHg", "HgGh", "GGgg", "hHhH", "gGhHgh"]
    for n, T in enumerate(targets(tier)):
        for k, od in enumerate(orders):
            if tier == "quick" and k != n % 2 and not isinstance(T, SpaceT):
                continue
            if tier == "quick" and k != n % 2 and not (T.full and T.force is None):
                continue
            out.append(History(f"{T.name} {od}", target=T, order=od, frozen=(n + k) % 3 == 1))
        if tier == "thorough":
            out.append(History(f"{T.name} batch", target=T, order="ghGHg", trax=(2,), frozen=True))
        # the caller works with the results
        if tier == "thorough" or n % 2 == 0 or not isinstance(T, SpaceT):
            out.append(History(f"{T.name} overwritten", target=T, order="gHhGgh" if tier == "thorough" else "ghgh", mutate=True))
        # batches of different shape one after the other
        if isinstance(T, GenT) and T.level == "framework" or isinstance(T, WholeT) and T.model != "tod":
            continue
        shapes = [((1,), (2,)), ((2,), ()), ((2, 1), (2,)), ((), (1, 2))]
        for k, (s, t) in enumerate(shapes):
            if tier == "thorough" or k == n % 4:
                out.append(History(f"{T.name} shapes {s} {t}", target=T, order="gGhHg", trax=s, trax2=t))
    for s, t in (((1,), ()), ((2,), (1,))) + (() if tier == "quick" else (((), (2, 3)), ((2, 1), (2, 2)))):
        out.append(Pure(f"tensor functions {s} {t}", trax=s, trax2=t))
    return out


class Pure(Scenario):
    """the tensor functions: results are new arrays which the caller may overwrite, inputs are left alone"""
    trax = (1,)
    trax2 = ()
    max_validate = 1

    def bounds(self):
        return f"every tensor function: any tensors of shape {self.trax} and {self.trax2}, called twice, results overwritten in between"

    def inputs(self, S):
        I = {}
        for n, t in (("p", self.trax), ("q", self.trax2)):
            I["a" + n], I["b" + n], I["m" + n] = S.arr("a" + n, (6,) + t), S.arr("b" + n, (6,) + t), S.arr("m" + n, (6, 6) + t)
            I["c" + n] = sym_C(S, "c" + n, t)
        return I

    def calls(self, m, a, b, M, C):
        return {
            "astensor": lambda: m.astensor(a), "astensor4": lambda: m.astensor(M, mode=4),
            "asvoigt": lambda: m.asvoigt(m.astensor(a)), "asvoigt4": lambda: m.asvoigt(m.astensor(M, mode=4), mode=4),
            "trace": lambda: m.trace(a), "det": lambda: m.det(C), "inv": lambda: m.inv(C), "inv given": lambda: m.inv(C, determinant=m.det(C)),
            "dot": lambda: m.dot(a, b), "eye": lambda: m.eye(a), "eye alone": lambda: m.eye(), "ddot": lambda: m.ddot(a, b),
            "ddot42": lambda: m.ddot(M, b, mode=(4, 2)), "ddot24": lambda: m.ddot(a, M, mode=(2, 4)), "ddot44": lambda: m.ddot(M, M, mode=(4, 4)),
            "dya": lambda: m.dya(a, b), "dev": lambda: m.dev(a), "cdya_ik": lambda: m.cdya_ik(a, b), "cdya_il": lambda: m.cdya_il(a, b),
            "cdya": lambda: m.cdya(a, b), "cdya twice": lambda: m.cdya(C, C), "tril": lambda: m.tril_from_triu(M), "triu": lambda: m.triu_from_tril(M),
        }

    def run(self, api, **I):
        m = api.he.math
        was = {k: v.copy() for k, v in I.items()}
        one, two = {}, {}
        for n in "pqp":
            fs = self.calls(m, I["a" + n], I["b" + n], I["m" + n], I["c" + n])
            for k, f in fs.items():
                r = f()
                if k + n in one:
                    two[k + n] = r.copy() if hasattr(r, "copy") else r
                else:
                    one[k + n] = r.copy() if hasattr(r, "copy") else r
                overwrite(r)
                r = f()
                two.setdefault(k + n + " again", r.copy() if hasattr(r, "copy") else r)
        return {"one": one, "two": two, "now": I, "was": was}

    def check(self, S, I, O):
        for k, v in O["two"].items():
            S.eq("tensor function: result of a repeated call", v, O["one"][k.replace(" again", "")])
        for k, v in O["was"].items():
            S.eq("tensor function: argument unchanged", O["now"][k], v)


# ------------------------------------------------------------------ C20
class Evolving:
    """a material with internal state: the derivatives depend on the given state, and the
    new state on state and argument"""

    def __init__(self, np, base, n, kind, coef):
        self.np, self.base, self.n, self.kind, self.coef = np, base, n, kind, coef
        self.x = [np.eye(3), np.zeros(n)]
        self.seen = []

    def _note(self, which, z):
        self.seen.append((which, z, z.copy()))

    def new(self, z, arg):
        u, v = self.coef["u"], self.coef["v"]
        return z * u + v * arg

    def factor(self, z):
        return 1 + self.coef["p"] * z[0] + self.coef["q"] * z[1]

    def gradient(self, *args):
        *a, z = args
        self._note("gradient", z)
        out = self.base.gradient(*a, z)
        f = self.factor(z)
        self.last = (a[0] if self.kind == "inv" else a[0][0]).copy()
        zn = self.new(z, self.last)
        if self.kind == "inv":
            return (*[None if w is None else w * f for w in out[:3]], zn)
        if self.kind == "stretch":
            return [w * f for w in out[0]], zn
        return out[0] * f, zn

    def hessian(self, *args):
        *a, z = args
        self._note("hessian", z)
        out = self.base.hessian(*a, z)
        f = self.factor(z)
        if self.kind == "tl":
            return out * f
        return [None if w is None else w * f for w in out]


class States(Scenario):
    """state variables through a history of evaluations"""
    where = "deformation"       # a space, or a framework
    trax = (1,)
    steps = 2
    pattern = "distinct"
    mask = (1, 1, 1)
    generic = True
    atol = 1e-9
    extra = False
    full = None
    max_validate = 1

    def bounds(self):
        return (f"{self.where}: any material whose derivatives depend on its state variables (2 per point, any values) and which returns any "
                f"linear update of them; {self.steps} steps, points of shape {self.trax}")

    def inputs(self, S):
        I = {}
        for n in "pquv":
            I[n] = S.var(n, 0.2, 0.9)
        I["z"] = S.arr("z", (2,) + self.trax, 0.1, 1.2)
        if self.where in NAMES:
            I["g"], I["H"] = S.arr("g", (6,)), symarr(S, "H")
            mk = lambda n: sym_F(S, n, self.trax)  # noqa: E731
        elif self.where == "invariants":
            I.update(InvT(self.mask).params(S, self.trax))
            mk = lambda n: sym_C(S, n, self.trax)  # noqa: E731
        elif self.where.startswith("generalized"):
            I.update(InvT(self.mask).params(S, self.trax))
            I["k"] = S.var("k", 0.4, 1.8, pos=True)
            if self.where == "generalized model":
                mk = lambda n: S.arr(n, (3,) + self.trax, 0.6, 1.7, pos=True)  # noqa: E731
            else:
                T = StretchT((self.pattern,))
                mk = lambda n: T.x(S, n, self.trax)  # noqa: E731
        else:
            I.update(stretch_coeffs(S, self.pattern))
            T = StretchT((self.pattern,))
            mk = lambda n: T.x(S, n, self.trax)  # noqa: E731
        for n in range(self.steps):
            I[f"x{n}"] = mk(f"x{n}")
        return I

    def material(self, api, I):
        coef = {n: I[n] for n in "pquv"}
        np = api.np
        if self.where in NAMES:
            return Evolving(np, TLModel(np, I["g"], I["H"], full=True), 2, "tl", coef)
        if self.where == "stretches":
            return Evolving(np, StretchModel(np, [I[f"a{i}"] for i in range(3)], B_of(I)), 2, "stretch", coef)
        return Evolving(np, InvModel([I[f"a{i}"] for i in range(3)], B_of(I), self.mask), 2, "inv", coef)

    def make(self, api, I, m):
        he = api.he
        if self.where in NAMES:
            return getattr(he, NAMES[self.where])(m)
        if self.where == "invariants":
            return he.InvariantsFramework(m, nstatevars=2)
        if self.where == "stretches":
            return he.StretchesFramework(m, nstatevars=2)
        if self.where == "generalized":
            return he.GeneralizedInvariantsFramework(m, he.models.generalized.strain, nstatevars=2, exponent=I["k"])
        return he.models.stretches.GeneralizedInvariantsModel(m, he.models.generalized.strain, exponent=I["k"])

    def call(self, o, x, z):
        if self.where in NAMES:
            arg = [x, z] if not self.extra else [x, None, z]
            g = o.gradient(arg)
            return g[0], g[1], len(g), o.hessian(arg)[0]
        g = o.gradient(x, z)
        return g[0], g[1], len(g), o.hessian(x, z)

    def run(self, api, z, **I):
        m = self.material(api, I)
        o = self.make(api, I, m)
        O = {"n": [], "steps": [], "seen": []}
        z0 = z.copy()
        zs = z
        for n in range(self.steps):
            x = I[f"x{n}"]
            m.seen.clear()
            # a fresh object with a frozen state gives the reference result of this step
            ref = self.material(api, I)
            ro = self.make(api, I, ref)
            r = self.call(ro, x.copy(), zs.copy())
            before = zs.copy()
            gx, zn, nres, hx = self.call(o, x, zs)
            h2 = self.call(o, x, zs)[3]
            O["n"].append(nres)
            O["steps"].append({"g": gx, "h": hx, "h2": h2, "rg": r[0], "rh": r[3], "zn": zn,
                               "want": self.want(ref, before, zn), "z": zs, "before": before,
                               "seen": [v for w, u, v in m.seen], "seen_now": [u for w, u, v in m.seen]})
            zs = zn
        O["z"], O["z0"] = z, z0
        O["x"] = list(o.x) if hasattr(o, "x") else [api.np.eye(3), api.np.zeros(2)]
        return O

    relaxed = False
    calls = ("seen", "seen_now")

    def want(self, ref, before, zn):
        if self.relaxed and _np.shape(ref.last) != before.shape[1:]:
            return zn  # evaluated in parts: compared with the small batch
        return ref.new(before, ref.last)

    def check(self, S, I, O):
        S.eq("given state unchanged", O["z"], I["z"])
        S.require("two initial variables", len(O["x"]) == 2)
        S.require("shape of the state", O["x"][1].shape == (2,))
        S.eq("initial state is zero", O["x"][1], _np.zeros(2))
        S.eq("initial deformation is one", O["x"][0], _np.eye(3))
        for n, st in enumerate(O["steps"]):
            S.require("results", O["n"][n] == 2)
            S.eq("stress at the given state", st["g"], st["rg"])
            S.eq("elasticity at the given state", st["h"], st["rh"])
            S.eq("elasticity of the repeated evaluation", st["h2"], st["rh"])
            S.eq("new state", st["zn"], st["want"])
            S.eq("given state unchanged", st["z"], st["before"])
            S.require("the material was called", len(st["seen"]) >= 2)
            for v, u in zip(st["seen"], st["seen_now"]):
                S.eq("the material receives the given state", v, st["before"])
                S.eq("the material receives the given state", u, st["before"])


class Initial(Scenario):
    """the initial variables of several objects: each has its own"""
    counts = (2, 0, 3)
    max_validate = 1

    def bounds(self):
        return f"frameworks with {self.counts} state variables created one after the other around materials of any parameters, spaces around them"

    def inputs(self, S):
        return {**{n: S.nz(S.var(n)) for n in TOD}, "mu": S.var("mu", 0.4, 3.0), "k": S.var("k", 0.4, 3.0, pos=True), "s": S.var("s")}

    def run(self, api, mu, k, s, **tod):
        he, np = api.he, api.np
        O = {"x": [], "want": [], "n": []}
        inv = lambda: he.models.invariants.ThirdOrderDeformation(**tod)  # noqa: E731
        makers = [lambda n: he.InvariantsFramework(inv(), nstatevars=n), lambda n: he.StretchesFramework(he.models.stretches.Ogden([mu], [k]), nstatevars=n),
                  lambda n: he.GeneralizedInvariantsFramework(inv(), he.models.generalized.strain, nstatevars=n, exponent=k)]
        objs = []
        for n in self.counts + (None,):
            for mk in makers:
                f = mk(n) if n is not None else mk(0)
                objs.append((f, n or 0))
                if n:
                    objs += [(getattr(he, v)(f), n) for v in NAMES.values()]
        # without the argument
        for f in (he.InvariantsFramework(inv()), he.StretchesFramework(he.models.stretches.Ogden([mu], [k])),
                  he.GeneralizedInvariantsFramework(inv(), he.models.generalized.strain, exponent=k)):
            objs.append((f, 0))
            objs += [(getattr(he, v)(f), 0) for v in NAMES.values()]
        O["len"] = all(len(o.x) == 2 for o, n in objs)
        O["shapes"] = [list(o.x[1].shape) for o, n in objs]
        O["want"] = [[n] for o, n in objs]
        O["F"] = [o.x[0] for o, n in objs]
        O["z"] = [o.x[1] for o, n in objs if n]
        # one object's variables are replaced by the caller
        a, b = makers[0](2), makers[0](2)
        a.x[0][...] = s
        a.x[1] = np.array([s, s])
        c = makers[0](2)
        O["others"] = [b.x[0], c.x[0], makers[1](1).x[0]]
        O["others z"] = [b.x[1], c.x[1]]
        return O

    def check(self, S, I, O):
        S.require("two initial variables", O["len"])
        S.require("one initial state value per state variable", O["shapes"] == O["want"])
        for v in O["F"] + O["others"]:
            S.eq("initial deformation is one", v, _np.eye(3))
        for v in O["z"] + O["others z"]:
            S.eq("initial state is zero", v, _np.zeros(v.shape))


class Absent(Scenario):
    """without state variables: None is passed through everything"""
    target = None
    generic = True
    max_validate = 1

    def bounds(self):
        return f"{self.target.name}: state variables None, an arbitrary object, or an empty array"

    def inputs(self, S):
        I = self.target.params(S, (1,))
        I["x"] = self.target.x(S, "x", (1,))
        return I

    def run(self, api, x, **I):
        o = self.target.make(api, I)
        z = [object(), None]
        O = {}
        for n, s in enumerate(z):
            if self.target.lead == 2:
                r = o.gradient([x, s])
            elif isinstance(self.target, TodT):
                r = o.gradient(x[0], x[1], x[2], s)
            else:
                r = o.gradient(x, s)
            O[f"same{n}"] = r[-1] is s
        e = api.np.zeros((0, 1))
        if self.target.lead == 2:
            r = o.gradient([x, e])
        elif isinstance(self.target, TodT):
            r = o.gradient(x[0], x[1], x[2], e)
        else:
            r = o.gradient(x, e)
        O["empty"] = getattr(r[-1], "shape", None) == (0, 1)
        return O

    def check(self, S, I, O):
        S.require("state returned as given", O["same0"] and O["same1"])
        S.require("empty state returned as given", O["empty"])


def c20(tier):
    out = [Initial("initial variables"), Initial("initial variables reversed", counts=(0, 1, 4))]
    for kind in NAMES:
        out.append(States(f"{kind} space", where=kind))
        out.append(States(f"{kind} space three items", where=kind, extra=True, steps=1))
        out.append(States(f"{kind} space batch", where=kind, trax=(2,)))
    for m in ((1, 1, 1), (1, 0, 0), (0, 1, 1)):
        out.append(States(f"invariants {''.join(map(str, m))}", where="invariants", mask=m))
        out.append(States(f"generalized model {''.join(map(str, m))}", where="generalized model", mask=m))
    out.append(States("invariants batch", where="invariants", trax=(2,)))
    for p in PK:
        out.append(States(f"stretches {p}", where="stretches", pattern=p))
    out.append(States("stretches batch", where="stretches", trax=(2,)))
    out.append(States("generalized", where="generalized", mask=(1, 1, 0)))
    out.append(States("generalized low pair", where="generalized", mask=(0, 1, 1), pattern="low pair"))
    out += large(tier, *pick(out, *[f"{k} space batch" for k in NAMES], "generalized"), shapes=EDGE[:2] + ((129,), (8, 16)))
    out += large(tier, *pick(out, "invariants batch", "stretches batch", "generalized model 111"), shapes=WIDE)
    if tier == "thorough":
        for kind in list(NAMES) + ["invariants", "stretches"]:
            out.append(States(f"{kind} four steps", where=kind, steps=4))
    for T in targets(tier):
        if isinstance(T, (WholeT, OgdenT, TodT)) or T.name.endswith("111"):
            out.append(Absent(f"pass through: {T.name}", target=T))
    return out
