from .common import *  # noqa: F401,F403
from .common import _np
from vf import sym

NAMES = {"deformation": "DeformationSpace", "distortional": "DistortionalSpace", "dilatational": "DilatationalSpace"}


def tl_energy(kind, c, g, H):
    """energy of the space over the material with dpsi/dE = g + H:E, as a function of c"""
    if kind == "deformation":
        e = c
    elif kind == "distortional":
        s = det6(c) ** F1(-1, 3)
        e = [s * x for x in c]
    else:
        s = det6(c) ** F1(1, 3)
        e = [s, s, s, sym.const(0), sym.const(0), sym.const(0)]
    psi = sym.const(0)
    for i in range(6):
        psi = psi + W[i] * g[i] * e[i]
        if H is not None:
            for j in range(6):
                psi = psi + W[i] * W[j] * H[i][j] * e[i] * e[j] / 2
    return psi


def second_pk(psi, c):
    """second Piola-Kirchhoff stress and its elasticity, by differentiating the energy"""
    d = [sym.diff(psi, c[k]) for k in range(6)]
    Sv = [2 * d[k] / W[k] for k in range(6)]
    K = [[None] * 6 for _ in range(6)]
    for k in range(6):
        for m in range(k, 6):
            K[k][m] = K[m][k] = 4 * sym.diff(d[k], c[m]) / (W[k] * W[m])
    return Sv, K


def name_stress(S, c, Sv, K, tag):
    """make S and its elasticity known quantities; dS = K : dC / 2"""
    Sc = [sym.cut(f"S{tag}{k}", Sv[k], pos=False) for k in range(6)]
    Kc = [[None] * 6 for _ in range(6)]
    for k in range(6):
        for m in range(k, 6):
            Kc[k][m] = Kc[m][k] = sym.cut(f"K{tag}{k}{m}", K[k][m], pos=False)
    if not hasattr(S.ctx, "drule"):
        S.ctx.drule = {}
    for k in range(6):
        if Sc[k].k == "v":
            def rule(v, k=k):
                r = sym.const(0)
                for m in range(6):
                    r = r + W[m] * Kc[k][m] * sym.diff(c[m], v) / 2
                return r
            S.ctx.drule[Sc[k]] = rule
    return Sc, Kc


def first_pk(F, Sv):
    s = full_of(Sv)
    return [[sum((F[i][I] * s[I][J] for I in range(1, 3)), F[i][0] * s[0][J]) for J in range(3)] for i in range(3)]


def c4(K, I, J, Kk, L):
    return K[FULL[I][J]][FULL[Kk][L]]


def transform(Fm, c, J, Sv, K, force, area):
    """stress and tangent in the chosen force/area configurations, from S and its elasticity"""
    s = full_of(Sv)
    ic = full_of(inv6(c))
    one = sym.const(1)
    zero = sym.const(0)
    R3 = range(3)
    d = lambda i, j: one if i == j else zero  # noqa: E731
    f = (lambda i, I: Fm[i][I]) if force is None else d
    t = {}
    T = {}
    for i in R3:
        for Jx in R3:
            t[i, Jx] = sum((f(i, I) * s[I][Jx] for I in R3), zero)
            for k in R3:
                for L in R3:
                    x = sum((f(i, I) * f(k, Kk) * c4(K, I, Jx, Kk, L) for I in R3 for Kk in R3), zero)
                    x = x + (d(i, k) if force is None else ic[i][k]) * s[Jx][L]
                    T[i, Jx, k, L] = x
    if area is None:
        t2, T2 = {}, {}
        for i in R3:
            for j in R3:
                t2[i, j] = sum((Fm[j][Jx] * t[i, Jx] for Jx in R3), zero) / J
                for k in R3:
                    for m in R3:
                        T2[i, j, k, m] = sum((Fm[j][Jx] * Fm[m][L] * T[i, Jx, k, L] for Jx in R3 for L in R3), zero) / J
        t, T = t2, T2
    return t, T


class SpaceScn(Scenario):
    kind = "deformation"
    trax = (1,)
    force = None
    area = 0
    finalize = True
    parallel = False
    nproc = 2
    linear = False
    full = False
    what = ("P", "A")
    scale = 0
    again = False       # the object is used for another deformation before the results are read
    vary = None         # axes of the batch along which the material differs

    def bounds(self):
        return (f"F: any with det > 0, trailing shape {self.trax}; material dpsi/dC = g + H:C with any g"
                + ("" if self.linear else " and any major-symmetric H") + ("" if self.vary is None else f", different along axes {self.vary} of the batch"))

    def inputs(self, S):
        I = {"F": sym_F(S, "F", self.trax)}
        if self.vary is None:
            I["g"] = S.arr("g", (6,), scale=self.scale)
            I["H"] = None if self.linear else symarr(S, "H", scale=self.scale)
        else:
            shape = tuple(n if k in self.vary else 1 for k, n in enumerate(self.trax))
            I["g"] = S.arr("g", (6,) + shape)
            I["H"] = None
            if not self.linear:
                H = _np.empty((6, 6) + shape, dtype=object)
                for idx in grid(*shape):
                    H[(slice(None), slice(None)) + idx] = symarr(S, "H" + "".join(f"_{k}" for k in idx) + "_")
                I["H"] = S.like(H)
        S.points = {}
        for idx in grid(*self.trax):
            suf = "".join(f"_{k}" for k in idx)
            c = S.cs[f"cF{suf}"]
            i = () if self.vary is None else tuple(k if q in self.vary else 0 for q, k in enumerate(idx))
            Hl = None if self.linear else col(I["H"], i)
            psi = tl_energy(self.kind, c, col(I["g"], i), Hl)
            Sv, K = second_pk(psi, c)
            Sc, Kc = name_stress(S, c, Sv, K, f"{suf}_")
            S.points[idx] = (c, Sc, Kc)
        return I

    def run(self, api, F, g, H):
        if self.parallel:
            api.nproc(self.nproc)
        mat = TLModel(api.np, g, H, full=self.full)
        u = getattr(api.he, NAMES[self.kind])(mat, parallel=self.parallel, finalize=self.finalize,
                                              force=self.force, area=self.area)
        O = {}
        if "P" in self.what:
            O["P"] = u.gradient([F, None])[0]
        if "A" in self.what:
            O["A"] = u.hessian([F, None])[0]
        if self.again:
            u.hessian([F * 2, None])
            u.gradient([F * 3, None])
        return O

    def check(self, S, I, O):
        for idx in grid(*self.trax):
            c, Sc, Kc = S.points[idx]
            Fm = col(I["F"], idx)
            if not self.finalize:
                if "P" in O:
                    S.eq("S", obj((6,), lambda k: at(O["P"], (k,), idx)), _np.array(Sc, dtype=object))
                if "A" in O:
                    S.eq("elasticity", obj((6, 6), lambda k, l: at(O["A"], (k, l), idx)),
                         obj((6, 6), lambda k, l: Kc[k][l]))
                continue
            t, T = transform(Fm, c, det3(Fm), Sc, Kc, self.force, self.area)
            if "P" in O:
                S.eq("stress", obj((3, 3), lambda i, j: at(O["P"], (i, j), idx)), obj((3, 3), lambda i, j: t[i, j]))
            if "A" in O:
                S.eq("tangent", obj((3, 3, 3, 3), lambda *q: at(O["A"], q, idx)), obj((3, 3, 3, 3), lambda *q: T[q]))
        if self.finalize:
            if "P" in O:
                S.require("stress shape", _np.broadcast_shapes(O["P"].shape, (3, 3) + self.trax) == (3, 3) + self.trax)
            if "A" in O:
                S.require("tangent shape", _np.broadcast_shapes(O["A"].shape, (3, 3, 3, 3) + self.trax) == (3, 3, 3, 3) + self.trax)


def kind_scns(kind, tier):
    out = []
    for t in [(1,), (), (2,), (1, 2)] + ([(2, 2), (3,)] if tier == "thorough" else []):
        out.append(SpaceScn(f"{kind}-{t}", kind=kind, trax=t))
    out.append(SpaceScn(f"{kind}-full", kind=kind, trax=(2,), full=True))
    out.append(SpaceScn(f"{kind}-linear", kind=kind, linear=True))
    out.append(SpaceScn(f"{kind}-linear-2", kind=kind, linear=True, trax=(2, 1)))
    out.append(SpaceScn(f"{kind}-total-lagrange", kind=kind, finalize=False))
    for e in (-60, 60):
        out.append(SpaceScn(f"{kind}-scaled{e}", kind=kind, finalize=False, scale=e))
    for v in ((0,), (1,), (0, 1)):
        if tier == "thorough" or v == (0, 1):
            out.append(SpaceScn(f"{kind}-along{v}", kind=kind, trax=(2, 2), vary=v))
        out.append(SpaceScn(f"{kind}-linear-along{v}", kind=kind, trax=(2, 2), vary=v, linear=True))
    out += large(tier, *pick(out, f"{kind}-(2,)", f"{kind}-full", f"{kind}-linear"))
    return out


def c07(tier):
    return kind_scns("distortional", tier)


def c08(tier):
    return kind_scns("dilatational", tier)


def c09(tier):
    return kind_scns("deformation", tier)


def c10(tier):
    out = []
    for kind in NAMES:
        for force in (None, 0):
            for area in (None, 0):
                tag = f"{kind}-f{force}-a{area}"
                out.append(SpaceScn(tag, kind=kind, force=force, area=area))
                out.append(SpaceScn(tag + "-batch", kind=kind, force=force, area=area, trax=(2,)))
                out.append(SpaceScn(tag + "-linear", kind=kind, force=force, area=area, linear=True, trax=(2,)))
                out.append(SpaceScn(tag + "-raw", kind=kind, force=force, area=area, finalize=False))
                if tier == "thorough":
                    out.append(SpaceScn(tag + "-point", kind=kind, force=force, area=area, trax=()))
                    out.append(SpaceScn(tag + "-batch2", kind=kind, force=force, area=area, trax=(1, 2)))
                    out.append(SpaceScn(tag + "-full", kind=kind, force=force, area=area, full=True, trax=(2,)))
                    out.append(SpaceScn(tag + "-linear-full", kind=kind, force=force, area=area, full=True, linear=True, trax=(2,)))
                # constant along one of the batch axes only
                for k, ax in enumerate(((0,), (1,))):
                    if tier == "thorough" or (force, area)[k] is None or kind == "deformation":
                        out.append(SpaceScn(tag + f"-along{ax}", kind=kind, force=force, area=area, vary=ax, trax=((2, 2), (1, 2), (2, 1))[len(out) % 3]))
                        out.append(SpaceScn(tag + f"-linear-along{ax}", kind=kind, force=force, area=area, vary=ax, linear=True, trax=(2, 2)))
    out += large(tier, *[s for s in out if s.id.endswith(("-batch", "-raw")) and (s.kind != "distortional" or tier == "thorough" or s.force == s.area)])
    return out


def c28(tier):
    out = []
    for kind in NAMES:
        for n in (1, 2, 3, 8):
            out.append(SpaceScn(f"{kind}-workers{n}", kind=kind, parallel=True, nproc=n))
        for t in ((2,), (3, 2), (2, 3)):
            for n in (2, 3):
                out.append(SpaceScn(f"{kind}-workers{n}-{t}", kind=kind, parallel=True, nproc=n, trax=t, again=n == 2))
        for force in (None, 0):
            for area in (None, 0):
                if (force, area) != (None, 0):
                    out.append(SpaceScn(f"{kind}-f{force}-a{area}", kind=kind, parallel=True, nproc=2, trax=(2,), force=force, area=area, again=True))
        out.append(SpaceScn(f"{kind}-raw", kind=kind, parallel=True, nproc=2, trax=(2,), finalize=False, again=True))
        out.append(SpaceScn(f"{kind}-linear", kind=kind, parallel=True, nproc=2, trax=(2,), linear=True))
    out += large(tier, *[s for s in out if s.id.endswith(("workers2-(2,)", "workers3-(3, 2)", "-f0-a0", "-raw"))], shapes=None)
    return out
