"""General laws of every material: objectivity, isotropy, symmetry, superposition, units,
and the reference state."""
from .common import *  # noqa: F401,F403
from .common import _np
from .spaces import NAMES, name_stress, second_pk, tl_energy
from .integration import InvModel, inv_energy, tod_energy, TOD, sym_F_polar
from vf import sym

R3 = range(3)
zero = sym.const


def rot(S, axis, name="t"):
    """rotation about a coordinate axis by any angle except a half turn"""
    t = S.var(name, -0.9, 0.9)
    den = 1 + t * t
    S.ctx.known_pos.add(den)
    S.ctx.known_nz.add(den)
    c, s = (1 - t * t) / den, 2 * t / den
    i, j = [(1, 2), (2, 0), (0, 1)][axis]
    R = [[sym.const(1 if a == b else 0) for b in R3] for a in R3]
    R[i][i] = R[j][j] = c
    R[i][j], R[j][i] = -s, s
    return R


def half_turn(axis):
    return [[sym.const(0 if a != b else (1 if a == axis else -1)) for b in R3] for a in R3]


def mm(A, B):
    return [[sum((A[i][k] * B[k][j] for k in range(1, 3)), A[i][0] * B[0][j]) for j in R3] for i in R3]


def tp(A):
    return [[A[j][i] for j in R3] for i in R3]


def gram(F):
    return [sum((F[m][VI[k]] * F[m][VJ[k]] for m in range(1, 3)), F[0][VI[k]] * F[0][VJ[k]]) for k in range(6)]


def arr33(S, M, trax=(1,)):
    return S.like(obj((3, 3) + trax, lambda i, j, *k: M[i][j]))


def idx0(trax):
    """position of the (only) point"""
    return (0,) * len(trax)


class Objective(Scenario):
    """superposed rotation Q F: the stress rotates with it, for every material"""
    kind = "deformation"
    axis = 0
    half = False
    force = None
    area = 0
    atol = 1e-12
    generic = True
    trax = (1,)

    def bounds(self):
        return f"F any with det > 0; Q any rotation about axis {self.axis}; material dpsi/dC = g + H:C with any g and major-symmetric H"

    def inputs(self, S):
        F = sym_F(S, "F", self.trax)
        S.Q = half_turn(self.axis) if self.half else rot(S, self.axis)
        Fm = col(F, idx0(self.trax))
        c = S.cs["cF_0" if self.trax else "cF"]
        QF = mm(S.Q, Fm)
        for k, x in enumerate(gram(QF)):
            # the code's C of the rotated deformation is the same tensor
            sym.register(c[k], x)
        I = {"F": F, "QF": arr33(S, QF, self.trax), "g": S.arr("g", (6,)), "H": symarr(S, "H")}
        # names for the second Piola-Kirchhoff stress and its elasticity
        name_stress(S, c, *second_pk(tl_energy(self.kind, c, col(I["g"]), col(I["H"])), c), "s")
        if self.area is None:
            # det(Q F) = det F
            sym.register(det3(Fm), det3(QF))
        return I

    def run(self, api, F, QF, g, H):
        u = getattr(api.he, NAMES[self.kind])(TLModel(api.np, g, H), force=self.force, area=self.area)
        O = {}
        for n, f in (("", F), ("q", QF)):
            O["P" + n] = u.gradient([f, None])[0]
            O["A" + n] = u.hessian([f, None])[0]
        return O

    def check(self, S, I, O):
        Q = S.Q
        p = idx0(self.trax)
        P, Pq = col(O["P"], p), col(O["Pq"], p)
        one = [[sym.const(int(a == b)) for b in R3] for a in R3]
        QI = Q if self.force is None else one
        QJ = Q if self.area is None else one
        S.eq("stress", obj((3, 3), lambda i, j: Pq[i][j]), obj((3, 3), lambda i, j: mm(mm(QI, P), tp(QJ))[i][j]))
        # back-rotated tangent, one index pair at a time
        A = obj((3, 3, 3, 3), lambda *q: O["A"][q + p])
        Aq = obj((3, 3, 3, 3), lambda *q: O["Aq"][q + p])
        for ax, R in ((0, QI), (1, QJ), (2, QI), (3, QJ)):
            if R is one:
                continue
            A = _np.moveaxis(_np.tensordot(_np.array(R, dtype=object), A, axes=(1, ax)), 0, ax)
        S.eq("tangent", Aq, A)


class Isotropic(Scenario):
    """superposed rotation of the reference: stress and elasticity rotate with it"""
    axis = 0
    half = False
    mask = (1, 1, 1)
    trax = (1,)

    def bounds(self):
        return f"C any SPD; any rotation of the reference about axis {self.axis}; any energy of the invariants {self.mask}"

    def inputs(self, S):
        C = sym_C(S, "C", self.trax)
        c = col(C, idx0(self.trax))
        S.Q = half_turn(self.axis) if self.half else rot(S, self.axis)
        M = mm(mm(S.Q, full_of(c)), tp(S.Q))
        d = [sym.cut(f"d{k}", M[VI[k]][VJ[k]], pos=k < 3) for k in range(6)]
        for x, y in zip(invariants6(c), invariants6(d)):
            sym.register(x, y)
        I3 = invariants6(c)[2]
        sym.register(dd6(c, c), dd6(d, d))
        iM = mm(mm(S.Q, full_of(inv6(c))), tp(S.Q))
        S.ic = [sym.cut(f"id{k}", iM[VI[k]][VJ[k]], pos=False) for k in range(6)]
        for k, x in enumerate(inv6(d, I3)):
            sym.register(S.ic[k], x)
        I = {"C": C, "D": S.like(obj((6,) + self.trax, lambda k, *j: d[k]))}
        for i in range(3):
            I[f"a{i}"] = S.var(f"a{i}")
            for j in range(i, 3):
                I[f"B{i}{j}"] = S.var(f"B{i}{j}") if self.mask[i] and self.mask[j] else sym.const(0)
        return I

    def run(self, api, C, D, **I):
        m = InvModel([I[f"a{i}"] for i in range(3)], B_of(I), self.mask)
        fw = api.he.InvariantsFramework(m)
        O = {}
        for n, x in (("", C), ("q", D)):
            O["S" + n] = fw.gradient(x, None)[0]
            O["H" + n] = fw.hessian(x, None)
        return O

    def check(self, S, I, O):
        Q = S.Q
        p = idx0(self.trax)
        s = full_of([at(O["S"], (k,), p) for k in range(6)])
        r = mm(mm(Q, s), tp(Q))
        S.eq("stress", obj((6,), lambda k: at(O["Sq"], (k,), p)), obj((6,), lambda k: r[VI[k]][VJ[k]]))
        H = obj((3, 3, 3, 3), lambda i, j, k, l: at(O["H"], (FULL[i][j], FULL[k][l]), p))
        for ax in range(4):
            H = _np.moveaxis(_np.tensordot(_np.array(Q, dtype=object), H, axes=(1, ax)), 0, ax)
        S.eq("elasticity", obj((6, 6), lambda k, l: at(O["Hq"], (k, l), p)),
             obj((6, 6), lambda k, l: H[VI[k], VJ[k], VI[l], VJ[l]]))


class IsotropicStretch(Scenario):
    """the stretches framework: rotating the eigenframe rotates stress and elasticity"""
    pattern = "distinct"
    axis = 0
    atol = 1e-9
    trax = (1,)

    def bounds(self):
        return f"stretches {self.pattern}, any eigenframe, any rotation about axis {self.axis}; any energy of the stretches"

    def inputs(self, S):
        lam = sym_stretches(S, self.pattern)
        N = sym_frame(S, "q")
        c = register_frame(S, lam, N, "c")
        S.Q = rot(S, self.axis)
        N2 = mm(S.Q, N)
        d = register_frame(S, lam, N2, "d")
        S.lam, S.N, S.N2 = lam, N, N2
        I = {"C": S.like(obj((6,) + self.trax, lambda k, *j: c[k])), "D": S.like(obj((6,) + self.trax, lambda k, *j: d[k]))}
        I.update(stretch_coeffs(S, self.pattern))
        return I

    def run(self, api, C, D, **I):
        m = StretchModel(api.np, [I[f"a{i}"] for i in range(3)], B_of(I))
        fw = api.he.StretchesFramework(m)
        O = {}
        for n, x in (("", C), ("q", D)):
            O["S" + n] = fw.gradient(x, None)[0]
            O["H" + n] = fw.hessian(x, None)
        return O

    check = Isotropic.check


def c12(tier):
    out = []
    for kind in NAMES:
        for ax in range(3):
            out.append(Objective(f"objective-{kind}-axis{ax}", kind=kind, axis=ax))
        out.append(Objective(f"objective-{kind}-half-turn", kind=kind, axis=1, half=True))
        out.append(Objective(f"objective-{kind}-cauchy", kind=kind, axis=2, area=None))
        out.append(Objective(f"objective-{kind}-total-lagrange", kind=kind, axis=0, force=0))
    for ax in range(3):
        for m in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1)):
            out.append(Isotropic(f"isotropic-axis{ax}-{''.join(map(str, m))}", axis=ax, mask=m))
        for p in PATTERNS:
            out.append(IsotropicStretch(f"isotropic-stretch-axis{ax}-{p}", axis=ax, pattern=p))
    out.append(Isotropic("isotropic-half-turn", axis=2, half=True))
    for kind in NAMES:
        out.append(Objective(f"objective-{kind}-point", kind=kind, axis=1, trax=()))
    out.append(Isotropic("isotropic-point", axis=0, trax=()))
    for p in PATTERNS:
        out.append(IsotropicStretch(f"isotropic-stretch-point-{p}", axis=1, pattern=p, trax=()))
    return out


class Symmetry(Scenario):
    """balance of angular momentum and major symmetry, for every material in a space"""
    kind = "deformation"
    force = None
    area = 0
    trax = (1,)
    linear = False
    generic = True
    atol = 1e-12

    def bounds(self):
        return f"F any with det > 0, trailing shape {self.trax}; material dpsi/dC = g + H:C with any g and major-symmetric H; force {self.force}, area {self.area}"

    def inputs(self, S):
        F = sym_F(S, "F", self.trax)
        I = {"F": F, "g": S.arr("g", (6,)), "H": None if self.linear else symarr(S, "H")}
        for idx in grid(*self.trax):
            suf = "".join(f"_{k}" for k in idx)
            c = S.cs[f"cF{suf}"]
            Hl = None if self.linear else col(I["H"])
            name_stress(S, c, *second_pk(tl_energy(self.kind, c, col(I["g"]), Hl), c), "s" + suf)
        return I

    def run(self, api, F, g, H):
        u = getattr(api.he, NAMES[self.kind])(TLModel(api.np, g, H), force=self.force, area=self.area)
        return {"P": u.gradient([F, None])[0], "A": u.hessian([F, None])[0]}

    def check(self, S, I, O):
        for idx in grid(*self.trax):
            F = col(I["F"], idx)
            P = [[at(O["P"], (i, j), idx) for j in R3] for i in R3]
            A = obj((3, 3, 3, 3), lambda *q: at(O["A"], q, idx))
            tau = P
            if self.area == 0:
                tau = mm(tau, tp(F))
            if self.force == 0:
                # F S F^T (area deformed: the factor 1/det F does not matter)
                tau = mm(F, tau)
            for i, j in ((0, 1), (1, 2), (0, 2)):
                S.eq("balance of angular momentum", tau[i][j], tau[j][i])
            if self.force is None:
                B = _np.transpose(A, (2, 3, 0, 1))
                S.eq("major symmetry", A, B)


class FrameworkSymmetry(Scenario):
    """the elasticity tensors of the frameworks have major symmetry, and are finite"""
    mask = (1, 1, 1)

    def bounds(self):
        return f"C any SPD; any energy of the invariants {self.mask}"

    def inputs(self, S):
        I = {"C": sym_C(S, "C", (1,))}
        for i in range(3):
            I[f"a{i}"] = S.var(f"a{i}")
            for j in range(i, 3):
                I[f"B{i}{j}"] = S.var(f"B{i}{j}") if self.mask[i] and self.mask[j] else sym.const(0)
        return I

    def run(self, api, C, **I):
        fw = api.he.InvariantsFramework(InvModel([I[f"a{i}"] for i in range(3)], B_of(I), self.mask))
        return {"H": fw.hessian(C, None)}

    def check(self, S, I, O):
        h = obj((6, 6), lambda k, l: at(O["H"], (k, l), (0,)))
        S.eq("major symmetry", h, h.T)


class StretchSymmetry(Scenario):
    pattern = "distinct"
    atol = 1e-12

    def bounds(self):
        return f"C any SPD with eigenvalues {self.pattern}; any energy of the stretches"

    def inputs(self, S):
        lam = sym_stretches(S, self.pattern)
        N = sym_frame(S, "q")
        c = register_frame(S, lam, N, "c")
        I = {"C": S.like(obj((6, 1), lambda k, j: c[k]))}
        I.update(stretch_coeffs(S, self.pattern))
        return I

    def run(self, api, C, **I):
        fw = api.he.StretchesFramework(StretchModel(api.np, [I[f"a{i}"] for i in range(3)], B_of(I)))
        return {"H": fw.hessian(C, None)}

    check = FrameworkSymmetry.check


def c13(tier):
    out = []
    for kind in NAMES:
        for force in (None, 0):
            for area in (0, None):
                out.append(Symmetry(f"{kind}-f{force}-a{area}", kind=kind, force=force, area=area))
        out.append(Symmetry(f"{kind}-batch", kind=kind, trax=(2,)))
        out.append(Symmetry(f"{kind}-linear", kind=kind, linear=True, trax=(1, 2)))
        if tier == "thorough":
            out.append(Symmetry(f"{kind}-batch2", kind=kind, trax=(2, 2)))
            out.append(Symmetry(f"{kind}-point", kind=kind, trax=()))
    for m in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0, 1, 1), (1, 0, 1), (1, 1, 1)):
        out.append(FrameworkSymmetry(f"invariants-{''.join(map(str, m))}", mask=m))
    for p in PATTERNS:
        out.append(StretchSymmetry(f"stretches-{p}", pattern=p))
    return out


class Superposition(Scenario):
    """stress and tangent are linear in the material: sums and multiples"""
    kind = "deformation"
    force = None
    area = 0
    generic = True
    atol = 1e-12
    factor = "s"

    def bounds(self):
        f = "any real factor" if self.factor == "s" else f"factor 2^{self.factor}"
        return f"F any with det > 0; two arbitrary materials and their combination with {f}; {self.kind} space, force {self.force}, area {self.area}"

    def inputs(self, S):
        F = sym_F(S, "F", (1,))
        I = {"F": F, "g1": S.arr("g1", (6,)), "H1": symarr(S, "H1")}
        c = S.cs["cF_0"]
        pk = lambda g, H: second_pk(tl_energy(self.kind, c, g, H), c)  # noqa: E731
        g1, H1 = col(I["g1"]), col(I["H1"])
        S1, K1 = name_stress(S, c, *pk(g1, H1), "s1")
        if self.factor == "s":
            s = I["s"] = S.nz(S.var("s", 0.3, 2.5))
            I["g2"], I["H2"] = S.arr("g2", (6,)), symarr(S, "H2")
            g2, H2 = col(I["g2"]), col(I["H2"])
            S2, K2 = name_stress(S, c, *pk(g2, H2), "s2")
            add = lambda x, y: x + s * y  # noqa: E731
        else:
            f = sym.const(2) ** self.factor
            g2, H2, S2, K2 = g1, H1, S1, K1
            add = lambda x, y: f * x  # noqa: E731
        # names of the combined stress and elasticity
        S3, K3 = pk([add(x, y) for x, y in zip(g1, g2)], [[add(x, y) for x, y in zip(u, v)] for u, v in zip(H1, H2)])
        for k in range(6):
            sym.register(add(S1[k], S2[k]), S3[k])
            for m in range(k, 6):
                sym.register(add(K1[k][m], K2[k][m]), K3[k][m])
        return I

    def run(self, api, F, g1, H1, s=None, g2=None, H2=None):
        def ev(g, H):
            u = getattr(api.he, NAMES[self.kind])(TLModel(api.np, g, H), force=self.force, area=self.area)
            return {"P": u.gradient([F, None])[0], "A": u.hessian([F, None])[0]}
        if s is None:
            f = 2.0 ** self.factor
            return {"one": ev(g1, H1), "sum": ev(g1 * f, H1 * f)}
        return {"one": ev(g1, H1), "two": ev(g2, H2), "sum": ev(g1 + s * g2, H1 + s * H2)}

    def check(self, S, I, O):
        for n in ("P", "A"):
            if self.factor == "s":
                S.eq("superposition " + n, O["sum"][n], O["one"][n] + I["s"] * O["two"][n])
            else:
                S.eq("unit scale " + n, O["sum"][n], O["one"][n] * (sym.const(2) ** self.factor))


class FrameSuperposition(Scenario):
    """frameworks: energies of different invariants add up"""
    m1 = (1, 0, 0)
    m2 = (0, 1, 1)

    def bounds(self):
        return f"C any SPD; energies of the invariants {self.m1} and {self.m2} and their sum, any derivatives, any factor"

    def inputs(self, S):
        I = {"C": sym_C(S, "C", (1,)), "s": S.var("s", 0.3, 2.5)}
        for n, mk in (("x", self.m1), ("y", self.m2)):
            for i in range(3):
                I[f"{n}a{i}"] = S.var(f"{n}a{i}") if mk[i] else sym.const(0)
                for j in range(i, 3):
                    I[f"{n}B{i}{j}"] = S.var(f"{n}B{i}{j}") if mk[i] and mk[j] else sym.const(0)
        return I

    def run(self, api, C, s, **I):
        a = {n: [I[f"{n}a{i}"] for i in range(3)] for n in "xy"}
        B = {n: B_of({k[1:]: v for k, v in I.items() if k[0] == n}) for n in "xy"}
        both = [1 if p or q else 0 for p, q in zip(self.m1, self.m2)]
        ms = [InvModel(a["x"], B["x"], self.m1), InvModel(a["y"], B["y"], self.m2),
              InvModel([p + s * q for p, q in zip(a["x"], a["y"])],
                       [[p + s * q for p, q in zip(u, v)] for u, v in zip(B["x"], B["y"])], both)]
        O = {}
        for k, m in enumerate(ms):
            fw = api.he.InvariantsFramework(m)
            O[f"S{k}"] = fw.gradient(C, None)[0]
            O[f"H{k}"] = fw.hessian(C, None)
        return O

    def check(self, S, I, O):
        for n in "SH":
            S.eq("superposition " + n, O[n + "2"], O[n + "0"] + I["s"] * O[n + "1"])


class StretchSuperposition(Scenario):
    pattern = "distinct"
    atol = 1e-12

    def bounds(self):
        return f"C any SPD with eigenvalues {self.pattern}; two energies of the stretches and their combination"

    def inputs(self, S):
        lam = sym_stretches(S, self.pattern)
        N = sym_frame(S, "q")
        c = register_frame(S, lam, N, "c")
        I = {"C": S.like(obj((6, 1), lambda k, j: c[k])), "s": S.var("s", 0.3, 2.5)}
        for n in "xy":
            I.update({n + k: v for k, v in stretch_coeffs(S, self.pattern, names=(n + "a", n + "B")).items() for k in [k[1:]]})
        return I

    def run(self, api, C, s, **I):
        a = {n: [I[f"{n}a{i}"] for i in range(3)] for n in "xy"}
        B = {n: B_of({k[1:]: v for k, v in I.items() if k[0] == n}) for n in "xy"}
        a["z"] = [p + s * q for p, q in zip(a["x"], a["y"])]
        B["z"] = [[p + s * q for p, q in zip(u, v)] for u, v in zip(B["x"], B["y"])]
        O = {}
        for k, n in enumerate("xyz"):
            fw = api.he.StretchesFramework(StretchModel(api.np, a[n], B[n]))
            O[f"S{k}"] = fw.gradient(C, None)[0]
            O[f"H{k}"] = fw.hessian(C, None)
        return O

    check = FrameSuperposition.check


def c29(tier):
    out = []
    for kind in NAMES:
        for force, area in ((None, 0), (0, 0), (None, None), (0, None)):
            out.append(Superposition(f"{kind}-f{force}-a{area}", kind=kind, force=force, area=area))
            for e in (-60, -30, 60):
                out.append(Superposition(f"{kind}-f{force}-a{area}-units{e}", kind=kind, force=force, area=area, factor=e))
    for a, b in (((1, 0, 0), (0, 1, 1)), ((1, 1, 0), (0, 1, 1)), ((1, 1, 1), (1, 1, 1)), ((0, 1, 0), (1, 0, 1)), ((0, 0, 1), (1, 1, 0))):
        out.append(FrameSuperposition(f"invariants-{''.join(map(str, a))}-{''.join(map(str, b))}", m1=a, m2=b))
    for p in PATTERNS:
        out.append(StretchSuperposition(f"stretches-{p}", pattern=p))
    return out


class VolumeSplit(Scenario):
    """distortional stress has no pressure and ignores volume changes; dilatational stress is
    a pressure and ignores shape changes"""
    kind = "distortional"
    generic = True
    atol = 1e-12

    def bounds(self):
        return "F any with det > 0, superposed dilation of any size; material dpsi/dC = g + H:C, any g and major-symmetric H"

    def inputs(self, S):
        F = sym_F(S, "F", (1,))
        I = {"F": F, "g": S.arr("g", (6,)), "H": symarr(S, "H")}
        c = S.cs["cF_0"]
        Sc, Kc = name_stress(S, c, *second_pk(tl_energy(self.kind, c, col(I["g"]), col(I["H"])), c), "s")
        S.Sc, S.c = Sc, c
        if self.kind == "distortional":
            s = S.var("s", 0.6, 1.6, pos=True)
            Fm = col(F, (0,))
            sF = [[s * x for x in r] for r in Fm]
            for k, x in enumerate(gram(sF)):
                sym.register(s * s * c[k], x)
            I3 = det6([s * s * x for x in c])
            S.ctx.known_pos.add(I3)
            S.ctx.known_nz.add(I3)
            for k in range(6):
                sym.register(Sc[k] / s ** 2)
            I["sF"] = arr33(S, sF)
            I["s"] = s
        return I

    def run(self, api, F, g, H, sF=None, s=None):
        u = getattr(api.he, NAMES[self.kind])(TLModel(api.np, g, H))
        O = {"P": u.gradient([F, None])[0]}
        if sF is not None:
            O["Ps"] = u.gradient([sF, None])[0]
        return O

    def check(self, S, I, O):
        F = col(I["F"], (0,))
        P = col(O["P"], (0,))
        tau = mm(P, tp(F))
        if self.kind == "distortional":
            S.eq("no pressure", P[0][0] * F[0][0] + sum((P[i][j] * F[i][j] for i in R3 for j in R3 if i or j), sym.const(0)), sym.const(0))
            S.eq("independent of the volume", O["Ps"] * I["s"], O["P"])
        else:
            # P = p F^-T with one scalar: p from any entry
            S.eq("pressure only", obj((3,), lambda k: tau[k][(k + 1) % 3]), obj((3,), lambda k: sym.const(0)))
            S.eq("pressure only", tau[0][0], tau[1][1])
            S.eq("pressure only", tau[1][1], tau[2][2])


class Reference(Scenario):
    """rigid rotation (with a dilation for the distortional space): stress and initial moduli"""
    model = "any"
    mask = (1, 1, 1)
    dil = False
    atol = 1e-9
    generic = True
    identity = False
    frame = "any"

    def bounds(self):
        return ("F = 1" if self.identity else "F = any rotation" + (" times any dilation" if self.dil else "")) + f"; distortional space; material {self.model}, all parameters"

    def inputs(self, S):
        I = {}
        if self.identity:
            Q = [[sym.const(int(a == b)) for b in R3] for a in R3]
        else:
            Q = sym_frame(S, "r")
        s = S.var("s", 0.6, 1.6, pos=True) if self.dil else sym.const(1)
        F = [[s * Q[i][j] for j in R3] for i in R3]
        if not self.identity:
            for k in range(6):
                i, j = VI[k], VJ[k]
                sym.register(s * s if i == j else sym.const(0), gram(F)[k])
        S.Q, S.s = Q, s
        I["F"] = S.like(obj((3, 3, 1), lambda i, j, k: F[i][j]))
        if self.model == "any":
            for i in range(3):
                I[f"a{i}"] = S.var(f"a{i}")
                for j in range(i, 3):
                    I[f"B{i}{j}"] = S.var(f"B{i}{j}") if self.mask[i] and self.mask[j] else sym.const(0)
            B = B_of(I)
            w = [I[f"a{i}"] + sum((B[i][j] * (3, 3, 1)[j] for j in R3), sym.const(0)) for i in R3]
            S.mu = sum((2 * w[i] for i in (0, 1) if self.mask[i]), sym.const(0))
        elif self.model == "tod":
            for n in TOD:
                I[n] = S.nz(S.var(n))
            S.mu = 2 * (I["C10"] + I["C01"])
        else:
            S.mu = sym.const(0)
            for k in range(2):
                I[f"mu{k}"] = S.var(f"mu{k}")
                I[f"k{k}"] = S.nz(S.var(f"k{k}", 0.4, 3.0, pos=True) if k == 0 else S.var(f"k{k}", -3.0, -0.4))
                S.mu = S.mu + I[f"mu{k}"]
            lam = [sym.const(1)] * 3

            def frame(m):
                x = sym.lift(m[0][0])
                for i in R3:
                    for j in R3:
                        y = sym.lift(m[i][j])
                        if (i == j and y is not x) or (i != j and not (y.k == "c" and y.a == 0)):
                            return None
                return [x, x, x], S.N
            S.N = sym_frame(S, "n") if self.frame == "any" else [[sym.const(int(a == b)) for b in R3] for a in R3]
            S.ctx.frames.append(frame)
        return I

    def run(self, api, F, **I):
        he = api.he
        if self.model == "any":
            fw = he.InvariantsFramework(InvModel([I[f"a{i}"] for i in range(3)], B_of(I), self.mask))
        elif self.model == "tod":
            fw = he.InvariantsFramework(he.models.invariants.ThirdOrderDeformation(**{n: I[n] for n in TOD}))
        else:
            fw = he.StretchesFramework(he.models.stretches.Ogden([I["mu0"], I["mu1"]], [I["k0"], I["k1"]]))
        u = he.DistortionalSpace(fw)
        return {"P": u.gradient([F, None])[0], "A": u.hessian([F, None])[0]}

    def check(self, S, I, O):
        S.eq("no stress", O["P"], _np.zeros((3, 3, 1)))
        d = lambda i, j: sym.const(int(i == j))  # noqa: E731
        Q = S.Q

        def A(i, J, k, L):
            # F_iI F_kK C_IJKL with C = mu (dd + dd - 2/3 dd) and F = s Q, C^-1 = 1/s^2
            v = d(i, k) * d(J, L) + Q[i][L] * Q[k][J] - F1(2, 3) * Q[i][J] * Q[k][L]
            return S.mu * v / S.s ** 2
        S.eq("initial shear modulus", obj((3, 3, 3, 3), lambda *q: O["A"][q + (0,)]), obj((3, 3, 3, 3), A))


def c30(tier):
    out = [VolumeSplit("distortional-any", kind="distortional"), VolumeSplit("dilatational-any", kind="dilatational")]
    for m in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0, 1, 1), (1, 0, 1), (1, 1, 1)):
        out.append(Reference(f"any-{''.join(map(str, m))}", mask=m))
        out.append(Reference(f"any-{''.join(map(str, m))}-dilation", mask=m, dil=True))
    for mod in ("tod", "ogden"):
        f = "any" if tier == "thorough" else "coordinate axes"   # eigenvectors returned for a multiple of the identity
        out.append(Reference(f"{mod}-rotation", model=mod, frame=f))
        out.append(Reference(f"{mod}-dilation", model=mod, dil=True, frame=f))
        out.append(Reference(f"{mod}-undeformed", model=mod, identity=True))
    return out
