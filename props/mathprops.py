from .common import *  # noqa: F401,F403
from .common import _np
from vf import sym

R3 = range(3)
SHAPES = [(), (1,), (2,), (2, 3), (1, 2, 1)]


def full_sym(S, name, trax):
    """arbitrary symmetric second-order tensors in full storage"""
    a = _np.empty((3, 3) + trax, dtype=object)
    for idx in grid(*trax):
        suf = "".join(f"_{k}" for k in idx)
        for i in R3:
            for j in range(i, 3):
                a[(i, j) + idx] = a[(j, i) + idx] = S.var(f"{name}{i}{j}{suf}")
    return S.like(a)


def full4(S, name, trax):
    """arbitrary minor-symmetric fourth-order tensors in full storage"""
    a = _np.empty((3, 3, 3, 3) + trax, dtype=object)
    for idx in grid(*trax):
        suf = "".join(f"_{k}" for k in idx)
        for p in range(6):
            for q in range(6):
                v = S.var(f"{name}{p}{q}{suf}")
                for i, j in {(VI[p], VJ[p]), (VJ[p], VI[p])}:
                    for k, m in {(VI[q], VJ[q]), (VJ[q], VI[q])}:
                        a[(i, j, k, m) + idx] = v
    return S.like(a)


def vec6(S, name, trax):
    return S.arr(name, (6,) + trax)


def mat66(S, name, trax):
    return S.arr(name, (6, 6) + trax)


def T2(v, i, j, idx):
    """entry ij of the tensor with reduced storage v (broadcasting)"""
    return at(v, (FULL[i][j],), idx)


def T4(v, i, j, k, m, idx):
    return at(v, (FULL[i][j], FULL[k][m]), idx)


class MathScn(Scenario):
    trax = ()

    def bounds(self):
        return f"any tensor components, trailing shape(s) {self.trax}"


class Storage(MathScn):
    def inputs(self, S):
        return {"A": full_sym(S, "A", self.trax), "a": vec6(S, "a", self.trax),
                "B": full4(S, "B", self.trax), "b": mat66(S, "b", self.trax)}

    def run(self, api, A, a, B, b):
        m = api.he.math
        v, V = m.asvoigt(A), m.asvoigt(B, mode=4)
        f, G = m.astensor(a), m.astensor(b, mode=4)
        return {"v": v, "V": V, "f": f, "G": G, "vf": m.astensor(v), "VF": m.astensor(V, mode=4),
                "fv": m.asvoigt(f), "Gv": m.asvoigt(G, mode=4)}

    def check(self, S, I, O):
        t = self.trax
        S.require("reduced shapes", O["v"].shape == (6,) + t and O["V"].shape == (6, 6) + t)
        S.require("full shapes", O["f"].shape == (3, 3) + t and O["G"].shape == (3, 3, 3, 3) + t)
        for idx in grid(*t):
            S.eq("order of the reduced storage", obj((6,), lambda k: O["v"][(k,) + idx]),
                 obj((6,), lambda k: I["A"][(VI[k], VJ[k]) + idx]))
            S.eq("order of the reduced fourth-order storage", obj((6, 6), lambda k, l: O["V"][(k, l) + idx]),
                 obj((6, 6), lambda k, l: I["B"][(VI[k], VJ[k], VI[l], VJ[l]) + idx]))
            S.eq("full storage", obj((3, 3), lambda i, j: O["f"][(i, j) + idx]), obj((3, 3), lambda i, j: T2(I["a"], i, j, idx)))
            S.eq("full fourth-order storage", obj((3,) * 4, lambda *q: O["G"][q + idx]), obj((3,) * 4, lambda *q: T4(I["b"], *q, idx)))
        S.eq("full round trip", O["vf"], I["A"])
        S.eq("reduced round trip", O["fv"], I["a"])
        S.eq("full fourth-order round trip", O["VF"], I["B"])
        S.eq("reduced fourth-order round trip", O["Gv"], I["b"])


class Triangles(MathScn):
    n = 6
    out = None          # None, "other", "same"

    def inputs(self, S):
        return {"A": S.arr("A", (self.n, self.n) + self.trax), "P": S.arr("P", (self.n, self.n) + self.trax)}

    def run(self, api, A, P):
        m = api.he.math
        O = {}
        for name in ("tril_from_triu", "triu_from_tril"):
            a, p = A.copy(), P.copy()
            if self.out is None:
                r = getattr(m, name)(a, dim=self.n) if self.n != 6 else getattr(m, name)(a)
                O[name + " result is a new array"] = r is not a
                O[name + " input"] = a
            elif self.out == "other":
                r = getattr(m, name)(a, dim=self.n, out=p)
                O[name + " returns out"] = r is p
                O[name + " input"] = a
            else:
                r = getattr(m, name)(a, dim=self.n, out=a)
                O[name + " returns out"] = r is a
            O[name] = r
        return O

    def check(self, S, I, O):
        n = self.n
        for name in ("tril_from_triu", "triu_from_tril"):
            low = name == "tril_from_triu"
            old = I["P"] if self.out == "other" else I["A"]
            for idx in grid(*self.trax):
                def exp(i, j):
                    if (i > j) if low else (i < j):
                        return I["A"][(j, i) + idx]
                    return old[(i, j) + idx]
                S.eq(name, obj((n, n), lambda i, j: O[name][(i, j) + idx]), obj((n, n), exp))
            for k, v in O.items():
                if isinstance(v, bool):
                    S.require(k, v)
            if name + " input" in O:
                S.eq(name + ": input unchanged", O[name + " input"], I["A"])


def c14(tier):
    out = [Storage(f"storage-{t}", trax=t) for t in SHAPES]
    for o in (None, "other", "same"):
        out.append(Triangles(f"triangles-{o}", out=o))
        out.append(Triangles(f"triangles-{o}-batch", out=o, trax=(2, 1)))
        for n in (2, 3, 9) if tier == "thorough" else (3, 9):
            out.append(Triangles(f"triangles-{o}-{n}", out=o, n=n))
    for lay in LAYOUTS:
        out += [Storage(f"storage-{lay}", trax=(2, 3), layout=lay), Triangles(f"triangles-{lay}", out="other", trax=(2, 2), layout=lay)]
    if tier == "thorough":
        out += [Storage(f"storage-{t}", trax=t) for t in [(3, 2, 2), (4,)]]
    out += large(tier, *pick(out, "storage-(2,)", "triangles-None-batch", "triangles-other-batch"))
    return out


class Algebra(MathScn):
    def inputs(self, S):
        A = vec6(S, "A", self.trax)
        for idx in grid(*self.trax):
            S.nz(det6([A[(k,) + idx] for k in range(6)]))
        return {"A": A}

    def run(self, api, A):
        m, np = api.he.math, api.np
        d = A[0] * (A[1] * A[2] - A[4] * A[4]) - A[3] * (A[3] * A[2] - A[4] * A[5]) + A[5] * (A[3] * A[4] - A[1] * A[5])
        O = {"trace": m.trace(A), "det": m.det(A), "inv": m.inv(A), "dev": m.dev(A), "eye": m.eye(A), "eye0": m.eye(),
             "inv given": m.inv(A, determinant=d)}
        buf = np.zeros_like(A)
        r = m.inv(A, out=buf)
        O["inv out"], O["inv buffer"], O["inv is out"] = r, buf, r is buf
        buf2 = np.zeros_like(A)
        O["inv given out"] = m.inv(A, determinant=d, out=buf2)
        O["inv given buffer"] = buf2
        B = A.copy()
        O["inv self"] = m.inv(B, out=B)
        O["trdev"] = m.trace(m.dev(A)) + m.trace(A)
        O["A"] = A
        return O

    def check(self, S, I, O):
        S.require("inverse is written to out", O["inv is out"])
        S.eq("operands unchanged", O["A"], I["A"])
        e = [1, 1, 1, 0, 0, 0]
        S.require("identity shape", O["eye"].shape == (6,) + (1,) * len(self.trax) and O["eye0"].shape == (6,))
        S.eq("identity", _np.array([x for x in O["eye"].flat], dtype=object), _np.array(e))
        S.eq("identity", O["eye0"], _np.array(e))
        for idx in grid(*self.trax):
            a = [I["A"][(k,) + idx] for k in range(6)]
            Am = full_of(a)
            S.eq("trace", at(O["trace"], (), idx), Am[0][0] + Am[1][1] + Am[2][2])
            S.eq("determinant", at(O["det"], (), idx), det3(Am))
            for name in ("inv", "inv out", "inv buffer", "inv self", "inv given", "inv given out", "inv given buffer"):
                S.eq("inverse", obj((3, 3), lambda i, j: sum((Am[i][k] * T2(O[name], k, j, idx) for k in R3), sym.const(0))),
                     obj((3, 3), lambda i, j: sym.const(1 if i == j else 0)), name)
            S.eq("deviator", obj((6,), lambda k: at(O["dev"], (k,), idx)),
                 obj((6,), lambda k: a[k] - (tr6(a) / 3 if k < 3 else 0)))
            S.eq("trace of the deviator", at(O["trdev"], (), idx) - tr6(a), sym.const(0))


class Products(MathScn):
    """products of two tensors whose trailing shapes broadcast"""
    trax2 = ()

    def inputs(self, S):
        return {"A": vec6(S, "A", self.trax), "B": vec6(S, "B", self.trax2), "X": mat66(S, "X", self.trax), "Y": mat66(S, "Y", self.trax2)}

    def run(self, api, A, B, X, Y):
        m = api.he.math
        return {"dot": m.dot(A, B), "d22": m.ddot(A, B), "d22b": m.ddot(A, B, mode=(2, 2)), "d44": m.ddot(X, Y, mode=(4, 4)),
                "d42": m.ddot(X, B, mode=(4, 2)), "d24": m.ddot(A, Y, mode=(2, 4)), "T": m.transpose(X)}

    def check(self, S, I, O):
        shp = _np.broadcast_shapes(self.trax, self.trax2)
        S.require("shapes", O["dot"].shape == (3, 3) + shp and _np.shape(O["d22"]) == shp and O["d44"].shape == (6, 6) + shp
                  and O["d42"].shape == (6,) + shp and O["d24"].shape == (6,) + shp and O["T"].shape == (6, 6) + self.trax)
        A, B, X, Y = I["A"], I["B"], I["X"], I["Y"]
        z = sym.const(0)
        for idx in grid(*shp):
            S.eq("dot product", obj((3, 3), lambda i, j: O["dot"][(i, j) + idx]),
                 obj((3, 3), lambda i, j: sum((T2(A, i, k, idx) * T2(B, k, j, idx) for k in R3), z)))
            s = sum((T2(A, i, j, idx) * T2(B, i, j, idx) for i in R3 for j in R3), z)
            S.eq("double-dot product of two tensors", O["d22"][idx] if shp else O["d22"], s)
            S.eq("double-dot product of two tensors", O["d22b"][idx] if shp else O["d22b"], s)
            S.eq("double-dot product of fourth-order tensors", obj((6, 6), lambda p, q: O["d44"][(p, q) + idx]),
                 obj((6, 6), lambda p, q: sum((T4(X, VI[p], VJ[p], i, j, idx) * T4(Y, i, j, VI[q], VJ[q], idx) for i in R3 for j in R3), z)))
            S.eq("fourth- with second-order double-dot product", obj((6,), lambda p: O["d42"][(p,) + idx]),
                 obj((6,), lambda p: sum((T4(X, VI[p], VJ[p], i, j, idx) * T2(B, i, j, idx) for i in R3 for j in R3), z)))
            S.eq("second- with fourth-order double-dot product", obj((6,), lambda p: O["d24"][(p,) + idx]),
                 obj((6,), lambda p: sum((T2(A, i, j, idx) * T4(Y, i, j, VI[p], VJ[p], idx) for i in R3 for j in R3), z)))
        for idx in grid(*self.trax):
            S.eq("major transpose", obj((6, 6), lambda p, q: O["T"][(p, q) + idx]), obj((6, 6), lambda p, q: X[(q, p) + idx]))


LAYOUTS = ("fortran", "strided", "reversed")
PAIRSH = [((), ()), ((1,), (1,)), ((2,), (2,)), ((2,), (1,)), ((1, 3), (2, 1)), ((2, 3), (2, 3)), ((2, 3), (1, 1)), ((1, 1), (2, 1)), ((6,), (6,)), ((6, 1), (1, 6))]


def c15(tier):
    out = [Algebra(f"algebra-{t}", trax=t) for t in SHAPES + [(6,), (3,)]]
    out += [Products(f"products-{a}-{b}", trax=a, trax2=b) for a, b in PAIRSH]
    for lay in LAYOUTS:
        out += [Algebra(f"algebra-{lay}", trax=(2, 3), layout=lay), Products(f"products-{lay}", trax=(2, 3), trax2=(2, 3), layout=lay)]
    if tier == "thorough":
        out += [Algebra(f"algebra-{t}", trax=t) for t in [(4,), (3, 2), (6, 6)]]
        out += [Products(f"products-{a}-{b}", trax=a, trax2=b) for a, b in [((2, 1, 3), (1, 2, 1)), ((3, 3), (3, 3)), ((4,), (1,))]]
    two = pick(out, "products-(2,)-(2,)")
    out += large(tier, *pick(out, "algebra-(2,)"), *two) + mixed(tier, *two, ((), (1,)))
    return out


class Dyads(MathScn):
    trax2 = ()
    same = False
    out = False

    def inputs(self, S):
        I = {"A": vec6(S, "A", self.trax), "B": vec6(S, "B", self.trax2)}
        shp = _np.broadcast_shapes(self.trax, self.trax2)
        I["P"] = S.arr("P", (6, 6) + shp)
        return I

    def run(self, api, A, B, P):
        m = api.he.math
        if self.same:
            B = A
        O = {}
        for f in ("dya", "cdya", "cdya_ik", "cdya_il"):
            if self.out:
                p = P.copy()
                r = getattr(m, f)(A, B, out=p)
                if f in ("dya", "cdya"):
                    O[f + " is out"] = r is p
            else:
                r = getattr(m, f)(A, B)
            O[f] = r
        O["A"], O["B"] = A, B
        return O

    def check(self, S, I, O):
        A = I["A"]
        B = A if self.same else I["B"]
        shp = _np.broadcast_shapes(self.trax, self.trax if self.same else self.trax2)
        S.eq("operands unchanged", O["A"], A)
        S.eq("operands unchanged", O["B"], B)
        for k, v in O.items():
            if isinstance(v, bool):
                S.require("result is written to out", v, k)
        S.require("shapes", O["dya"].shape == (6, 6) + shp and O["cdya"].shape == (6, 6) + shp
                  and O["cdya_ik"].shape == (3,) * 4 + shp and O["cdya_il"].shape == (3,) * 4 + shp)
        for idx in grid(*shp):
            a = lambda i, j: T2(A, i, j, idx)  # noqa: E731
            b = lambda i, j: T2(B, i, j, idx)  # noqa: E731
            S.eq("dyadic product", obj((6, 6), lambda p, q: O["dya"][(p, q) + idx]),
                 obj((6, 6), lambda p, q: a(VI[p], VJ[p]) * b(VI[q], VJ[q])))
            S.eq("crossed dyadic product (ik)", obj((3,) * 4, lambda *q: O["cdya_ik"][q + idx]),
                 obj((3,) * 4, lambda i, j, k, l: a(i, k) * b(j, l)))
            S.eq("crossed dyadic product (il)", obj((3,) * 4, lambda *q: O["cdya_il"][q + idx]),
                 obj((3,) * 4, lambda i, j, k, l: a(i, l) * b(k, j)))

            def crossed(p, q):
                i, j, k, l = VI[p], VJ[p], VI[q], VJ[q]
                return (a(i, k) * b(j, l) + a(i, l) * b(k, j) + b(i, k) * a(j, l) + b(i, l) * a(k, j)) / 4

            S.eq("symmetric crossed dyadic product", obj((6, 6), lambda p, q: O["cdya"][(p, q) + idx]), obj((6, 6), crossed))


def c16(tier):
    out = []
    for a, b in PAIRSH:
        if len(a) == len(b):
            out.append(Dyads(f"dyads-{a}-{b}", trax=a, trax2=b))
    for t in SHAPES:
        out.append(Dyads(f"dyads-self-{t}", trax=t, trax2=t, same=True))
    for t in ((), (2,), (2, 1)):
        out.append(Dyads(f"dyads-out-{t}", trax=t, trax2=t, out=True))
        out.append(Dyads(f"dyads-out-self-{t}", trax=t, trax2=t, out=True, same=True))
    for a, b in (((6, 6), (1, 1)), ((1, 1), (3, 3))):
        out.append(Dyads(f"dyads-{a}-{b}", trax=a, trax2=b))
    for lay in LAYOUTS:
        out.append(Dyads(f"dyads-{lay}", trax=(2, 3), trax2=(2, 3), layout=lay))
        out.append(Dyads(f"dyads-self-out-{lay}", trax=(2, 3), trax2=(2, 3), out=True, same=True, layout=lay))
    if tier == "thorough":
        for a, b in [((2, 1, 3), (1, 2, 1)), ((3, 3), (3, 3)), ((1, 6), (6, 1))]:
            out.append(Dyads(f"dyads-{a}-{b}", trax=a, trax2=b))
    two = pick(out, "dyads-(2,)-(2,)")
    out += large(tier, *two, *pick(out, "dyads-self-(2,)", "dyads-out-(2,)")) + mixed(tier, *two, ((1,),), ((3,), (129,), (1030,)))
    return out


class Eigen(MathScn):
    """eigenvalues and eigenbases of any symmetric tensor with the given coincidences"""
    patterns = ("distinct",)
    fun = False
    signs = (1, 1, 1)

    def inputs(self, S):
        A = _np.empty((6,) + self.trax, dtype=object)
        S.pts = {}
        for n, idx in enumerate(grid(*self.trax)):
            suf = "".join(f"_{k}" for k in idx)
            p = PATTERNS[self.patterns[n % len(self.patterns)]]
            base = [(-1.0, -0.5), (0.1, 0.4), (0.8, 1.3)]
            v = [S.var(f"w{suf}_{k}", *base[k]) for k in range(max(p) + 1)]
            for x, y in zip(v, v[1:]):
                S.pos(y - x)
            w = [v[k] for k in p]
            N = sym_frame(S, f"q{suf}_", self.signs)
            c = []
            for k in range(6):
                i, j = VI[k], VJ[k]
                if max(p) == 0:
                    c.append(v[0] if i == j else sym.const(0))
                else:
                    d = sum((w[a] * N[i][a] * N[j][a] for a in range(1, 3)), w[0] * N[i][0] * N[j][0])
                    c.append(sym.cut(f"A{suf}_{k}", d, pos=False))
            for k in range(6):
                A[(k,) + idx] = c[k]
            full = full_of(c)

            def frame(m, full=full, w=w, N=N):
                if all(sym.lift(m[i][j]) is full[i][j] for i in R3 for j in R3):
                    return w, N
                return None

            S.ctx.frames.append(frame)
            S.pts[idx] = (c, w, N, max(p) == 0)
        return {"A": S.like(A)}

    def run(self, api, A):
        fun = (lambda x: 2 * x * x - 3) if self.fun else None
        w, M = api.he.math.eigh(A, fun) if self.fun else api.he.math.eigh(A)
        return {"w": w, "M": M}

    @property
    def max_validate(self):
        # eigenvectors are not unique for equal eigenvalues
        return 4 if set(self.patterns) == {"distinct"} else 0

    def check(self, S, I, O):
        S.require("shapes", O["w"].shape == (3,) + self.trax and O["M"].shape == (3, 6) + self.trax)
        z = sym.const(0)
        for idx in grid(*self.trax):
            c, w, N, eq = S.pts[idx]
            f = (lambda x: 2 * x * x - 3) if self.fun else (lambda x: x)
            M = [[O["M"][(a, k) + idx] for k in range(6)] for a in R3]
            ev = [O["w"][(a,) + idx] for a in R3]
            S.eq("eigenvalues", _np.array(ev, dtype=object), _np.array([f(x) for x in w], dtype=object))
            S.eq("spectral sum", obj((6,), lambda k: sum((w[a] * M[a][k] for a in R3), z)), _np.array(c, dtype=object))
            S.eq("partition of unity", obj((6,), lambda k: sum((M[a][k] for a in R3), z)), _np.array([1, 1, 1, 0, 0, 0]))
            S.eq("projectors", obj((3, 3, 3), lambda a, i, j: sum((M[a][FULL[i][k]] * M[a][FULL[k][j]] for k in R3), z)),
                 obj((3, 3, 3), lambda a, i, j: M[a][FULL[i][j]]))
            S.eq("orthogonality", obj((3, 3, 3), lambda a, i, j: sum((M[a][FULL[i][k]] * M[(a + 1) % 3][FULL[k][j]] for k in R3), z)),
                 obj((3, 3, 3), lambda a, i, j: z))


def c17(tier):
    out = []
    for p in PATTERNS:
        out.append(Eigen(f"eigen-{p}", patterns=(p,)))
        out.append(Eigen(f"eigen-{p}-fun", patterns=(p,), fun=True, trax=(1,)))
    out.append(Eigen("eigen-reflected", signs=(-1, 1, -1)))
    out.append(Eigen("eigen-batch", patterns=("distinct", "low pair"), trax=(2,)))
    out.append(Eigen("eigen-batch-fun", patterns=("distinct", "all equal"), trax=(2,), fun=True))
    out.append(Eigen("eigen-batch2", patterns=("distinct", "high pair", "low pair"), trax=(1, 3)))
    out += [Eigen(f"eigen-{lay}", patterns=("distinct", "high pair", "low pair", "all equal"), trax=(2, 2), layout=lay) for lay in LAYOUTS]
    out.append(Eigen("eigen-batch3", patterns=("distinct", "high pair", "low pair", "all equal"), trax=(2, 2)))
    if tier == "thorough":
        out.append(Eigen("eigen-batch4", patterns=("distinct", "high pair", "low pair", "all equal"), trax=(2, 1, 3)))
    out += large(tier, *pick(out, "eigen-batch", "eigen-batch-fun", "eigen-batch2"))
    return out
