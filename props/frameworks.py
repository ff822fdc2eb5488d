from .common import *  # noqa: F401,F403
from .common import _np
from vf import sym

MASKS = [(a, b, c) for a in (1, 0) for b in (1, 0) for c in (1, 0) if a or b or c]


class InvFramework(Scenario):
    """Invariants framework over an arbitrary invariant-based material."""
    what = "stress"
    hess = None
    vary = None         # axes of the batch along which the material differs

    def bounds(self):
        return f"C: any SPD tensor, trailing shape {self.trax}; invariants used {self.mask}; all first/second energy derivatives arbitrary" + ("" if self.vary is None else f", different along axes {self.vary} of the batch")

    def inputs(self, S):
        I = {"C": sym_C(S, "C", self.trax)}
        I.update(inv_coeffs(S, self.mask, self.trax, self.vary, self.hess))
        return I

    def run(self, api, C, **I):
        model = InvModel([I[f"a{i}"] for i in range(3)], B_of(I), self.mask, self.hess)
        fw = api.he.InvariantsFramework(model)
        if self.what == "stress":
            g, z = fw.gradient(C, None)
            return {"S": g}
        return {"H": fw.hessian(C, None)}

    def check(self, S, I, O):
        C = I["C"]
        for idx in grid(*self.trax):
            c = col(C, idx)
            inv = invariants6(c)
            B = B_of(I, idx=idx)
            psi = sym.const(0)
            for i in range(3):
                if self.mask[i]:
                    psi = psi + pt(I[f"a{i}"], idx) * inv[i]
                    for j in range(3):
                        if self.mask[j]:
                            psi = psi + B[i][j] * inv[i] * inv[j] / 2
            d = [sym.diff(psi, c[k]) for k in range(6)]
            if self.what == "stress":
                S.eq("dpsi/dC", obj((6,), lambda k: W[k] * at(O["S"], (k,), idx)), _np.array(d, dtype=object))
            else:
                S.eq("d2psi/dCdC", obj((6, 6), lambda k, l: W[k] * W[l] * at(O["H"], (k, l), idx)),
                     obj((6, 6), lambda k, l: sym.diff(d[k], c[l])))


def c01(tier):
    out = []
    for m in MASKS:
        out.append(InvFramework(f"stress-{''.join(map(str, m))}", what="stress", mask=m, trax=(1,)))
    for t in [(), (2,), (1, 2), (3,), (6,)] + ([(2, 3), (2, 1, 2)] if tier == "thorough" else []):
        out.append(InvFramework(f"stress-111-{t}", what="stress", mask=(1, 1, 1), trax=t))
    for k, m in enumerate(MASKS):
        for v in ((0,), (1,), (0, 1)):
            out.append(InvFramework(f"stress-{''.join(map(str, m))}-along{v}", what="stress", mask=m, trax=(2, 3) if k % 2 else (2, 2), vary=v))
            out.append(InvFramework(f"stress-linear-{''.join(map(str, m))}-along{v}", what="stress", mask=m, hess=[], trax=(2, 2), vary=v))
    out += large(tier, *pick(out, "stress-111", "stress-010"))
    return out


def c02(tier):
    out = []
    for m in MASKS:
        out.append(InvFramework(f"elasticity-{''.join(map(str, m))}", what="elasticity", mask=m, trax=(1,)))
    pairs = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]
    for p in pairs:
        out.append(InvFramework(f"elasticity-only{p[0]}{p[1]}", what="elasticity", mask=(1, 1, 1), hess=[p], trax=(1,)))
    out += [InvFramework(f"elasticity-linear-{''.join(map(str, m))}{len(t)}", what="elasticity", mask=m, hess=[], trax=t) for m in MASKS for t in ((1,), ())]
    for t in [(), (2,), (1, 2)]:
        out.append(InvFramework(f"elasticity-111-{t}", what="elasticity", mask=(1, 1, 1), trax=t))
    for k, m in enumerate(MASKS):
        for v in ((0,), (1,), (0, 1)):
            if tier == "thorough" or (0, 1) == v or k % 2 == v[0]:
                out.append(InvFramework(f"elasticity-{''.join(map(str, m))}-along{v}", what="elasticity", mask=m, trax=(2, 2), vary=v))
                out.append(InvFramework(f"elasticity-linear-{''.join(map(str, m))}-along{v}", what="elasticity", mask=m, hess=[], trax=(2, 2), vary=v))
    out += large(tier, *pick(out, "elasticity-111", "elasticity-101"))
    return out
