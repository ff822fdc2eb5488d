from .common import *  # noqa: F401,F403
from .common import _np
from vf import sym


class StretchFramework(Scenario):
    """Stretches framework over an arbitrary isotropic stretch-based material."""
    what = "stress"
    patterns = ("distinct",)
    trax = (1,)
    form = "array"
    signs = (1, 1, 1)
    vary = None         # axes of the batch along which the material differs

    def bounds(self):
        return (f"C: any SPD tensor with eigenvalues {self.patterns} (distinct ones at least 1e-6 apart), any eigenframe, "
                f"trailing shape {self.trax}; all first/second energy derivatives arbitrary"
                + ("" if self.vary is None else f", different along axes {self.vary} of the batch"))

    def inputs(self, S):
        I = {}
        C = _np.empty((6,) + self.trax, dtype=object)
        S.points = {}
        for n, idx in enumerate(grid(*self.trax)):
            suf = "".join(f"_{k}" for k in idx)
            pat = self.patterns[n % len(self.patterns)]
            lam = sym_stretches(S, pat, f"lam{suf}_")
            N = sym_frame(S, f"q{suf}_", self.signs)
            c = register_frame(S, lam, N, f"c{suf}_")
            for k in range(6):
                C[(k,) + idx] = c[k]
            S.points[idx] = (lam, N, pat)
        pats = set(self.patterns)
        pat = next(iter(pats)) if len(pats) == 1 else "all equal"
        I.update(stretch_coeffs(S, pat, self.form) if self.vary is None else stretch_coeffs_at(S, pat, self.form, self.trax, self.vary))
        I["C"] = S.like(C)
        return I

    def run(self, api, C, **I):
        m = StretchModel(api.np, [I[f"a{i}"] for i in range(3)], B_of(I), self.form)
        fw = api.he.StretchesFramework(m)
        if self.what == "stress":
            return {"G": fw.gradient(C, None)[0]}
        return {"H": fw.hessian(C, None)}

    def check(self, S, I, O):
        for idx in grid(*self.trax):
            lam, N, pat = S.points[idx]
            w, ww = stretch_derivs(I, lam, idx=idx)
            G, H = dk_tensors(lam, N, w, ww, pat)
            if self.what == "stress":
                S.eq("dpsi/dC", obj((6,), lambda k: at(O["G"], (k,), idx)), _np.array(G, dtype=object))
            else:
                S.eq("d2psi/dCdC", obj((6, 6), lambda k, l: at(O["H"], (k, l), idx)), obj((6, 6), lambda k, l: H[k][l]))


def stretch_scns(what, tier):
    out = []
    for p in PATTERNS:
        out.append(StretchFramework(f"{what}-{p}", what=what, patterns=(p,)))
    out.append(StretchFramework(f"{what}-reflected", what=what, signs=(-1, 1, -1)))
    out.append(StretchFramework(f"{what}-list", what=what, form="list"))
    for p in PATTERNS:
        out.append(StretchFramework(f"{what}-separable-{p}", what=what, form="diag", patterns=(p,)))
    out.append(StretchFramework(f"{what}-point", what=what, trax=()))
    out.append(StretchFramework(f"{what}-batch", what=what, trax=(2,), patterns=("distinct", "low pair")))
    out.append(StretchFramework(f"{what}-batch2", what=what, trax=(2, 2), patterns=("high pair", "all equal", "distinct", "low pair")))
    if tier == "thorough":
        out.append(StretchFramework(f"{what}-batch3", what=what, trax=(1, 2, 2), patterns=("distinct", "all equal", "high pair", "low pair")))
        out.append(StretchFramework(f"{what}-batch4", what=what, trax=(6,), patterns=("distinct",)))
    for k, (p, form) in enumerate((p, f) for p in PATTERNS for f in ("array", "list", "diag", "linear")):
        for v in ((0,), (1,), (0, 1)):
            if tier == "thorough" or k % 3 == len(v) + v[0] - 1:
                out.append(StretchFramework(f"{what}-{form}-{p}-along{v}", what=what, patterns=(p,), form=form, trax=(2, 2), vary=v))
    out += large(tier, *pick(out, f"{what}-batch", f"{what}-batch2"))
    return out


def c03(tier):
    return stretch_scns("stress", tier)


def c04(tier):
    return stretch_scns("elasticity", tier)
