"""What the plot methods draw."""
from .common import *  # noqa: F401,F403
from .common import _np
from .labprops import CASES, Umat, sim_stress
from vf import sym


class Quiet:
    """accepts every further drawing call"""

    def __init__(self, fig=None):
        self.fig = fig

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name == "transAxes":
            return None
        return lambda *a, **k: Quiet(self.fig)


class Axes(Quiet):
    """records the drawn curves"""

    def __init__(self, fig=None):
        super().__init__(fig)
        self.curves = []
        self.texts = {}

    def plot(self, x, y, *a, **k):
        self.curves.append((x, y, list(a), dict(k)))
        return [Quiet(self.fig)]

    def text(self, *a, **k):
        self.texts.setdefault("boxes", []).append(next((str(v) for v in [*a, *k.values()] if isinstance(v, str)), ""))
        return Quiet(self.fig)

    annotate = text

    def get_figure(self, *a, **k):
        return self.fig

    figure = property(get_figure)

    def set(self, **k):
        self.texts.update(k)

    def set_xlabel(self, s, *a, **k):
        self.texts["xlabel"] = s

    def set_ylabel(self, s, *a, **k):
        self.texts["ylabel"] = s

    def set_title(self, s, *a, **k):
        self.texts["title"] = s


class Figure(Quiet):
    """a figure which makes its own axes"""

    def __init__(self, canvas):
        super().__init__()
        self.fig = self
        self.canvas = canvas

    def subplots(self, *a, **k):
        ax = Axes(self)
        self.canvas.made.append((self, ax))
        return ax

    add_subplot = add_axes = subplots

    def gca(self, *a, **k):
        own = [ax for fig, ax in self.canvas.made if fig is self]
        return own[-1] if own else self.subplots()


class Canvas:
    """stands for the functions of matplotlib.pyplot which make figures and axes"""

    def __init__(self):
        self.made = []

    def __call__(self, *a, **k):
        fig = Figure(self)
        return fig, fig.subplots()

    def figure(self, *a, **k):
        return Figure(self)


def curve(np, c):
    return {"x": np.asarray(c[0]) * 1, "y": np.asarray(c[1]) * 1}


class Curves(Scenario):
    """force-displacement and stress-stretch curves of experiments and simulations"""
    n = 3
    container = "array"
    case = "Uniaxial"
    max_validate = 1

    def bounds(self):
        return f"{self.n} data points of any value as {self.container}, any area and length, {self.case} simulation of any material; on given axes, on new axes, after changed parameters"

    def inputs(self, S):
        return {"d": S.arr("d", (self.n,)), "f": S.arr("f", (self.n,)), "area": S.var("area", 0.5, 2.0, pos=True),
                "length": S.var("length", 0.5, 2.0, pos=True), "x": S.arr("x", (self.n,), 0.6, 1.8, pos=True),
                "Q": S.arr("Q", (2, 2, 3, 3)), "p": S.arr("p", (2,)), "r": S.arr("r", (2,))}

    def run(self, api, d, f, area, length, x, Q, p, r):
        np, lab = api.np, api.he.lab
        canvas = Canvas()
        api.subplots(canvas)
        conv = list if self.container == "list" else (lambda v: v)
        e = lab.Experiment("data", conv(d), conv(f), area=area, length=length)
        s = lab.Simulation(getattr(lab, self.case)("model"), x, ["a", "b"], lambda **kw: Umat(api, Q, kw, []), list(p))
        fig = Quiet()
        ax = Axes(fig)
        O = {"same": [], "lab": [], "opt": []}
        plots = [e.plot_force_displacement, e.plot_stress_stretch, s.plot_stress_stretch]
        O["axis"] = []
        for q in plots:
            a, b = q(ax=ax)
            O["axis"].append([ax.texts.get(t) for t in ("xlabel", "ylabel")])
            O["same"].append(a is fig and b is ax)
        for q in plots:
            a, b = q("x", lw=3, label="own", xlabel="the abscissa", ylabel="the ordinate")
            O["axis"].append([b.texts.get(t) for t in ("xlabel", "ylabel")])
            O["same"].append(len(canvas.made) > 0 and any(a is g and b is h for g, h in canvas.made))
        s.parameters = list(r)
        s.plot_stress_stretch(ax=ax)
        ax2 = Axes(fig)
        for q in plots:
            q(ax=ax2, label="", xlabel="", ylabel="")
            O["axis"].append([ax2.texts.get(t) for t in ("xlabel", "ylabel")])
        O["empty"] = [c[3].get("label") == "" for c in ax2.curves]
        e.label = "renamed"
        for q in plots:
            q(ax=ax2)
        O["renamed"] = [str(c[3].get("label")) for c in ax2.curves[3:]]
        O["more"] = [curve(np, c) for c in ax2.curves]
        curves = list(ax.curves) + [c for g, h in canvas.made for c in h.curves]
        O["curves"] = [curve(np, c) for c in curves]
        O["fig"] = len(canvas.made) == 3
        O["lab"] = [str(c[3].get("label")) for c in curves]
        O["opt"] = [c[2] == ["x"] and c[3].get("lw") == 3 for c in curves[4:]]
        return O

    def check(self, S, I, O):
        S.require("figure and axes are returned", all(O["same"]) and O["fig"])
        S.require("labels", O["lab"] == ["data", "data", "model", "model", "own", "own", "own"])
        S.require("axis labels", all(isinstance(t, str) and t for t in sum(O["axis"][:3], [])) and O["axis"][3:] == [["the abscissa", "the ordinate"]] * 3 + [["", ""]] * 3)
        S.require("an empty label is a given label", O["empty"] == [True] * 3)
        S.require("own label at the time of drawing", O["renamed"] == ["renamed", "renamed", "model"])
        S.require("options are passed on", all(O["opt"]))
        S.require("one curve each", len(O["curves"]) == 7)
        stretch = _np.array([(I["length"] + v) / I["length"] for v in I["d"]], dtype=object)
        stress = _np.array([v / I["area"] for v in I["f"]], dtype=object)
        sim = [_np.array([sim_stress(I["Q"], I[q], self.case, l) for l in I["x"]], dtype=object) for q in "pr"]
        fd, ss, ps, rs = (I["d"], I["f"]), (stretch, stress), (I["x"], sim[0]), (I["x"], sim[1])
        S.require("one curve each", len(O["more"]) == 6)
        for c, (x, y) in zip(O["curves"] + O["more"], [fd, ss, ps, rs, fd, ss, ps] + [fd, ss, rs] * 2):
            S.eq("abscissa of the curve", c["x"], x)
            S.eq("ordinate of the curve", c["y"], y)


class Boards(Scenario):
    """several experiments and simulations drawn alternately, with different options"""
    n = (2, 3)
    cases = ("Uniaxial", "Planar")
    max_validate = 1

    def bounds(self):
        return f"two experiments of {self.n} data points of any value, area and length, two simulations ({' and '.join(self.cases)}) of any materials and parameters, drawn alternately on own and common axes, each first with and then without options"

    def inputs(self, S):
        I = {}
        for k in range(2):
            n = self.n[k]
            I.update({f"d{k}": S.arr(f"d{k}", (n,)), f"f{k}": S.arr(f"f{k}", (n,)), f"A{k}": S.var(f"A{k}", 0.5, 2.0, pos=True),
                      f"L{k}": S.var(f"L{k}", 0.5, 2.0, pos=True), f"x{k}": S.arr(f"x{k}", (n,), 0.6, 1.8, pos=True),
                      f"Q{k}": S.arr(f"Q{k}", (2, 2, 3, 3)), f"p{k}": S.arr(f"p{k}", (2,))})
        return I

    def run(self, api, **I):
        np, lab = api.np, api.he.lab
        canvas = Canvas()
        api.subplots(canvas)
        es = [lab.Experiment(f"data {k}", I[f"d{k}"], I[f"f{k}"], area=I[f"A{k}"], length=I[f"L{k}"]) for k in range(2)]
        ss = []
        for k in range(2):
            mat = (lambda Q: lambda **kw: Umat(api, Q, kw, []))(I[f"Q{k}"])
            ss.append(lab.Simulation(getattr(lab, self.cases[k])(f"model {k}"), I[f"x{k}"], ["a", "b"], mat, list(I[f"p{k}"])))
        plots = [[e.plot_force_displacement, e.plot_stress_stretch, s.plot_stress_stretch] for e, s in zip(es, ss)]
        fig = [Quiet(), Quiet()]
        ax = [Axes(f) for f in fig]
        O = {"same": [], "axis": []}
        for q in range(3):
            for k in range(2):
                a, b = plots[k][q]("o", ax=ax[k], label=f"own {k}", xlabel=f"x {k}", ylabel=f"y {k}", ms=5 + k)
                O["same"].append(a is fig[k] and b is ax[k])
                O["axis"].append([b.texts.get(t) for t in ("xlabel", "ylabel")] == [f"x {k}", f"y {k}"])
        for q in range(3):
            for k in (1, 0):
                n = len(canvas.made)
                a, b = plots[k][q]()
                O["same"].append(len(canvas.made) == n + 1 and a is canvas.made[-1][0] and b is canvas.made[-1][1] and len(b.curves) == 1)
                O["axis"].append(all(isinstance(b.texts.get(t), str) and b.texts.get(t) not in ("x 0", "x 1", "y 0", "y 1") for t in ("xlabel", "ylabel")))
        own = [c for h in ax for c in h.curves]
        new = [c for g, h in canvas.made for c in h.curves]
        O["number"] = [len(own), len(new)]
        O["options"] = [c[2] == ["o"] and c[3].get("ms") == 5 + k for k in range(2) for c in ax[k].curves] + [c[2] == [] and "ms" not in c[3] for c in new]
        O["label"] = [str(c[3].get("label")) for c in own + new]
        O["curves"] = [curve(np, c) for c in own + new]
        return O

    def check(self, S, I, O):
        S.require("every curve has its own figure and axes", all(O["same"]))
        S.require("axis labels", all(O["axis"]))
        S.require("one curve each", O["number"] == [6, 6] and len(O["curves"]) == 12)
        S.require("options belong to one call", all(O["options"]))
        S.require("labels", O["label"] == ["own 0"] * 3 + ["own 1"] * 3 + ["data 1", "data 0"] * 2 + ["model 1", "model 0"])
        data = []
        for k in range(2):
            stretch = _np.array([(I[f"L{k}"] + v) / I[f"L{k}"] for v in I[f"d{k}"]], dtype=object)
            stress = _np.array([v / I[f"A{k}"] for v in I[f"f{k}"]], dtype=object)
            sim = _np.array([sim_stress(I[f"Q{k}"], I[f"p{k}"], self.cases[k], l) for l in I[f"x{k}"]], dtype=object)
            data.append([(I[f"d{k}"], I[f"f{k}"]), (stretch, stress), (I[f"x{k}"], sim)])
        want = data[0] + data[1] + [data[k][q] for q in range(3) for k in (1, 0)]
        for c, (x, y) in zip(O["curves"], want):
            S.eq("abscissa of the curve", c["x"], x)
            S.eq("ordinate of the curve", c["y"], y)


class FitPlot(Scenario):
    """the plot of a fit: every experiment with its simulation at the fitted parameters"""
    nsim = 2
    n = 2
    fit = True
    masked = False
    distinct = 0        # number of different points (0: all)
    max_validate = 1

    def few(self, S, name, **k):
        a = S.arr(name, (self.distinct or self.n,), **k)
        return a[[i * i % len(a) for i in range(self.n)]] if self.distinct else a

    def bounds(self):
        return f"{self.nsim} experiments with {self.n} points " + (f"({self.distinct} different ones) " if self.distinct else "") + "of any area and length, 2 parameters, " + ("masked data, " if self.masked else "") + ("after a fit with any result" if self.fit else "before a fit, any initial parameters")

    def inputs(self, S):
        I = {}
        for k in range(self.nsim):
            I[f"d{k}"] = self.few(S, f"d{k}", lo=0.1, hi=0.9)
            I[f"f{k}"] = self.few(S, f"f{k}")
            I[f"A{k}"], I[f"L{k}"] = S.var(f"A{k}", 0.5, 2.0, pos=True), S.var(f"L{k}", 0.5, 2.0, pos=True)
            for i, v in enumerate(I[f"d{k}"]):
                S.pos(v + I[f"L{k}"])
                sym.cut(f"l{k}_{i}", 1 + v / I[f"L{k}"], pos=True)
            I[f"Q{k}"] = S.arr(f"Q{k}", (2, 2, 3, 3))
        I["p"] = S.arr("p", (2,))
        I["popt"] = S.arr("popt", (2,))
        cov = symarr(S, "cov_", 2)
        for i in range(2):
            cov[i, i] = S.var(f"cov_{i}{i}d", 0.2, 2.0, pos=True)
        I["cov"] = cov
        for v in list(I["p"]) + list(I["popt"]):
            S.nz(v)
        res = []
        for k in range(self.nsim):
            for v, y in list(zip(I[f"d{k}"], I[f"f{k}"]))[1 if self.masked else 0:]:
                res.append(sym.cut(f"res{len(res)}", sim_stress(I[f"Q{k}"], I["popt" if self.fit else "p"], CASES[k], 1 + v / I[f"L{k}"]) - y / I[f"A{k}"], pos=False))
        s = sum((v * v for v in res[1:]), res[0] * res[0])
        S.nz(s)
        S.pos(s)
        self.residuals = res
        return I

    def run(self, api, p, popt, cov, **I):
        np, lab = api.np, api.he.lab
        canvas = Canvas()
        api.subplots(canvas)
        es, ss = [], []
        for k in range(self.nsim):
            es.append(lab.Experiment(f"e{k}", I[f"d{k}"], I[f"f{k}"], area=I[f"A{k}"], length=I[f"L{k}"]))
            mat = (lambda Q: lambda **kw: Umat(api, Q, kw, []))(I[f"Q{k}"])
            ss.append(lab.Simulation(getattr(lab, CASES[k])(), es[k].stretch, ["a", "b"], mat))
        o = lab.Optimize(es, ss, p.copy(), **({"mask": [slice(1, None)] * self.nsim} if self.masked else {}))
        if self.fit:
            api.curve_fit(lambda f, xdata, ydata, p0=None, *a, **k: (popt.copy(), cov.copy()))
            o.curve_fit()
        else:
            o.init_curve_fit()
        a, b = o.plot(title="T")
        own = [h for g, h in canvas.made if h.curves]
        box = "\n".join(own[0].texts.get("boxes", []))
        e2 = [2 * v for v in o.errors]
        norm, dev = o.norm_residuals(), o.mean_relative_std()
        others = [*o.parameters, *o.errors, *e2, norm, dev]

        def shown(start, *expected):
            line = next((ln.strip() for ln in box.splitlines() if ln.strip().startswith(start)), "")
            return np.array(api.numbers(line[len(start):], expected, others))

        text = {n: shown(n, o.parameters[i], e2[i]) for i, n in enumerate("ab")}
        text["norm"] = shown("Absolute Norm", norm)
        text["dev"] = shown("Mean Std", dev)
        return {"text": text, "one": len(own) == 1 and b is own[0] and any(a is g for g, h in canvas.made), "title": own[0].texts.get("title") == "T",
                "curves": [curve(np, c) for c in own[0].curves], "label": [str(c[3].get("label")) for c in own[0].curves]}

    def check(self, S, I, O):
        S.require("one figure with its axes is returned", O["one"])
        S.require("title", O["title"])
        S.require("one curve per experiment and simulation", len(O["curves"]) == 2 * self.nsim)
        S.require("labels", len(set(O["label"])) == 2 * self.nsim)
        par = I["popt"] if self.fit else I["p"]
        err = [I["cov"][i, i].sqrt() if self.fit else sym.nan() for i in range(2)]
        for i, n in enumerate("ab"):
            S.eq("reported parameter and deviation", O["text"][n], obj((2,), lambda k: par[i] if k == 0 else err[i] * 2))
        norm = sum((v * v for v in self.residuals[1:]), self.residuals[0] * self.residuals[0]).sqrt()
        S.eq("reported norm of the residuals", O["text"]["norm"], obj((1,), lambda k: norm))
        S.eq("reported mean deviation", O["text"]["dev"], obj((1,), lambda k: (err[0] / abs(par[0]) + err[1] / abs(par[1])) * 50))
        for k in range(self.nsim):
            x = _np.array([1 + v / I[f"L{k}"] for v in I[f"d{k}"]], dtype=object)
            y = _np.array([sim_stress(I[f"Q{k}"], par, CASES[k], l) for l in x], dtype=object)
            mine = [(lb, c) for lb, c in zip(O["label"], O["curves"]) if lb.startswith(f"e{k}")]
            S.require("two curves per experiment", len(mine) == 2)
            mine.sort(key=lambda m: "xperiment" in m[0])
            sim, exp = (c for lb, c in mine)
            S.eq("abscissa of the simulation", sim["x"], x)
            S.eq("ordinate of the simulation", sim["y"], y)
            S.eq("abscissa of the experiment", exp["x"], x)
            S.eq("ordinate of the experiment", exp["y"], _np.array([v / I[f"A{k}"] for v in I[f"f{k}"]], dtype=object))


def c31(tier):
    out = [Curves(c, case=c) for c in CASES] + [Curves("lists", container="list")]
    out += [FitPlot(f"fit {n}", nsim=n) for n in (1, 2, 3)] + [FitPlot("start", fit=False), FitPlot("masked", masked=True), FitPlot("masked 3", masked=True, nsim=1, n=3)]
    out += [Boards("two boards"), Boards("two boards same case", cases=("Biaxial", "Biaxial"), n=(2, 2))]
    if tier == "thorough":
        out += [Boards(f"two boards {c} {e} {n}", cases=(c, e), n=n) for c in CASES for e in CASES for n in ((1, 4), (3, 3))]
        out += [Curves(f"{c} {n} points", case=c, n=n) for c in CASES for n in (1, 5)] + [FitPlot("five points", nsim=3, n=5)]
    out += [Curves("large", n=60), FitPlot("large fit", nsim=2, n=67, distinct=7)]
    return out
