"""Which scenarios are run twice with different inputs in one process (common.Twice):
``first[+second]: shared names ...`` where "-" shares nothing."""
from .common import Twice

ALL = ("",)
CB = ("a", "B")

TABLE = {
    "C01": [("stress-111", None, (), ("C",), CB), ("stress-111", "stress-010", ("C",), CB), ("stress-101", "stress-111", (), ("C",)),
            ("stress-111-(2,)", None, ()), ("stress-111-(2,)", "stress-111-(3,)", ())],
    "C02": [("elasticity-111", None, (), ("C",), CB), ("elasticity-111", "elasticity-010", ("C",), CB), ("elasticity-101", "elasticity-111", (), ("C",)),
            ("elasticity-111-(2,)", None, ()), ("elasticity-linear-1111", "elasticity-111", ("C",))],
    "C05": [("model-111", None, (), ("lam", "E", "dE", "ddE"), CB), ("model-111", "model-101", ("",), ()), ("model-111", "model-kwargs", ("",)),
            ("framework-stress-distinct", None, (), CB), ("framework-elasticity-distinct", None, ()),
            ("framework-stress-distinct", "framework-stress-low pair", ())],
    "C06": [("any-110", None, (), CB, ("E", "dE", "ddE")), ("strain+1-111", None, (), CB, ("k",)), ("deformation+1-111", None, (), CB, ("k",)),
            ("strain+1-111", "deformation+1-111", ALL), ("strain+1-100", "strain+1-010", ALL),
            ("strain-exponent-2", "strain-exponent-1", ALL, ()), ("deformation-exponent-2", "deformation-exponent-3", ALL, ())],
    "C13": [(f"{k}-fNone-a0", None, (), ("F", "cF")) for k in ("deformation", "distortional", "dilatational")] + [("invariants-111", None, ()), ("stretches-distinct", None, ())],
    "C14": [("storage-(2,)", None, (), ("A", "a")), ("triangles-None", None, ()), ("triangles-other", None, (), ("A",), ("P",)), ("triangles-same", None, ())],
    "C15": [("algebra-(2,)", None, ()), ("products-(2,)-(2,)", None, (), ("A",), ("B",)), ("products-(2,)-(2,)", "products-(2,)-(1,)", ("A",))],
    "C16": [("dyads-(2,)-(2,)", None, (), ("A",), ("B",)), ("dyads-out-(2,)", None, (), ("A",), ("P",)), ("dyads-self-(2,)", "dyads-(2,)-(2,)", ("A",))],
    "C17": [("eigen-distinct", None, (), ("w",), ("q",)), ("eigen-distinct", "eigen-distinct-fun", ALL, ()), ("eigen-batch", None, ()), ("eigen-low pair", "eigen-distinct", ())],
    "C20": [(s, None, ()) for s in ("deformation space", "distortional space batch", "dilatational space", "invariants 111", "stretches distinct", "generalized", "generalized model 111", "generalized low pair")]
           + [("initial variables", "initial variables reversed", ())],
    "C21": [("all", None, ("C",)), ("all", "only-C10", ("I",), ()), ("all", "all-strain", ALL), ("only-C01", "only-C20", ("I",)), ("pair-C20-C11-batch", None, (), ("I",)), ("pair-C20-C11-batch", "pair-C11-C30-batch", ()), ("only-C30", None, ()), ("only-C10", None, (), ("I",))],
    "C22": [("two", None, (), ("lam",), ("k",), ("mu",)), ("one", "two", ("lam",), ()), ("two", "three", ALL), ("two-array", None, (), ("lam",)), ("two-batch", None, ())],
    "C23": [("strain+1", None, (), ("lam",), ("k",)), ("deformation+1", None, (), ("lam",), ("k",)), ("strain+1", "deformation+1", ALL), ("deformation+1", "strain+1", ALL),
            ("strain-exponent2", "strain-exponent3", ALL), ("strain+1", "strain-1", ("lam",)), ("deformation-exponent1", "deformation-exponent-2", ALL), ("strain-batch", None, ())],
    "C24": [("yeoh", None, (), ("I",), ("a", "b", "c")), ("yeoh", "cubic", ("I",)), ("mixed13", "mixed12", ("I",), ()), ("volume", "yeoh", ("I",)), ("yeoh batch", None, ()), ("framework yeoh", None, ()),
            ("linear", "yeoh", ("I",)), ("mixed12 point", None, ())],
    "C25": [(f"defgrad-{k}-(2,)", None, ()) for k in ("Uniaxial", "Biaxial", "Planar")]
           + [(f"force-{k}", None, (), ("l",), ("P",)) for k in ("Uniaxial", "Biaxial", "Planar")]
           + [("defgrad-Uniaxial-(2,)", "defgrad-Biaxial-(2,)", ALL), ("defgrad-Biaxial-(2,)", "defgrad-Planar-(2,)", ALL), ("defgrad-Planar-(2,)", "defgrad-Uniaxial-(2,)", ALL),
              ("defgrad-Uniaxial-(2,)", "defgrad-Uniaxial-(2, 2)", ()), ("force-Uniaxial", "force-Uniaxial-pressure", ALL), ("force-Uniaxial", "force-Biaxial", ALL),
              ("force-axes12", "force-axes20", ALL), ("force-axes0-1", "force-axes0-2", ALL)],
    "C26": [("experiment-array", None, (), ("d", "f"), ("area", "length")), ("experiment-area", "experiment-length", ALL), ("experiment-array", "experiment-array-default", ALL), ("experiment-array-default", "experiment-array", ALL),
            ("experiment-list", None, ()), ("simulation-Uniaxial", None, (), ("x", "w", "y"), ("p", "r"), ("Q",)), ("simulation-Biaxial", "simulation-Planar", ALL, ()),
            ("simulation-default", "simulation-Uniaxial", ALL), ("closed-Uniaxial-DeformationSpace", None, (), ("x",), ("C",)), ("closed-Uniaxial-DistortionalSpace", "closed-Planar-DistortionalSpace", ALL),
            ("closed-ogden-Uniaxial-DeformationSpace+1", None, (), ("x",))],
    "C27": [("two", None, (), ("Q", "p"), ("d", "f")), ("one", "three", ()), ("mask-slice", "two", ()), ("init", "two", ()), ("two", "init-mask", ())],
    "C30": [("distortional-any", None, ()), ("any-111", None, ()), ("tod-rotation", "tod-dilation", ())],
    "C31": [("Uniaxial", None, ()), ("Uniaxial", "Biaxial", ()), ("lists", None, ()), ("fit 2", None, ()), ("fit 1", "Planar", ())],
}
for _p, _w in (("C03", "stress"), ("C04", "elasticity")):
    TABLE[_p] = [(f"{_w}-distinct", None, (), ("lam", "q", "c"), CB), (f"{_w}-distinct", f"{_w}-low pair", (), ("q",)), (f"{_w}-all equal", f"{_w}-distinct", ()),
                 (f"{_w}-list", f"{_w}-distinct", ("lam", "q", "c")), (f"{_w}-separable-distinct", f"{_w}-distinct", ("lam", "q", "c")), (f"{_w}-batch", None, ())]
_FS = ("F", "cF")
_GH = ("g", "H")
for _p, _k in (("C07", "distortional"), ("C08", "dilatational"), ("C09", "deformation")):
    TABLE[_p] = [(f"{_k}-(1,)", None, (), _FS, _GH), (f"{_k}-(2,)", None, ()), (f"{_k}-full", None, (), _FS), (f"{_k}-linear", f"{_k}-(1,)", _FS), (f"{_k}-(1,)", f"{_k}-total-lagrange", _FS)]
_KINDS = ("deformation", "distortional", "dilatational")
TABLE["C10"] = [(f"{k}-f0-a0", f"{k}-fNone-aNone", ALL) for k in _KINDS] + [(f"{k}-fNone-a0", f"{k}-f0-aNone", ALL) for k in _KINDS] + \
    [(f"{k}-fNone-a0", None, (), _FS) for k in _KINDS] + [(f"{k}-fNone-aNone-raw", f"{k}-fNone-aNone", ALL) for k in _KINDS]
TABLE["C28"] = [(f"{k}-workers2", None, (), _FS) for k in _KINDS] + [(f"{k}-workers2", f"{k}-workers3-(2,)", ()) for k in _KINDS]
TABLE["C11"] = [(f"{k}-{m}", None, (), _FS, CB) for k, m in zip(_KINDS, ("111", "110", "111"))] + [("distortional-101", "dilatational-101", ALL), ("deformation-011", "distortional-011", ALL), ("dilatational-111", "deformation-111", ALL),
    ("distortional-tod", None, _FS, ("C",)), ("ogden-distinct", None, ("F", "cF"), ("k",), ("mu",)), ("stretch-distinct", "ogden-distinct", ("F", "cF"))]
TABLE["C29"] = [(f"{k}-fNone-a0", None, ()) for k in _KINDS]


# evaluated again with the same arrays, filled with other values
PARAMS = ("a", "B")
REFILL = {
    "C01": [("stress-111", PARAMS), ("stress-111-(2,)", ())], "C02": [("elasticity-111", PARAMS), ("elasticity-111-(2,)", ())],
    "C03": [("stress-distinct", PARAMS), ("stress-batch", ())], "C04": [("elasticity-distinct", PARAMS), ("elasticity-batch", ())],
    "C05": [("framework-stress-distinct", PARAMS), ("model-111", PARAMS), ("model-batch", ())],
    "C07": [("distortional-(1,)", _GH), ("distortional-(2,)", ())], "C08": [("dilatational-(1,)", _GH), ("dilatational-(2,)", ())], "C09": [("deformation-(1,)", _GH), ("deformation-(2,)", ())],
    "C10": [(f"{k}-f0-a0", _GH) for k in _KINDS], "C28": [(f"{k}-workers2", _GH) for k in _KINDS],
    "C11": [("deformation-111", PARAMS), ("dilatational-111", PARAMS), ("distortional-tod", ("C",)), ("ogden-distinct", ("k", "mu"))],
    "C14": [("storage-(2,)", ()), ("triangles-None", ()), ("triangles-other", ("P",)), ("triangles-same", ())],
    "C15": [("algebra-(2,)", ()), ("products-(2,)-(2,)", ("A",)), ("products-(2,)-(2,)", ("B",)), ("products-(2,)-(2,)", ())],
    "C16": [("dyads-(2,)-(2,)", ("A",)), ("dyads-(2,)-(2,)", ("B",)), ("dyads-self-(2,)", ()), ("dyads-out-(2,)", ())],
    "C17": [("eigen-distinct", ()), ("eigen-batch", ()), ("eigen-distinct-fun", ())],
    "C20": [("deformation space", ()), ("invariants 111", ()), ("stretches distinct", ()), ("generalized", ())],
    "C21": [("pair-C20-C11-batch", ("C",)), ("only-C30", ("C",)), ("only-C11", ("C",))],
    "C22": [("two", ("k", "mu")), ("two-batch", ("k", "mu")), ("two-array", ())],
    "C23": [("strain+1", ("k",)), ("deformation+1", ("k",)), ("strain-batch", ("k",)), ("deformation-batch", ("k",)), ("strain-exponent2", ()), ("deformation-exponent2", ())],
    "C25": [("force-Uniaxial", ("P",)), ("force-Uniaxial", ("l",)), ("defgrad-Uniaxial-(2,)", ()), ("defgrad-Biaxial-(2,)", ()), ("defgrad-Planar-(2,)", ())],
    "C26": [("experiment-array", ("area", "length")), ("simulation-array", ("p", "r", "Q")), ("closed-Uniaxial-DeformationSpace", ("C",))],
    "C27": [("two", ()), ("init-mask", ())],
}


def repeated(prop, scns, tier):
    by = {s.id: s for s in scns}
    out = [Twice(by[a], by[b] if b else None, share=x) for a, b, *shares in TABLE.get(prop, ()) for x in shares]
    return out + [Twice(by[a], share=x, refill=True) for a, x in REFILL.get(prop, ())]


# one object used for several arguments in the same array: names of the targets (usage.py)
OBJECTS = {
    "C01": (("invariants framework",), "gGg"), "C02": (("invariants framework",), "hHh"),
    "C03": (("stretches framework",), "gGg"), "C04": (("stretches framework",), "hHh"),
    "C05": (("generalized ",), "gGhH"), "C06": (("generalized model",), "gGhH"),
    "C07": (("distortional space",), "gGhH"), "C08": (("dilatational space",), "gGhH"), "C09": (("deformation space",), "gGhH"),
    "C10": (("deformation space f0", "distortional space f0", "dilatational space f0"), "gGhH"), "C28": (("deformation space full par", "distortional space full par", "dilatational space full par"), "gGhH"),
    "C11": (("tod ", "ogden distinct"), "gGhH"), "C21": (("third-order",), "gGhH"), "C22": (("ogden list", "ogden array"), "gGhH"),
}


def objects(prop, tier):
    from .usage import targets, Reuse, pairs, lookalikes
    names, order = OBJECTS.get(prop, ((), ""))
    out = [Reuse(f"object {T.name}", target=T, order=order) for T in targets("quick") if T.name.startswith(names)]
    two = [s for s in pairs(tier) if s.first.name.startswith(names)]
    for s in two:
        s.order = order + order[0].upper() if order != "gGhH" else s.order
    near = [s for s in lookalikes(tier) if s.target.name.startswith(names)]
    for s in near:
        s.order = order
    two += near
    return out + two if tier == "thorough" else out[:8] + two
