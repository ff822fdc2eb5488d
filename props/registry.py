import importlib

MODS = {
    "frameworks": "C01 C02", "stretches": "C03 C04", "generalized": "C05 C06", "spaces": "C07 C08 C09 C10 C28",
    "mathprops": "C14 C15 C16 C17", "models": "C21 C22 C23", "labprops": "C25 C26 C27", "integration": "C11", "laws": "C12 C13 C29 C30", "usage": "C18 C19 C20",
    "torchprops": "C24", "labplots": "C31",
}
MODS = {p: m for m, ps in MODS.items() for p in ps.split()}


def scenarios(prop, tier):
    m = importlib.import_module("props." + MODS[prop])
    from .histories import repeated, objects
    out = getattr(m, prop.lower())(tier)
    return out + repeated(prop, out, tier) + objects(prop, tier)


def _meta(prop):
    from . import meta
    return meta.P.get(prop, {"mech": [], "bounds": "", "assume": []})


def anchors(prop):
    return [f"{x['where']}: {x['name']}" for x in _meta(prop)["mech"]]


def bounds(prop):
    return _meta(prop)["bounds"]


def assumptions(prop):
    return _meta(prop)["assume"]
