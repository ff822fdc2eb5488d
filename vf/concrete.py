"""Runs scenarios against the real package (real numpy, scipy, torch) on concrete inputs.
usage: concrete.py REQUESTS.json RESULTS.json   (interpreter: /opt/venv/bin/python)"""
import importlib
import json
import os
import re
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src"))
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

import numpy as np  # noqa: E402
from vf.base import relayout  # noqa: E402


class Api:
    symbolic = False

    def __init__(self):
        import hyperelastic
        self.he = hyperelastic
        self.np = np

    def module(self, name):
        return importlib.import_module("hyperelastic." + name)

    @property
    def torch(self):
        import torch
        torch.set_default_dtype(torch.float64)
        return torch

    def is_array(self, x):
        return isinstance(x, np.ndarray)

    def numbers(self, text, expected=(), others=()):
        """The numbers a text shows; where one is the rounded form of an expected or other
        known quantity it stands for that quantity."""
        out = []
        for i, t in enumerate(re.findall(r"[-+]?(?:nan|inf|\d+\.?\d*(?:e[-+]?\d+)?)", text)):
            m, _, e = t.partition("e")
            v = float(t)
            tol = 0.51 * 10.0 ** (int(e or 0) - len(m.partition(".")[2]))
            known = [float(x) for x in list(expected)[i:i + 1] + list(others)]
            out.append(next((x for x in known if abs(x - v) <= tol), v))
        return out

    def double(self, x):
        return x.dtype == np.float64

    def nproc(self, n):
        import einsumt
        from multiprocessing.pool import ThreadPool
        if einsumt.einsumt.__globals__["default_thread_pool"]._processes != n:
            einsumt.einsumt.__globals__["default_thread_pool"] = ThreadPool(n)

    def curve_fit(self, hook):
        import scipy.optimize
        if not hasattr(self, "_cf"):
            Api._cf = [scipy.optimize.curve_fit]
        for name, m in list(sys.modules.items()):
            if name.split(".")[0] == "hyperelastic":
                for k, v in list(vars(m).items()):
                    if any(v is f for f in Api._cf):
                        setattr(m, k, hook)
        scipy.optimize.curve_fit = hook
        Api._cf.append(hook)

    def subplots(self, canvas):
        import matplotlib.pyplot as plt
        if not hasattr(self, "_plt"):
            Api._plt = {"subplots": [plt.subplots], "figure": [plt.figure]}
        for name, hook in (("subplots", canvas), ("figure", canvas.figure)):
            for mod, m in list(sys.modules.items()):
                if mod.split(".")[0] == "hyperelastic":
                    for k, v in list(vars(m).items()):
                        if any(v is f for f in Api._plt[name]):
                            setattr(m, k, hook)
            setattr(plt, name, hook)
            Api._plt[name].append(hook)

    def eye(self, *a):
        return np.eye(*a)


def decode(v):
    if isinstance(v, dict):
        if "list" in v:
            return [decode(x) for x in v["list"]]
        if "int" in v:
            return np.array(v["int"], dtype=int).reshape(v["shape"])
        if v["shape"] == []:
            return np.float64(v["data"][0])
        return np.array(v["data"], dtype=float).reshape(v["shape"])
    return v


def flat_outputs(O):
    out = {}

    def rec(k, v):
        if isinstance(v, dict):
            for kk, vv in v.items():
                rec(f"{k}.{kk}" if k else str(kk), vv)
        elif isinstance(v, (list, tuple)):
            out[k + ".len"] = len(v)
            for i, vv in enumerate(v):
                rec(f"{k}.{i}", vv)
        else:
            out[k] = v

    rec("", O)
    return out


def encode(v):
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, np.bool_):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return {"shape": [], "data": [float(v)]}
    if isinstance(v, np.ndarray):
        return {"shape": list(v.shape), "data": [float(x) for x in np.asarray(v, dtype=float).flat]}
    return repr(type(v).__name__)


def execute(scn, inputs):
    with np.errstate(all="ignore"):
        try:
            O = scn.run(Api(), **{k: relayout(decode(v), scn.layout) for k, v in inputs.items()})
            return {"outputs": {k: encode(v) for k, v in flat_outputs(O).items()}}
        except Exception as e:
            return {"exception": [type(e).__name__, str(e)[:300], traceback.format_exc(limit=-3)[-1500:]]}


def main():
    with open(sys.argv[1]) as fh:
        req = json.load(fh)
    mod = importlib.import_module("props.registry")
    scns = {s.id: s for s in mod.scenarios(req["property"], req["tier"])}
    out = [execute(scns[r["scenario"]], r["inputs"]) for r in req["runs"]]
    with open(sys.argv[2], "w") as fh:
        json.dump(out, fh)


if __name__ == "__main__":
    main()
