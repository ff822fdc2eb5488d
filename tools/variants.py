#!/opt/veriftools/pyvenv/bin/python
"""Behaviour-preserving rewrites of the package: every check has to stay quiet on them.
variants.py [ID-SUBSTRING ...] [--props C01,C02]   (scratch copies below /tmp; used by no check)"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V = {}
ALL = [f"C{i:02d}" for i in range(1, 32)]
INVP = "C01 C02 C11 C12 C13 C18 C19 C20 C24 C29 C30"
STRP = "C03 C04 C11 C12 C13 C18 C19 C20 C29 C30"
GENP = "C05 C06 C18 C19 C20"
SPP = "C07 C08 C09 C10 C11 C12 C13 C18 C19 C20 C26 C28 C29 C30"
VOP = "C01 C02 C04 C07 C10 C13 C14 C15 C16 C17 C18 C19 C28"
LABP = "C25 C26 C27 C31"
VO, INV, STR, GEN, GIM = "math/_voigt.py", "frameworks/_invariants.py", "frameworks/_stretches.py", "frameworks/_generalized.py", "models/stretches/_generalized_invariants.py"
SP, DEF, DIS, DIL = "spaces/_space.py", "spaces/_deformation.py", "spaces/_distortional.py", "spaces/_dilatational.py"
OGD, TOD, TOR, MEA = "models/stretches/_ogden.py", "models/invariants/_third_order_deformation.py", "models/invariants/_torch.py", "models/generalized/_stretch.py"
PROPS = {VO: VOP, INV: INVP, STR: STRP, GEN: GENP, GIM: GENP, SP: SPP, DEF: SPP, DIS: SPP, DIL: SPP, OGD: "C22 C11 C18 C19 C20 C26 C30",
         TOD: "C21 C11 C18 C19 C20 C26 C30", TOR: "C24", MEA: "C23 C05 C06 C18"}


def v(id, *edits):
    V[id] = edits


def body(file, fun, new, cls=None):
    """replace a function's body (after its docstring)"""
    return (file, "@body", (cls, fun, new))


exec(open(os.path.join(ROOT, "tools", "variants_list.py")).read())


def apply(d, edits):
    import ast
    for f, old, new in edits:
        p = f"{d}/src/hyperelastic/{f}"
        s = open(p).read()
        if old == "@body":
            cls, fun, text = new
            tree = ast.parse(s)
            scope = tree.body if cls is None else next(x for x in tree.body if isinstance(x, ast.ClassDef) and x.name == cls).body
            fn = next(x for x in scope if isinstance(x, ast.FunctionDef) and x.name == fun)
            b = fn.body
            if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
                b = b[1:]
            lines = s.splitlines()
            ind = " " * (fn.col_offset + 4)
            import textwrap
            t = textwrap.indent(textwrap.dedent(text).strip("\n"), ind).splitlines()
            # comments above the first statement go too
            first = b[0].lineno - 1
            while lines[first - 1].strip().startswith("#"):
                first -= 1
            lines[first:fn.end_lineno] = t
            s = "\n".join(lines) + "\n"
        elif old == "@top":
            s = s.replace("\nclass ", "\n" + new + "\n\n\nclass ", 1) if "\nclass " in s else s.replace("\ndef ", "\n" + new + "\n\n\ndef ", 1)
        elif old == "@import":
            s = new + "\n" + s
        else:
            assert s.count(old) >= 1, (f, old)
            s = s.replace(old, new)
        open(p, "w").write(s)


def one(id, props):
    d = tempfile.mkdtemp(prefix="var-", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo/.", d], check=True)
        try:
            apply(d, V[id])
        except Exception as e:
            return id, [("apply", repr(e))]
        env = dict(os.environ, PYTHONPATH=d + "/src", MPLBACKEND="Agg")
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "tests", "-p", "no:cacheprovider", "--deselect", "tests/test_torch.py::test_torch_felupe_single_precision"], cwd=d, env=env, capture_output=True, text=True)
        out = []
        if t.returncode:
            out.append(("tests", t.stdout[-600:]))
        ps = props or sorted({p for e in V[id] for p in PROPS.get(e[0], " ".join(["C25 C26 C27 C31"])).split()})
        ed = tempfile.mkdtemp(prefix="ev-", dir="/tmp")
        for p in ps:
            r = subprocess.run([ROOT + "/bin/check", p], env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=ed), capture_output=True, text=True)
            if r.returncode:
                bad = [ln for ln in r.stdout.splitlines() if ln.startswith(("VIOL", "ERROR", "INCON"))][:2]
                out.append((p, r.returncode, bad or r.stdout[-300:] + r.stderr[-300:]))
        shutil.rmtree(ed)
        return id, out
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    props = next((x.split("=")[1].split(",") for x in sys.argv if x.startswith("--props=")), None)
    ids = [i for i in V if not a or any(s in i for s in a)]
    bad = 0
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
        for id, out in ex.map(lambda i: one(i, props), ids):
            print(id, "ok" if not out else "NOT QUIET", flush=True)
            for o in out:
                bad += 1
                print("   ", *o, flush=True)
    sys.exit(bool(bad))
