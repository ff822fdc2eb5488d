#!/opt/veriftools/pyvenv/bin/python
"""seed.py make|test: planted changes for trying out the checks (not used by any check).

seed.py test [ID ...] [--checks] : in a scratch copy of /repo: the demo passes without and
fails with the change, the existing tests pass with it; --checks also runs the property's
check against the changed copy."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = os.path.join(ROOT, "seeded")
PY = "/opt/venv/bin/python"


def make(id, prop, edits, demo, needs, breaks):
    """edits: list of (file below src/hyperelastic, old, new[, count])"""
    d = os.path.join(SEEDS, id)
    os.makedirs(d, exist_ok=True)
    diff = ""
    for f in sorted({e[0] for e in edits}):
        rel = "src/hyperelastic/" + f
        a = open("/repo/" + rel).read()
        b = a
        for e in edits:
            if e[0] == f:
                assert b.count(e[1]) >= 1, (id, "not found", e[1])
                assert b.count(e[1]) == 1 or len(e) > 3, (id, "ambiguous", e[1])
                b = b.replace(e[1], e[2], *(e[3:] or [1]))
        assert a != b, id
        with tempfile.TemporaryDirectory() as t:
            for n, x in (("a", a), ("b", b)):
                os.makedirs(os.path.join(t, n, os.path.dirname(rel)), exist_ok=True)
                open(os.path.join(t, n, rel), "w").write(x)
            p = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a/" + rel, "b/" + rel], cwd=t, capture_output=True, text=True)
            out = p.stdout
            lines = []
            for ln in out.splitlines():
                if ln.startswith("diff --git"):
                    ln = f"diff --git a/{rel} b/{rel}"
                lines.append(ln)
            diff += "\n".join(lines) + "\n"
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.py"), "w").write(demo.strip() + "\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def test(ids, checks, props=None):
    ok = True
    for id in ids:
        d = os.path.join(SEEDS, id)
        meta = json.load(open(os.path.join(d, "meta.json")))
        t = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
        try:
            subprocess.run(["cp", "-a", "/repo/.", t], check=True)
            env = dict(os.environ, PYTHONPATH=t + "/src")
            run = lambda *c: subprocess.run(c, cwd=t, env=env, capture_output=True, text=True)  # noqa: E731
            r0 = run("bash", os.path.join(d, "demo.sh"))
            a = run("git", "apply", os.path.join(d, "patch.diff"))
            r1 = run("bash", os.path.join(d, "demo.sh"))
            rt = run(PY, "-m", "pytest", "-q", "-x", "tests", "-p", "no:cacheprovider")
            good = r0.returncode == 0 and a.returncode == 0 and r1.returncode != 0 and rt.returncode == 0
            line = f"{id}: clean={r0.returncode} apply={a.returncode} planted={r1.returncode} tests={rt.returncode} {'ok' if good else 'BAD'}"
            if not good:
                ok = False
                line += "\n" + (r0.stderr[-600:] if r0.returncode else "") + a.stderr[-300:] + ("" if rt.returncode == 0 else rt.stdout[-600:])
            if checks:
                for p in props or [meta["property"]]:
                    e2 = dict(os.environ, VERIF_REPO=t, VERIF_TIER="quick", VERIF_SEED="1")
                    c = subprocess.run([os.path.join(ROOT, "bin/check"), p], cwd=ROOT, env=e2, capture_output=True, text=True)
                    caught = c.returncode == 1 and f"VIOLATION property={p}" in c.stdout
                    line += f" {p}:{'CAUGHT' if caught else 'missed'} rc={c.returncode} " + c.stdout.strip().splitlines()[-1][-90:]
                    if not caught:
                        line += "\n" + "\n".join(c.stdout.splitlines()[-6:])
            print(line, flush=True)
        finally:
            shutil.rmtree(t)
    return ok


if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "test":
        ids = [x for x in a[1:] if not x.startswith("--")] or sorted(os.listdir(SEEDS))
        props = [x[2:] for x in a[1:] if x.startswith("--C")]
        sys.exit(0 if test(ids, "--checks" in a, props) else 1)
