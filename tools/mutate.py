#!/opt/veriftools/pyvenv/bin/python
"""Automatic mutants of the package: which of those the existing tests let pass does no check catch?
mutate.py OUT.jsonl [FILE-SUBSTRING ...] [--checks]   (scratch copies below /tmp; used by no check)"""
import ast, json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import variants as va
ROOT = va.ROOT
SRC = "/repo/src/hyperelastic/"
LAB = {"lab/_curve_fit.py": "C27", "lab/_experiment.py": "C26 C31 C27", "lab/_load_case.py": "C25 C26", "lab/_optimize.py": "C27 C31", "lab/_plotting.py": "C31", "lab/_simulation.py": "C26 C27 C31"}
QUICK = {va.VO: "C14 C15 C16 C17 C04 C07 C08 C10 C01", va.INV: "C01 C02 C20 C19 C18 C29", va.STR: "C03 C04 C20 C18 C19 C13 C29", va.GEN: "C05 C06", va.GIM: "C05 C06 C18 C19 C20",
         va.SP: "C10 C09 C28 C19 C18", va.DEF: "C09 C10 C20 C19 C28", va.DIS: "C07 C10 C20 C19 C28 C18", va.DIL: "C08 C10 C20 C19 C28 C18", va.OGD: "C22 C18 C19 C20", va.TOD: "C21 C18 C19 C20",
         va.TOR: "C24", va.MEA: "C23 C05 C06", **LAB}


class Sites(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.out = []
        off, self.off = 0, []
        for ln in src.splitlines(keepends=True):
            self.off.append(off)
            off += len(ln.encode())
        self.b = src.encode()

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.span(n)
        return self.b[a:b].decode()

    def put(self, n, new, why):
        a, b = self.span(n)
        if self.b[a:b].decode() != new:
            self.out.append((a, b, new, why, n.lineno))

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.put(n, "pass", "delete statement")
        self.generic_visit(n)

    def visit_Assign(self, n):
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.put(n, "pass", "delete statement")
        t, v = self.text(n.target), self.text(n.value)
        op = {ast.Add: "-=", ast.Sub: "+=", ast.Mult: "/=", ast.Div: "*="}.get(type(n.op))
        if op:
            self.put(n, f"{t} {op} {v}", "operator")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.put(n, str(not v), "constant")
        elif isinstance(v, int):
            for x in {v + 1, v - 1} - {v}:
                self.put(n, str(x) if x >= 0 else f"({x})", "constant")
        elif isinstance(v, float):
            self.put(n, repr(v + 1), "constant")
            self.put(n, repr(v / 2 if v else 0.5), "constant")
        elif isinstance(v, str) and "->" in v:
            lhs, rhs = v.split("->")
            idx = [c for c in rhs if c.isalpha()]
            for i in range(len(idx)):
                for j in range(i + 1, len(idx)):
                    t = rhs.translate(str.maketrans({idx[i]: idx[j], idx[j]: idx[i]}))
                    self.put(n, json.dumps(lhs + "->" + t), "einsum")
            ops = lhs.split(",")
            for k, o in enumerate(ops):
                c = [x for x in o if x.isalpha()]
                if len(c) == 2:
                    o2 = o.translate(str.maketrans({c[0]: c[1], c[1]: c[0]}))
                    self.put(n, json.dumps(",".join(ops[:k] + [o2] + ops[k + 1:]) + "->" + rhs), "einsum")

    def visit_BinOp(self, n):
        l, r = self.text(n.left), self.text(n.right)
        P = lambda x, c: f"({x})"  # noqa: E731
        for new in {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Pow: ["*"]}.get(type(n.op), []):
            self.put(n, f"({P(l, 0)} {new} {P(r, 0)})", "operator")
        self.put(n, f"({l})", "drop operand")
        self.put(n, f"({r})", "drop operand")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if not isinstance(n.operand, ast.Constant):
            self.put(n, f"({self.text(n.operand)})", "drop unary")
        self.generic_visit(n)

    def visit_Compare(self, n):
        op = {ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">"}.get(type(n.ops[0]))
        if op and len(n.ops) == 1:
            self.put(n, f"({self.text(n.left)} {op} {self.text(n.comparators[0])})", "comparison")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        for k in range(len(n.values)):
            new = (" and " if isinstance(n.op, ast.And) else " or ").join(self.text(v) for i, v in enumerate(n.values) if i != k)
            self.put(n, f"({new})", "drop condition")
        self.generic_visit(n)

    def visit_If(self, n):
        self.put(n.test, "True", "condition")
        self.put(n.test, "False", "condition")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.put(n, f"({self.text(n.body)})", "condition")
        self.put(n, f"({self.text(n.orelse)})", "condition")
        self.generic_visit(n)

    def visit_Call(self, n):
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            a, b = n.args[0], n.args[1]
            sa, sb = self.span(a), self.span(b)
            self.out.append((sa[0], sb[1], self.text(b) + self.b[sa[1]:sb[0]].decode() + self.text(a), "swap arguments", n.lineno))
        for k in n.keywords:
            if k.arg is not None:
                a, b = self.span(k)
                # drop the keyword argument
                e = b
                while self.b[e:e + 1] in b" \n":
                    e += 1
                if self.b[e:e + 1] == b",":
                    self.out.append((a, e + 1, "", "drop keyword", n.lineno))
                else:
                    s = a
                    while self.b[s - 1:s] in b" \n":
                        s -= 1
                    if self.b[s - 1:s] == b",":
                        self.out.append((s - 1, b, "", "drop keyword", n.lineno))
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy",):
            self.put(n, self.text(n.func.value), "drop copy")
        if len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], (ast.Starred, ast.GeneratorExp)):
            self.put(n, self.text(n.args[0]), "drop call")
        self.generic_visit(n)

    def visit_Subscript(self, n):
        self.generic_visit(n)

    def visit_Tuple(self, n):
        self.swap(n)
        self.generic_visit(n)

    def visit_List(self, n):
        self.swap(n)
        self.generic_visit(n)

    def swap(self, n):
        for k in range(len(n.elts) - 1):
            a, b = n.elts[k], n.elts[k + 1]
            if any(isinstance(x, ast.Starred) for x in (a, b)) or self.text(a) == self.text(b):
                continue
            sa, sb = self.span(a), self.span(b)
            self.out.append((sa[0], sb[1], self.text(b) + self.b[sa[1]:sb[0]].decode() + self.text(a), "swap elements", n.lineno))

    def visit_Return(self, n):
        self.generic_visit(n)


def mutants(f):
    src = open(SRC + f).read()
    s = Sites(src)
    s.visit(ast.parse(src))
    seen = set()
    for a, b, new, why, line in s.out:
        t = (s.b[:a] + new.encode() + s.b[b:]).decode()
        if t in seen or t == src:
            continue
        seen.add(t)
        try:
            if ast.dump(ast.parse(t)) == ast.dump(ast.parse(src)):
                continue
        except SyntaxError:
            continue
        yield {"file": f, "line": line, "why": why, "old": s.b[a:b].decode(), "new": new, "text": t}


def setup(m):
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    subprocess.run(["cp", "-a", "/repo/.", d], check=True)
    open(f"{d}/src/hyperelastic/{m['file']}", "w").write(m["text"])
    return d


def tests(m):
    d = setup(m)
    try:
        env = dict(os.environ, PYTHONPATH=d + "/src", MPLBACKEND="Agg", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
        try:
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "tests", "-p", "no:cacheprovider"], cwd=d, env=env, capture_output=True, text=True, timeout=300)
            m["tests"] = t.returncode
        except subprocess.TimeoutExpired:
            m["tests"] = -1
    finally:
        shutil.rmtree(d)
    return m


def checks(m):
    d = setup(m)
    ev = tempfile.mkdtemp(prefix="ev-", dir="/tmp")
    m["caught"], m["rc"] = None, {}
    try:
        for p in QUICK[m["file"]].split():
            r = subprocess.run([ROOT + "/bin/check", p], env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=ev), capture_output=True, text=True)
            m["rc"][p] = r.returncode
            if r.returncode == 1:
                m["caught"] = p
                break
            if r.returncode:
                m["rc"][p] = [r.returncode, [x[:160] for x in r.stdout.splitlines() if x.startswith("ERROR")][:1] or r.stderr[-200:]]
    finally:
        shutil.rmtree(d)
        shutil.rmtree(ev)
    return m


if __name__ == "__main__":
    out = sys.argv[1]
    subs = [x for x in sys.argv[2:] if not x.startswith("--")]
    if "--checks" in sys.argv:
        ms = [json.loads(x) for x in open(out)]
        ms = [m for m in ms if m["tests"] == 0 and "caught" not in m and (not subs or any(s in m["file"] for s in subs))]
        print(len(ms), "survivors")
        with ThreadPoolExecutor(2) as ex, open(out + ".checked", "a") as fh:
            for m in ex.map(checks, ms):
                m2 = {k: v for k, v in m.items() if k != "text"}
                fh.write(json.dumps(m2) + "\n")
                fh.flush()
                print(m["caught"] or "MISSED", m["rc"] if not m["caught"] else "", m["file"], m["line"], m["why"], "|", m["old"][:70], "->", m["new"][:70], flush=True)
    elif "--tests" in sys.argv:
        # checks first: run the tests on what no check caught
        ms = [json.loads(x) for x in open(out)]
        ms = [m for m in ms if not m["caught"]]
        with ThreadPoolExecutor(8) as ex:
            for m in ex.map(tests, ms):
                if m["tests"] == 0:
                    print("MISSED", m["rc"], m["file"], m["line"], m["why"], "|", m["old"][:90], "->", m["new"][:90], flush=True)
    elif "--first" in sys.argv:
        n = int(next((x.split("=")[1] for x in sys.argv if x.startswith("--every=")), 1))
        ms = [m for f in QUICK if not subs or any(s in f for s in subs) for m in mutants(f)][::n]
        print(len(ms), "mutants")
        with ThreadPoolExecutor(3) as ex, open(out, "w") as fh:
            for m in ex.map(checks, ms):
                fh.write(json.dumps(m) + "\n")
                fh.flush()
                print(m["caught"] or "MISSED", m["rc"] if not m["caught"] else "", m["file"], m["line"], m["why"], "|", m["old"][:70].replace("\n", " "), "->", m["new"][:70].replace("\n", " "), flush=True)
    else:
        ms = [m for f in QUICK if not subs or any(s in f for s in subs) for m in mutants(f)]
        print(len(ms), "mutants")
        with ThreadPoolExecutor(8) as ex, open(out, "w") as fh:
            for m in ex.map(tests, ms):
                if m["tests"] == 0:
                    fh.write(json.dumps(m) + "\n")
                    fh.flush()
