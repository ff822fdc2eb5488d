"""Runs one scenario: executes the real source symbolically along every feasible path,
turns the property into solver queries, and collects counterexample candidates."""
import hashlib
import itertools
import math
import random
import re
import signal
import sys
import time
import traceback
from fractions import Fraction

import numpy as np

np.seterr(all="ignore")

from . import sym, shim
from .sym import Node, SymBool, Unsupported, band, bor, bnot, lift
from .base import relayout
from .solve import Solver, atoms, evaluate, evaluate_hp, holds
import z3

FINE = 3e-9         # deviation of deliberately rounded results at a sampled point
REL = 1e-6          # a reported disagreement is at least this large, relative to the array


class Skip(Exception):
    """The sampled assignment is outside the scenario's domain: resample."""


class PathAbort(BaseException):
    pass


class Explorer:
    def __init__(self, sess, prefix):
        self.s = sess
        self.prefix = prefix
        self.trace = []          # (SymBool, taken, known-infeasible-other)
        self.memo = {}

    def decide(self, b):
        if b.op == "true":
            return True
        if b.op == "false":
            return False
        k = b.key()
        if k in self.memo:
            return self.memo[k]
        if self.s.ctx.busy or self.s.oracle is True:
            raise Unsupported("the oracle depends on an undecided condition: " + self.s.what(b))
        i = len(self.trace)
        taken = self.prefix[i] if i < len(self.prefix) else bool(b.holds())
        self.trace.append((b, taken))
        self.memo[k] = taken
        if b.op == "not":
            self.memo[b.a.key()] = not taken
        f = b if taken else bnot(b)
        if f.op == "gt":
            self.s.ctx.known_pos.add(f.a)
            self.s.ctx.known_nz.add(f.a)
        elif f.op == "not" and f.a.op == "eq":
            self.s.ctx.known_nz.add(f.a.a)
        if len(self.trace) > self.s.max_depth:
            raise Unsupported("too many decisions on one path")
        return taken


class Api:
    def __init__(self, world, symbolic=True):
        self.world = world
        self.he = world.load("hyperelastic")
        self.np = shim.NP
        self.symbolic = True

    def module(self, name):
        return self.world.load("hyperelastic." + name)

    @property
    def torch(self):
        return self.world.stubs.get("torch") or self.world.torch()

    def is_array(self, x):
        return isinstance(x, np.ndarray)

    def numbers(self, text, expected=(), others=()):
        """the quantities a text shows"""
        return [sym.FORMATTED[int(k)] for k in re.findall(r"<#(\d+)>", text)]

    def double(self, x):
        """symbolic arrays carry no precision: whether torch handed over double precision"""
        return not shim.SINGLE[0]

    def nproc(self, n):
        shim.SyncPool.nproc = n

    def curve_fit(self, hook):
        shim.CurveFit.hook = hook

    def subplots(self, canvas):
        shim.Drawing.hooks = {"subplots": canvas, "figure": canvas.figure}

    def eye(self, *a):
        return shim.NP.eye(*a)


class Session:
    def __init__(self, scn, seed, asg, prefix, reliable=True, rngsalt=0, timeout=20.0, fixed=None):
        self.scn = scn
        self.fixed = fixed or {}  # inputs that a branch condition forces to one value
        self.seed = seed
        self.asg = dict(asg)
        self.reliable = reliable
        self.salt = rngsalt
        self.vars = {}            # name -> Node (base variables)
        self.ranges = {}
        self.domain = []
        self.oracle = False
        self.max_depth = 400
        self.ctx = sym.Ctx()
        sym.set_ctx(self.ctx)
        self.ex = Explorer(self, prefix)
        self.ctx.ex = self.ex
        self.solver = Solver(self.ctx, timeout=timeout, seed=seed)
        self.ctx.prover = self.lemma
        self.ctx.frames = []
        self.obligations = []
        self.lemma_fail = 0

    # ---------------------------------------------------------------- inputs
    def _rng(self, name):
        h = hashlib.sha256(f"{self.seed}/{self.scn.id}/{self.salt}/{name}".encode()).digest()
        return random.Random(int.from_bytes(h[:8], "big"))

    def var(self, name, lo=-1.5, hi=1.5, pos=False, scale=0):
        if name in self.vars:
            return self.vars[name]
        if name in self.fixed:
            self.asg[name] = self.fixed[name]
            return sym.const(self.fixed[name])
        if name in self.asg:
            v = self.asg[name]
        else:
            r = self._rng(name)
            n = 4096
            v = Fraction(r.randint(int(math.ceil(lo * n)), int(math.floor(hi * n))), n)
            if v == 0:
                v = Fraction(1, 64)
            v *= Fraction(2) ** scale
            self.asg[name] = v
        self.ranges[name] = (lo, hi, pos, scale)
        node = sym.var(name, v, pos=pos)
        self.vars[name] = node
        return node

    def arr(self, name, shape, lo=-1.5, hi=1.5, pos=False, scale=0):
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            a[i] = self.var(name + "_" + "_".join(map(str, i)) if i else name, lo, hi, pos, scale)
        return a.view(shim.SymArray)

    def like(self, a):
        return shim.aswrap(np.array(a, dtype=object))

    def assume(self, b):
        b = sym.blift(b)
        if b.op == "true":
            return
        self.domain.append(b)
        if self.reliable and not b.holds():
            raise Skip()

    def pos(self, n):
        """assume n > 0 and remember it"""
        n = lift(n)
        if sym.is_pos(n):
            return n
        self.assume(sym.cmp0("gt", n))
        sym.mark_pos(n)
        return n

    def nz(self, n):
        n = lift(n)
        self.assume(bnot(sym.cmp0("eq", n)))
        sym.mark_nz(n)
        return n

    def what(self, b):
        return f"{b.op} {sym.show(b.a, 2) if isinstance(b.a, Node) else ''}"

    # ---------------------------------------------------------------- solving
    def lemma(self, n, d):
        """prove n == d (used to recognise known quantities); never decides on failure"""
        if self.differ(n, d):
            return False
        try:
            a = n
            # positive canonical roots: compare powers
            e = None
            if d.k == "p" and d.a[0] > 0 and len(d.a[1]) == 1 and type(d.a[1][0][1]) is not int:
                e = d.a[1][0][1].denominator
            if e:
                x = sym.sub(sym.powi(a, e), sym.powi(d, e))
                # equal powers and equal sign
                if not sym.is_pos(a):
                    if self.prove(x) != "unsat" :
                        return False
                    if e % 2 == 0:
                        # need the sign of a: positive on the whole domain?
                        return self.always_positive(a)
                    return True
            else:
                x = sym.sub(a, d)
            return self.prove(x, timeout=8.0) == "unsat"
        except (Unsupported, z3.Z3Exception):
            return False

    def differ(self, n, d):
        """do n and d clearly differ at a second point?  (saves a hopeless query)"""
        if len(getattr(self, "_env2", ())) != len(self.vars):
            self._env2 = {}
            for name, v in self.asg.items():
                if name in self.vars:
                    sc = self.ranges[name][3]
                    self._env2[name] = float(v) * (1 + self._rng("e" + name).uniform(-0.03, 0.03)) \
                        + self._rng("f" + name).uniform(0.0, 0.01) * 2.0 ** sc
            self._memo2 = {}
        try:
            x, y = evaluate(n, self._env2, self._memo2), evaluate(d, self._env2, self._memo2)
        except (KeyError, ValueError, OverflowError, ZeroDivisionError):
            return False
        if isinstance(x, complex) or isinstance(y, complex) or x != x or y != y:
            return False
        return abs(x - y) > 1e-5 * max(abs(x), abs(y))

    def always_positive(self, a):
        b = sym.cmp0("gt", a)
        if b.op == "true":
            return True
        for c in self.domain:
            if c.op == "gt" and c.a is a:
                return True
        return self.feasible([bnot(b)], timeout=5.0)[0] == "unsat"

    def prove(self, x, pc=(), timeout=None):
        if x.k == "c":
            return "unsat" if x.a == 0 else "sat"
        if x.k == "nan":
            return "sat"
        r = self.solver.prove_zero(x, pc, timeout)
        if r == "unsat":
            return r
        cuts = [v for v in sym.variables([x]) if v in self.ctx.defs]
        if cuts:
            y = sym.expand(x)
            r2 = self.solver.prove_zero(y, pc, timeout)
            if r2 == "unsat":
                return r2
            if r2 == "sat":
                r = "sat"
        return r

    def feasible(self, bs, timeout=5.0, fix=None):
        """Is the conjunction satisfiable within the domain?  returns (verdict, model)"""
        sv = self.solver
        side = set()
        allb = list(self.domain) + list(bs)
        try:
            cons = [sv.boolean(b, side) for b in allb]
            defs, used = sv.definitions(atoms(allb), side)
        except Unsupported:
            return "unknown", None
        cons += defs + sv.side_cons(side)
        subs = []
        if fix:
            for name, v in fix.items():
                subs.append((sv.tr.zv(name), z3.Q(Fraction(v).numerator, Fraction(v).denominator)))
            cons = [z3.substitute(c, *subs) for c in cons]
        r, m = sv.check(cons, timeout, model=True)
        if r != "sat":
            return r, None
        asg = {}
        for v in used:
            if v in self.ctx.defs or v.a not in self.vars:
                continue
            if fix and v.a in fix:
                continue
            val = m.eval(sv.tr.zv(v.a), model_completion=True)
            asg[v.a] = _tofrac(val)
        return r, asg

    def satisfies(self, bs, asg):
        if any(v.pos and asg.get(k, 1) <= 0 for k, v in self.vars.items()):
            return False
        env = {k: float(v) for k, v in asg.items()}
        memo = {}
        try:
            return all(holds(b, env, memo) for b in bs)
        except KeyError:
            return False

    def resample(self, names, salt):
        out = dict(self.asg)
        r = random.Random(f"{self.seed}{self.scn.id}{salt}")
        for n in names:
            lo, hi, pos, scale = self.ranges[n]
            v = Fraction(r.randint(int(math.ceil(lo * 4096)), int(math.floor(hi * 4096))), 4096)
            out[n] = (v if v else Fraction(1, 64)) * Fraction(2) ** scale
        return out

    def base_vars(self, nodes):
        out = set()
        todo = list(sym.variables(nodes))
        seen = set()
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            d = self.ctx.defs.get(v)
            if d is not None:
                todo.extend(sym.variables([d]))
            elif v.a in self.vars:
                out.add(v.a)
        return sorted(out)

    def witness(self, bs, deadline):
        """An assignment satisfying domain and bs: ('sat', asg) / ('unsat', None) / ('unknown', None)"""
        allb = list(self.domain) + list(bs)
        names = self.base_vars(atoms(allb))
        last = self.base_vars(atoms(bs[-1:])) if bs else []
        for k in range(24):
            a = self.resample(last if k % 2 == 0 else names, k)
            if self.satisfies(allb, a):
                return "sat", a
        r, m = self.feasible(bs, timeout=3.0)
        if r == "unsat":
            return r, None
        # generic points first: fix all but one or two variables
        order = list(last)
        random.Random(self.seed).shuffle(order)
        groups = {}
        for x in last:
            groups.setdefault(x.rstrip("0123456789_"), []).append(x)
        tries = [g for g in groups.values() if len(g) > 1] + [[x] for x in order[:5]] + [list(p) for p in itertools.islice(itertools.combinations(order, 2), 6)]
        for free in tries:
            if time.time() > deadline:
                break
            fix = {n: v for n, v in self.asg.items() if n not in free and n in self.vars}
            r2, m2 = self.feasible(bs, timeout=1.5, fix=fix)
            if r2 == "sat":
                a = dict(self.asg)
                a.update(m2)
                if self.satisfies_soft(allb, a):
                    return "sat", self.generic(allb, a, m2)
        if r == "sat":
            a = dict(self.asg)
            a.update(m)
            if self.satisfies_soft(allb, a):
                return "sat", self.generic(allb, a, m)
        return "unknown", None

    def generic(self, bs, asg, names):
        """move the solver's assignment to a more generic one that satisfies the same"""
        rng = random.Random(f"{self.seed}g")
        # inputs tied by an equality move together, otherwise constrained ones stay
        tied, fixed = {}, set()

        def root(n):
            while n in tied:
                n = tied[n]
            return n

        for b in conjuncts(bs):
            if b.op != "eq":
                continue
            e = b.a
            t = [m for m, c in e.a[1]] if e.k == "s" else []
            if e.k == "s" and e.a[0] == 0 and len(t) == 2 and e.a[1][0][1] == -e.a[1][1][1] and all(m.k == "v" and m.a in self.vars and m not in self.ctx.defs for m in t):
                p, q = root(t[0].a), root(t[1].a)
                if p != q:
                    tied[p] = q
            else:
                fixed.update(self.base_vars([e]))
        fixed = {root(n) for n in fixed}
        both = sorted(set(names) | {n for n in list(tied) + list(tied.values())})
        for k in (3, 10, 20, 29, 36, 44):
            a = dict(asg)
            step = {}
            for n in both:
                r = root(n)
                if n in self.ranges and r not in fixed and (n in names or r != n or n in tied.values()):
                    if r not in step:
                        step[r] = Fraction(rng.randint(-4096, 4096), 4096) * Fraction(1, 2 ** k)
                    a[n] = Fraction(a[n]) + step[r]
            if self.satisfies_soft(bs, a):
                return a
        return asg

    def satisfies_soft(self, bs, asg):
        if any(v.pos and asg.get(k, 1) <= 0 for k, v in self.vars.items()):
            return False
        env = {k: float(v) for k, v in asg.items()}
        memo = {}
        try:
            return all(holds(b, env, memo) for b in bs)
        except KeyError:
            return False

    # ---------------------------------------------------------------- obligations
    def eq(self, label, actual, expected, note=""):
        a, b = _pair(actual, expected)
        self.obligations.append((label, a, b, note))

    def zero(self, label, actual, note=""):
        a = np.asarray(shim.base(actual), dtype=object)
        self.eq(label, a, np.zeros(a.shape), note)

    def require(self, label, cond, note=""):
        """A structural fact about the outputs (shapes, identities): decided by execution."""
        self.obligations.append((label, lift(1 if cond else 0), lift(1), note))

    def ineq(self, label, formula, note=""):
        """the SymBool formula must hold everywhere on the path"""
        self.obligations.append((label, sym.blift(formula), None, note))


def _tofrac(val):
    if z3.is_rational_value(val):
        f = Fraction(val.numerator_as_long(), val.denominator_as_long())
    elif z3.is_algebraic_value(val):
        val = val.approx(30)
        f = Fraction(val.numerator_as_long(), val.denominator_as_long())
    else:
        return Fraction(0)
    return f


def _pair(a, b):
    a = np.asarray(shim.base(a) if not isinstance(a, Node) else sym._obj0(a), dtype=object)
    b = np.asarray(shim.base(b) if not isinstance(b, Node) else sym._obj0(b), dtype=object)
    if a.shape != b.shape:
        shp = np.broadcast_shapes(a.shape, b.shape)
        a, b = np.broadcast_to(a, shp), np.broadcast_to(b, shp)
    return a, b


# -------------------------------------------------------------------- outputs
def flat_outputs(O):
    """{name: value} with nested lists/tuples/dicts flattened."""
    out = {}

    def rec(k, v):
        if isinstance(v, dict):
            for kk, vv in v.items():
                rec(f"{k}.{kk}" if k else str(kk), vv)
        elif isinstance(v, (list, tuple)):
            out[k + ".len"] = len(v)
            for i, vv in enumerate(v):
                rec(f"{k}.{i}", vv)
        else:
            out[k] = v

    rec("", O)
    return out


def encode_out(v, env, memo):
    """JSON value of a symbolic output under the assignment."""
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, (np.bool_,)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return {"shape": [], "data": [float(v)]}
    if isinstance(v, Node):
        return {"shape": [], "data": [evaluate(v, env, memo)]}
    if isinstance(v, SymBool):
        return bool(v)
    if isinstance(v, np.ndarray):
        return {"shape": list(v.shape), "data": [evaluate(lift(x), env, memo) for x in v.flat]}
    return repr(type(v).__name__)


def encode_in(v, env, memo):
    if isinstance(v, (list, tuple)):
        return {"list": [encode_in(x, env, memo) for x in v]}
    if isinstance(v, np.ndarray) and shim.dt(v).kind in "iub":
        return {"shape": list(v.shape), "int": [int(x) for x in v.flat]}
    return encode_out(v, env, memo)


# -------------------------------------------------------------------- one path
def conjuncts(bs):
    out = []
    todo = list(bs)
    while todo:
        b = todo.pop()
        if b.op == "and":
            todo.extend(b.a)
        elif b.op == "not" and b.a.op == "or":
            todo.extend(bnot(x) for x in b.a.a)
        elif b.op == "not" and b.a.op == "not":
            todo.append(b.a.a)
        else:
            out.append(b)
    return out


def forced(S, bs):
    """{input: value} implied by the equalities among the conditions bs"""
    out = {}
    for b in conjuncts(bs):
        if b.op != "eq":
            continue
        n = b.a
        if n.k == "p":
            rest = [f for f, e in n.a[1] if e > 0 and not (sym.is_pos(f) or f in S.ctx.known_nz)]
            if len(rest) != 1:
                continue
            n = rest[0]
        v = None
        if n.k == "v":
            v, val = n, Fraction(0)
        elif n.k == "s" and len(n.a[1]) == 1 and n.a[1][0][0].k == "v":
            v, val = n.a[1][0][0], -Fraction(n.a[0]) / Fraction(n.a[1][0][1])
        if v is not None and v.a in S.vars and v not in S.ctx.defs:
            out.setdefault(v.a, val)
    return out


def run_path(scn, seed, asg, prefix, reliable, budget, salt=0, fixed=None):
    for attempt in range(60):
        S = Session(scn, seed, asg, prefix, reliable, salt + attempt * 1000, fixed=fixed)
        try:
            I = scn.inputs(S)
            break
        except Skip:
            if asg:
                # a given assignment outside the domain: keep it, but do not trust its values
                reliable = False
            continue
    else:
        raise Unsupported("no assignment found in the scenario's domain")
    S.I = I
    world = shim.World()
    api = Api(world)
    S.api = api
    S.exc = None
    try:
        if getattr(scn, "copy_inputs", True):
            I2 = {k: relayout(_copy(v), scn.layout) for k, v in I.items()}
        else:
            I2 = I
        S.O = scn.run(api, **I2)
    except Unsupported:
        raise
    except z3.Z3Exception:
        raise
    except RecursionError:
        raise Unsupported("recursion too deep")
    except Exception as e:  # the code under test raised
        if isinstance(e, (TypeError, AttributeError)) and re.search(r"\b(Node|SymBool|SymArray)\b", str(e)):
            raise Unsupported(f"{type(e).__name__}: {e}")
        S.exc = (type(e).__name__, str(e)[:300], traceback.format_exc(limit=-4)[-1200:])
        S.O = None
    return S


def _copy(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, list):
        return [_copy(x) for x in v]
    return v


def pc_of(S):
    return [b if t else bnot(b) for b, t in S.ex.trace]


def discharge(S, res, deadline):
    """Decide the obligations of one path."""
    pc = pc_of(S)
    env = {k: float(v) for k, v in S.asg.items()}
    memo = {}
    S.oracle = True
    S.ctx.canon = {}
    S.ctx.memo.clear()
    bad = set()
    todo = []
    same = []
    for label, a, b, note in S.obligations:
        if isinstance(a, SymBool):
            res["obligations"] += 1
            neg = bnot(a)
            if neg.op == "false":
                res["discharged"] += 1
                continue
            r, m = S.feasible(pc + [neg], timeout=20.0)
            if r == "unsat":
                res["discharged"] += 1
                continue
            r2, w = S.witness(pc + [neg], deadline)
            if r2 == "sat":
                res["cex"].append(candidate(S, label, note, w, None))
                bad.add(label)
            else:
                res["inconclusive"].append(f"{label}: {r}/{r2}")
            continue
        a = np.asarray(sym._obj0(a) if isinstance(a, Node) else a, dtype=object)
        b = np.asarray(sym._obj0(b) if isinstance(b, Node) else b, dtype=object)
        A = [lift(x) for x in a.flat]
        B = [lift(x) for x in b.flat]
        scale = 0.0
        for x in A + B:
            if x.val == x.val:
                scale = max(scale, abs(x.val))
        for i, (x, y) in enumerate(zip(A, B)):
            res["obligations"] += 1
            if x is y and x.k != "nan":
                res["discharged"] += 1
                res["trivial"] += 1
                same.append((x, y))
                continue
            if x.k == "nan" or y.k == "nan":
                if x.k == y.k:
                    res["discharged"] += 1
                    continue
                if label not in bad:
                    bad.add(label)
                    w = S.asg if S.reliable else S.witness(pc, deadline)[1]
                    if w is None:
                        res["inconclusive"].append(f"{label}: not-a-number on a path without a witness")
                    else:
                        res["cex"].append(candidate(S, label, note + " (not a number)", w, i, (x, y)))
                continue
            d = sym.sub(x, y)
            if d.k == "c" and d.a == 0:
                res["discharged"] += 1
                res["trivial"] += 1
                same.append((x, y))
                continue
            todo.append((label, i, x, y, d, scale, note))
    if same:
        # both sides normalised to the same term: the solver gets the terms themselves
        r = S.solver.disagree(same)
        if r == "sat":
            res["inconclusive"].append("the solver separates terms the simplifier identified")
    # numerically different at this path's own point?
    rest = []
    for label, i, x, y, d, scale, note in todo:
        if label in bad:
            res["skipped"] += 1
            continue
        dv = d.val
        if S.reliable and dv == dv and abs(dv) > REL * max(scale, 1e-300) and abs(dv) > 1e3 * d.err:
            # the solver confirms the disagreement at this point
            r = confirm(S, d)
            if r != "unsat":
                bad.add(label)
                res["cex"].append(candidate(S, label, note, S.asg, i, (x, y)))
                continue
        rest.append((label, i, x, y, d, scale, note))
    # batches: one query proves many entries
    k = 0
    while k < len(rest):
        batch = [t for t in rest[k:k + 24] if t[0] not in bad]
        k += 24
        if not batch:
            continue
        if time.time() > deadline:
            res["inconclusive"].append("time budget exhausted")
            res["timeout"] = True
            return
        r = batch_query(S, [t[4] for t in batch])
        if r == "unsat":
            res["discharged"] += len(batch)
            continue
        for label, i, x, y, d, scale, note in batch:
            if label in bad:
                continue
            if time.time() > deadline:
                res["inconclusive"].append("time budget exhausted")
                res["timeout"] = True
                return
            r = S.prove(d, pc)
            if r == "unsat":
                res["discharged"] += 1
                continue
            for find in (lambda: search(S, pc, d, scale, deadline), lambda: nearby(S, pc, d, y, scale), lambda: magnify(S, pc, x, y, d, deadline)):
                w = find()
                if w is not None and truly(x, y, d, w):
                    break
                w = None
            if w is not None:
                bad.add(label)
                res["cex"].append(candidate(S, label, note, w, i, (x, y)))
            else:
                r = S.prove(d, pc + S.domain, 20.0)
                if r == "unsat":
                    res["discharged"] += 1
                else:
                    res["inconclusive"].append(f"{label}[{i}]: {r}, no concrete witness found: {sym.show(d, 2)[:150]}")
                    bad.add(label)


def batch_query(S, ds):
    try:
        cons = z3.Or([S.solver.zero_query(d) for d in ds])
    except Exception as e:
        if isinstance(e, (Unsupported,)) or type(e).__name__ == "TooBig":
            return "unknown"
        raise
    return S.solver.check([cons], 15.0)


def confirm(S, d):
    """z3 verdict of d != 0 with every base variable fixed to the path's point."""
    side = set()
    s, den = S.solver.tr.plain(d, side)
    defs, used = S.solver.definitions([d], side)
    cons = [s != 0] + defs + S.solver.side_cons(side)
    subs = []
    for n, v in S.asg.items():
        if n in S.vars:
            v = Fraction(v)
            subs.append((S.solver.tr.zv(n), z3.Q(v.numerator, v.denominator)))
    cons = [z3.substitute(c, *subs) for c in cons]
    return S.solver.check(cons, 3.0)


def search(S, pc, d, scale, deadline):
    """A concrete assignment on this path where d is clearly non-zero."""
    names = self_names = S.base_vars([d] + atoms(pc))
    allb = S.domain + pc
    best = None
    bestv = 0.0
    for k in range(200):
        if k % 4 == 0:
            a = S.resample(names, ("s", k))
        else:
            sub = random.Random(k).sample(names, max(1, len(names) // (1 + k % 4)))
            a = S.resample(sub, ("s", k))
        env = {n: float(v) for n, v in a.items()}
        memo = {}
        try:
            if not all(holds(b, env, memo) for b in allb):
                continue
        except KeyError:
            continue
        v, sc = rel_value(d, env, memo)
        if v == v and v > bestv:
            best, bestv = a, v
            if v > 1e-3:
                return best
    if bestv > 10 * REL:
        return best
    # equality-constrained paths: let the solver complete partial assignments
    for k in range(6):
        if time.time() > deadline:
            break
        r = random.Random(f"{k}")
        pcn = S.base_vars(atoms(pc)) if pc else []
        if not pcn:
            break
        base_ = S.resample([n for n in names if n not in pcn], ("e", k))
        free = r.sample(pcn, min(len(pcn), 1 + k % 3))
        fix = {n: v for n, v in base_.items() if n not in free and n in S.vars}
        r2, m = S.feasible(pc, timeout=2.0, fix=fix)
        if r2 != "sat":
            continue
        a = dict(base_)
        a.update(m)
        if not S.satisfies_soft(allb, a):
            continue
        env = {n: float(v) for n, v in a.items()}
        v, sc = rel_value(d, env, {})
        if v == v and v > bestv:
            best, bestv = a, v
    return best if bestv > 10 * REL else None


def nearby(S, pc, d, y, scale):
    """On narrow paths: small steps away from the path's own point."""
    names = sorted(set(S.base_vars([d] + atoms(pc))) & set(S.vars))
    allb = S.domain + pc
    best, bestv = None, 0.0
    r = random.Random(f"{S.seed}{S.scn.id}local")
    for k in range(240 if pc and names else 0):
        a = dict(S.asg)
        for n in r.sample(names, 1 + k % min(3, len(names))):
            a[n] = Fraction(a[n]) + Fraction(r.randint(-4096, 4096), 4096) * Fraction(1, 2 ** (8 + k // 12 % 20))
        env = {n: float(v) for n, v in a.items()}
        memo = {}
        try:
            if any(v.pos and a.get(n, 1) <= 0 for n, v in S.vars.items()) or not all(holds(b, env, memo) for b in allb):
                continue
            v, x = evaluate(d, env, memo), evaluate(y, env, memo)
        except KeyError:
            continue
        v = abs(v) / max(abs(x), 1e-3 * scale, 1e-300)
        if v == v and v > bestv:
            best, bestv = a, v
    return best if bestv > 1.5 * REL else None


def magnify(S, pc, x, y, d, deadline):
    """An assignment on this path where the difference is a noticeable part of the value: the
    solver gets |x - y| > 2^-8 |y| and groups of input variables, the others stay where they are."""
    names = S.base_vars([d] + atoms(pc))
    big = sym.cmp0("gt", sym.sub(sym.mul(d, d), sym.mul(sym.const(Fraction(1, 2 ** 16)), sym.mul(y, y))))
    stems = {}
    for n in names:
        stems.setdefault(n.rstrip("0123456789_"), []).append(n)
    order = sorted(stems, key=lambda k: len(stems[k]))
    tries = [[a] for a in order] + [list(p) for p in itertools.combinations(order, 2)]
    random.Random(S.seed).shuffle(tries)
    tries = [order] + tries[:12]
    for free in tries:
        if time.time() > deadline:
            break
        free = {n for k in free for n in stems[k]}
        fix = {n: v for n, v in S.asg.items() if n not in free and n in S.vars}
        r, m = S.feasible(pc + [big], timeout=2.0, fix=fix)
        if r != "sat":
            continue
        a = dict(S.asg)
        a.update(m)
        a = S.generic(S.domain + pc + [big], a, m)
        if S.satisfies_soft(S.domain + pc, a):
            env = {n: float(v) for n, v in a.items()}
            memo = {}
            dv, yv = evaluate(d, env, memo), evaluate(y, env, memo)
            if dv == dv and abs(dv) > 1e-4 * abs(yv) and dv:
                return a
    return None


def truly(x, y, d, w):
    """does the difference survive evaluation with 60 digits?"""
    v = evaluate_hp(d, w)
    a, b = evaluate_hp(x, w), evaluate_hp(y, w)
    if v is None or a is None or b is None:
        return False
    return abs(v) > REL * max(abs(a), abs(b))


def rel_value(d, env, memo):
    v = evaluate(d, env, memo)
    s = 0.0
    if d.k == "s":
        for m, c in d.a[1]:
            t = abs(float(c) * memo[m])
            if t == t:
                s = max(s, t)
    elif d.k == "p":
        for b, e in d.a[1]:
            if b.k == "s":
                # relative size of the vanishing factor
                bs = max([abs(float(c) * memo[m]) for m, c in b.a[1]] + [abs(float(b.a[0]))])
                if bs and abs(memo[b]) / bs < 1e-9:
                    return 0.0, 1.0
        s = abs(v)
    else:
        s = abs(v)
    return (abs(v) / s if s > 1e-280 else 0.0), s


def candidate(S, label, note, asg, index, pair=None):
    env = {k: float(v) for k, v in asg.items()}
    memo = {}
    c = {"scenario": S.scn.id, "label": label, "note": note, "index": index,
         "inputs": {k: encode_in(v, env, memo) for k, v in S.I.items()},
         "asg": {k: str(Fraction(v)) for k, v in asg.items()}, "fixed": {k: str(Fraction(v)) for k, v in S.fixed.items()},
         "skeleton": skeleton(S.O)}
    if S.exc is not None:
        c["exception"] = list(S.exc)
        c["outputs"] = None
        return c
    c["outputs"] = {k: encode_out(v, env, memo) for k, v in flat_outputs(S.O).items()}
    for lb, a, b, n in S.obligations:
        if lb == label and not isinstance(a, SymBool) and index is not None:
            a = np.asarray(sym._obj0(a) if isinstance(a, Node) else a, dtype=object)
            b = np.asarray(sym._obj0(b) if isinstance(b, Node) else b, dtype=object)
            x, y = lift(list(a.flat)[index]), lift(list(b.flat)[index])
            if pair is not None and not (x is pair[0] and y is pair[1]):
                continue
            c["actual"] = evaluate(x, env, memo)
            c["expected"] = evaluate(y, env, memo)
            c["entry"] = [int(k) for k in np.unravel_index(index, a.shape)] if a.shape else []
            break
    c["path"] = [(S.what(b), bool(t)) for b, t in S.ex.trace][:12]
    return c


def skeleton(O):
    if isinstance(O, dict):
        return {"d": {str(k): skeleton(v) for k, v in O.items()}}
    if isinstance(O, (list, tuple)):
        return {"l": [skeleton(v) for v in O]}
    return None


def finite(x):
    """infinities of a real run stand for huge numbers"""
    x = float(x)
    return math.copysign(1e300, x) if math.isinf(x) else x


def fill(sk, flat, name=""):
    """the nested outputs from the flat ones of the real run"""
    if sk is None:
        v = flat[name]
        if isinstance(v, dict) and "data" in v:
            if v["shape"] == []:
                return lift(finite(v["data"][0]))
            return shim.obj(np.array([finite(x) for x in v["data"]], dtype=float).reshape(v["shape"]))
        return v
    if "d" in sk:
        return {k: fill(v, flat, f"{name}.{k}" if name else k) for k, v in sk["d"].items()}
    return [fill(v, flat, f"{name}.{i}") for i, v in enumerate(sk["l"])]


def unflatten(flat):
    """the nested outputs from the flat ones alone"""
    tree = {}
    for k, v in flat.items():
        d = tree
        *up, last = k.split(".")
        for u in up:
            d = d.setdefault(u, {})
        d[last] = v

    def conv(d):
        if not isinstance(d, dict):
            return d
        if "data" in d and "shape" in d:
            if d["shape"] == []:
                return lift(finite(d["data"][0]))
            return shim.obj(np.array([finite(x) for x in d["data"]], dtype=float).reshape(d["shape"]))
        if "len" in d:
            return [conv(d[str(i)]) for i in range(d["len"])]
        return {k: conv(v) for k, v in d.items()}

    return conv(tree)


def recheck(scn, seed, cex, real):
    """Do the real outputs violate the obligation at the counterexample's inputs?"""
    fixed = {k: Fraction(v) for k, v in cex["fixed"].items()}
    asg = {k: Fraction(v) for k, v in cex["asg"].items()}
    S = Session(scn, seed, asg, (), False, fixed=fixed)
    I = scn.inputs(S)
    S.oracle = "check"
    O = fill(cex["skeleton"], real) if cex["outputs"] is not None else unflatten(real)
    S.O, S.I, S.exc = O, I, None
    checked(scn, S, I, O)
    env = {k: float(v) for k, v in asg.items()}
    memo = {}
    worst = None
    for label, a, b, note in S.obligations:
        if (cex["outputs"] is not None and label != cex["label"]) or isinstance(a, SymBool):
            continue
        A = np.array([evaluate(lift(x), env, memo) for x in np.asarray(sym._obj0(a) if isinstance(a, Node) else a, dtype=object).flat])
        B = np.array([evaluate(lift(x), env, memo) for x in np.asarray(sym._obj0(b) if isinstance(b, Node) else b, dtype=object).flat])
        scale = max([abs(x) for x in list(A) + list(B) if x == x and not math.isinf(x)] + [1e-300])
        for i, (x, y) in enumerate(zip(A, B)):
            d = float("inf") if (x != x) != (y != y) else (0.0 if x != x else abs(x - y) / scale)
            if d > min(REL, cex.get("tol", REL)) and (worst is None or d > worst[0]):
                worst = (d, i, float(x), float(y), label)
    return worst


def checked(scn, S, I, O):
    """the scenario's obligations; when a required structure is missing the rest of the
    check cannot be evaluated and a failed requirement stands for it"""
    try:
        scn.check(S, I, O)
    except (ValueError, TypeError, IndexError, KeyError, AttributeError) as e:
        if S.exc is None and (isinstance(e, IndexError) or "shape" in str(e) or "broadcast" in str(e)):
            # an array of another shape than the property requires
            S.require(f"structure of the results ({type(e).__name__}: {e})", False)
        elif not any(b is not None and not isinstance(a, np.ndarray) and isinstance(a, Node) and a.k == "c" and a.a == 0
                   and isinstance(b, Node) and b.k == "c" and b.a == 1 for _, a, b, _ in S.obligations):
            raise


# -------------------------------------------------------------------- scenario
class OutOfTime(BaseException):
    pass


def run_scenario(scn, seed=1, budget=60.0):
    """explores the scenario; keeps what was found when the time budget ends"""
    res = {}

    def ring(*_):
        raise OutOfTime()

    old = signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, budget * 1.15 + 5)
    try:
        return _run_scenario(scn, seed, budget, res)
    except OutOfTime:
        res["inconclusive"].append("time budget exhausted")
        res["wall"] = round(budget * 1.15 + 5, 1)
        res.setdefault("files", [])
        return res
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def _run_scenario(scn, seed, budget, res):
    t0 = time.time()
    deadline = t0 + budget
    res.update({"scenario": scn.id, "paths": 0, "decisions": 0, "obligations": 0, "discharged": 0,
           "trivial": 0, "skipped": 0, "lemmas": 0, "cex": [], "inconclusive": [], "validate": [], "probe": [],
           "infeasible": 0, "unknown_branch": 0, "not_explored": 0, "solver": {}, "bounds": scn.bounds()})
    work = [((), {}, True, {})]
    done_fixed = set()
    solver = {}
    maxpaths = getattr(scn, "max_paths", 200)
    files = set()
    seen_exc = set()
    while work:
        prefix, asg, reliable, fixed = work.pop()
        if res["paths"] >= maxpaths:
            res["inconclusive"].append(f"more than {maxpaths} paths")
            break
        if time.time() > deadline:
            res["inconclusive"].append("time budget exhausted")
            break
        try:
            S = run_path(scn, seed, asg, prefix, reliable, budget, fixed=fixed)
        except Unsupported as e:
            res["inconclusive"].append("unsupported: " + str(e) + " @ " + where(e))
            probe(scn, seed, asg, fixed, res, FINE if isinstance(e, sym.Rounding) else 1e-3)
            break
        files.update(S.api.world.files)
        res["paths"] += 1
        res["decisions"] += len(S.ex.trace)
        try:
            if S.exc is not None:
                pc = pc_of(S)
                w = S.asg if S.reliable else S.witness(pc, deadline)[1]
                if S.exc[0] + S.exc[1] not in seen_exc:
                    seen_exc.add(S.exc[0] + S.exc[1])
                    if w is None:
                        res["inconclusive"].append(f"exception {S.exc[0]} on a path without a witness: {S.exc[1]}")
                    else:
                        res["obligations"] += 1
                        res["cex"].append(candidate(S, "no-exception", f"raises {S.exc[0]}: {S.exc[1]}", w, None))
            else:
                S.oracle = "check"  # a condition of the oracle alone forks like one of the code
                checked(scn, S, S.I, S.O)
                discharge(S, res, deadline)
                if S.reliable and len(res["validate"]) < getattr(scn, "max_validate", 6):
                    env = {k: float(v) for k, v in S.asg.items()}
                    memo = {}
                    res["validate"].append({
                        "scenario": scn.id,
                        "asg": {k: str(Fraction(v)) for k, v in S.asg.items()}, "fixed": {k: str(Fraction(v)) for k, v in S.fixed.items()},
                        "inputs": {k: encode_in(v, env, memo) for k, v in S.I.items()},
                        "outputs": {k: encode_out(v, env, memo) for k, v in flat_outputs(S.O).items()}})
        except Unsupported as e:
            res["inconclusive"].append("unsupported in oracle: " + str(e) + " @ " + where(e))
        S.oracle = False
        # alternatives
        pc = pc_of(S)
        for i in range(len(S.ex.trace) - 1, len(prefix) - 1, -1):
            b, taken = S.ex.trace[i]
            alt = pc[:i] + [bnot(b) if taken else b]
            if scn.generic and any(c.op == "eq" for c in conjuncts(alt[-1:])):
                # declared bound: only generic points (no vanishing computed quantity)
                res["not_explored"] += 1
                continue
            fx = forced(S, alt[-1:])
            if fx:
                # the branch fixes inputs: explore the sub-domain where they have that value
                fx = {**S.fixed, **fx}
                key = tuple(sorted(fx.items()))
                if key not in done_fixed:
                    done_fixed.add(key)
                    if S.feasible(alt, timeout=2.0)[0] == "unsat":
                        res["infeasible"] += 1
                        continue
                    work.append(((), {k: v for k, v in S.asg.items() if k not in fx}, S.reliable, fx))
                continue
            r, w = S.witness(alt, deadline)
            if r == "unsat":
                res["infeasible"] += 1
                continue
            pre = tuple(t for _, t in S.ex.trace[:i]) + (not taken,)
            if r == "sat":
                work.append((pre, w, True, S.fixed))
            else:
                res["unknown_branch"] += 1
                work.append((pre, dict(S.asg), False, S.fixed))
        res["lemmas"] += S.ctx.lemmas
        for k, v in S.solver.st.dump().items():
            if k == "slowest":
                solver[k] = max(solver.get(k, 0), v)
            else:
                solver[k] = solver.get(k, 0) + v
        if len(res["cex"]) >= 6:
            break
    res["solver"] = solver
    res["files"] = sorted(files)
    res["wall"] = round(time.time() - t0, 2)
    return res


def probe(scn, seed, asg, fixed, res, tol):
    """the encoding stopped: leave a point of the domain at which the real code is run and judged"""
    for attempt in range(60):
        S = Session(scn, seed, asg, (), True, attempt * 1000, fixed=fixed)
        try:
            I = scn.inputs(S)
            if tol == FINE:
                # values which a lower precision cannot store
                r = random.Random(f"{seed}{scn.id}")
                full = {k: Fraction(v) + (Fraction(r.randrange(1, 4096), 2 ** 36) if k in S.vars else 0) for k, v in S.asg.items()}
                S = Session(scn, seed, {**full, **asg}, (), True, attempt * 1000, fixed=fixed)
                I = scn.inputs(S)
        except Skip:
            continue
        except Exception:  # noqa: BLE001
            return
        env = {k: float(v) for k, v in S.asg.items()}
        memo = {}
        try:
            res["probe"].append({
                "scenario": scn.id, "asg": {k: str(Fraction(v)) for k, v in S.asg.items()},
                "fixed": {k: str(Fraction(v)) for k, v in S.fixed.items()},
                "inputs": {k: encode_in(v, env, memo) for k, v in I.items()}, "outputs": None, "skeleton": None, "tol": tol})
        except Exception:  # noqa: BLE001
            pass
        return


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if "/hyperelastic/" in f.filename or "einsumt" in f.filename]
    f = (fr or tb)[-1]
    return f"{f.filename.split('/')[-1]}:{f.lineno}"
