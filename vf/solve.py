"""Translation of symbolic expressions to z3 (exact reals) and the queries."""
import random
import time
from fractions import Fraction

import z3

from . import sym
from .sym import Node, SymBool


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.slowest = 0.0

    def dump(self):
        return {k: (round(v, 3) if isinstance(v, float) else v) for k, v in vars(self).items()}


def q(fr):
    fr = Fraction(fr)
    return z3.RealVal(fr.numerator) if fr.denominator == 1 else z3.Q(fr.numerator, fr.denominator)


class TooBig(Exception):
    pass


class Translator:
    """Node -> rational form: a dict (root monomial -> z3 polynomial) over a product of
    denominators.  Roots of positive bases are algebraic units: t^q = base, and powers of
    t are reduced modulo that relation, so a numerator is zero if every coefficient is."""

    def __init__(self):
        self.memo = {}
        self.zvars = {}
        self.bases = {}       # root key -> (base node)
        self.poly = {}

    def zv(self, name):
        v = self.zvars.get(name)
        if v is None:
            v = z3.Real(name)
            self.zvars[name] = v
        return v

    # a form: (num: dict rootmono->z3, den: dict key->int)   rootmono: tuple of (key, Fraction)
    def denpoly(self, key):
        return self.poly[key]

    def key_of(self, expr):
        k = expr.get_id()
        self.poly[k] = expr
        return k

    def form(self, n):
        r = self.memo.get(n)
        if r is None:
            r = self._form(n)
            self.memo[n] = r
        return r

    def _form(self, n):
        if n.k == "c":
            return ({(): q(n.a)}, {})
        if n.k == "v":
            return ({(): self.zv(n.a)}, {})
        if n.k == "f":
            return ({(): self.zv(f"@{n.a[0]}{n.id}")}, {})
        if n.k == "p":
            return self.prod(n.a[0], n.a[1])
        if n.k == "s":
            forms = [({(): q(n.a[0])}, {})] if n.a[0] else []
            for m, c in n.a[1]:
                f = self.form(m)
                forms.append(f if c == 1 else ({k: q(c) * e for k, e in f[0].items()}, f[1]))
            den = {}
            for f in forms:
                for k, e in f[1].items():
                    if den.get(k, 0) < e:
                        den[k] = e
            num = {}
            for f in forms:
                scale = []
                for k, e in den.items():
                    d = e - f[1].get(k, 0)
                    scale.extend([self.poly[k]] * d)
                for rm, e in f[0].items():
                    t = e if not scale else z3.Product(*scale, e)
                    num.setdefault(rm, []).append(t)
            return ({rm: (ts[0] if len(ts) == 1 else z3.Sum(ts)) for rm, ts in num.items()}, den)
        raise sym.Unsupported("nan in a solver query")

    def prod(self, coef, fac):
        num = {(): q(coef)} if coef != 1 else None
        den = {}
        for b, e in fac:
            f = self.power(b, e)
            if num is None:
                num, den = dict(f[0]), dict(f[1])
            else:
                num, d2 = self.mulnum(num, f[0])
                for k, x in f[1].items():
                    den[k] = den.get(k, 0) + x
                for k, x in d2.items():
                    den[k] = den.get(k, 0) + x
        return (num if num is not None else {(): q(coef)}, den)

    def mulnum(self, a, b):
        out = {}
        den = {}
        for ra, ea in a.items():
            for rb, eb in b.items():
                if not ra and not rb:
                    out.setdefault((), []).append(ea * eb)
                    continue
                d = dict(ra)
                extra = []
                for k, x in rb:
                    s = d.get(k, 0) + x
                    if s >= 1:
                        s -= 1
                        extra.append(k)
                    if s:
                        d[k] = s
                    else:
                        d.pop(k, None)
                t = ea * eb
                for k in extra:
                    bn, bd = self.bases[k]
                    t = t * bn
                    if bd:
                        raise TooBig("root base with denominators")
                rm = tuple(sorted(d.items()))
                out.setdefault(rm, []).append(t)
        return {k: (v[0] if len(v) == 1 else z3.Sum(v)) for k, v in out.items()}, den

    def power(self, b, e):
        if type(e) is int:
            f = self.form(b)
            if e > 0:
                num, den = f
                rn = num
                rd = dict(den)
                for _ in range(e - 1):
                    rn, _x = self.mulnum(rn, num)
                    for k, x in den.items():
                        rd[k] = rd.get(k, 0) + x
                return (rn, rd)
            num, den = f
            if len(num) != 1:
                # 1/(sum with roots): name it
                z = self.zv(f"@inv{b.id}")
                rn = {(): z}
                out = rn
                for _ in range(-e - 1):
                    out, _x = self.mulnum(out, rn)
                return (out, {})
            (rm, p), = num.items()
            if rm:
                # 1/(t^a p): t^a in the denominator -> t^(1-a)/base
                nn = {(): q(1)}
                for k, x in rm:
                    nn, _x = self.mulnum(nn, {((k, 1 - x),): q(1)})
                nd = {}
                for k, x in rm:
                    kk = self.key_of(self.bases[k][0])
                    nd[kk] = nd.get(kk, 0) + 1
                one = (nn, nd)
            else:
                one = ({(): q(1)}, {})
            num1 = one[0]
            for k, x in den.items():
                for _ in range(x):
                    num1 = {rm2: ee * self.poly[k] for rm2, ee in num1.items()}
            den1 = dict(one[1])
            if z3.is_rational_value(p):
                iv = Fraction(p.numerator_as_long(), p.denominator_as_long())
                num1 = {rm2: ee * q(1 / iv) for rm2, ee in num1.items()}
            else:
                kk = self.key_of(p)
                den1[kk] = den1.get(kk, 0) + 1
            rn, rd = num1, dict(den1)
            for _ in range(-e - 1):
                rn, _x = self.mulnum(rn, num1)
                for k, x in den1.items():
                    rd[k] = rd.get(k, 0) + x
            return (rn, rd)
        fl = e.numerator // e.denominator
        fr = e - fl
        f = self.form(b)
        num, den = f
        key = ("r", b.id)
        if key not in self.bases:
            if len(num) == 1 and () in num and not den:
                self.bases[key] = (num[()], None)
            else:
                # base itself carries roots or denominators: name it
                z = self.zv(f"@base{b.id}")
                self.bases[key] = (z, None)
        r = ({((key, fr),): q(1)}, {})
        if fl == 0:
            return r
        g = self.power(b, int(fl)) if self.bases[key][0].get_id() == num.get((), z3.RealVal(0)).get_id() else self.zpow(self.bases[key][0], int(fl))
        rn, _x = self.mulnum(r[0], g[0])
        return (rn, g[1])

    def zpow(self, z, e):
        if e > 0:
            return ({(): z3.Product(*([z] * e)) if e > 1 else z}, {})
        return ({(): q(1)}, {self.key_of(z): -e})

    # plain translation: every root becomes a variable with its defining constraints
    def plain(self, n, side):
        num, den = self.form(n)
        tot = []
        for rm, e in num.items():
            t = e
            for k, x in rm:
                t = t * self.rootvar(k, x, side)
            tot.append(t)
        s = tot[0] if len(tot) == 1 else z3.Sum(tot)
        d = None
        for k, e in den.items():
            for _ in range(e):
                d = self.poly[k] if d is None else d * self.poly[k]
        return s, d

    def rootvar(self, key, x, side):
        z = self.zv(f"@root{key[1]}_{x.denominator}")
        side.add((z, self.bases[key][0], x.denominator))
        return z if x.numerator == 1 else z3.Product(*([z] * x.numerator))


class Solver:
    def __init__(self, ctx, timeout=20.0, seed=1):
        self.ctx = ctx
        self.tr = Translator()
        self.st = Stats()
        self.timeout = timeout
        self.seed = seed
        self.domain = []      # SymBool
        self.cache = {}

    # -------------------------------------------------------------- low level
    def check(self, cons, timeout=None, model=False):
        s = z3.Solver()
        s.set("timeout", int(1000 * (timeout or self.timeout)))
        s.set("random_seed", self.seed)
        for c in cons:
            s.add(c)
        t = time.time()
        r = s.check()
        dt = time.time() - t
        self.st.queries += 1
        self.st.time += dt
        self.st.slowest = max(self.st.slowest, dt)
        name = str(r)
        setattr(self.st, name, getattr(self.st, name) + 1)
        if model:
            return name, (s.model() if name == "sat" else None)
        return name

    def zero_query(self, n):
        """z3 formula for n != 0 (numerator coefficients)."""
        num, den = self.tr.form(n)
        return z3.Or([e != 0 for e in num.values()]) if len(num) != 1 else next(iter(num.values())) != 0

    def raw(self, n, memo):
        """direct (unnormalised) translation; roots and functions are opaque"""
        r = memo.get(n)
        if r is not None:
            return r
        if n.k == "c":
            r = q(n.a)
        elif n.k == "v":
            r = self.tr.zv(n.a)
        elif n.k == "s":
            r = z3.Sum([q(n.a[0])] + [q(c) * self.raw(m, memo) for m, c in n.a[1]])
        elif n.k == "p":
            r = q(n.a[0])
            for b, e in n.a[1]:
                if type(e) is int:
                    t = self.raw(b, memo)
                    if e < 0:
                        self.dens[b] = t
                    t = t if abs(e) == 1 else z3.Product(*([t] * abs(e)))
                    r = r * t if e > 0 else r / t
                else:
                    r = r * self.tr.zv(f"@pow{b.id}_{e}")
        else:
            r = self.tr.zv(f"@raw{n.id}")
        memo[n] = r
        return r

    def disagree(self, pairs):
        """one query: can any of these pairs of terms differ?"""
        memo = {}
        self.dens = {}
        try:
            goal = z3.Or([self.raw(x, memo) != self.raw(y, memo) for x, y in pairs])
        except RecursionError:
            return "unknown"
        # denominators were proved or assumed non-zero when they were formed
        return self.check([goal] + [d != 0 for d in self.dens.values()], 5.0)

    def boolean(self, b, side):
        o = b.op
        if o == "true":
            return z3.BoolVal(True)
        if o == "false":
            return z3.BoolVal(False)
        if o == "and":
            return z3.And([self.boolean(x, side) for x in b.a])
        if o == "or":
            return z3.Or([self.boolean(x, side) for x in b.a])
        if o == "not":
            return z3.Not(self.boolean(b.a, side))
        s, d = self.tr.plain(b.a, side)
        if o == "eq":
            return s == 0
        if d is not None:
            s = s * d
        return s > 0 if o == "gt" else s >= 0

    def constraints(self, bs, extra_nodes=()):
        """z3 constraints for booleans + positivity of the variables they use + cut
        definitions + root definitions."""
        side = set()
        cons = [self.boolean(b, side) for b in bs]
        return cons, side

    def side_cons(self, side, done=None):
        out = []
        for z, base, den in side:
            out.append(z > 0)
            out.append(z3.Product(*([z] * den)) == base)
        return out

    def definitions(self, nodes, side):
        """Definitions of cut variables, transitively, and sign facts of all variables."""
        out = []
        seen = set()
        todo = [v for v in sym.variables(nodes)]
        funs = []
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            if v.pos:
                out.append(self.tr.zv(v.a) > 0)
            d = self.ctx.defs.get(v)
            if d is not None:
                s, den = self.tr.plain(d, side)
                out.append((self.tr.zv(v.a) * den if den is not None else self.tr.zv(v.a)) == s)
                todo.extend(sym.variables([d]))
        return out, seen

    # -------------------------------------------------------------- proofs
    def prove_zero(self, n, pc=(), timeout=None):
        """unsat / sat / unknown of  n != 0  (first without, then with hypotheses)."""
        if n.k == "c":
            return "unsat" if n.a == 0 else "sat"
        if n.k == "nan":
            return "sat"
        try:
            z = self.zero_query(n)
        except TooBig:
            return "unknown"
        r = self.check([z], timeout)
        if r == "unsat" or not pc:
            return r
        side = set()
        cons = [self.boolean(b, side) for b in pc]
        nodes = [n] + atoms(pc)
        cons += [self.tr.zv(v.a) > 0 for v in sym.variables(nodes) if v.pos]
        cons += self.side_cons(side)
        return self.check([z] + cons, timeout)


def atoms(bs):
    out = []
    st = list(bs)
    while st:
        b = st.pop()
        if b.op in ("and", "or"):
            st.extend(b.a)
        elif b.op == "not":
            st.append(b.a)
        elif b.op in ("eq", "gt", "ge"):
            out.append(b.a)
    return out


def evaluate(n, env, memo):
    """Floating point value of n under env: variable name -> float."""
    r = memo.get(n)
    if r is not None:
        return r
    st = [n]
    while st:
        x = st[-1]
        if x in memo:
            st.pop()
            continue
        if x.k == "c":
            memo[x] = float(x.a)
            st.pop()
            continue
        if x.k == "nan":
            memo[x] = float("nan")
            st.pop()
            continue
        if x.k == "v":
            if x.a in env:
                memo[x] = float(env[x.a])
                st.pop()
                continue
            d = sym.get_ctx().defs.get(x)
            if d is None:
                raise KeyError(x.a)
            if d in memo:
                memo[x] = memo[d]
                st.pop()
            else:
                st.append(d)
            continue
        kids = [m for m, c in x.a[1]] if x.k in ("s", "p") else list(x.a[1:])
        miss = [k for k in kids if k not in memo]
        if miss:
            st.extend(miss)
            continue
        try:
            if x.k == "s":
                v = float(x.a[0])
                for m, c in x.a[1]:
                    v += float(c) * memo[m]
            elif x.k == "p":
                v = float(x.a[0])
                for b, e in x.a[1]:
                    v *= memo[b] ** (e if type(e) is int else float(e))
            else:
                import math
                if x.a[0] == "pow":
                    v = memo[x.a[1]] ** memo[x.a[2]]
                elif x.a[0] == "exp":
                    v = math.exp(memo[x.a[1]])
                else:
                    v = math.log(memo[x.a[1]])
            if type(v) is complex:
                v = float("nan")
        except (ZeroDivisionError, OverflowError, ValueError):
            v = float("nan")
        memo[x] = v
        st.pop()
    return memo[n]


def evaluate_hp(n, env):
    """evaluate with 60 significant digits; env: variable name -> Fraction.  None if undefined"""
    import mpmath as mp
    mp.mp.dps = 60
    memo = {}
    defs = sym.get_ctx().defs
    q = lambda f: mp.mpf(f.numerator) / f.denominator  # noqa: E731
    from fractions import Fraction as Fr
    st = [n]
    try:
        while st:
            x = st[-1]
            if x in memo:
                st.pop()
                continue
            if x.k == "c":
                memo[x] = q(Fr(x.a))
                continue
            if x.k == "nan":
                return None
            if x.k == "v":
                if x.a in env:
                    memo[x] = q(Fr(env[x.a]))
                else:
                    d = defs[x]
                    if d in memo:
                        memo[x] = memo[d]
                    else:
                        st.append(d)
                continue
            kids = [m for m, c in x.a[1]] if x.k in ("s", "p") else list(x.a[1:])
            miss = [k for k in kids if k not in memo and not isinstance(k, str)]
            if miss:
                st.extend(miss)
                continue
            if x.k == "s":
                v = q(Fr(x.a[0]))
                for m, c in x.a[1]:
                    v += q(Fr(c)) * memo[m]
            elif x.k == "p":
                v = q(Fr(x.a[0]))
                for b, e in x.a[1]:
                    v *= memo[b] ** (e if type(e) is int else q(Fr(e)))
            elif x.a[0] == "pow":
                v = memo[x.a[1]] ** memo[x.a[2]]
            elif x.a[0] == "exp":
                v = mp.exp(memo[x.a[1]])
            else:
                v = mp.log(memo[x.a[1]])
            if isinstance(v, mp.mpc):
                return None
            memo[x] = v
    except (ZeroDivisionError, OverflowError, ValueError, KeyError):
        return None
    return memo[n]


def holds(b, env, memo, slack=0.0):
    o = b.op
    if o == "true":
        return True
    if o == "false":
        return False
    if o == "and":
        return all(holds(x, env, memo, slack) for x in b.a)
    if o == "or":
        return any(holds(x, env, memo, slack) for x in b.a)
    if o == "not":
        return not holds(b.a, env, memo, slack)
    v = evaluate(b.a, env, memo)
    if o == "eq":
        return abs(v) <= 1e-13
    return v > 0 if o == "gt" else v >= 0
