"""Hash-consed symbolic real expressions: the value domain of the symbolic executor.

Every number the code under test computes is one of these nodes.  A node denotes an
exact real (rounding is not modelled).  A node also carries its floating-point value
under the concrete assignment of the current (concolic) path; that value only guides
the search (which equalities to try to prove, which branch to follow first), it never
decides anything.
"""
import math
from fractions import Fraction
import numpy as np

EPS = 2.0 ** -52


FORMATTED = []


class IntegerStorage(Exception):
    """a real quantity is converted to (or stored as) an integer"""


class Unsupported(Exception):
    """The code did something the encoding cannot express: inconclusive, not a finding."""


class Rounding(Unsupported):
    """The code reduces the precision of its results on purpose."""


class Ctx:
    def __init__(self, explorer=None):
        self.tab = {}
        self.nodes = []
        self.ex = explorer
        self.canon = {}       # rounded value -> [(canonical node, definition node)]
        self.alias = {}       # node -> canonical node
        self.defs = {}        # cut variable -> definition node
        self.dcache = {}
        self.known_pos = set()
        self.known_nz = set()
        self.tried = set()
        self.busy = False
        self.prover = None
        self.lemmas = 0
        self.regmark = 0
        self.drule = {}
        self.memo = {}        # results of products and sums (valid between registrations)

    def mk(self, kind, a, val, err, pos=False):
        key = (kind, a)
        n = self.tab.get(key)
        if n is None:
            n = Node.__new__(Node)
            n.k = kind
            n.a = a
            n.id = len(self.nodes)
            n.val = val
            n.err = err
            n.pos = pos
            n._h = n.id
            self.nodes.append(n)
            self.tab[key] = n
        return n


CTX = Ctx()


def set_ctx(c):
    global CTX
    CTX = c


def get_ctx():
    return CTX


# ------------------------------------------------------------------ constants
def simplest_between(lo, hi):
    """Simplest fraction in [lo, hi], 0 < lo <= hi (Stern-Brocot)."""
    fl = lo.numerator // lo.denominator
    if fl == lo:
        return Fraction(fl)
    if fl + 1 <= hi:
        return Fraction(fl + 1)
    r = simplest_between(1 / (hi - fl), 1 / (lo - fl))
    return fl + 1 / r


_fcache = {}


def from_float(x):
    """The simplest rational that rounds to the float ``x`` (so 1/3 means one third)."""
    if x in _fcache:
        return _fcache[x]
    if x == int(x) and abs(x) < 2 ** 53:
        r = Fraction(int(x))
    else:
        f = Fraction(x)
        s = -1 if f < 0 else 1
        f = abs(f)
        w = f / 2 ** 53
        num = f.numerator
        if num & -num == num or (num // (num & -num)).bit_length() <= 20:
            _fcache[x] = s * f          # a short binary number is meant exactly
            return _fcache[x]
        r = s * simplest_between(f - w, f + w)
        if r.denominator > 10 ** 7 and r.numerator > 10 ** 7 or r.denominator > 10 ** 13:
            # an ugly number: is it the square/cube root of a simple one?
            for q in (2, 3):
                g = f ** q
                w = g / 2 ** 51
                c = simplest_between(g - w, g + w)
                if c.denominator < 2000 and c.numerator < 200000:
                    _fcache[x] = ("root", s, c, q)
                    return _fcache[x]
    _fcache[x] = r
    return r


def const(v):
    if type(v) is Fraction:
        f = v
    elif isinstance(v, (bool, np.bool_)):
        f = Fraction(int(v))
    elif isinstance(v, (int, np.integer)):
        f = Fraction(int(v))
    else:
        x = float(v)
        if x != x:
            return nan()
        if x in (math.inf, -math.inf):
            raise Unsupported("infinite constant")
        f = from_float(x)
        if type(f) is tuple:
            _, s, c, q = f
            return mul(const(s), powr(const(c), Fraction(1, q)))
    fv = float(f)
    return CTX.mk("c", f, fv, abs(fv) * EPS, f > 0)


def nan():
    return CTX.mk("nan", None, math.nan, 0.0)


def var(name, val, pos=False, err=None):
    fv = float(val)
    n = CTX.mk("v", name, fv, abs(fv) * EPS if err is None else err, pos)
    return n


def lift(x):
    if type(x) is Node:
        return x
    if isinstance(x, (int, float, Fraction, np.number, np.bool_)):
        return const(x)
    if isinstance(x, SymBool):
        return const(1 if bool(x) else 0)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    if x is None or isinstance(x, (str, list, tuple, dict)):
        raise TypeError(f"unsupported operand type(s): '{type(x).__name__}'")
    raise Unsupported(f"cannot use {type(x).__name__} as a number")


# ------------------------------------------------------------------ algebra
def _split(n):
    """n = coef * mono, mono is None for constants."""
    if n.k == "c":
        return n.a, None
    if n.k == "p" and n.a[0] != 1:
        return n.a[0], _mkprod(Fraction(1), n.a[1])
    return Fraction(1), n


def _factors(n):
    if n.k == "p":
        return n.a[1]
    return ((n, 1),)


def _mkprod(coef, fac):
    """fac: sorted tuple of (node, exponent), no zero exponents."""
    if coef == 0:
        return const(Fraction(0))
    if not fac:
        return const(coef)
    if coef == 1 and len(fac) == 1 and fac[0][1] == 1:
        return fac[0][0]
    key = ("p", (coef, fac))
    n = CTX.tab.get(key)
    if n is not None:
        return canonical(n) if n.id < CTX.regmark else CTX.alias.get(n, n)
    val = float(coef)
    rel = EPS
    pos = coef > 0
    for b, e in fac:
        bv = b.val
        try:
            val *= bv ** (e if type(e) is int else float(e))
        except (OverflowError, ZeroDivisionError, ValueError):
            val = math.nan
        if type(val) is complex:
            val = math.nan
        rel += abs(float(e)) * (b.err / abs(bv) if bv else 1.0) + EPS
        if pos and not (b.pos or b in CTX.known_pos):
            pos = False
    if type(val) is complex:
        val = math.nan
    n = CTX.mk("p", (coef, fac), val, abs(val) * rel, pos)
    return canonical(n)


def _normfac(d):
    return tuple(sorted(((b, e) for b, e in d.items() if e), key=lambda t: t[0].id))


def _int(e):
    if type(e) is int:
        return e
    return int(e) if e.denominator == 1 else e


def mul(x, y):
    if x.k == "nan" or y.k == "nan":
        return nan()
    if x.k == "c":
        if x.a == 0:
            return x
        if x.a == 1:
            return y
        if y.k == "c":
            return const(x.a * y.a)
    if y.k == "c":
        if y.a == 0:
            return y
        if y.a == 1:
            return x
    if CTX.busy:
        return _mul(x, y)
    key = (x.id << 40) + y.id if x.id < y.id else (y.id << 40) + x.id
    r = CTX.memo.get(key)
    if r is None:
        r = CTX.memo[key] = _mul(x, y)
    return r


def _mul(x, y):
    cx, mx = _split(x)
    cy, my = _split(y)
    if mx is None:
        return _mkprod(cx * cy, _factors(my))
    if my is None:
        return _mkprod(cx * cy, _factors(mx))
    d = dict(_factors(mx))
    coef = cx * cy
    for b, e in _factors(my):
        s = _int(d.get(b, 0) + e)
        if b.k == "c":
            # root of an integer constant: keep exponent in (0, 1)
            fl = s // 1 if type(s) is int else s.numerator // s.denominator
            if fl:
                coef *= b.a ** int(fl)
                s = _int(s - fl)
        d[b] = s
    return _mkprod(coef, _normfac(d))


def _primitive(terms, c0):
    """terms: dict mono->coef (non zero); returns node for c0 + sum."""
    if not terms:
        return const(c0)
    if c0 == 0 and len(terms) == 1:
        (m, c), = terms.items()
        return _mkprod(c, _factors(m))
    # common factor
    common = None
    if c0 == 0:
        for m in terms:
            f = _factors(m)
            if common is None:
                common = dict(f)
            else:
                fd = dict(f)
                for b in list(common):
                    e = fd.get(b)
                    if e is None:
                        del common[b]
                    elif e < common[b]:
                        common[b] = e
            if not common:
                break
    if common:
        inv = {b: -e for b, e in common.items()}
        new = []
        for m, c in terms.items():
            d = dict(_factors(m))
            for b, e in inv.items():
                d[b] = _int(d.get(b, 0) + e)
            new.append(_mkprod(c, _normfac(d)))
        return mul(_mkprod(Fraction(1), _normfac(common)), addn(new))
    # numeric content
    g = 0
    l = 1
    for c in terms.values():
        g = math.gcd(g, c.numerator)
        l = l * c.denominator // math.gcd(l, c.denominator)
    if c0:
        g = math.gcd(g, c0.numerator)
        l = l * c0.denominator // math.gcd(l, c0.denominator)
    content = Fraction(g, l)
    items = tuple(sorted(((m, c / content) for m, c in terms.items()), key=lambda t: t[0].id))
    k0 = c0 / content
    key = ("s", (k0, items))
    n = CTX.tab.get(key)
    if n is None:
        val = float(k0)
        err = abs(val) * EPS
        pos = k0 >= 0
        for m, c in items:
            fc = float(c)
            t = fc * m.val
            val += t
            err += abs(fc) * m.err + abs(t) * EPS
            if pos and not (c > 0 and (m.pos or m in CTX.known_pos or _even(m))):
                pos = False
        if pos and not (k0 > 0 or any(m.pos or m in CTX.known_pos for m, c in items)):
            pos = False
        n = canonical(CTX.mk("s", (k0, items), val, err, pos))
    else:
        n = canonical(n) if n.id < CTX.regmark else CTX.alias.get(n, n)
    if content == 1:
        return n
    if n.k in ("s", "v", "f"):
        return _mkprod(content, ((n, 1),))
    return mul(const(content), n)


def _even(m):
    return all((type(e) is int and e % 2 == 0) or b.pos for b, e in _factors(m))


def addn(xs):
    if CTX.busy:
        return _addn(xs)
    key = tuple([x.id for x in xs])
    r = CTX.memo.get(key)
    if r is None:
        r = CTX.memo[key] = _addn(xs)
    return r


def _addn(xs):
    terms = {}
    c0 = Fraction(0)
    stack = [(Fraction(1), x) for x in xs]
    while stack:
        k, x = stack.pop()
        if x.k == "nan":
            return nan()
        c, m = _split(x)
        c = c * k
        if m is None:
            c0 += c
        elif m.k == "s":
            c0 += c * m.a[0]
            for mm, cc in m.a[1]:
                v = terms.get(mm, 0) + cc * c
                if v:
                    terms[mm] = v
                else:
                    terms.pop(mm, None)
        else:
            v = terms.get(m, 0) + c
            if v:
                terms[m] = v
            else:
                terms.pop(m, None)
    return _primitive(terms, c0)


def add(x, y):
    if x.k == "c" and x.a == 0:
        return y
    if y.k == "c" and y.a == 0:
        return x
    return addn((x, y))


def neg(x):
    return mul(const(Fraction(-1)), x)


def sub(x, y):
    return add(x, neg(y))


def is_pos(n):
    return n.pos or n in CTX.known_pos


def nonzero(n):
    """Is n known (or decidable) to be non-zero on this path?  Forks when it may be 0."""
    if n.k == "c":
        return n.a != 0
    if is_pos(n) or n in CTX.known_nz:
        return True
    if n.k == "s":
        m = neg(n)
        if m in CTX.known_nz or is_pos(m):
            return True
    if n.k == "p":
        return all(nonzero(b) for b, e in n.a[1])
    if n.k == "f":
        return True
    if CTX.ex is None:
        return True
    if CTX.ex.decide(cmp0("eq", n)):
        return False
    CTX.known_nz.add(n)
    return True


def mark_nz(n):
    CTX.known_nz.add(n)
    if n.k == "p":
        for b, e in n.a[1]:
            CTX.known_nz.add(b)


def mark_pos(n):
    mark_nz(n)
    CTX.known_pos.add(n)
    if n.k == "p" and n.a[0] > 0:
        rest = [(b, e) for b, e in n.a[1] if not is_pos(b)]
        if len(rest) == 1 and type(rest[0][1]) is int and rest[0][1] % 2:
            CTX.known_pos.add(rest[0][0])


def div(x, y):
    if x.k == "nan" or y.k == "nan":
        return nan()
    if not nonzero(y):
        return nan()
    return mul(x, powi(y, -1))


def powi(x, e):
    if e == 0:
        return const(Fraction(1))
    if x.k == "nan":
        return x
    if x.k == "c":
        if x.a == 0 and e < 0:
            return nan()
        return const(x.a ** e)
    if e < 0 and not nonzero(x):
        return nan()
    c, m = _split(x)
    coef = c ** e
    d = {}
    for b, f in _factors(m):
        s = _int(f * e)
        if b.k == "c":
            fl = s // 1 if type(s) is int else s.numerator // s.denominator
            coef *= b.a ** int(fl)
            s = _int(s - fl)
        d[b] = s
    return _mkprod(coef, _normfac(d))


def _const_root(c, e):
    """c > 0 rational to rational power e."""
    coef = Fraction(1)
    d = {}
    for n, sgn in ((c.numerator, 1), (c.denominator, -1)):
        p = 2
        while n > 1:
            if p * p > n:
                p = n
            k = 0
            while n % p == 0:
                n //= p
                k += 1
            if k:
                s = Fraction(sgn * k) * e
                fl = s.numerator // s.denominator
                coef *= Fraction(p) ** int(fl)
                s = s - fl
                if s:
                    d[const(p)] = s
            p += 1 if p == 2 else 2
            if p > 2000000:
                raise Unsupported("root of a large constant")
    return _mkprod(coef, _normfac(d))


def sign_of(n):
    """Sign of n on this path (forks): 1, 0 or -1."""
    if n.k == "c":
        return (n.a > 0) - (n.a < 0)
    if is_pos(n):
        return 1
    if CTX.ex is None:
        raise Unsupported("sign of an expression outside a path")
    if CTX.ex.decide(cmp0("gt", n)):
        CTX.known_pos.add(n)
        return 1
    if n not in CTX.known_nz and CTX.ex.decide(cmp0("eq", n)):
        return 0
    CTX.known_nz.add(n)
    return -1


def powr(x, e):
    """x ** e, e a Fraction."""
    if e.denominator == 1:
        return powi(x, int(e))
    if x.k == "nan":
        return x
    if x.k == "c":
        if x.a == 0:
            return x if e > 0 else nan()
        if x.a < 0:
            return nan()
        return _const_root(x.a, e)
    c, m = _split(x)
    fac = _factors(m)
    if len(fac) > 1 or fac[0][1] != 1 or c != 1:
        sg = 1 if c > 0 else -1
        for b, f in fac:
            s = sign_of(b)
            if s == 0:
                if f < 0 or e < 0:
                    return nan()
                return const(0)
            if s < 0:
                if type(f) is not int:
                    return nan()
                if f % 2:
                    sg = -sg
        if sg < 0:
            return nan()
        out = powr(const(abs(c)), e)
        for b, f in fac:
            bb = b if is_pos(b) else neg(b)
            out = mul(out, _rawpow(bb, Fraction(f) * e))
        return out
    s = sign_of(x)
    if s < 0:
        return nan()
    if s == 0:
        return const(0) if e > 0 else nan()
    return _rawpow(x, e)


def _rawpow(b, e):
    """b > 0."""
    if e.denominator == 1:
        return powi(b, int(e))
    if b.k == "c":
        return _const_root(b.a, e)
    if b.k == "p":
        # a negated negative: -1 * b
        c, m = _split(b)
        if len(m.a[1] if m.k == "p" else ((m, 1),)) == 1 and c == -1:
            n = CTX.mk("s", (Fraction(0), ((m, Fraction(-1)),)), -m.val, m.err, True)
            return _mkprod(Fraction(1), ((n, _int(e)),))
        return powr(b, e)
    return _mkprod(Fraction(1), ((b, _int(e)),))


def powsym(x, y):
    """x ** y with symbolic exponent, x > 0 required."""
    if y.k == "c":
        return powr(x, y.a)
    if x.k == "c" and x.a == 1:
        return x
    if x.k == "nan" or y.k == "nan":
        return nan()
    if sign_of(x) != 1:
        raise Unsupported("symbolic exponent on a base that is not positive")
    if y.k == "s":
        k0, items = y.a
        parts = [(m, c) for m, c in items]
    else:
        c, m = _split(y)
        k0 = Fraction(0)
        parts = [(m, c)]
        if m is not None and m.k == "s":
            k0 = m.a[0] * c
            parts = [(mm, cc * c) for mm, cc in m.a[1]]
    out = powr(x, k0)
    cb, mb = _split(x)
    bases = []
    if cb != 1:
        bases.append((const(cb), 1))
    if mb is not None:
        for b, f in _factors(mb):
            if not is_pos(b):
                bases = [(x, 1)]
                break
            bases.append((b, f))
    for m, c in parts:
        for b, f in bases:
            if b.k == "f" and b.a[0] == "pow":
                at = _powatom(b.a[1], mul(b.a[2], m))
            else:
                at = _powatom(b, m)
            out = mul(out, _rawpow(at, c * f))
    return out


def _powatom(b, m):
    if b.k == "c" and b.a == 1:
        return b
    val = b.val ** m.val
    return CTX.mk("f", ("pow", b, m), val, abs(val) * (abs(m.val) * b.err / b.val + abs(math.log(b.val)) * m.err + EPS), True)


def fexp(x):
    if x.k == "nan":
        return x
    if x.k == "c" and x.a == 0:
        return const(1)
    if x.k == "s":
        parts = [(m, c) for m, c in x.a[1]] + ([(const(1), x.a[0])] if x.a[0] else [])
    else:
        c, m = _split(x)
        parts = [(m if m is not None else const(1), c)]
        if m is not None and m.k == "s":
            parts = [(mm, cc * c) for mm, cc in m.a[1]] + ([(const(1), m.a[0] * c)] if m.a[0] else [])
    out = const(1)
    for m, c in parts:
        if m.k == "f" and m.a[0] == "log":
            out = mul(out, powr(m.a[1], c))
            continue
        lg = next((b for b, e in m.a[1] if e == 1 and b.k == "f" and b.a[0] == "log"), None) if m.k == "p" else None
        if lg is not None and sign_of(lg.a[1]) == 1:
            # exp(k log(x)) = x^k
            rest = _mkprod(m.a[0] * c, tuple((b, e) for b, e in m.a[1] if b is not lg))
            out = mul(out, powsym(lg.a[1], rest))
            continue
        v = math.exp(m.val)
        at = CTX.mk("f", ("exp", m), v, v * (m.err + EPS), True)
        out = mul(out, _rawpow(at, c))
    return out


def flog(x):
    if x.k == "nan":
        return x
    if sign_of(x) != 1:
        return nan()
    c, m = _split(x)
    out = []
    if c < 0:
        return CTX.mk("f", ("log", x), math.log(x.val), x.err / x.val + EPS)
    if c != 1:
        v = math.log(c)
        out.append(CTX.mk("f", ("log", const(c)), v, abs(v) * EPS + EPS))
    if m is not None:
        for b, f in _factors(m):
            if not is_pos(b):
                v = math.log(m.val)
                out.append(CTX.mk("f", ("log", m), v, m.err / m.val + EPS))
                break
            if b.k == "f" and b.a[0] == "exp":
                out.append(mul(const(Fraction(f)), b.a[1]))
            elif b.k == "f" and b.a[0] == "pow":
                out.append(mul(mul(const(Fraction(f)), b.a[2]), flog(b.a[1])))
            else:
                v = math.log(b.val)
                out.append(mul(const(Fraction(f)), CTX.mk("f", ("log", b), v, b.err / b.val + EPS)))
    return addn(out) if out else const(0)


def fabs_(x):
    if x.k == "nan":
        return x
    s = sign_of(x)
    return x if s > 0 else (const(0) if s == 0 else neg(x))


# ------------------------------------------------------------------ cut points
def _key(v):
    return float(f"{v:.7e}")


def register(node, definition=None):
    """Make ``node`` the canonical name of everything provably equal to ``definition``."""
    d = definition if definition is not None else node
    if d is not node:
        CTX.alias[d] = node
    CTX.regmark = len(CTX.nodes)
    CTX.memo.clear()
    if d.val == d.val and d.k != "c":
        CTX.canon.setdefault(_key(d.val), []).append((node, d))


RENAME = [lambda name: name]     # names of cuts (histories run a scenario twice, see props/common.py)


def cut(name, definition, pos=None):
    """A new variable standing for ``definition`` (kept for expansion and derivative)."""
    if definition.k in ("c", "v"):
        return definition
    name = RENAME[0](name)
    n = var(name, definition.val, definition.pos if pos is None else pos, err=definition.err)
    while CTX.defs.get(n, definition) is not definition:   # the name stands for something else
        name += "'"
        n = var(name, definition.val, definition.pos if pos is None else pos, err=definition.err)
    CTX.defs[n] = definition
    register(n, definition)
    return n


def canonical(n):
    a = CTX.alias.get(n)
    if a is not None:
        return a
    if CTX.busy or not CTX.canon or n.val != n.val:
        return n
    k = _key(n.val)
    cand = CTX.canon.get(k)
    if cand is None:
        step = abs(n.val) * 1.0e-7
        for v in (n.val + step * 0.5, n.val - step * 0.5):
            cand = CTX.canon.get(_key(v))
            if cand:
                break
    if not cand:
        return n
    for node, d in cand:
        if node is n or d is n:
            return node if d is n else n
        if abs(d.val - n.val) > 1e-9 * abs(n.val) + 20 * (d.err + n.err) or abs(n.val) <= 100 * n.err:
            continue
        if (n, node) in CTX.tried:
            continue
        CTX.tried.add((n, node))
        CTX.busy = True
        try:
            ok = CTX.prover is not None and CTX.prover(n, d)
        finally:
            CTX.busy = False
        if ok:
            CTX.lemmas += 1
            CTX.alias[n] = node
            return node
    return n


def diff(n, v, through=True):
    """Total derivative of n w.r.t. the variable v (through cut definitions)."""
    key = (n, v, through)
    r = CTX.dcache.get(key)
    if r is not None:
        return r
    z = const(0)
    if n is v:
        r = const(1)
    elif n.k in ("c", "nan"):
        r = z
    elif n.k == "v":
        d = CTX.defs.get(n)
        hook = getattr(CTX, "drule", {}).get(n)
        if hook is not None and through:
            r = hook(v)
        else:
            r = diff(d, v) if (d is not None and through) else z
    elif n.k == "s":
        r = addn([mul(const(c), diff(m, v, through)) for m, c in n.a[1]])
    elif n.k == "p":
        coef, fac = n.a
        parts = []
        for b, e in fac:
            db = diff(b, v, through)
            if db.k == "c" and db.a == 0:
                continue
            parts.append(mul(mul(mul(n, const(Fraction(e))), _mkprod(Fraction(1), ((b, -1),)) if b.k != "c" else z), db))
        r = addn(parts) if parts else z
    elif n.k == "f":
        if n.a[0] == "pow":
            _, b, e = n.a
            r = mul(mul(n, mul(e, powi(b, -1))), diff(b, v, through))
            de = diff(e, v, through)
            if not (de.k == "c" and de.a == 0):
                r = add(r, mul(mul(n, flog(b)), de))
        elif n.a[0] == "exp":
            r = mul(n, diff(n.a[1], v, through))
        else:
            r = mul(powi(n.a[1], -1), diff(n.a[1], v, through))
    else:
        raise Unsupported("derivative of " + n.k)
    CTX.dcache[key] = r
    return r


def subst(n, env, memo=None, same=False):
    """Replace nodes (by identity) using env: dict node -> node, rebuilding the DAG.
    same: the replacements have the same value (signs are kept)."""
    if memo is None:
        memo = {}
    r = env.get(n)
    if r is not None:
        return r
    r = memo.get(n)
    if r is not None:
        return r
    if n.k in ("c", "v", "nan"):
        r = n
    elif n.k == "s":
        r = addn([const(n.a[0])] + [mul(const(c), subst(m, env, memo, same)) for m, c in n.a[1]])
    elif n.k == "p":
        r = const(n.a[0])
        for b, e in n.a[1]:
            bb = subst(b, env, memo, same)
            if same and bb is not b and is_pos(b):
                CTX.known_pos.add(bb)
                CTX.known_nz.add(bb)
            r = mul(r, powr(bb, Fraction(e)))
    else:
        if n.a[0] == "pow":
            r = powsym(subst(n.a[1], env, memo, same), subst(n.a[2], env, memo, same))
        elif n.a[0] == "exp":
            r = fexp(subst(n.a[1], env, memo, same))
        else:
            r = flog(subst(n.a[1], env, memo, same))
    memo[n] = r
    return r


def expand(n, only=None):
    """Replace every cut variable by its definition, transitively."""
    busy = CTX.busy
    CTX.busy = True
    al = CTX.alias
    CTX.alias = {}
    try:
        for _ in range(12):
            vs = [v for v in variables([n]) if v in CTX.defs and (only is None or v in only)]
            if not vs:
                return n
            n = subst(n, {v: CTX.defs[v] for v in vs}, None, True)
        return n
    finally:
        CTX.busy = busy
        CTX.alias = al


def variables(ns):
    seen = set()
    out = set()
    st = list(ns)
    while st:
        n = st.pop()
        if n in seen:
            continue
        seen.add(n)
        if n.k == "v":
            out.add(n)
        elif n.k == "s":
            st.extend(m for m, c in n.a[1])
        elif n.k == "p":
            st.extend(b for b, e in n.a[1])
        elif n.k == "f":
            st.extend(x for x in n.a[1:])
    return out


def size(n):
    seen = set()
    st = [n]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "s":
            st.extend(m for m, c in x.a[1])
        elif x.k == "p":
            st.extend(b for b, e in x.a[1])
        elif x.k == "f":
            st.extend(x.a[1:])
    return len(seen)


# ------------------------------------------------------------------ booleans
class SymBool:
    """op in eq,gt,ge (node compared with 0), and, or, not, true, false."""
    __slots__ = ("op", "a")

    def __init__(self, op, a=None):
        self.op = op
        self.a = a

    def key(self):
        if self.op in ("and", "or"):
            return (self.op, tuple(x.key() for x in self.a))
        if self.op == "not":
            return ("not", self.a.key())
        return (self.op, self.a)

    def __bool__(self):
        if self.op == "true":
            return True
        if self.op == "false":
            return False
        if CTX.ex is None:
            return self.holds()
        return CTX.ex.decide(self)

    def holds(self):
        """Value under the current concrete assignment."""
        o = self.op
        if o == "true":
            return True
        if o == "false":
            return False
        if o == "and":
            return all(x.holds() for x in self.a)
        if o == "or":
            return any(x.holds() for x in self.a)
        if o == "not":
            return not self.a.holds()
        v = self.a.val
        if o == "eq":
            return abs(v) <= 4 * self.a.err
        if o == "gt":
            return v > 0
        return v >= 0

    def __and__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return band([self, o])

    __rand__ = __and__

    def __xor__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return bor([band([self, bnot(o)]), band([bnot(self), o])])

    __rxor__ = __xor__

    def __or__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return bor([self, o])

    __ror__ = __or__

    def __invert__(self):
        return bnot(self)

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else bnot(self)
        return self is o

    def __ne__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return bnot(self) if o else self
        return self is not o

    def __hash__(self):
        return id(self)

    def any(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self

    shape = ()
    ndim = 0
    dtype = np.dtype(bool)


TRUE = SymBool("true")
FALSE = SymBool("false")


def blift(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, Node):
        return bnot(cmp0("eq", x))
    return TRUE if x else FALSE


def band(xs):
    out = []
    for x in xs:
        x = blift(x)
        if x.op == "false":
            return FALSE
        if x.op == "and":
            out.extend(x.a)
        elif x.op != "true":
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return SymBool("and", tuple(out))


def bor(xs):
    out = []
    for x in xs:
        x = blift(x)
        if x.op == "true":
            return TRUE
        if x.op == "or":
            out.extend(x.a)
        elif x.op != "false":
            out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return SymBool("or", tuple(out))


def bnot(x):
    x = blift(x)
    if x.op == "true":
        return FALSE
    if x.op == "false":
        return TRUE
    if x.op == "not":
        return x.a
    return SymBool("not", x)


def cmp0(op, n):
    if n.k == "nan":
        return FALSE
    if n.k == "c":
        v = n.a
        return TRUE if (v == 0 if op == "eq" else v > 0 if op == "gt" else v >= 0) else FALSE
    if is_pos(n):
        return FALSE if op == "eq" else TRUE
    if is_pos(neg(n)):
        return FALSE
    if op == "eq" and n in CTX.known_nz:
        return FALSE
    return SymBool(op, n)


def _cmp(op, x, y):
    """x op y with op in lt, le, gt, ge, eq, ne."""
    if x.k == "nan" or y.k == "nan":
        return TRUE if op == "ne" else FALSE
    if op in ("lt", "le"):
        x, y = y, x
        op = "gt" if op == "lt" else "ge"
    d = sub(x, y)
    if op == "ne":
        return bnot(cmp0("eq", d))
    return cmp0(op, d)


# ------------------------------------------------------------------ the scalar
def _scalar(x):
    return isinstance(x, (Node, int, float, Fraction, np.number, np.bool_, SymBool))


class Node:
    __slots__ = ("k", "a", "id", "val", "err", "pos", "_h")

    def __hash__(self):
        return self._h

    # arithmetic
    def __add__(self, o):
        return add(self, lift(o)) if _scalar(o) else NotImplemented

    def __radd__(self, o):
        return add(lift(o), self) if _scalar(o) else NotImplemented

    def __sub__(self, o):
        return sub(self, lift(o)) if _scalar(o) else NotImplemented

    def __rsub__(self, o):
        return sub(lift(o), self) if _scalar(o) else NotImplemented

    def __mul__(self, o):
        return mul(self, lift(o)) if _scalar(o) else NotImplemented

    def __rmul__(self, o):
        return mul(lift(o), self) if _scalar(o) else NotImplemented

    def __truediv__(self, o):
        return div(self, lift(o)) if _scalar(o) else NotImplemented

    def __rtruediv__(self, o):
        return div(lift(o), self) if _scalar(o) else NotImplemented

    def __pow__(self, o):
        return powsym(self, lift(o)) if _scalar(o) else NotImplemented

    def __rpow__(self, o):
        return powsym(lift(o), self) if _scalar(o) else NotImplemented

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return fabs_(self)

    def __floordiv__(self, o):
        raise Unsupported("floor division")

    __mod__ = __rmod__ = __rfloordiv__ = __divmod__ = __floordiv__

    # comparison
    def __lt__(self, o):
        if type(o) in (float, np.float64) and o in (math.inf, -math.inf):
            return TRUE if self.k != "nan" and (o > 0) == True else FALSE
        return _cmp("lt", self, lift(o)) if _scalar(o) else NotImplemented

    def __le__(self, o):
        if type(o) in (float, np.float64) and o in (math.inf, -math.inf):
            return TRUE if self.k != "nan" and (o > 0) == True else FALSE
        return _cmp("le", self, lift(o)) if _scalar(o) else NotImplemented

    def __gt__(self, o):
        if type(o) in (float, np.float64) and o in (math.inf, -math.inf):
            return TRUE if self.k != "nan" and (o > 0) == False else FALSE
        return _cmp("gt", self, lift(o)) if _scalar(o) else NotImplemented

    def __ge__(self, o):
        if type(o) in (float, np.float64) and o in (math.inf, -math.inf):
            return TRUE if self.k != "nan" and (o > 0) == False else FALSE
        return _cmp("ge", self, lift(o)) if _scalar(o) else NotImplemented

    def __eq__(self, o):
        if o is self:
            return TRUE if self.k != "nan" else FALSE
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return False
        return _cmp("eq", self, lift(o)) if _scalar(o) else NotImplemented

    def __ne__(self, o):
        if o is self:
            return FALSE if self.k != "nan" else TRUE
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return True
        return _cmp("ne", self, lift(o)) if _scalar(o) else NotImplemented

    def __bool__(self):
        return bool(bnot(cmp0("eq", self)))

    def __float__(self):
        if self.k == "c":
            return float(self.a)
        if self.k == "nan":
            return math.nan
        raise Unsupported("conversion of a symbolic value to float")

    def __int__(self):
        if self.k == "c":
            return int(self.a)
        raise IntegerStorage("conversion of a real number to an integer")

    def __index__(self):
        raise TypeError("only integers can be used as an index")

    def __format__(self, spec):
        # a mark which leads back to the formatted quantity (see engine.Api.number)
        format(1.5, spec)  # an invalid format fails as it does with numbers
        FORMATTED.append(self)
        return f"<#{len(FORMATTED) - 1}>"

    def __repr__(self):
        return show(self, 3)

    # ufunc hooks
    def sqrt(self):
        return powr(self, Fraction(1, 2))

    def cbrt(self):
        s = sign_of(self)
        if s < 0:
            return neg(powr(neg(self), Fraction(1, 3)))
        return powr(self, Fraction(1, 3)) if s else const(0)

    def square(self):
        return powi(self, 2)

    def reciprocal(self):
        return powi(self, -1)

    def exp(self):
        return fexp(self)

    def expm1(self):
        return sub(fexp(self), const(1))

    def log(self):
        return flog(self)

    def log1p(self):
        return flog(add(self, const(1)))

    def conjugate(self):
        return self

    conj = conjugate

    def _nofun(self, *a):
        raise Unsupported("transcendental function outside the encoding")

    sin = cos = tan = arcsin = arccos = arctan = arctan2 = _nofun

    def _round(self, *a, **k):
        raise Rounding("rounding")

    floor = ceil = rint = trunc = round = __round__ = _round

    # float64-scalar protocol
    shape = ()
    ndim = 0
    size = 1
    dtype = np.dtype(float)

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def astype(self, *a, **k):
        return self

    def sum(self, *a, **k):
        return self

    def mean(self, *a, **k):
        return self

    def squeeze(self, *a):
        return self

    def reshape(self, *s):
        from .shim import SymArray, aswrap
        return aswrap(_obj0(self)).reshape(*s)

    def ravel(self):
        return self.reshape(-1)

    flatten = ravel

    def __getitem__(self, i):
        from .shim import aswrap
        if isinstance(i, (int, np.integer, slice)) and not isinstance(i, (bool, np.bool_)):
            raise IndexError("invalid index to scalar variable.")
        return aswrap(_obj0(self))[i]


def _obj0(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def show(n, depth=4):
    if n.k == "c":
        return str(n.a)
    if n.k == "v":
        return str(n.a)
    if n.k == "nan":
        return "nan"
    if depth == 0:
        return "..."
    if n.k == "s":
        return "(" + " + ".join(([str(n.a[0])] if n.a[0] else []) + [(f"{c}*" if c != 1 else "") + show(m, depth - 1) for m, c in n.a[1][:6]]) + (" + ..." if len(n.a[1]) > 6 else "") + ")"
    if n.k == "p":
        return "*".join(([str(n.a[0])] if n.a[0] != 1 else []) + [show(b, depth - 1) + (f"^{e}" if e != 1 else "") for b, e in n.a[1][:6]])
    return n.a[0] + "(" + ",".join(show(x, depth - 1) for x in n.a[1:]) + ")"
