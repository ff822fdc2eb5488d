"""A stand-in for torch: reverse-mode differentiation on symbolic reals with torch's own
rules for requires_grad, unused inputs and freed graphs."""
import types
from fractions import Fraction

import numpy as np

from . import sym, shim
from .sym import Node, Unsupported, lift

NP = shim.NP


def _arr(x):
    if isinstance(x, Tensor):
        return x.data_
    if isinstance(x, np.ndarray):
        a = np.array(x, dtype=object)
    elif isinstance(x, (list, tuple)):
        a = np.array([_arr(i) for i in x], dtype=object)
    else:
        a = np.empty((), dtype=object)
        a[()] = x
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        out[i] = lift(a[i])
    return out


class Mode:
    grad = True


class Fn:
    """one recorded operation"""

    def __init__(self, name, inputs, vjp, saves):
        self.name, self.inputs, self.vjp = name, inputs, vjp
        self.saves = saves
        self.freed = False


def _op(name, data, inputs, vjp, saves):
    t = Tensor(data)
    own = [i for i in inputs if not i.wrapped] or inputs[:1]
    t.dtype = next((i.dtype for i in own if i.data_.ndim), own[0].dtype)
    if Mode.grad and any(i.requires_grad for i in inputs):
        t._rg = True
        t.grad_fn = Fn(name, inputs, vjp, saves)
    return t


def _un(t, shape):
    """sum a broadcast gradient back to the operand's shape"""
    if t.data_.shape == shape:
        return t
    n = t.data_.ndim - len(shape)
    ax = tuple(range(n)) + tuple(n + k for k, m in enumerate(shape) if m == 1 and t.data_.shape[n + k] != 1)
    return t.sum(dim=ax, keepdim=False).reshape(shape) if ax else t.reshape(shape)


def _t(x):
    if isinstance(x, Tensor):
        return x
    t = Tensor(_arr(x))
    t.wrapped = True        # numbers do not decide the precision
    return t


def _like(x, data):
    t = Tensor(data)
    t.dtype = x.dtype
    return t


class Size(tuple):
    def numel(self):
        return int(np.prod(self)) if self else 1


class DType:
    def __init__(self, name):
        self.name = name
        self.is_floating_point = name.startswith(("float", "double"))

    def __repr__(self):
        return "torch." + self.name


DT = {n: DType(n) for n in ("float64", "float32", "float16", "int64", "int32", "bool")}
DT["double"], DT["float"] = DT["float64"], DT["float32"]
LOW = (DT["float32"], DT["float16"])
DEFAULT = [DT["float64"]]     # the scenarios enable double precision, as documented


class Tensor:
    __array_priority__ = 1000
    wrapped = False

    def __init__(self, data, requires_grad=False):
        self.data_ = data
        self._rg = bool(requires_grad)
        self.grad_fn = None
        self.dtype = DEFAULT[0]
        self.grad = None

    # -------------------------------------------------------------- attributes
    @property
    def requires_grad(self):
        return self._rg

    @requires_grad.setter
    def requires_grad(self, v):
        self.requires_grad_(v)

    @property
    def is_leaf(self):
        return self.grad_fn is None

    @property
    def shape(self):
        return Size(self.data_.shape)

    @property
    def ndim(self):
        return self.data_.ndim

    @property
    def data(self):
        return _like(self, self.data_)

    def dim(self):
        return self.data_.ndim

    def size(self, k=None):
        return self.shape if k is None else self.shape[k]

    def numel(self):
        return self.data_.size

    nelement = numel

    def requires_grad_(self, v=True):
        if self.grad_fn is not None and not v:
            raise RuntimeError("you can only change requires_grad flags of leaf variables.")
        if not self.dtype.is_floating_point and v:
            raise RuntimeError("only Tensors of floating point dtype can require gradients")
        if self.grad_fn is None:
            self._rg = bool(v)
        return self

    def detach(self):
        return _like(self, self.data_)

    def clone(self):
        return _op("clone", self.data_.copy(), [self], lambda g: [g], False)

    def numpy(self, force=False):
        if self.dtype is not DT["float64"]:
            shim.SINGLE[0] = True
        if self._rg and not force:
            raise RuntimeError("Can't call numpy() on Tensor that requires grad. Use tensor.detach().numpy() instead.")
        return self.data_.view(shim.SymArray)

    def __array__(self, dtype=None, copy=None):
        return self.numpy()

    def cpu(self):
        return self

    def contiguous(self, *a, **k):
        return self

    def to(self, *a, **k):
        d = next((x for x in list(a) + list(k.values()) if isinstance(x, DType)), self.dtype)
        if d is self.dtype:
            return self
        if d in LOW and self.dtype is DT["float64"]:
            raise sym.Rounding(f"{d} in place of double precision")
        r = _op("to", self.data_, [self], lambda g: [g], False)
        r.dtype = d
        return r

    type = to

    def double(self):
        return self.to(DT["float64"])

    def float(self):
        return self.to(DT["float32"])

    def tolist(self):
        return self.data_.tolist()

    def item(self):
        if self.data_.size != 1:
            raise RuntimeError("a Tensor with more than one element cannot be converted to Scalar")
        return self.data_.reshape(-1)[0]

    def __float__(self):
        return float(self.item())

    def __len__(self):
        if not self.data_.ndim:
            raise TypeError("len() of a 0-d tensor")
        return len(self.data_)

    def __bool__(self):
        return bool(self.item() != 0)

    def __repr__(self):
        return f"tensor{self.shape}"

    def __hash__(self):
        return id(self)

    def __iter__(self):
        if not self.data_.ndim:
            raise TypeError("iteration over a 0-d tensor")
        return (self[k] for k in range(len(self.data_)))

    def __getitem__(self, i):
        if isinstance(i, Tensor):
            raise Unsupported("indexing of torch tensors with tensors")
        d = self.data_[i]
        shape = self.data_.shape

        def vjp(g):
            full = np.empty(shape, dtype=object)
            for k in np.ndindex(shape):
                full[k] = sym.const(0)
            full[i] = g.data_
            return [_op("scatter", full, [g], lambda h: [h[i]], False)]
        return _op("getitem", d if isinstance(d, np.ndarray) else _arr(d), [self], vjp, False)

    # -------------------------------------------------------------- arithmetic
    def __add__(self, o):
        return add(self, o)

    __radd__ = __add__

    def __sub__(self, o):
        return add(self, mul(o, -1) if isinstance(o, Tensor) else -1 * o)

    def __rsub__(self, o):
        return add(mul(self, -1), o)

    def __mul__(self, o):
        return mul(self, o)

    __rmul__ = __mul__

    def __neg__(self):
        return mul(self, -1)

    def __truediv__(self, o):
        return div(self, o)

    def __rtruediv__(self, o):
        return div(_t(o), self)

    def __pow__(self, o):
        return pow_(self, o)

    def __rpow__(self, o):
        return pow_(_t(o), self)

    def _cmp(self, o, f):
        d = f(self.data_, _arr(o))
        return Tensor(np.asarray(d, dtype=object))

    def __lt__(self, o):
        return self._cmp(o, np.less)

    def __le__(self, o):
        return self._cmp(o, np.less_equal)

    def __gt__(self, o):
        return self._cmp(o, np.greater)

    def __ge__(self, o):
        return self._cmp(o, np.greater_equal)

    def sum(self, dim=None, keepdim=False, axis=None, **k):
        dim = axis if dim is None else dim
        shape = self.data_.shape
        if dim is None:
            ax = tuple(range(len(shape)))
        else:
            ax = tuple(d % len(shape) for d in (dim if isinstance(dim, (tuple, list)) else (dim,)))
        keep = tuple(1 if k in ax else n for k, n in enumerate(shape))
        d = self.data_
        for a in sorted(ax, reverse=True):
            acc = np.empty(tuple(n for k, n in enumerate(d.shape) if k != a), dtype=object)
            for i in np.ndindex(acc.shape):
                acc[i] = sym.addn([lift(d[i[:a] + (k,) + i[a:]]) for k in range(d.shape[a])]) if d.shape[a] else sym.const(0)
            d = acc
        d = _arr(d).reshape(keep if keepdim else d.shape)
        return _op("sum", d, [self], lambda g: [g.reshape(keep).expand(shape)], False)

    def mean(self, *a, **k):
        return self.sum(*a, **k) / (self.data_.size if not a and not k else self.data_.size // self.sum(*a, **k).numel())

    def reshape(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        old = self.data_.shape
        return _op("reshape", self.data_.reshape(s), [self], lambda g: [g.reshape(old)], False)

    view = reshape

    def flatten(self):
        return self.reshape(-1)

    ravel = flatten

    def squeeze(self, *a):
        return self.reshape(np.squeeze(self.data_, *a).shape)

    def unsqueeze(self, d):
        return self.reshape(np.expand_dims(self.data_, d).shape)

    def expand(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        old = self.data_.shape
        return _op("expand", np.broadcast_to(self.data_, s), [self], lambda g: [_un(g, old)], False)

    def expand_as(self, o):
        return self.expand(o.data_.shape)

    def exp(self):
        r = _op("exp", _map(self.data_, sym.fexp), [self], None, True)
        if r.grad_fn:
            r.grad_fn.vjp = lambda g: [g * r]
        return r

    def log(self):
        return _op("log", _map(self.data_, sym.flog), [self], lambda g: [g / self], True)

    def sqrt(self):
        r = _op("sqrt", _map(self.data_, lambda x: sym.powr(x, Fraction(1, 2))), [self], None, True)
        if r.grad_fn:
            r.grad_fn.vjp = lambda g: [g / (2 * r)]
        return r

    def square(self):
        return pow_(self, 2)

    def reciprocal(self):
        return div(_t(1), self)

    def pow(self, e):
        return pow_(self, e)

    def backward(self, gradient=None, retain_graph=None, create_graph=False, inputs=None):
        backward(self, gradient, retain_graph, create_graph, inputs)

    def zero_(self):
        self.data_[...] = _map(self.data_, lambda x: sym.const(0))
        return self

    def abs(self):
        return mul(self, Tensor(_map(self.data_, lambda x: lift(sym.sign_of(x)))))


    def any(self):
        return _truth(self.data_, any)

    def all(self):
        return _truth(self.data_, all)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("torch.Tensor." + name)


def _truth(d, f):
    return f(bool(x) if isinstance(x, sym.SymBool) else bool(lift(x) != 0) for x in d.flat)


def _map(d, f):
    out = np.empty(d.shape, dtype=object)
    for i in np.ndindex(d.shape):
        out[i] = f(lift(d[i]))
    return out


def _bin(a, b, f):
    a, b = np.broadcast_arrays(a, b)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        out[i] = f(lift(a[i]), lift(b[i]))
    return out


def _check(o):
    if isinstance(o, np.ndarray) and shim.dt(o) == object and not o.ndim:
        return o[()]
    return o


def add(a, b):
    a, b = _t(_check(a)), _t(_check(b))
    sa, sb = a.data_.shape, b.data_.shape
    return _op("add", _bin(a.data_, b.data_, sym.add), [a, b], lambda g: [_un(g, sa), _un(g, sb)], False)


def mul(a, b):
    a, b = _t(_check(a)), _t(_check(b))
    sa, sb = a.data_.shape, b.data_.shape
    return _op("mul", _bin(a.data_, b.data_, sym.mul), [a, b],
               lambda g: [_un(g * b, sa) if a.requires_grad else None, _un(g * a, sb) if b.requires_grad else None],
               a.requires_grad and b.requires_grad or _wrapped(a, b))


def _wrapped(a, b):
    # torch saves the other factor whenever one factor needs a gradient
    return a.requires_grad or b.requires_grad


def div(a, b):
    a, b = _t(_check(a)), _t(_check(b))
    sa, sb = a.data_.shape, b.data_.shape
    return _op("div", _bin(a.data_, b.data_, sym.div), [a, b],
               lambda g: [_un(g / b, sa) if a.requires_grad else None, _un(-g * (a / (b * b)), sb) if b.requires_grad else None], True)


def pow_(a, b):
    a = _t(a)
    if not isinstance(b, Tensor):
        e = _check(b)
        e = lift(e)

        def vjp(g):
            if e.k == "c" and e.a == 0:
                return [_like(g, _map(g.data_, lambda x: sym.const(0)))]
            return [g * (pow_(a, sym.sub(e, sym.const(1))) * e)]

        def f(x, y):
            if y.k == "c":
                return sym.powr(x, Fraction(y.a))
            return sym.powsym(x, y)
        return _op("pow", _bin(a.data_, _arr(e), f), [a], vjp, True)
    sa, sb = a.data_.shape, b.data_.shape
    out = _op("pow", _bin(a.data_, b.data_, lambda x, y: sym.powr(x, Fraction(y.a)) if y.k == "c" else sym.powsym(x, y)), [a, b], None, True)
    if out.grad_fn:
        out.grad_fn.vjp = lambda g: [_un(g * b * pow_(a, b - 1), sa) if a.requires_grad else None,
                                     _un(g * out * a.log(), sb) if b.requires_grad else None]
    return out


def grad(outputs, inputs, grad_outputs=None, retain_graph=None, create_graph=False, only_inputs=True,
         allow_unused=None, is_grads_batched=False, materialize_grads=False):
    outs = [outputs] if isinstance(outputs, Tensor) else list(outputs)
    ins = [inputs] if isinstance(inputs, Tensor) else list(inputs)
    gos = [None] * len(outs) if grad_outputs is None else ([grad_outputs] if isinstance(grad_outputs, Tensor) else list(grad_outputs))
    if retain_graph is None:
        retain_graph = create_graph
    if allow_unused is None:
        allow_unused = bool(materialize_grads)
    for i in ins:
        if not i.requires_grad:
            raise RuntimeError("One of the differentiated Tensors does not require grad")
    seeds = []
    for o, g in zip(outs, gos):
        if not o.requires_grad:
            raise RuntimeError("element 0 of tensors does not require grad and does not have a grad_fn")
        if g is None:
            if o.data_.size != 1:
                raise RuntimeError("grad can be implicitly created only for scalar outputs")
            g = _like(o, _map(o.data_, lambda x: sym.const(1)))
        seeds.append(g)
    # which tensors lie on a way to the inputs
    need = {}

    def needs(t):
        k = id(t)
        if k in need:
            return need[k]
        need[k] = any(t is i for i in ins)
        if t.grad_fn is not None:
            for x in t.grad_fn.inputs:
                if x.requires_grad and needs(x):
                    need[k] = True
        return need[k]

    order, seen = [], set()

    def visit(t):
        if id(t) in seen:
            return
        seen.add(id(t))
        if t.grad_fn is not None:
            for x in t.grad_fn.inputs:
                if x.requires_grad:
                    visit(x)
        order.append(t)

    for o in outs:
        needs(o)
        visit(o)
    acc = {}
    old = Mode.grad
    Mode.grad = bool(create_graph)
    try:
        for o, g in zip(outs, seeds):
            acc[id(o)] = g if id(o) not in acc else acc[id(o)] + g
        for t in reversed(order):
            g = acc.get(id(t))
            if g is None or t.grad_fn is None or not need.get(id(t)):
                continue
            f = t.grad_fn
            if not any(x.requires_grad and need.get(id(x)) for x in f.inputs):
                continue
            if f.freed and f.saves:
                raise RuntimeError("Trying to backward through the graph a second time (or directly access saved tensors after they have already been freed).")
            for x, gx in zip(f.inputs, f.vjp(g)):
                if gx is None or not x.requires_grad or not need.get(id(x)):
                    continue
                acc[id(x)] = gx if id(x) not in acc else acc[id(x)] + gx
            if not retain_graph:
                f.freed = True
    finally:
        Mode.grad = old
    res = []
    for i in ins:
        g = acc.get(id(i))
        if g is None and materialize_grads:
            g = _like(i, _map(i.data_, lambda x: sym.const(0)))
        if g is None and not allow_unused:
            raise RuntimeError("One of the differentiated Tensors appears to not have been used in the graph. Set allow_unused=True if this is the desired behavior.")
        res.append(g)
    return tuple(res)


def backward(tensors, gradient=None, retain_graph=None, create_graph=False, inputs=None):
    outs = [tensors] if isinstance(tensors, Tensor) else list(tensors)
    leaves, seen = [], set()

    def visit(t):
        if id(t) in seen:
            return
        seen.add(id(t))
        if t.grad_fn is None:
            if t.requires_grad:
                leaves.append(t)
        else:
            for x in t.grad_fn.inputs:
                visit(x)

    for o in outs:
        visit(o)
    if inputs is not None:
        leaves = [inputs] if isinstance(inputs, Tensor) else list(inputs)
    for x, g in zip(leaves, grad(outs, leaves, gradient, retain_graph, create_graph, allow_unused=True)):
        if g is not None:
            x.grad = g if x.grad is None else x.grad + g


class _Ctx:
    def __init__(self, v):
        self.v = v

    def __call__(self, f=None):
        return self if f is None else f

    def __enter__(self):
        self.old = Mode.grad
        Mode.grad = self.v

    def __exit__(self, *a):
        Mode.grad = self.old


class Torch(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("torch." + name)


def make():
    Mode.grad = True
    shim.SINGLE[0] = False
    t = Torch("torch")
    for n, d in DT.items():
        setattr(t, n, d)
    t.Tensor, t.dtype, t.Size = Tensor, DType, Size
    t.get_default_dtype = lambda: DEFAULT[0]

    def set_default_dtype(d):
        DEFAULT[0] = d
    t.set_default_dtype = set_default_dtype

    def tensor(x, dtype=None, requires_grad=False, device=None):
        r = Tensor(_arr(x).copy(), requires_grad)
        if dtype in LOW:
            raise sym.Rounding(f"{dtype} in place of double precision")
        if dtype is not None:
            r.dtype = dtype
            if not dtype.is_floating_point:
                raise Unsupported("integer torch tensors")
        return r
    t.tensor = tensor

    def as_tensor(x, dtype=None, device=None):
        if isinstance(x, Tensor):
            return x
        if dtype in LOW:
            raise sym.Rounding(f"{dtype} in place of double precision")
        r = Tensor(x.view(np.ndarray) if isinstance(x, np.ndarray) and shim.dt(x) == object else _arr(x))
        r.dtype = dtype or DT["float64"]
        return r
    t.as_tensor = t.asarray = as_tensor
    t.from_numpy = as_tensor
    t.is_tensor = lambda x: isinstance(x, Tensor)
    for n in ("exp", "log", "sqrt", "square", "sum", "mean", "pow", "reshape", "flatten", "squeeze", "clone"):
        setattr(t, n, (lambda n: lambda x, *a, **k: getattr(_t(x), n)(*a, **k))(n))
    t.add, t.mul, t.multiply, t.div, t.divide = add, mul, mul, div, div
    t.sub = t.subtract = lambda a, b: _t(a) - _t(b)
    t.zeros_like = lambda x, **k: _like(x, _map(x.data_, lambda y: sym.const(0)))
    t.ones_like = lambda x, **k: _like(x, _map(x.data_, lambda y: sym.const(1)))
    t.zeros = lambda *s, **k: Tensor(_arr(np.zeros(s[0] if len(s) == 1 and not isinstance(s[0], int) else s)))
    t.ones = lambda *s, **k: Tensor(_arr(np.ones(s[0] if len(s) == 1 and not isinstance(s[0], int) else s)))
    t.stack = stack
    t.no_grad = lambda: _Ctx(False)
    t.enable_grad = lambda: _Ctx(True)
    t.set_grad_enabled = lambda v: _Ctx(v)
    t.is_grad_enabled = lambda: Mode.grad
    ag = Torch("torch.autograd")
    ag.grad = grad
    ag.backward = backward
    t.abs = lambda x: _t(x).abs()
    t.is_floating_point = lambda x: x.dtype.is_floating_point
    t.autograd = ag
    return t


def stack(ts, dim=0):
    ts = [_t(x) for x in ts]
    d = np.stack([x.data_ for x in ts], axis=dim)
    return _op("stack", d, ts, lambda g: [g[(slice(None),) * dim + (k,)] for k in range(len(ts))], False)
