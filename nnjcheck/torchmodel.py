"""Abstract semantics of the external names nnj uses: torch, torch.nn, builtins, a few stdlib modules."""
import math
from fractions import Fraction

from . import tensor as tz
from . import interp as ip
from .tensor import T, SReal, Unsupported, PyErr, ctx, err, val_expr, FLOATS, mk, concrete
from .poly import Poly, V, newvar, topoly, fdiv, fmod, ge0, nonzero, ZERO, ONE, exact_div, SIZE, prod, iacc, dim
from .expr import (E, N0, N1, TRUE, FALSE, num, ix, add, mul, neg, sub, pow_, div, fn, sum_, red, ite, ind, ceq, cge,
                   cgt, cgev, ceqv, cnot, cand, cor, inrange, subst, isnum, to_poly, accs, acc, diff)
from .evalx import ACCSHAPE, KIND, OPQ
from .interp import (Native, ClsV, Obj, ModuleV, Unknown, Size, GradMode, NullCtx, SymIter, SymSeg, GenV, Wrapped,
                     Bound, FuncV, StaticM, ClassM, PropV, CachedP, norm_int, is_int, subst_value, is_module_obj, _MISS)


class DT:
    _tab = {}

    def __new__(cls, name):
        d = cls._tab.get(name)
        if d is None:
            d = object.__new__(cls)
            d.name = name
            cls._tab[name] = d
        return d

    def __repr__(self):
        return f"torch.{self.name}"


class Dev:
    def __init__(self, s):
        self.s = s.s if isinstance(s, Dev) else str(s)

    def __eq__(self, o):
        return isinstance(o, Dev) and o.s == self.s or isinstance(o, str) and o == self.s

    def __hash__(self):
        return hash(self.s)

    def __repr__(self):
        return self.s


DTN = {"float32": "f32", "float": "f32", "float64": "f64", "double": "f64", "float16": "f16", "half": "f16",
       "bfloat16": "bf16", "int64": "i64", "long": "i64", "int32": "i32", "int": "i32", "bool": "bool", "uint8": "u8",
       "int16": "i16", "short": "i16", "int8": "i8"}


def dt(x):
    if x is None:
        return None
    if isinstance(x, DT):
        return x.name
    if isinstance(x, ClsV) and x.pytype in (float, int, bool):
        return {float: "f64", int: "i64", bool: "bool"}[x.pytype]
    raise Unsupported(f"dtype {x!r}")


def dev(x):
    if x is None:
        return "cpu"
    if isinstance(x, (Dev, str)):
        return Dev(x).s
    raise Unsupported("device")


def bad_tensor(t, name):
    if not isinstance(t, T):
        err(TypeError, f"{name}(): argument 'input' must be Tensor, not {type(t).__name__ if t is not None else 'NoneType'}")


def ints(args):
    """(*sizes) or ((sizes),)"""
    if len(args) == 1 and isinstance(args[0], (list, tuple)):
        args = args[0]
    out = []
    for a in args:
        if isinstance(a, T):
            a = to_poly(val_expr(a))
            if a is None:
                raise Unsupported("tensor as a size")
        if isinstance(a, (float, SReal)) or a is None:
            err(TypeError, "sizes must be integers")
        if isinstance(a, bool):
            a = int(a)
        out.append(a)
    return out


def dims_of(d):
    return list(d) if isinstance(d, (list, tuple)) else d


def newt(shape, f, dtype=None, device=None, requires_grad=False, **kw):
    for s in shape:
        p = topoly(s)
        if not ge0(p):
            if ge0(-p - 1) or not ctx().decide(cge(p), "dim"):
                err(RuntimeError, f"negative dimension {p}")
    t = T([topoly(s) for s in shape], f, dt(dtype) or ctx().default_dtype, dev(device))
    t.rg = bool(requires_grad)
    t.fresh = True
    return t


METH = {}
FUNC = {}


def meth(*names):
    def d(f):
        for n in names or (f.__name__,):
            METH[n] = f
        return f
    return d


def func(*names):
    def d(f):
        for n in names or (f.__name__,):
            FUNC[n] = f
        return f
    return d


# --- creation ------------------------------------------------------------------------
@func("ones")
def _ones(*size, dtype=None, device=None, requires_grad=False, size_=None, layout=None, out=None, **kw):
    if "size" in kw:
        size = (kw["size"],)
    return newt(ints(size), lambda i: N1, dtype, device, requires_grad)


@func("zeros", "empty")
def _zeros(*size, dtype=None, device=None, requires_grad=False, layout=None, **kw):
    if "size" in kw:
        size = (kw["size"],)
    return newt(ints(size), lambda i: N0, dtype, device, requires_grad)


@func("full")
def _full(size, fill_value, dtype=None, device=None, requires_grad=False, **kw):
    e = val_expr(fill_value)
    if dtype is None:
        dtype = DT(tz.result_type([fill_value]))
    return newt(ints((size,)), lambda i: e, dtype, device, requires_grad)


def _like(c):
    def f(x, dtype=None, device=None, requires_grad=False, memory_format=None, layout=None):
        bad_tensor(x, "like")
        return tz.keep_layout(newt(x.shape, lambda i: c, dtype or DT(x.dtype), device or x.device, requires_grad), [x])
    return f


FUNC["ones_like"] = _like(N1)
FUNC["zeros_like"] = _like(N0)
FUNC["empty_like"] = _like(N0)


@func("full_like")
def _full_like(x, fill_value, dtype=None, device=None, **kw):
    e = val_expr(fill_value)
    return tz.keep_layout(newt(x.shape, lambda i: e, dtype or DT(x.dtype), device or x.device), [x])


@func("eye")
def _eye(n, m=None, dtype=None, device=None, requires_grad=False, **kw):
    m = n if m is None else m
    return newt(ints((n, m)), lambda i: ind(ceq(i[0] - i[1])), dtype, device, requires_grad)


@func("arange")
def _arange(*a, dtype=None, device=None, **kw):
    a = ints(a) if all(not isinstance(x, (float, SReal)) for x in a) else err(TypeError, "arange of floats")
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1 if len(a) == 2 else a[2])
    lo, hi = topoly(lo), topoly(hi)
    st = concrete(st)
    n = hi - lo
    if st != 1:
        if st < 0:
            n = -n
        n = fdiv(n + abs(st) - 1, Poly.const(abs(st)))
    return newt([n], lambda i: ix(i[0] * st + lo), dtype or DT("i64"), device)


@func("tensor", "as_tensor", "from_numpy")
def _tensor(x, dtype=None, device=None, requires_grad=False):
    if isinstance(x, T):
        r = tz.tensor_from(x, dt(dtype))
        if device is not None:
            r.device = dev(device)
        return r
    return tz.tensor_from(x if not isinstance(x, Size) else list(x), dt(dtype), dev(device))


def _rand(*size, dtype=None, device=None, **kw):
    raise Unsupported("random numbers")


for _n in ("randint", "normal", "bernoulli", "randperm"):
    FUNC[_n] = _rand


def drawn(shape, dtype, device, kind, rg=False):
    """numbers from the global generator: anything, and something else in every call"""
    c = ctx()
    c.rng = getattr(c, "rng", 0) + 1
    return tz.sym(f"$rng{c.rng}", shape, kind=kind, dtype=dt(dtype) or c.default_dtype, device=dev(device) if device is not None else "cpu", rg=bool(rg), plain=True)


def _draw(kind):
    def f(*size, dtype=None, device=None, requires_grad=False, generator=None, **kw):
        if generator is not None or kw:
            raise Unsupported("random numbers")
        size = size[0] if len(size) == 1 and isinstance(size[0], (list, tuple)) else size
        return drawn(tuple(size), dtype, device, kind, requires_grad)
    return f


FUNC["rand"], FUNC["randn"] = _draw("unit"), _draw("real")
FUNC["rand_like"] = lambda x, dtype=None, device=None, **k: drawn(x.shape, dtype or DT(x.dtype), device or x.device, "unit")
FUNC["randn_like"] = lambda x, dtype=None, device=None, **k: drawn(x.shape, dtype or DT(x.dtype), device or x.device, "real")


@meth("new_zeros", "new_empty")
def _new_zeros(t, *size, dtype=None, device=None, **kw):
    return newt(ints(size), lambda i: N0, dtype or DT(t.dtype), device or t.device)


@meth()
def new_ones(t, *size, dtype=None, device=None, **kw):
    return newt(ints(size), lambda i: N1, dtype or DT(t.dtype), device or t.device)


@meth()
def new_full(t, size, fill_value, dtype=None, device=None, **kw):
    e = val_expr(fill_value)
    return newt(ints((size,)), lambda i: e, dtype or DT(t.dtype), device or t.device)


@meth()
def new_tensor(t, data, dtype=None, device=None, **kw):
    return tz.tensor_from(data, dt(dtype) or t.dtype, dev(device) if device else t.device)


# --- shape ------------------------------------------------------------------------------
@meth("reshape")
def _reshape(t, *shape, **kw):
    if "shape" in kw:
        shape = (kw["shape"],)
    return tz.reshape(t, ints(shape))


@meth("view")
def _view(t, *shape):
    if len(shape) == 1 and isinstance(shape[0], DT):
        raise Unsupported("view as dtype")
    return tz.reshape(t, ints(shape), must_view=True)


METH["reshape_as"] = lambda t, o: tz.reshape(t, o.shape)
METH["view_as"] = lambda t, o: tz.reshape(t, o.shape, must_view=True)


@meth("flatten", "ravel")
def _flatten(t, start_dim=0, end_dim=-1):
    return tz.flatten(t, start_dim, end_dim)


@meth()
def unflatten(t, dim, sizes):
    d = tz.axis(t, dim)
    sizes = list(sizes)
    neg1 = [k for k, s in enumerate(sizes) if s == -1]
    if neg1:
        rest = prod([topoly(s) for k, s in enumerate(sizes) if k != neg1[0]])
        q = exact_div(t.shape[d], rest)
        if q is None:
            raise Unsupported("unflatten -1")
        sizes[neg1[0]] = q
    return tz.reshape(t, list(t.shape[:d]) + sizes + list(t.shape[d + 1:]))


@meth("permute")
def _permute(t, *d):
    return tz.permute(t, ints(d))


@meth("transpose", "swapaxes", "swapdims")
def _transpose(t, dim0, dim1):
    return tz.transpose(t, dim0, dim1)


@meth("t")
def _t(t):
    if len(t.shape) > 2:
        err(RuntimeError, "t() expects a tensor with <= 2 dimensions")
    return t if len(t.shape) < 2 else tz.transpose(t, 0, 1)


@meth("movedim", "moveaxis")
def _movedim(t, source, destination):
    return tz.movedim(t, source, destination)


@meth("unsqueeze")
def _unsqueeze(t, dim):
    return tz.unsqueeze(t, dim)


@meth("squeeze")
def _squeeze(t, dim=None):
    return tz.squeeze(t, dim)


@meth("expand")
def _expand(t, *size):
    return tz.expand(t, ints(size))


METH["expand_as"] = lambda t, o: tz.expand(t, o.shape)
FUNC["broadcast_to"] = lambda t, s: tz.expand(t, ints((s,)))
METH["broadcast_to"] = FUNC["broadcast_to"]


@func("broadcast_tensors")
def _bct(*ts):
    s = tz.bcast([t.shape for t in ts])
    return tuple(tz.expand(t, s) for t in ts)


@meth("repeat")
def _repeat(t, *r):
    return tz.repeat(t, ints(r))


@meth("tile")
def _tile(t, *r):
    r = ints(r)
    r = [1] * (len(t.shape) - len(r)) + list(r)
    return tz.repeat(t, r)


@meth("repeat_interleave")
def _ri(t, repeats, dim=None, output_size=None):
    return tz.repeat_interleave(t, repeats, dim)


@meth("flip")
def _flip(t, *dims, **kw):
    if "dims" in kw:
        dims = (kw["dims"],)
    return tz.flip(t, ints(dims))


METH["fliplr"] = lambda t: tz.flip(t, [1])
METH["flipud"] = lambda t: tz.flip(t, [0])


@meth("roll")
def _roll(t, shifts, dims=None):
    if dims is None:
        raise Unsupported("roll without dims")
    return tz.roll(t, shifts, dims)


def seg_stack(ts, d):
    """stack of the items appended by a symbolic loop"""
    if len(ts) == 1 and isinstance(ts[0], SymSeg):
        s = ts[0]
        if not isinstance(s.val, T):
            raise Unsupported("symbolic list of non tensors")
        v = s.val
        k = concrete(d) % (len(v.shape) + 1)
        shape = list(v.shape[:k]) + [s.size] + list(v.shape[k:])
        return mk(shape, lambda i: subst(v.at(i[:k] + i[k + 1:]), {s.var: i[k]}), ins=[v])
    return None


@func("stack")
def _stack(tensors, dim=0):
    ts = list(tensors.items) if isinstance(tensors, GenV) else (list(tensors) if not isinstance(tensors, T) else [tz.getitem(tensors, k) for k in range(concrete(tensors.shape[0]))])
    r = seg_stack(ts, dim)
    if r is not None:
        return r
    if any(isinstance(t, SymSeg) for t in ts):
        raise Unsupported("mixed symbolic list")
    if any(not isinstance(t, T) for t in ts):
        err(TypeError, "expected Tensor as element")
    for t in ts[1:]:
        if len(t.shape) != len(ts[0].shape):
            err(RuntimeError, "stack expects each tensor to be equal size")
    return tz.stack(ts, dim)


@func("cat", "concat", "concatenate")
def _cat(tensors, dim=0, axis=None):
    if axis is not None:
        dim = axis
    if isinstance(tensors, T) or tensors is None:
        err(TypeError, "cat(): argument 'tensors' must be tuple of Tensors")
    ts = list(tensors.items) if isinstance(tensors, GenV) else list(tensors)
    if len(ts) == 1 and isinstance(ts[0], SymSeg):
        s = ts[0]
        d = tz.axis(s.val, dim)
        st = seg_stack(ts, d)
        return tz.reshape(st, list(st.shape[:d]) + [st.shape[d] * st.shape[d + 1]] + list(st.shape[d + 2:]))
    if any(isinstance(t, SymSeg) for t in ts):
        raise Unsupported("mixed symbolic list")
    return tz.cat(ts, dim)


FUNC["hstack"] = lambda ts: tz.cat(list(ts), 1 if len(ts[0].shape) > 1 else 0)
FUNC["vstack"] = lambda ts: tz.cat([t if len(t.shape) > 1 else tz.unsqueeze(t, 0) for t in ts], 0)


@func("block_diag")
def _block_diag(*ts):
    r = ZERO
    R, C = ZERO, ZERO
    offs = []
    for t in ts:
        if len(t.shape) != 2:
            raise Unsupported("block_diag")
        offs.append((t, R, C))
        R, C = R + t.shape[0], C + t.shape[1]

    def f(i):
        e = N0
        for t, a, b in offs:
            e = ite(cand(inrange(i[0] - a, t.shape[0]), inrange(i[1] - b, t.shape[1])), t.at([i[0] - a, i[1] - b]), e)
        return e
    return mk([R, C], f, ins=ts)


@meth("diag_embed")
def _diag_embed(t, offset=0, dim1=-2, dim2=-1):
    bad_tensor(t, "diag_embed")
    return tz.diag_embed(t, offset, dim1, dim2)


@meth("diagonal")
def _diagonal(t, offset=0, dim1=0, dim2=1):
    return tz.diagonal(t, offset, dim1, dim2)


@meth("diag")
def _diag(t, diagonal=0):
    return tz.diag(t, diagonal)


@meth("trace")
def _trace(t):
    d = tz.diagonal(t)
    return tz.reduce(d, None, False, tz.rsum)


def _tri(lower):
    def f(t, diagonal=0):
        k = concrete(diagonal)
        return mk(t.shape, lambda i: ite(cge(i[-2] + k - i[-1]) if lower else cge(i[-1] - k - i[-2]), t.at(i), N0), ins=[t])
    return f


METH["tril"] = _tri(True)
METH["triu"] = _tri(False)


@meth("narrow")
def _narrow(t, dim, start, length):
    d = tz.axis(t, dim)
    s = start if isinstance(start, (int, Poly)) else to_poly(val_expr(start))
    key = [slice(None)] * len(t.shape)
    key[d] = slice(s, norm_int(topoly(s) + topoly(length)))
    return tz.getitem(t, tuple(key))


@meth("select")
def _select(t, dim, index):
    d = tz.axis(t, dim)
    key = [slice(None)] * len(t.shape)
    key[d] = index
    return tz.getitem(t, tuple(key))


@meth("split", "split_with_sizes")
def _split(t, split_size, dim=0):
    d = tz.axis(t, dim)
    out = []
    if isinstance(split_size, (list, tuple)):
        p = ZERO
        for s in split_size:
            key = [slice(None)] * len(t.shape)
            key[d] = slice(p, p + topoly(s))
            out.append(tz.getitem(t, tuple(key)))
            p = p + topoly(s)
        if p != t.shape[d] and not tz.dim_eq(p, t.shape[d]):
            err(RuntimeError, "split_with_sizes expects split_sizes to sum exactly")
        return tuple(out)
    q = exact_div(t.shape[d], topoly(split_size))
    if q is not None and not q.is_const():
        s = topoly(split_size)
        return SymIter(q, lambda i: _narrow(t, d, topoly(i) * s, s))
    if q is None and t.shape[d].is_const() and topoly(split_size).is_const():
        n, k = t.shape[d].cval(), topoly(split_size).cval()
        return _split(t, [min(k, n - a) for a in range(0, n, k)], d)
    if q is None:
        raise Unsupported("split into a symbolic number of pieces")
    return _split(t, [split_size] * q.cval(), d)


@meth("chunk")
def _chunk(t, chunks, dim=0):
    d = tz.axis(t, dim)
    q = exact_div(t.shape[d], topoly(chunks))
    if q is None:
        raise Unsupported("chunk of a symbolic size")
    return _split(t, [q] * concrete(chunks), d)


@meth("unbind")
def _unbind(t, dim=0):
    d = tz.axis(t, dim)
    n = t.shape[d]
    if n.is_const():
        return tuple(_select(t, d, k) for k in range(n.cval()))
    return SymIter(n, lambda i: _select(t, d, i))


@meth("contiguous")
def _contiguous(t, memory_format=None):
    if t.contig:
        return t
    r = _clone(t)
    r.lay, r.contig = None, True
    return r


@meth("clone")
def _clone(t, memory_format=None):
    return tz.keep_layout(mk(t.shape, lambda i: t.at(i), ins=[t]), [t] if memory_format is None else [])


FUNC["clone"] = _clone


@meth("detach")
def _detach(t):
    if ctx().stops and t.rg:
        return T(t.shape, lambda i: tz.stop(t.at(i)), t.dtype, t.device, False, t.contig)
    v = tz.view(t, t.shape, lambda i: list(i), lambda k: (TRUE, list(k)), contig=t.contig, lay=t.lay)
    v.rg = False
    return v


@meth("detach_", "requires_grad_")
def _rg_(t, requires_grad=True):
    t.rg = bool(requires_grad)
    return t


METH["detach_"] = lambda t: (setattr(t, "rg", False), t)[1]
METH["cpu"] = lambda t: t if t.device == "cpu" else mk(t.shape, lambda i: t.at(i), ins=[t], device="cpu", dtype=t.dtype)


def _cuda(t, *a, **k):
    raise Unsupported("cuda()")


METH["cuda"] = _cuda


# --- elementwise ---------------------------------------------------------------------------
def un(name, f):
    def g(t, *a, **k):
        if not isinstance(t, T):
            if isinstance(t, (int, float, SReal, Poly)):
                err(TypeError, f"{name}(): argument 'input' must be Tensor")
            bad_tensor(t, name)
        if a or k:
            err(TypeError, f"{name}() got unexpected argument")
        return tz.unary(f, t)
    METH[name] = g


for _n in ("exp", "log", "log1p", "expm1", "sin", "cos", "tanh", "sigmoid", "sqrt", "erf", "atan"):
    un(_n, lambda e, n=_n: fn(n, e))
METH["special_expit"] = METH["sigmoid"]
METH["arctan"] = METH["atan"]
un("rsqrt", lambda e: pow_(fn("sqrt", e), -1))
un("reciprocal", lambda e: pow_(e, -1))
un("exp2", lambda e: fn("exp", mul(fn("log", num(2)), e)))
un("sinh", lambda e: mul(num(Fraction(1, 2)), sub(fn("exp", e), fn("exp", neg(e)))))
un("cosh", lambda e: mul(num(Fraction(1, 2)), add(fn("exp", e), fn("exp", neg(e)))))
un("tan", lambda e: div(fn("sin", e), fn("cos", e)))
un("logsigmoid", lambda e: neg(lse2(neg(e), N0)))
un("sinc", lambda e: (_ for _ in ()).throw(Unsupported("sinc")))
un("log2", lambda e: div(fn("log", e), fn("log", num(2))))


def same(name, f):
    METH[name] = lambda t, *a, **k: (bad_tensor(t, name), tz.keep_layout(mk(t.shape, lambda i: f(t.at(i)), ins=[t]), [t]))[1]


same("neg", neg)
same("negative", neg)
same("abs", lambda e: fn("abs", e))
same("absolute", lambda e: fn("abs", e))
same("sign", lambda e: fn("sign", e))
same("square", lambda e: pow_(e, 2))
same("relu", lambda e: fn("relu", e))
same("positive", lambda e: e)
for _n in ("round", "floor", "trunc"):
    same(_n, lambda e, n=_n: e if to_poly(e) is not None else fn(n, e))
same("nan_to_num", lambda e: e)


def lse2(a, b):
    """log(exp a + exp b)"""
    v = newvar(2, "s")
    return red("lse", v, 2, ite(ceq(V(v)), a, b))


def boolt(shape, f, ins):
    return mk(shape, f, ins=ins, dtype="bool")


METH["isnan"] = lambda t: boolt(t.shape, lambda i: N0, [t])
METH["isinf"] = lambda t: boolt(t.shape, lambda i: N0, [t])
METH["isfinite"] = lambda t: boolt(t.shape, lambda i: N1, [t])
METH["logical_not"] = lambda t: boolt(t.shape, lambda i: ind(cnot(tz.as_cond(t.at(i)))), [t])


def binary(o, a, b):
    for x in (a, b):
        if not isinstance(x, (T, int, float, Poly, SReal)):
            err(TypeError, f"unsupported operand type(s) for {o}: {'NoneType' if x is None else type(x).__name__}")
    if o == "Add":
        return bop(add, a, b)
    if o == "Sub":
        if tz.result_type([a, b]) == "bool":
            err(RuntimeError, "Subtraction, the `-` operator, with two bool tensors is not supported.")
        return bop(sub, a, b)
    if o == "Mult":
        return bop(mul, a, b)
    if o == "Div":
        d = tz.result_type([a, b])
        return bop(div, a, b, d if d in FLOATS else ctx().default_dtype)
    if o == "Pow":
        if isinstance(b, (int, float)):
            if isinstance(b, float) and float(b).is_integer():
                b2 = int(b)
            else:
                b2 = b
            ex = Fraction(b2) if isinstance(b2, int) else Fraction(repr(b2))
            if ex == Fraction(1, 2):
                f = lambda x, _: fn("sqrt", x)
            else:
                f = lambda x, _: pow_(x, ex)
            return bop(f, a, b)
        if isinstance(a, (int, float)) and not isinstance(b, (int, float)):
            return bop(lambda x, y: fn("exp", mul(y, fn("log", x))), a, b)
        return bop(lambda x, y: E("fn2", "pow", x, y), a, b)
    if o == "FloorDiv":
        def f(x, y):
            p, q = to_poly(x), to_poly(y)
            if p is not None and q is not None:
                return ix(fdiv(p, q))
            return fn("floor", div(x, y))
        return bop(f, a, b)
    if o == "Mod":
        def f(x, y):
            p, q = to_poly(x), to_poly(y)
            if p is not None and q is not None:
                return ix(fmod(p, q))
            return sub(x, mul(y, fn("floor", div(x, y))))
        return bop(f, a, b)
    if o in ("BitAnd", "BitOr", "BitXor"):
        if tz.result_type([a, b]) != "bool":
            raise Unsupported("bitwise operator on integers")
        c = tz.as_cond
        g = {"BitAnd": lambda x, y: ind(cand(c(x), c(y))), "BitOr": lambda x, y: ind(cor(c(x), c(y))),
             "BitXor": lambda x, y: ind(cor(cand(c(x), cnot(c(y))), cand(c(y), cnot(c(x)))))}[o]
        return bop(g, a, b, "bool")
    if o == "MatMult":
        return tz.matmul(a, b)
    raise Unsupported(f"tensor operator {o}")


def bop(f, a, b, dtype=None):
    ts = [x for x in (a, b) if isinstance(x, T)]
    return tz.elementwise(f, a, b, dtype=dtype)


def _bin(o):
    def f(a, b, alpha=None, rounding_mode=None):
        if alpha is not None:
            b = binary("Mult", b, alpha) if isinstance(b, T) else b * alpha
        if rounding_mode is not None:
            if rounding_mode == "floor":
                return binary("FloorDiv", a, b)
            raise Unsupported("rounding_mode")
        if not isinstance(a, T) and not isinstance(b, T):
            err(TypeError, "argument must be Tensor")
        return binary(o, a, b)
    return f


for _n, _o in (("add", "Add"), ("sub", "Sub"), ("subtract", "Sub"), ("mul", "Mult"), ("multiply", "Mult"),
               ("div", "Div"), ("divide", "Div"), ("true_divide", "Div"), ("pow", "Pow"), ("floor_divide", "FloorDiv"),
               ("remainder", "Mod"), ("logical_and", "BitAnd"), ("logical_or", "BitOr"), ("logical_xor", "BitXor"),
               ("bitwise_and", "BitAnd"), ("bitwise_or", "BitOr")):
    METH[_n] = _bin(_o)
METH["rsub"] = lambda a, b, alpha=1: binary("Sub", b, binary("Mult", a, alpha))


@meth("addcmul")
def _addcmul(t, a, b, value=1):
    return binary("Add", t, binary("Mult", binary("Mult", a, b), value))


@meth("lerp")
def _lerp(t, end, w):
    return binary("Add", t, binary("Mult", w, binary("Sub", end, t)))


def compare(o, a, b):
    c = {"Lt": lambda x, y: cgt(sub(y, x)), "Gt": lambda x, y: cgt(sub(x, y)), "LtE": lambda x, y: cgev(sub(y, x)),
         "GtE": lambda x, y: cgev(sub(x, y)), "Eq": lambda x, y: ceqv(sub(x, y)),
         "NotEq": lambda x, y: cnot(ceqv(sub(x, y)))}[o]
    return tz.elementwise(lambda x, y: ind(c(x, y)), a, b, dtype="bool")


for _n, _o in (("lt", "Lt"), ("gt", "Gt"), ("le", "LtE"), ("ge", "GtE"), ("eq", "Eq"), ("ne", "NotEq"),
               ("less", "Lt"), ("greater", "Gt"), ("less_equal", "LtE"), ("greater_equal", "GtE"), ("not_equal", "NotEq")):
    METH[_n] = lambda a, b, o=_o: compare(o, a, b)


@func("where")
def _where(c, a=None, b=None, **kw):
    a = kw.get("input", a)
    b = kw.get("other", b)
    if a is None or b is None:
        raise Unsupported("where(condition)")
    dtp = tz.result_type([a, b])
    return tz.elementwise(lambda k, x, y: ite(tz.as_cond(k), x, y), c, a, b, dtype=dtp)


METH["where"] = lambda t, c, o: _where(c, t, o)


@meth("clamp", "clip")
def _clamp(t, min=None, max=None):
    if min is None and max is None:
        err(RuntimeError, "clamp: at least one of min or max")
    dtp = tz.result_type([t] + [x for x in (min, max) if x is not None])
    if isinstance(min, T) or isinstance(max, T):
        return torchmore.clamp_t(t, min, max)

    def f(i):
        e = t.at(i)
        if max is not None:
            m = val_expr(max)
            r = ite(cgt(sub(e, m)), m, e)
        else:
            r = e
        if min is not None:
            m = val_expr(min)
            r = ite(cgt(sub(m, e)), m, r)
        return r
    return mk(t.shape, f, ins=[t], dtype=dtp)


METH["clamp_min"] = lambda t, min: _clamp(t, min, None)
METH["clamp_max"] = lambda t, max: _clamp(t, None, max)


@meth("maximum")
def _maximum(a, b):
    return tz.elementwise(lambda x, y: ite(cgev(sub(x, y)), x, y), a, b)


@meth("minimum")
def _minimum(a, b):
    return tz.elementwise(lambda x, y: ite(cgev(sub(y, x)), x, y), a, b)


METH["fmax"] = _maximum
METH["fmin"] = _minimum


@func("logaddexp")
def _logaddexp(a, b):
    return tz.elementwise(lse2, a, b)


METH["logaddexp"] = _logaddexp


@meth("masked_fill")
def _masked_fill(t, mask, value):
    if mask.dtype != "bool":
        err(RuntimeError, "masked_fill only supports boolean masks")
    s = tz.bcast([t.shape, mask.shape])
    v = val_expr(value)
    return mk(s, lambda i: ite(tz.as_cond(mask.at(tz.bidx(mask, s, i))), v, t.at(tz.bidx(t, s, i))), ins=[t])


@func("heaviside")
def _heaviside(x, v):
    return tz.elementwise(lambda a, b: ite(ceqv(a), b, ind(cgt(a))), x, v)


METH["heaviside"] = _heaviside


# --- reductions ---------------------------------------------------------------------------
def _dimarg(dim, axis, kw=None):
    return dim if axis is None else axis


@meth("sum")
def _sum(t, dim=None, keepdim=False, dtype=None, axis=None):
    bad_tensor(t, "sum")
    d = _dimarg(dim, axis)
    if isinstance(d, (list, tuple)) and len(d) == 0:
        d = None
    ot = dt(dtype) or (t.dtype if t.dtype in FLOATS else "i64")
    return tz.reduce(t, d, keepdim, tz.rsum, dtype=ot)


@meth("mean")
def _mean(t, dim=None, keepdim=False, dtype=None, axis=None):
    bad_tensor(t, "mean")
    if t.dtype not in FLOATS and dtype is None:
        err(RuntimeError, "mean(): could not infer output dtype. Input dtype must be floating point")
    d = _dimarg(dim, axis)
    if isinstance(d, (list, tuple)) and len(d) == 0:
        d = None
    return tz.reduce(t, d, keepdim, tz.rsum, post=lambda e, n: mul(pow_(ix(n), -1), e), dtype=dt(dtype))


@meth("amax")
def _amax(t, dim=None, keepdim=False):
    return tz.reduce(t, dim, keepdim, tz.rmax)


@meth("amin")
def _amin(t, dim=None, keepdim=False):
    return tz.reduce(t, dim, keepdim, tz.rmin)


def opaque_idx(prefix, t, rng, shape, cfg, compute):
    """integer table that is a function of the values of t"""
    own = set(t.vars)
    free = sorted(t.expr.fv - own, key=lambda a: a.key)
    key = tz.tkey(t) + cfg
    name = tz.opname(prefix, key)
    from .poly import IRANGE
    ACCSHAPE[name] = tuple(SIZE[a] for a in free) + tuple(shape)
    IRANGE[name] = topoly(rng)
    snap = T(t.shape, lambda i: t.at(i), t.dtype)
    OPQ[name] = (lambda ev: compute(ev.array(snap, free), ev))
    return name, [V(a) for a in free]


def _argred(op):
    def f(t, dim=None, keepdim=False):
        if dim is None:
            t = tz.flatten(t)
            dim = 0
            keepdim = False
        d = tz.axis(t, dim)
        shape = [s for k, s in enumerate(t.shape) if k != d]

        def comp(a, ev):
            import numpy as np
            k = a.ndim - len(t.shape) + d
            return (np.argmax if op == "max" else np.argmin)(a, axis=k)
        name, fr = opaque_idx("arg" + op, t, t.shape[d], shape, f"dim{d}", comp)

        def g(i):
            i = list(i)
            if keepdim:
                i.pop(d)
            return ix(iacc(name, fr + i))
        osh = list(t.shape)
        osh[d:d + 1] = [ONE] if keepdim else []
        return T(osh, g, "i64", t.device)
    return f


METH["argmax"] = _argred("max")
METH["argmin"] = _argred("min")


class NT(tuple):
    """(values, indices)"""
    names = ("values", "indices")


def _mx(op):
    def f(t, dim=None, keepdim=False, other=None):
        if isinstance(dim, T):
            return (_maximum if op == "max" else _minimum)(t, dim)
        if other is not None:
            return (_maximum if op == "max" else _minimum)(t, other)
        r = tz.rmax if op == "max" else tz.rmin
        if dim is None:
            return tz.reduce(t, None, False, r)
        return NT((tz.reduce(t, dim, keepdim, r), METH["arg" + op](t, dim, keepdim)))
    return f


METH["max"] = _mx("max")
METH["min"] = _mx("min")


@meth("logsumexp")
def _logsumexp(t, dim=None, keepdim=False):
    return tz.reduce(t, dim, keepdim, tz.rlse)


def _soft(t, dim, f, dtype=None):
    bad_tensor(t, "softmax")
    if dim is None:
        raise Unsupported("softmax without dim")
    l = tz.reduce(t, [concrete(dim)], True, tz.rlse)
    return tz.elementwise(f, t, l, dtype=dt(dtype) or t.dtype)


@meth("softmax")
def _softmax(t, dim=None, dtype=None, _stacklevel=3):
    return _soft(t, dim, lambda x, l: fn("exp", sub(x, l)), dtype)


@meth("log_softmax")
def _log_softmax(t, dim=None, dtype=None, _stacklevel=3):
    return _soft(t, dim, sub, dtype)


def sqnorm(e, bound):
    return fn("norm0", tz.rsum(pow_(e, 2), bound))


@meth("norm")
def _norm(t, p=2, dim=None, keepdim=False, dtype=None):
    if p == "fro" or p == 2 or p == 2.0:
        return tz.reduce(t, dim, keepdim, sqnorm)
    if p == 1:
        return tz.reduce(t, dim, keepdim, lambda e, b: tz.rsum(fn("abs", e), b))
    if p == float("inf"):
        return tz.reduce(t, dim, keepdim, lambda e, b: tz.rmax(fn("abs", e), b))
    raise Unsupported("norm")


def _vnorm(t, ord=2, dim=None, keepdim=False, dtype=None):
    return _norm(t, 2 if ord is None else ord, dim, keepdim)


@meth("var")
def _var(t, dim=None, unbiased=True, keepdim=False, correction=None):
    raise Unsupported("var")


METH["std"] = _var


@meth("prod")
def _prod(t, dim=None, keepdim=False):
    if dim is None and not t.shape:
        return t
    raise Unsupported("prod reduction")


@meth("cumsum")
def _cumsum(t, dim, dtype=None):
    d = tz.axis(t, dim)

    def f(i):
        v = newvar(t.shape[d], "c")
        j = list(i)
        j[d] = V(v)
        return sum_(v, t.shape[d], ite(cge(i[d] - V(v)), t.at(j), N0))
    return mk(t.shape, f, ins=[t])


def _anyall(op):
    def f(t, dim=None, keepdim=False):
        r = tz.rmax if op == "any" else tz.rmin
        return tz.reduce(tz.cast(t, "bool"), dim, keepdim, r, dtype="bool")
    return f


METH["any"] = _anyall("any")
METH["all"] = _anyall("all")


@meth("count_nonzero")
def _cnz(t, dim=None):
    return tz.reduce(tz.cast(t, "bool"), dim, False, tz.rsum, dtype="i64")


# --- products -----------------------------------------------------------------------------
@func("einsum")
def _einsum(eq, *ops):
    if not isinstance(eq, str):
        raise Unsupported("einsum sublist format")
    if len(ops) == 1 and isinstance(ops[0], (list, tuple)):
        ops = ops[0]
    return tz.einsum(eq, list(ops))


@meth("matmul")
def _matmul(a, other):
    return tz.matmul(a, other)


def _rank(t, n, what):
    if len(t.shape) != n:
        err(RuntimeError, f"{what}: expected {n}D tensor")


@meth("bmm")
def _bmm(a, mat2):
    _rank(a, 3, "bmm")
    _rank(mat2, 3, "bmm")
    tz.require_eq(a.shape[0], mat2.shape[0], "bmm")
    return tz.matmul(a, mat2)


@meth("mm")
def _mm(a, mat2):
    _rank(a, 2, "mm")
    _rank(mat2, 2, "mm")
    return tz.matmul(a, mat2)


@meth("mv")
def _mv(a, vec):
    _rank(a, 2, "mv")
    _rank(vec, 1, "mv")
    return tz.matmul(a, vec)


@meth("dot", "inner", "vdot")
def _dot(a, b):
    _rank(a, 1, "dot")
    _rank(b, 1, "dot")
    return tz.matmul(a, b)


@meth("outer", "ger")
def _outer(a, vec2):
    _rank(a, 1, "outer")
    _rank(vec2, 1, "outer")
    return mk([a.shape[0], vec2.shape[0]], lambda i: mul(a.at([i[0]]), vec2.at([i[1]])), ins=[a, vec2])


@meth("addmm")
def _addmm(t, a, b, beta=1, alpha=1):
    return binary("Add", binary("Mult", t, beta), binary("Mult", tz.matmul(a, b), alpha))


@meth("baddbmm")
def _baddbmm(t, a, b, beta=1, alpha=1):
    return binary("Add", binary("Mult", t, beta), binary("Mult", _bmm(a, b), alpha))


@func("chain_matmul")
def _chain(*ts):
    r = ts[0]
    for t in ts[1:]:
        r = tz.matmul(r, t)
    return r


@func("tensordot")
def _tensordot(a, b, dims=2):
    if is_int(dims):
        n = concrete(dims)
        da, db = list(range(len(a.shape) - n, len(a.shape))), list(range(n))
    else:
        da, db = [list(x) if isinstance(x, (list, tuple)) else [x] for x in dims]
    da, db = [tz.axis(a, d) for d in da], [tz.axis(b, d) for d in db]
    L = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOP"
    la = list(L[:len(a.shape)])
    lb = list(L[len(a.shape):len(a.shape) + len(b.shape)])
    for x, y in zip(da, db):
        lb[y] = la[x]
    out = [c for k, c in enumerate(la) if k not in da] + [c for k, c in enumerate(lb) if k not in db]
    return tz.einsum("".join(la) + "," + "".join(lb) + "->" + "".join(out), [a, b])


@func("kron")
def _kron(a, b):
    if len(a.shape) != len(b.shape):
        raise Unsupported("kron")
    sh = [x * y for x, y in zip(a.shape, b.shape)]
    return mk(sh, lambda i: mul(a.at([fdiv(p, s) for p, s in zip(i, b.shape)]), b.at([fmod(p, s) for p, s in zip(i, b.shape)])), ins=[a, b])


METH["kron"] = _kron
METH["tensordot"] = _tensordot


# --- indexing functions ----------------------------------------------------------------------
@meth("index_put_")
def _index_put_(t, indices, values, accumulate=False):
    if not isinstance(indices, (list, tuple)):
        err(TypeError, "index_put_: indices must be a tuple")
    tz.inplace_check(t, values)
    t.write(tz.adv_scatter(t, tuple(indices), values, bool(accumulate)))
    return t


@meth("index_put")
def _index_put(t, indices, values, accumulate=False):
    return _index_put_(_clone(t), indices, values, accumulate)


@meth("index_select")
def _index_select(t, dim, index):
    d = tz.axis(t, dim)
    key = [slice(None)] * len(t.shape)
    key[d] = index
    return tz.getitem(t, tuple(key))


@meth("index_add_")
def _index_add_(t, dim, index, source, alpha=1):
    d = tz.axis(t, dim)
    if source.dtype != t.dtype:
        err(RuntimeError, "index_add_(): self and source expected to have the same dtype")
    if alpha != 1:
        source = binary("Mult", source, alpha)
    key = [slice(None)] * len(t.shape)
    key[d] = index
    tz.inplace_check(t, source)
    t.write(tz.adv_scatter(t, tuple(key), source, True))
    return t


METH["index_add"] = lambda t, dim, index, source, alpha=1: _index_add_(_clone(t), dim, index, source, alpha)


@meth("index_copy_")
def _index_copy_(t, dim, index, source):
    d = tz.axis(t, dim)
    key = [slice(None)] * len(t.shape)
    key[d] = index
    t.write(tz.adv_scatter(t, tuple(key), source, False))
    return t


@meth("take_along_dim")
def _take_along(t, indices, dim=None):
    if dim is None:
        return _gather(_reshape(t, -1), 0, _reshape(indices, -1))
    d = tz.axis(t, dim)
    if len(indices.shape) != len(t.shape):
        err(RuntimeError, "take_along_dim(): the input and the indices must have the same number of dimensions")
    other = tz.bcast([[ONE if k == d else n for k, n in enumerate(a.shape)] for a in (t, indices)], "take_along_dim")
    st, si = list(other), list(other)
    st[d], si[d] = t.shape[d], indices.shape[d]
    return _gather(tz.expand(t, st), d, tz.expand(indices, si))


@meth("gather")
def _gather(t, dim=None, index=None, indices=None, sparse_grad=False):
    if isinstance(dim, T):
        dim, index = index, dim
    if indices is not None:
        index = indices
    d = tz.axis(t, dim)
    if len(index.shape) != len(t.shape):
        err(RuntimeError, "Index tensor must have the same number of dimensions as input tensor")
    for k, (a, b) in enumerate(zip(index.shape, t.shape)):
        if k != d and not ge0(b - a):
            if not ctx().decide(cge(b - a), "dim"):
                err(RuntimeError, "gather: index larger than input")

    def f(i):
        j = list(i)
        j[d] = tz.index_poly(index, i, t.shape[d])
        return t.at(j)
    return mk(index.shape, f, ins=[t])


def _scatter(t, d, index, src, accumulate):
    d = tz.axis(t, d)
    if len(index.shape) != len(t.shape):
        err(RuntimeError, "scatter: index must have the same number of dimensions")
    vat = src.at if isinstance(src, T) else (lambda i, e=val_expr(src): e)
    if isinstance(src, T) and src.dtype != t.dtype:
        err(RuntimeError, "scatter(): Expected self.dtype to be equal to src.dtype")
    ov, oe = t.vars, t.expr
    full = all(a == b for k, (a, b) in enumerate(zip(index.shape, t.shape)) if k != d)

    def f(k):
        v = newvar(index.shape[d], "u")
        j = list(k)
        j[d] = V(v)
        conds = [ceq(tz.index_poly(index, j, t.shape[d]) - k[d])]
        if not full:
            conds += [cge(index.shape[q] - 1 - k[q]) for q in range(len(k)) if q != d]
        old = subst(oe, dict(zip(ov, k)))
        if accumulate:
            return add(old, sum_(v, index.shape[d], mul(ind(cand(*conds)), vat(j))))
        return tz.lastwrite([v], [index.shape[d]], conds, lambda l: vat([*k[:d], l[0], *k[d + 1:]]), [], [], old)
    return f


@meth("scatter_add_")
def _scatter_add_(t, dim, index, src):
    t.write(_scatter(t, dim, index, src, True))
    return t


@meth("scatter_")
def _scatter_(t, dim, index, src=None, value=None, reduce=None):
    src = src if src is not None else value
    if reduce not in (None, "add"):
        raise Unsupported("scatter reduce")
    t.write(_scatter(t, dim, index, src, reduce == "add"))
    return t


METH["scatter_add"] = lambda t, dim, index, src: _scatter_add_(_clone(t), dim, index, src)
METH["scatter"] = lambda t, dim, index, src=None, value=None, reduce=None: _scatter_(_clone(t), dim, index, src, value, reduce)


def _diagonal_scatter(t, src, offset=0, dim1=0, dim2=1):
    r = _clone(t)
    tz.inplace_set(tz.diagonal(r, offset, dim1, dim2), src)
    return r


METH["diagonal_scatter"] = _diagonal_scatter


@meth("fill_diagonal_")
def _fill_diagonal_(t, v, wrap=False):
    tz.inplace_set(tz.diagonal(t), v)
    return t


# --- in-place ------------------------------------------------------------------------------------
@meth("copy_")
def _copy_(t, src, non_blocking=False):
    if isinstance(src, T) and src.dtype != t.dtype:
        src = tz.cast(src, t.dtype)
    tz.inplace_set(t, src)
    return t


@meth("fill_")
def _fill_(t, value):
    tz.inplace_set(t, value)
    return t


@meth("zero_")
def _zero_(t):
    tz.inplace_set(t, 0)
    return t


@meth("set_")
def _set_(t, src):
    t.set_data(src)
    return t


def inplace(name, t, *a, **k):
    f = METH.get(name[:-1])
    if f is None:
        raise Unsupported(f"Tensor.{name}")
    if name[:-1] in ("transpose", "t", "unsqueeze", "squeeze", "permute", "swapaxes"):
        raise Unsupported(f"Tensor.{name}")
    r = f(t, *a, **k)
    if len(r.shape) != len(t.shape):
        err(RuntimeError, f"output with shape {list(t.shape)} doesn't match the broadcast shape {list(r.shape)}")
    for x, y in zip(r.shape, t.shape):
        if x != y and not tz.dim_eq(x, y):
            err(RuntimeError, f"output with shape {list(t.shape)} doesn't match the broadcast shape {list(r.shape)}")
    if tz.CAT[r.dtype] > tz.CAT[t.dtype]:
        err(RuntimeError, f"result type {r.dtype} can't be cast to the desired output type {t.dtype}")
    tz.inplace_set(t, r)
    return t


# --- conversions --------------------------------------------------------------------------------
def _to(t, *a, **k):
    d, v, copy = k.get("dtype"), k.get("device"), k.get("copy", False)
    for x in a:
        if isinstance(x, DT):
            d = x
        elif isinstance(x, (Dev, str)):
            v = x
        elif isinstance(x, T):
            d, v = DT(x.dtype), Dev(x.device)
        elif isinstance(x, bool) or x is None:
            pass
        else:
            raise Unsupported("to()")
    r = t
    if d is not None:
        r = tz.cast(r, dt(d))
    if v is not None and dev(v) != r.device:
        r = mk(r.shape, lambda i, r=r: r.at(i), ins=[r], dtype=r.dtype, device=dev(v))
    if copy and r is t:
        r = _clone(t)
    return r


METH["to"] = _to


@meth("type")
def _type(t, dtype=None, non_blocking=False):
    if dtype is None:
        raise Unsupported("type()")
    if isinstance(dtype, str):
        m = {"torch.FloatTensor": "f32", "torch.DoubleTensor": "f64", "torch.LongTensor": "i64"}
        if dtype not in m:
            raise Unsupported("type(str)")
        return tz.cast(t, m[dtype])
    return tz.cast(t, dt(dtype))


METH["type_as"] = lambda t, o: _to(t, o)
for _n in ("float", "double", "half", "bfloat16", "long", "int", "bool", "short"):
    METH[_n] = lambda t, d=DTN[_n], **k: tz.cast(t, d)


@meth("item")
def _item(t):
    for s in t.shape:
        if s != ONE:
            tz.require_eq(s, 1, "item()")
    e = t.at([ZERO] * len(t.shape))
    if t.dtype == "bool":
        return ctx().decide(tz.as_cond(e), "data")
    if t.dtype not in FLOATS:
        p = to_poly(e)
        if p is None:
            raise Unsupported("item() of a computed integer")
        return norm_int(p)
    return SReal(e)


METH["size"] = lambda t, dim=None: shape_of(t) if dim is None else norm_int(t.shape[tz.axis(t, dim)])
METH["dim"] = lambda t: len(t.shape)
METH["ndimension"] = METH["dim"]
METH["numel"] = lambda t: norm_int(tz.numel(t))
METH["nelement"] = METH["numel"]
METH["element_size"] = lambda t: {"f64": 8, "i64": 8, "f16": 2, "bf16": 2, "bool": 1}.get(t.dtype, 4)
METH["is_contiguous"] = lambda t, memory_format=None: t.contig
METH["is_floating_point"] = lambda t: t.dtype in FLOATS
METH["data_ptr"] = lambda t: t.storage * 4096
METH["__len__"] = lambda t: norm_int(t.shape[0]) if t.shape else err(TypeError, "len() of a 0-d tensor")
METH["get_device"] = lambda t: -1
METH["tolist"] = lambda t: (_ for _ in ()).throw(Unsupported("tolist"))
METH["numpy"] = METH["tolist"]
METH["register_hook"] = lambda t, h: None
METH["retain_grad"] = lambda t: None
METH["size_"] = METH["size"]


@meth("stride")
def _stride(t, dim=None):
    st = tz.strides(t)
    if st is None:
        raise Unsupported("strides of a non contiguous tensor")
    st = [norm_int(q) for q in st]
    return tuple(st) if dim is None else st[tz.axis(t, dim)]


def _backward(t, *a, **k):
    raise Unsupported("backward()")


METH["backward"] = _backward


def shape_of(t):
    return Size(norm_int(s) for s in t.shape)


@func("equal")
def _equal(a, b):
    if len(a.shape) != len(b.shape):
        return False
    for x, y in zip(a.shape, b.shape):
        if not tz.dim_eq(x, y):
            return False
    if a is b:
        return True
    ev = a.at([V(v) for v in b.vars])
    if ev is b.expr:
        return True
    d = tz.elementwise(lambda x, y: pow_(sub(x, y), 2), a, b)
    e = tz.reduce(d, None, False, tz.rsum).at([])
    return ctx().decide(ceqv(e), "data")


METH["equal"] = _equal
FUNC["allclose"] = lambda a, b, rtol=1e-5, atol=1e-8, equal_nan=False: _equal(a, b)
METH["allclose"] = FUNC["allclose"]
FUNC["numel"] = METH["numel"]
FUNC["is_tensor"] = lambda x: isinstance(x, T)
FUNC["is_floating_point"] = METH["is_floating_point"]
FUNC["result_type"] = lambda a, b: DT(tz.result_type([a, b]))
FUNC["promote_types"] = lambda a, b: DT(tz.promote2(dt(a), dt(b)))
FUNC["is_grad_enabled"] = lambda: ctx().grad
FUNC["get_default_dtype"] = lambda: DT(ctx().default_dtype)
FUNC["isclose"] = lambda a, b, **k: compare("Eq", a, b)
FUNC["manual_seed"] = lambda s: None
FUNC["sigmoid"] = METH["sigmoid"]


@func("meshgrid")
def _meshgrid(*ts, indexing="ij"):
    if len(ts) == 1 and isinstance(ts[0], (list, tuple)):
        ts = ts[0]
    if indexing != "ij":
        raise Unsupported("meshgrid indexing")
    sh = [t.shape[0] for t in ts]
    return tuple(mk(sh, lambda i, t=t, k=k: t.at([i[k]]), ins=[t]) for k, t in enumerate(ts))


@func("cartesian_prod")
def _cp(*a):
    raise Unsupported("cartesian_prod")


@meth("unfold")
def _tunfold(t, dimension, size, step):
    d = tz.axis(t, dimension)
    s = topoly(size)
    st = topoly(step)
    n = fdiv(t.shape[d] - s, st) + 1
    return tz.view(t, list(t.shape[:d]) + [n] + list(t.shape[d + 1:]) + [s],
                   lambda i: [p * st + i[-1] if k == d else p for k, p in enumerate(i[:-1])], tz.overlap,
                   lay=tz.strides(t) and [q * st if k == d else q for k, q in enumerate(tz.strides(t))] + [tz.strides(t)[d]])


# --- linear algebra (opaque) ------------------------------------------------------------------------
def opaque_mat(prefix, t, shape, compute):
    own = set(t.vars)
    free = sorted(t.expr.fv - own, key=lambda a: a.key)
    name = tz.opname(prefix, tz.tkey(t))
    ACCSHAPE[name] = tuple(SIZE[a] for a in free) + tuple(shape)
    snap = T(t.shape, lambda i: t.at(i), t.dtype)

    def go(ev):
        import numpy as np
        a = np.asarray(ev.array(snap, free), dtype=float)
        try:
            return compute(a)
        except np.linalg.LinAlgError:
            # torch raises here
            return np.full(tuple(ev.const(q) for q in ACCSHAPE[name]), np.nan)
    OPQ[name] = go
    fr = [V(a) for a in free]
    return mk(shape, lambda i: acc(name, fr + list(i)), ins=[t])


def _square(t, what):
    if len(t.shape) < 2:
        err(RuntimeError, f"{what}: must have at least 2 dimensions")
    tz.require_eq(t.shape[-1], t.shape[-2], what)


def la_cholesky(t, upper=False):
    _square(t, "cholesky")
    import numpy as np
    r = opaque_mat("chol", t, t.shape, lambda a: np.linalg.cholesky(np.tril(a) + np.swapaxes(np.tril(a, -1), -1, -2)))
    return tz.transpose(r, -1, -2) if upper else r


def la_inv(t):
    _square(t, "inv")
    import numpy as np
    return opaque_mat("inv", t, t.shape, lambda a: np.linalg.inv(a))


def la_cholesky_inverse(t, upper=False):
    _square(t, "cholesky_inverse")
    import numpy as np

    def f(a):
        a = np.triu(a) if upper else np.tril(a)
        return np.linalg.inv(np.swapaxes(a, -1, -2) @ a if upper else a @ np.swapaxes(a, -1, -2))
    return opaque_mat("cholinvU" if upper else "cholinv", t, t.shape, f)


def la_solve(a, b, left=True):
    return tz.matmul(la_inv(a), b)


def la_cholesky_solve(b, l, upper=False):
    return tz.matmul(la_cholesky_inverse(l, upper), b)


def la_pinv(t, *a, **k):
    import numpy as np
    return opaque_mat("pinv", t, list(t.shape[:-2]) + [t.shape[-1], t.shape[-2]], lambda x: np.linalg.pinv(x))


def la_multi_dot(ts):
    return _chain(*ts)


FUNC["cholesky_inverse"] = la_cholesky_inverse
FUNC["cholesky_solve"] = la_cholesky_solve
FUNC["inverse"] = la_inv
FUNC["cholesky"] = la_cholesky
FUNC["pinverse"] = la_pinv
METH["cholesky_inverse"] = la_cholesky_inverse
METH["inverse"] = la_inv
METH["cholesky"] = la_cholesky


# --- nn.functional ------------------------------------------------------------------------------------
def f_linear(x, weight, bias=None):
    tz.same_dtype([x, weight] + ([bias] if bias is not None else []), "linear")
    n = weight.shape[1]
    if x.shape[-1] != n:
        tz.require_eq(x.shape[-1], n, "linear")

    def f(i):
        v = newvar(n, "k")
        r = sum_(v, n, mul(weight.at([i[-1], V(v)]), x.at(list(i[:-1]) + [V(v)])))
        return add(r, bias.at([i[-1]])) if bias is not None else r
    return mk(list(x.shape[:-1]) + [weight.shape[0]], f, ins=[x, weight, bias])


def f_softplus(x, beta=1, threshold=20):
    b, th = val_expr(beta), val_expr(threshold)
    return mk(x.shape, lambda i: ite(cgt(sub(mul(b, x.at(i)), th)), x.at(i),
                                     div(fn("log1p", fn("exp", mul(b, x.at(i)))), b)), ins=[x])


def f_relu(x, inplace=False):
    r = METH["relu"](x)
    if inplace:
        tz.inplace_set(x, r)
        return x
    return r


def f_leaky(x, negative_slope=0.01, inplace=False):
    s = val_expr(negative_slope)
    return mk(x.shape, lambda i: ite(cgt(x.at(i)), x.at(i), mul(s, x.at(i))), ins=[x])


def f_elu(x, alpha=1.0, inplace=False):
    s = val_expr(alpha)
    return mk(x.shape, lambda i: ite(cgt(x.at(i)), x.at(i), mul(s, fn("expm1", x.at(i)))), ins=[x])


def f_silu(x, inplace=False):
    return mk(x.shape, lambda i: mul(x.at(i), fn("sigmoid", x.at(i))), ins=[x])


def interp_matrix(mode, align, n_in, n_out, scale):
    """rows: outputs, columns: inputs, of one axis of torch.nn.functional.interpolate"""
    import numpy as np
    W = np.zeros((n_out, n_in))
    r = (1 / scale) if scale else n_in / n_out
    for o in range(n_out):
        if mode == "nearest":
            W[o, min(int(o * r), n_in - 1)] = 1
        elif mode == "nearest-exact":
            W[o, min(int((o + 0.5) * r), n_in - 1)] = 1
        else:
            if align:
                c = o * (n_in - 1) / (n_out - 1) if n_out > 1 else 0.0
            else:
                c = max((o + 0.5) * r - 0.5, 0.0)
            lo = min(int(c), n_in - 1)
            hi = min(lo + 1, n_in - 1)
            W[o, lo] += 1 - (c - lo)
            W[o, hi] += c - lo
    return W


def f_interpolate(x, size=None, scale_factor=None, mode="nearest", align_corners=None, recompute_scale_factor=None,
                  antialias=False):
    if mode not in ("nearest", "bilinear", "nearest-exact") or antialias:
        raise Unsupported("interpolate mode")
    if size is None and scale_factor is None:
        err(ValueError, "either size or scale_factor should be defined")
    if size is not None and scale_factor is not None:
        err(ValueError, "only one of size or scale_factor should be defined")
    if len(x.shape) != 4:
        raise Unsupported("interpolate of a non 4D input")
    two = lambda v: tuple(v) if isinstance(v, (list, tuple)) else (v, v)
    if size is None and mode == "nearest":
        ps = [to_poly(val_expr(s)) for s in two(scale_factor)]
        if all(p is not None for p in ps):
            return tz.upsample_nearest(x, tuple(ps))
    out, sc = [], []
    for k in range(2):
        n = x.shape[2 + k]
        if size is not None:
            out.append(topoly(two(size)[k]))
            sc.append(None)
        else:
            s = two(scale_factor)[k]
            if isinstance(s, (SReal, Poly)):
                p = to_poly(val_expr(s))
                if p is None:
                    raise Unsupported("symbolic scale factor")
                out.append(n * p)
                sc.append(None)
            else:
                fr = Fraction(s).limit_denominator(1000)
                out.append(fdiv(n * fr.numerator, topoly(fr.denominator)))
                sc.append(float(s))
    tabs = []
    for k in range(2):
        n, o = x.shape[2 + k], out[k]
        nm = tz.opname("interp", f"{mode},{align_corners},{n!r},{o!r},{sc[k]}")
        ACCSHAPE[nm] = (o, n)
        KIND[nm] = "real"
        OPQ[nm] = lambda ev, n=n, o=o, k=k: interp_matrix(mode, align_corners, ev.const(n), ev.const(o), None if recompute_scale_factor else sc[k])
        tabs.append(nm)

    def f(i):
        p, q = newvar(x.shape[2], "p"), newvar(x.shape[3], "q")
        return sum_(p, x.shape[2], sum_(q, x.shape[3], mul(acc(tabs[0], [i[2], V(p)]), acc(tabs[1], [i[3], V(q)]), x.at([i[0], i[1], V(p), V(q)]))))
    return mk([x.shape[0], x.shape[1], *out], f, ins=[x])


def f_pad(x, pad, mode="constant", value=None):
    pad = [topoly(p) for p in pad]
    n = len(x.shape)
    lo = [ZERO] * n
    hi = [ZERO] * n
    for k in range(len(pad) // 2):
        lo[n - 1 - k], hi[n - 1 - k] = pad[2 * k], pad[2 * k + 1]
    v = val_expr(0 if value is None else value)
    sh = [s + a + b for s, a, b in zip(x.shape, lo, hi)]

    def f(i):
        j = [p - a for p, a in zip(i, lo)]
        if mode == "constant":
            c = cand(*[inrange(q, s) for q, s, a, b in zip(j, x.shape, lo, hi) if a != ZERO or b != ZERO])
            return ite(c, x.at(j), v)
        if mode == "circular":
            return x.at([fmod(q, s) if a != ZERO or b != ZERO else q for q, s, a, b in zip(j, x.shape, lo, hi)])
        if mode in ("reflect", "replicate"):
            def go(k, at):
                if k == n:
                    return x.at(at)
                q, s_ = j[k], x.shape[k]
                if lo[k] == ZERO and hi[k] == ZERO:
                    return go(k + 1, at + [q])
                below, above = (-q, 2 * s_ - 2 - q) if mode == "reflect" else (ZERO, s_ - 1)
                return ite(cge(-q - 1), go(k + 1, at + [below]), ite(cge(q - s_), go(k + 1, at + [above]), go(k + 1, at + [q])))
            return go(0, [])
        raise Unsupported(f"padding mode {mode}")
    return mk(sh, f, ins=[x])


def f_unfold(x, kernel_size, dilation=1, padding=0, stride=1):
    k, d, p, s = tz.pair(kernel_size), tz.pair(dilation), tz.pair(padding), tz.pair(stride)
    if len(x.shape) != 4:
        raise Unsupported("unfold of a non 4D input")
    N, C, H, W = x.shape
    oH = fdiv(H + 2 * p[0] - d[0] * (k[0] - 1) - 1, s[0]) + 1
    oW = fdiv(W + 2 * p[1] - d[1] * (k[1] - 1) - 1, s[1]) + 1

    def f(i):
        n, q, l = i
        c, a, b = tz.unflat(q, [C, k[0], k[1]])
        y, z = tz.unflat(l, [oH, oW])
        yy, zz = y * s[0] + a * d[0] - p[0], z * s[1] + b * d[1] - p[1]
        return ite(cand(inrange(yy, H), inrange(zz, W)), x.at([n, c, yy, zz]), N0)
    return mk([N, C * k[0] * k[1], oH * oW], f, ins=[x])


def f_avg_pool2d(x, kernel_size, stride=None, padding=0, ceil_mode=False, count_include_pad=True, divisor_override=None):
    k = tz.pair(kernel_size)
    s = k if stride is None or stride == [] else tz.pair(stride)
    p = tz.pair(padding)
    if ceil_mode or any(q != ZERO for q in p):
        raise Unsupported("avg_pool2d options")
    w = T((ONE, ONE, k[0], k[1]), lambda i: N1, x.dtype, x.device)
    N, C, H, W = x.shape
    r = tz.conv2d(tz.reshape(x, [N * C, 1, H, W]), w, None, s, 0)
    den = k[0] * k[1] if divisor_override is None else topoly(divisor_override)
    r = tz.reshape(r, [N, C] + list(r.shape[2:]))
    return binary("Div", r, norm_int(den))


def f_max_unpool2d(*a, **k):
    raise Unsupported("max_unpool2d")


def f_one_hot(x, num_classes=-1):
    if concrete(num_classes) < 0 if not isinstance(num_classes, Poly) or num_classes.is_const() else False:
        raise Unsupported("one_hot")
    n = topoly(num_classes)
    return T(list(x.shape) + [n], lambda i: ind(ceq(tz.index_poly(x, i[:-1], n) - i[-1])), "i64", x.device)


def f_normalize(x, p=2.0, dim=1, eps=1e-12):
    n = _norm(x, 2, [concrete(dim)], True)
    return binary("Div", x, tz.expand(_clamp(n, eps, None), x.shape))


def f_logsigmoid(x):
    return METH["logsigmoid"](x)


def f_bce_logits(x, target, weight=None, reduction="mean", pos_weight=None):
    if weight is not None or pos_weight is not None:
        raise Unsupported("weighted loss")
    r = tz.elementwise(lambda a, t: sub(lse2(a, N0), mul(a, t)), x, target)
    return {"none": lambda: r, "sum": lambda: _sum(r), "mean": lambda: _mean(r)}[reduction]()


def f_mse(x, target, reduction="mean"):
    r = tz.elementwise(lambda a, t: pow_(sub(a, t), 2), x, target)
    return {"none": lambda: r, "sum": lambda: _sum(r), "mean": lambda: _mean(r)}[reduction]()


def g_conv2d_input(input_size, weight, grad_output, stride=1, padding=0, dilation=1, groups=1):
    s, d, p = tz.pair(stride), tz.pair(dilation), tz.pair(padding)
    if topoly(groups) != ONE:
        raise Unsupported("groups")
    O, C, kh, kw = weight.shape
    N, _, oH, oW = grad_output.shape

    def f(i):
        n, c, y, z = i
        o, u, v, a, b = newvar(O, "o"), newvar(oH, "u"), newvar(oW, "v"), newvar(kh, "a"), newvar(kw, "b")
        cond = cand(ceq(V(u) * s[0] + V(a) * d[0] - p[0] - y), ceq(V(v) * s[1] + V(b) * d[1] - p[1] - z))
        e = mul(ind(cond), weight.at([V(o), c, V(a), V(b)]), grad_output.at([n, V(o), V(u), V(v)]))
        return tz.rsum(e, [(o, O), (u, oH), (v, oW), (a, kh), (b, kw)])
    return mk(ints((input_size,)), f, ins=[weight, grad_output])


def g_conv2d_weight(x, weight_size, grad_output, stride=1, padding=0, dilation=1, groups=1):
    s, d, p = tz.pair(stride), tz.pair(dilation), tz.pair(padding)
    if topoly(groups) != ONE:
        raise Unsupported("groups")
    N, O, oH, oW = grad_output.shape
    H, W = x.shape[2:]

    def f(i):
        o, c, a, b = i
        n, u, v = newvar(N, "n"), newvar(oH, "u"), newvar(oW, "v")
        yy, zz = V(u) * s[0] + a * d[0] - p[0], V(v) * s[1] + b * d[1] - p[1]
        e = mul(ind(cand(inrange(yy, H), inrange(zz, W))), x.at([V(n), c, yy, zz]), grad_output.at([V(n), o, V(u), V(v)]))
        return tz.rsum(e, [(n, N), (u, oH), (v, oW)])
    return mk(ints((weight_size,)), f, ins=[x, grad_output])


def _cfg_ints(d, **kw):
    return d


def f_conv2d(input=None, weight=None, bias=None, stride=1, padding=0, dilation=1, groups=1, **k):
    bad_tensor(input, "conv2d")
    bad_tensor(weight, "conv2d")
    return tz.conv2d(input, weight, bias, stride, padding, dilation, groups)


def f_conv_transpose2d(input=None, weight=None, bias=None, stride=1, padding=0, output_padding=0, groups=1, dilation=1):
    bad_tensor(input, "conv_transpose2d")
    return tz.conv_transpose2d(input, weight, bias, stride, padding, output_padding, groups, dilation)


def f_max_pool2d(input, kernel_size, stride=None, padding=0, dilation=1, ceil_mode=False, return_indices=False):
    return tz.max_pool2d(input, kernel_size, stride, padding, dilation, ceil_mode, return_indices)


def f_dropout(x, p=0.5, training=True, inplace=False):
    if training:
        raise Unsupported("dropout")
    return x


FF = {
    "linear": f_linear, "conv2d": f_conv2d, "conv_transpose2d": f_conv_transpose2d, "max_pool2d": f_max_pool2d,
    "max_pool2d_with_indices": lambda *a, **k: f_max_pool2d(*a, **{**k, "return_indices": True}),
    "interpolate": f_interpolate, "upsample": f_interpolate, "softplus": f_softplus, "relu": f_relu,
    "leaky_relu": f_leaky, "elu": f_elu, "silu": f_silu, "pad": f_pad, "unfold": f_unfold, "avg_pool2d": f_avg_pool2d,
    "one_hot": f_one_hot, "normalize": f_normalize, "logsigmoid": f_logsigmoid, "mse_loss": f_mse,
    "binary_cross_entropy_with_logits": f_bce_logits, "max_unpool2d": f_max_unpool2d, "dropout": f_dropout,
    "sigmoid": METH["sigmoid"], "tanh": METH["tanh"], "softmax": METH["softmax"], "log_softmax": METH["log_softmax"],
}


class TorchModel:
    def __init__(self, interp):
        self.I = interp
        self.mods = {}
        self._build_builtins()
        self._build_torch()

    # --- builtins ----------------------------------------------------------------------------
    def builtins(self):
        return self._b

    def native_exc(self, py, bases):
        def new(*a, **k):
            return py(*a) if py is not KeyError else py(*a)
        return ClsV(py.__name__, bases, {"__new_native__": new}, native=True, pytype=py)

    def _build_builtins(self):
        I = self.I
        obj = ClsV("object", [], {}, native=True)
        b = {"object": obj}
        exc = {}

        def mkexc(py):
            if py in exc:
                return exc[py]
            bases = [mkexc(x) for x in py.__bases__ if x is not object] or [obj]
            exc[py] = self.native_exc(py, bases)
            b[py.__name__] = exc[py]
            return exc[py]

        for py in (GeneratorExit, BaseException, Exception, ValueError, TypeError, RuntimeError, NotImplementedError, AssertionError,
                   KeyError, IndexError, AttributeError, ZeroDivisionError, StopIteration, ArithmeticError,
                   OverflowError, LookupError, ImportError, NameError, RecursionError, Warning, UserWarning,
                   DeprecationWarning, RuntimeWarning, FutureWarning, OSError, KeyboardInterrupt):
            mkexc(py)

        def ty(name, pytype, f):
            b[name] = ClsV(name, [obj], {"__new_native__": f}, native=True, pytype=pytype)

        def to_int(x=0, base=None):
            if isinstance(x, SReal):
                p = to_poly(x.e)
                if p is not None:
                    return norm_int(p)
                raise Unsupported("int() of a symbolic float")
            if isinstance(x, T):
                v = _item(x)
                return to_int(v)
            if isinstance(x, (int, Poly)):
                return int(x) if isinstance(x, bool) else x
            if x is None or isinstance(x, (list, tuple)):
                err(TypeError, "int() argument must be a string or a number")
            try:
                return int(x) if base is None else int(x, base)
            except (ValueError, OverflowError) as e:
                raise PyErr(e, ctx().loc())

        def to_float(x=0.0):
            if isinstance(x, Poly):
                return SReal(ix(x))
            if isinstance(x, SReal):
                return x
            if isinstance(x, T):
                v = _item(x)
                return to_float(v) if not isinstance(v, SReal) else v
            if x is None or isinstance(x, (list, tuple)):
                err(TypeError, "float() argument must be a string or a real number")
            try:
                return float(x)
            except ValueError as e:
                raise PyErr(e, ctx().loc())

        ty("int", int, to_int)
        ty("float", float, to_float)
        ty("bool", bool, lambda x=False: I.truth(x))
        ty("str", str, lambda x="": I.str_(x))
        ty("list", list, lambda x=(): self.mklist(x))
        ty("tuple", tuple, lambda x=(): tuple(self.mklist(x)))
        ty("set", set, lambda x=(): set(I.tolist(x)))
        ty("frozenset", frozenset, lambda x=(): frozenset(I.tolist(x)))
        ty("dict", dict, self.mkdict)
        b["dict"].d["fromkeys"] = ip.StaticM(Native(lambda it, v=None: {k: v for k in I.tolist(it)}, "fromkeys"))
        ty("slice", slice, lambda *a: slice(*a))
        b["bytes"] = ClsV("bytes", [obj], {}, native=True, pytype=bytes)
        ty("complex", complex, lambda *a: (_ for _ in ()).throw(Unsupported("complex number")))
        ty("range", range, self.range_)
        ty("type", type, self.type_)
        ty("property", PropV, lambda fget=None, fset=None, fdel=None, doc=None: PropV(fget, fset))
        ty("staticmethod", StaticM, lambda f: StaticM(f))
        ty("classmethod", ClassM, lambda f: ClassM(f))

        def N(name, f):
            b[name] = Native(f, name)

        N("len", self.len_)
        N("enumerate", self.enumerate_)
        N("zip", self.zip_)
        N("reversed", self.reversed_)
        N("isinstance", self.isinstance_)
        N("issubclass", lambda c, t: any(c is x or x in c.mro for x in (t if isinstance(t, tuple) else (t,)) if isinstance(x, ClsV)))
        N("getattr", lambda o, n, *d: self.getattr_(o, n, *d))
        N("setattr", lambda o, n, v: I.setattr(o, n, v))
        N("hasattr", self.hasattr_)
        def delattr_(o, n):
            if not isinstance(o, Obj):
                raise Unsupported("delattr")
            for q in (o.attrs, o.attrs.get("_modules", {}), o.attrs.get("_parameters", {}), o.attrs.get("_buffers", {})):
                if n in q:
                    del q[n]
                    return
            err(AttributeError, n)
        N("delattr", delattr_)
        N("sum", self.sum_)
        N("min", lambda *a, **k: self.minmax("min", a, k))
        N("max", lambda *a, **k: self.minmax("max", a, k))
        N("abs", self.abs_)
        N("round", lambda x, n=None: (round(x) if n is None else round(x, n)) if isinstance(x, (int, float)) else (_ for _ in ()).throw(Unsupported("round")))
        N("divmod", lambda a, c: (I.binop("FloorDiv", a, c), I.binop("Mod", a, c)))
        N("pow", lambda a, c: I.binop("Pow", a, c))
        N("print", lambda *a, **k: None)
        N("id", self.id_)
        N("hash", lambda x: self.id_(x) if isinstance(x, (T, Obj)) else hash(x))
        N("repr", lambda x: I.repr_(x))
        N("any", lambda it: any(I.truth(x) for x in (I.lazy(it) if I.islazy(it) else I.tolist(it))))
        N("all", lambda it: all(I.truth(x) for x in (I.lazy(it) if I.islazy(it) else I.tolist(it))))
        N("sorted", lambda it, key=None, reverse=False: self.sorted_(it, key, reverse))
        N("map", self.map_)
        N("filter", lambda f, it: GenV(it=(x for x in I.lazy(it) if (I.truth(x) if f is None else I.truth(I.call(f, [x], {}))))))
        N("iter", self.iter_)
        N("next", self.next_)
        N("callable", lambda x: isinstance(x, (FuncV, Native, Bound, ClsV, Wrapped, GradMode)) or isinstance(x, Obj) and x.cls.lookup("__call__")[1] is not None)
        N("super", lambda *a: ip.SuperV(*a) if len(a) == 2 else (_ for _ in ()).throw(Unsupported("super")))
        N("vars", lambda o: o.d if isinstance(o, ClsV) else o.attrs)
        N("dir", lambda o: (_ for _ in ()).throw(Unsupported("dir")))
        N("globals", lambda: (_ for _ in ()).throw(Unsupported("globals")))
        N("locals", lambda: (_ for _ in ()).throw(Unsupported("locals")))
        N("chr", chr)
        N("ord", ord)
        N("format", lambda x, s="": I.format_(x, s))
        b["NotImplemented"] = Unknown("NotImplemented")
        b["Ellipsis"] = Ellipsis
        b["__name__"] = "nnj"
        b["__debug__"] = True
        self._b = b

    def mkdict(self, x=None, **kw):
        d = {}
        if x is not None:
            if isinstance(x, dict):
                d.update(x)
            else:
                for p in self.I.tolist(x):
                    k, v = self.I.tolist(p)
                    d[k] = v
        d.update(kw)
        return d

    def mklist(self, x):
        if isinstance(x, GenV):
            r = x.items
            x.items = []
            return list(r)
        it = self.I.iterate(x)
        if isinstance(it, SymIter):
            v = newvar(it.size, "L")
            return [SymSeg(v, it.size, it.get(V(v)))]
        return list(it)

    def range_(self, *a):
        a = [to_int_idx(x) for x in a]
        if all(isinstance(x, int) for x in a):
            return range(*a)
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1 if len(a) == 2 else a[2])
        st = concrete(st)
        if st == 1:
            n = topoly(hi) - topoly(lo)
            if n.is_const():
                return [norm_int(topoly(lo) + k) for k in range(n.cval())]
            return SymIter(n, lambda i: norm_int(topoly(lo) + i))
        if st == -1:
            n = topoly(lo) - topoly(hi)
            return SymIter(n, lambda i: norm_int(topoly(lo) - i))
        n = topoly(hi) - topoly(lo)
        if st > 0:
            q = exact_div(n, Poly.const(st))
            if q is None:
                q = fdiv(n + (st - 1), Poly.const(st))
            return SymIter(q, lambda i: norm_int(topoly(lo) + i * st))
        raise Unsupported("range step")

    def type_(self, *a):
        if len(a) == 3:
            bases = list(a[1]) or [self._b["object"]]
            if not all(isinstance(q, ClsV) for q in bases) or any("__init_subclass__" in k.d for q in bases for k in q.mro):
                raise Unsupported("type() with three arguments")
            c = ClsV(a[0], bases, dict(a[2]))
            for v in c.d.values():
                ip.setowner(v, c)
            return c
        if len(a) != 1:
            raise Unsupported("type()")
        x = a[0]
        if isinstance(x, ip.NTup):
            return x.cls
        if isinstance(x, BaseException):
            for py in type(x).__mro__:
                if py.__name__ in self._b and self._b[py.__name__].pytype is py:
                    return self._b[py.__name__]
        if isinstance(x, ClsV):
            return self._b["type"]
        if isinstance(x, Obj):
            return x.cls
        if isinstance(x, T):
            return self.param_cls if x.is_param else self.tensor_cls
        for n in ("bool", "int", "float", "str", "list", "tuple", "dict", "set"):
            c = self._b[n]
            if type(x) is c.pytype:
                return c
        if isinstance(x, Poly):
            return self._b["int"]
        if isinstance(x, SReal):
            return self._b["float"]
        if x is None:
            return ClsV("NoneType", [self._b["object"]], {}, native=True, pytype=type(None))
        raise Unsupported("type()")

    def len_(self, x):
        if isinstance(x, T):
            return METH["__len__"](x)
        if isinstance(x, GenV):
            err(TypeError, "object of type 'generator' has no len()")
        if isinstance(x, (list, tuple)):
            if any(isinstance(y, SymSeg) for y in x):
                n = ZERO
                for y in x:
                    n = n + (y.size if isinstance(y, SymSeg) else ONE)
                return norm_int(n)
            return len(x)
        if isinstance(x, (dict, set, str, range, frozenset)) or type(x) in (type({}.keys()), type({}.values()), type({}.items())):
            return len(x)
        if isinstance(x, SymIter):
            return norm_int(x.size)
        if isinstance(x, Obj):
            f = x.cls.lookup("__len__")[1]
            if f is not None:
                return self.I.call(self.I.getattr(x, "__len__"), [], {})
        err(TypeError, f"object of type {type(x).__name__} has no len()")

    def enumerate_(self, x, start=0):
        if self.I.islazy(x):
            return GenV(it=((k + start, v) for k, v in enumerate(self.I.lazy(x))))
        it = self.I.iterate(x)
        if isinstance(it, SymIter):
            return SymIter(it.size, lambda i: (norm_int(topoly(start) + i), it.get(i)))
        return [(k + start, v) for k, v in enumerate(it)]

    def zip_(self, *xs, strict=False):
        if any(self.I.islazy(x) for x in xs):
            its = [self.I.lazy(x) if self.I.islazy(x) else self.I.iterate(x) for x in xs]
            if any(isinstance(i, SymIter) for i in its):
                its = [self.I.iterate(x) for x in xs]
            else:
                def walk():
                    try:
                        yield from zip(*its, strict=bool(strict))
                    except ValueError as ex:
                        raise PyErr(ex, ctx().loc())
                return GenV(it=walk())
        its = [self.I.iterate(x) for x in xs]
        if any(isinstance(i, SymIter) for i in its):
            if not all(isinstance(i, SymIter) for i in its):
                raise Unsupported("zip of symbolic and concrete sequences")
            n = its[0].size
            for i in its[1:]:
                if i.size != n:
                    raise Unsupported("zip of sequences of different symbolic length")
            return SymIter(n, lambda k: tuple(i.get(k) for i in its))
        if strict and len({len(i) for i in its}) > 1:
            err(ValueError, "zip() arguments have different lengths")
        return list(zip(*its))

    def reversed_(self, x):
        it = self.I.iterate(x)
        if isinstance(it, SymIter):
            return SymIter(it.size, lambda i: it.get(it.size - 1 - i))
        return list(reversed(it))

    def isinstance_(self, o, c):
        if isinstance(c, tuple):
            return any(self.isinstance_(o, x) for x in c)
        if isinstance(c, Unknown):
            nm = c.name.rsplit(".", 1)[-1]
            if nm in ("Sequence", "Iterable", "Collection", "MutableSequence"):
                return isinstance(o, (list, tuple))
            if nm in ("Mapping", "Dict", "MutableMapping"):
                return isinstance(o, dict)
            if nm in ("Number", "Real"):
                return isinstance(o, (int, float, Poly, SReal))
            if nm in ("List",):
                return isinstance(o, list)
            if nm in ("Tuple",):
                return isinstance(o, tuple)
            if nm == "Callable":
                return isinstance(o, (FuncV, Native, Bound, Wrapped))
            raise Unsupported(f"isinstance of {c.name}")
        if not isinstance(c, ClsV):
            raise Unsupported("isinstance")
        if c.name == "object":
            return True
        if isinstance(o, ip.NTup):
            return c in o.cls.mro
        if isinstance(o, Obj):
            return c in o.cls.mro
        if isinstance(o, T):
            return c is self.tensor_cls or c is self.param_cls and o.is_param
        if isinstance(o, BaseException):
            return c.pytype is not None and isinstance(c.pytype, type) and isinstance(o, c.pytype)
        if isinstance(o, Poly):
            return c.pytype is int
        if isinstance(o, SReal):
            return c.pytype is float
        if isinstance(o, ClsV):
            return c.pytype is type
        if c.pytype is not None and isinstance(c.pytype, type):
            if isinstance(o, Size) and c.name == "Size":
                return True
            return isinstance(o, c.pytype)
        return False

    def getattr_(self, o, n, *d):
        if not d:
            return self.I.getattr(o, n)
        try:
            return self.I.getattr(o, n, d[0])
        except PyErr as e:
            if isinstance(e.exc, AttributeError):
                return d[0]
            raise

    def hasattr_(self, o, n):
        s = object()
        c = tz.ctx()
        depth, grad, nl = len(c.stack), c.grad, len(c.loops)
        try:
            return self.I.getattr(o, n, s) is not s
        except PyErr as e:
            if isinstance(e.exc, AttributeError):
                del c.stack[depth:]
                del c.loops[nl:]
                c.grad = grad
                return False
            raise

    def sum_(self, it, start=0):
        it = self.I.iterate(it)
        if isinstance(it, SymIter):
            v = newvar(it.size, "s")
            x = it.get(V(v))
            if isinstance(x, T):
                r = mk(x.shape, lambda i: sum_(v, it.size, x.at(i)), ins=[x])
                return self.I.binop("Add", start, r) if not (isinstance(start, int) and start == 0) else r
            raise Unsupported("sum over a symbolic range")
        r = start
        for x in it:
            r = self.I.binop("Add", r, x)
        return r

    def minmax(self, op, a, k):
        xs = list(a) if len(a) > 1 else self.I.tolist(a[0])
        key = k.get("key")
        if not xs:
            if "default" in k:
                return k["default"]
            err(ValueError, f"{op}() arg is an empty sequence")
        f = (lambda x: self.I.call(key, [x], {})) if key is not None else (lambda x: x)
        r = xs[0]
        kr = f(r)
        for x in xs[1:]:
            kx = f(x)
            c = self.I.compare("Lt" if op == "min" else "Gt", kx, kr)
            if self.I.truth(c):
                r, kr = x, kx
        return r

    def abs_(self, x):
        if isinstance(x, T):
            return METH["abs"](x)
        if isinstance(x, (int, float)):
            return abs(x)
        if isinstance(x, Poly):
            return x if self.I.compare("GtE", x, 0) else -x
        if isinstance(x, SReal):
            return SReal(fn("abs", x.e))
        raise Unsupported("abs")

    def id_(self, x):
        if isinstance(x, Obj):
            return 10_000_000 + x.oid * 16
        if isinstance(x, T):
            return 90_000_000 + x.id * 16
        return id(x)

    def sorted_(self, it, key, reverse):
        xs = self.I.tolist(it)
        ks = [self.I.call(key, [x], {}) if key is not None else x for x in xs]
        if all(isinstance(k, Obj) for k in ks):
            import functools
            lt = lambda a, b: self.I.truth(self.I.compare("Lt", a, b))
            order = sorted(range(len(xs)), key=functools.cmp_to_key(lambda i, j: -1 if lt(ks[i], ks[j]) else (1 if lt(ks[j], ks[i]) else 0)), reverse=bool(reverse))
            return [xs[i] for i in order]
        if not all(isinstance(k, (int, float, str, tuple)) for k in ks):
            raise Unsupported("sorted of symbolic values")
        return [xs[i] for i in sorted(range(len(xs)), key=lambda i: ks[i], reverse=bool(reverse))]

    def map_(self, f, *its):
        I = self.I
        its2 = [I.lazy(i) if I.islazy(i) else I.iterate(i) for i in its]
        if any(isinstance(i, SymIter) for i in its2):
            z = self.zip_(*its)
            return SymIter(z.size, lambda k: I.call(f, list(z.get(k)), {}))
        return GenV(it=(I.call(f, list(a), {}) for a in zip(*its2)))

    def iter_(self, x, *end):
        I = self.I
        if end:
            def walk():
                while True:
                    v = I.call(x, [], {})
                    if I.truth(I.eq2(v, end[0])):
                        return
                    yield v
            return GenV(it=walk())
        if isinstance(x, GenV):
            return x
        if I.islazy(x):
            w = I.lazy(x)
            return w if isinstance(w, GenV) else GenV(it=w)
        it = I.iterate(x)
        if isinstance(it, SymIter):
            return it
        return GenV(list(it))

    def next_(self, g, *d, sent=None, throw=None):
        if isinstance(g, Obj) and g.cls.lookup("__next__")[1] is not None:
            c = ctx()
            depth, nl = len(c.stack), len(c.loops)
            try:
                return self.I.call(self.I.getattr(g, "__next__"), [], {})
            except PyErr as e:
                if d and isinstance(e.exc, StopIteration):
                    del c.stack[depth:]
                    del c.loops[nl:]
                    return d[0]
                raise
        if isinstance(g, GenV):
            try:
                if throw is not None:
                    if isinstance(throw, ClsV):
                        throw = self.I.call(throw, [], {})
                    if not isinstance(g.it, ip.Coro):
                        raise Unsupported("throw")
                    return g.it.resume("throw", throw)
                return g.send(sent) if sent is not None else next(g)
            except StopIteration as e:
                if d:
                    return d[0]
                raise PyErr(e, ctx().loc())
        if isinstance(g, (list, tuple, dict, str)):
            err(TypeError, f"{type(g).__name__!r} object is not an iterator")
        raise Unsupported("next")

    def prelude(self, m, src):
        """fill a standard module from Python source"""
        import ast
        m.pkg = m.name
        env = ip.Env(m.d)
        m.env = env
        c = ctx()
        c.stack.append([f"<{m.name}>", "<module>", 0])
        n = len(self.I.calls)
        for st in ast.parse(src).body:
            self.I.stmt(st, env, m)
        c.stack.pop()

    def ntuple(self, name, fields, defaults, d=None):
        c = ClsV(name, [self._b["tuple"]], {k: v for k, v in (d or {}).items() if k not in fields}, pytype=None)
        c.fields = list(fields)

        def new(*a, **k):
            if len(a) > len(fields):
                err(TypeError, f"{name}() takes {len(fields)} arguments")
            vals = dict(zip(fields, a))
            for q, v in k.items():
                if q not in fields or q in vals:
                    err(TypeError, f"{name}() got an unexpected argument {q!r}")
                vals[q] = v
            for q in fields:
                if q not in vals:
                    if q not in defaults:
                        err(TypeError, f"{name}() missing argument {q!r}")
                    vals[q] = defaults[q]
            r = ip.NTup(vals[q] for q in fields)
            r.cls = c
            return r
        c.d["__new_native__"] = new
        c.d["__match_args__"] = tuple(fields)
        c.d["_fields"] = tuple(fields)
        c.d["_make"] = Native(lambda it: new(*self.I.tolist(it)), "_make")
        c.native = True
        return c

    def enumerate_members(self, c):
        mem = {}
        for b in reversed(c.mro[1:]):
            if getattr(b, "members", None):
                err(TypeError, "cannot extend an enumeration")
        k = 0
        for n, v in list(c.d.items()):
            if n.startswith("_") or isinstance(v, (FuncV, Wrapped, StaticM, ClassM, PropV, ip.CachedP, ip.Bound)) or isinstance(v, Native) and v.binds:
                continue
            if isinstance(v, ClsV):
                continue
            if isinstance(v, Unknown):
                if v.name != "enum.auto()":
                    raise Unsupported("enumeration value")
                v = k + 1
            if isinstance(v, int):
                k = v
            for o in mem.values():
                if self.I.truth(self.I.eq2(o.attrs["value"], v)):
                    break
            else:
                o = Obj(c)
                o.attrs.update(name=n, value=v, _name_=n, _value_=v)
            mem[n] = o
            c.d[n] = o
        if "__init__" in c.d:
            raise Unsupported("enumeration with a constructor")
        c.members = mem
        c.iter_cls = lambda: list(dict.fromkeys(mem.values()))

    def dataclass_(self, c, **opts):
        I = self.I
        if opts.get("slots") or opts.get("order"):
            raise Unsupported("dataclass option")
        fields = {}
        for b in reversed(c.mro):
            for n, an in b.d.get("__annotations__", {}).items():
                if "ClassVar" in an:
                    continue
                if "InitVar" in an or "KW_ONLY" in an:
                    raise Unsupported("dataclass field")
                v = b.d.get(n, _MISS)
                fields[n] = v if isinstance(v, DField) else DField(default=v)
        for n, f in fields.items():
            if isinstance(c.d.get(n), DField):
                if f.default is _MISS:
                    del c.d[n]
                else:
                    c.d[n] = f.default
        kwonly = bool(opts.get("kw_only"))

        def init(o, *a, **k):
            names = [n for n, f in fields.items() if f.init and not (kwonly or f.kw_only)]
            if len(a) > len(names):
                err(TypeError, f"{c.name}() takes {len(names)} positional arguments")
            vals = dict(zip(names, a))
            for q, v in k.items():
                if q not in fields or q in vals or not fields[q].init:
                    err(TypeError, f"{c.name}() got an unexpected argument {q!r}")
                vals[q] = v
            for n, f in fields.items():
                if n not in vals:
                    if f.factory is not None:
                        vals[n] = I.call(f.factory, [], {})
                    elif f.default is not _MISS:
                        vals[n] = f.default
                    elif not f.init:
                        continue
                    else:
                        err(TypeError, f"{c.name}() missing argument {n!r}")
                I.setattr(o, n, vals[n], raw=True)
            if o.cls.lookup("__post_init__")[1] is not None:
                I.call(I.getattr(o, "__post_init__"), [], {})

        def eq(o, p):
            if not isinstance(p, Obj) or p.cls is not o.cls:
                return Unknown("NotImplemented")
            return all(I.truth(I.eq2(o.attrs[n], p.attrs[n])) for n, f in fields.items() if f.compare)
        if "__init__" not in c.d and opts.get("init", True):
            c.d["__init__"] = Native(init, "__init__", binds=True)
        if "__eq__" not in c.d and opts.get("eq", True):
            c.d["__eq__"] = Native(eq, "__eq__", binds=True)
        if "__repr__" not in c.d and opts.get("repr", True):
            c.d["__repr__"] = Native(lambda o: c.name + "(" + ", ".join(f"{n}={I.repr_(o.attrs[n])}" for n in fields) + ")", "__repr__", binds=True)
        if opts.get("frozen"):
            def frozen(o, n, v):
                err(AttributeError, f"cannot assign to field {n!r}")
            c.d["__setattr__"] = Native(frozen, "__setattr__", binds=True)
        c.d["__match_args__"] = tuple(n for n, f in fields.items() if f.init)
        c.d["__dataclass_fields__"] = fields
        return c

    # --- externals -----------------------------------------------------------------------------------
    def external(self, name):
        if name in self.mods:
            return self.mods[name]
        top = name.split(".")[0]
        if name.startswith("torch."):
            m = self.external(name.rsplit(".", 1)[0])
            leaf = name.rsplit(".", 1)[1]
            v = m.d.get(leaf)
            if isinstance(v, ModuleV):
                return v
        m = ModuleV(name, {})
        self.mods[name] = m
        self.fill_std(m)
        return m

    def attr_ext(self, mod, name):
        if isinstance(mod, Unknown):
            return Unknown(f"{mod.name}.{name}")
        if name in mod.d:
            return mod.d[name]
        if mod.name == "torch" and name in FUNC:
            return Native(with_out(FUNC[name], name), f"torch.{name}")
        if mod.name == "torch" and name in METH:
            return Native(with_out(self.tfun(name), name), f"torch.{name}")
        sub_ = self.mods.get(f"{mod.name}.{name}")
        if sub_ is not None:
            return sub_
        if mod.name.split(".")[0] == "torch":
            full = f"{mod.name}.{name}"
            if name[0].islower() and full in ("torch.nn.utils", "torch.autograd", "torch.cuda", "torch.linalg"):
                return self.external(full)
        return Unknown(f"{mod.name}.{name}")

    def tfun(self, name):
        f = METH[name]

        def g(*a, **k):
            if not a and "input" in k:
                a = (k.pop("input"),)
            if not a or not isinstance(a[0], T):
                if name in ("add", "sub", "mul", "div", "pow", "maximum", "minimum", "eq", "ne", "lt", "gt", "le", "ge") and len(a) > 1 and isinstance(a[1], T):
                    return f(*a, **k)
                err(TypeError, f"{name}(): argument 'input' must be Tensor")
            if "other" in k and len(a) == 1:
                return f(a[0], k.pop("other"), **k)
            return f(*a, **k)
        return g

    def fill_std(self, m):
        I = self.I
        d = m.d
        n = m.name

        def N(name, f):
            d[name] = Native(f, f"{n}.{name}")

        if n == "math":
            def scal1(name, f, sf):
                def g(x):
                    if isinstance(x, T):
                        x = _item(x)
                    if isinstance(x, (Poly, SReal)):
                        return SReal(sf(val_expr(x)))
                    try:
                        return f(x)
                    except (ValueError, TypeError, OverflowError) as ex:
                        raise PyErr(ex, ctx().loc())
                N(name, g)
            scal1("sqrt", math.sqrt, lambda e: fn("sqrt", e))
            scal1("exp", math.exp, lambda e: fn("exp", e))
            scal1("log", math.log, lambda e: fn("log", e))
            scal1("sin", math.sin, lambda e: fn("sin", e))
            scal1("cos", math.cos, lambda e: fn("cos", e))
            scal1("tanh", math.tanh, lambda e: fn("tanh", e))

            def prod_(it, start=1):
                r = start
                for x in I.tolist(it):
                    r = I.binop("Mult", r, x)
                return r
            N("prod", prod_)

            def fl(x):
                if isinstance(x, (int, Poly)):
                    return x
                if isinstance(x, SReal):
                    p = to_poly(x.e)
                    if p is not None:
                        return norm_int(p)
                    raise Unsupported("floor")
                return math.floor(x)
            N("floor", fl)
            N("ceil", lambda x: fl(x) if not isinstance(x, float) else math.ceil(x))
            N("isqrt", lambda x: math.isqrt(x) if isinstance(x, int) else (_ for _ in ()).throw(Unsupported("isqrt")))
            N("isnan", lambda x: False if not isinstance(x, float) else math.isnan(x))
            N("isinf", lambda x: False if not isinstance(x, float) else math.isinf(x))
            N("isfinite", lambda x: True if not isinstance(x, float) else math.isfinite(x))
            d["pi"], d["e"], d["inf"], d["nan"], d["tau"] = math.pi, math.e, math.inf, math.nan, math.tau
            for nm in ("isclose", "gcd", "lcm", "fabs", "log2", "log10", "log1p", "pow", "hypot", "trunc", "copysign", "comb", "perm", "factorial", "fmod", "tan", "atan", "atan2", "sinh", "cosh", "erf", "expm1", "degrees", "radians", "cbrt", "exp2"):
                def plain(*a, nm=nm, **k):
                    if not all(isinstance(x, (int, float)) for x in [*a, *k.values()]):
                        raise Unsupported(f"math.{nm} of symbolic values")
                    try:
                        return getattr(math, nm)(*a, **k)
                    except (ValueError, TypeError, OverflowError) as ex:
                        raise PyErr(ex, ctx().loc())
                N(nm, plain)

            def fsum(it):
                return self.sum_(it, 0.0)
            N("fsum", fsum)

            def dot(a, b):
                r = 0
                for x, y in zip(I.tolist(a), I.tolist(b)):
                    r = I.binop("Add", r, I.binop("Mult", x, y))
                return r
            N("sumprod", dot)
        elif n == "functools":
            def wraps(f, *a, **k):
                def w(g):
                    if isinstance(g, FuncV):
                        src_ = f.f if isinstance(f, Wrapped) else f
                        if isinstance(src_, FuncV):
                            g.attrs.update(src_.attrs)
                        g.attrs["__wrapped__"] = f
                        if isinstance(f, (FuncV, Wrapped)):
                            g.attrs["__name__"] = g.attrs["__qualname__"] = I.getattr(f, "__name__")
                    return g
                return Native(w, "wraps")
            N("wraps", wraps)
            N("update_wrapper", lambda g, f, *a, **k: I.call(wraps(f), [g], {}))
            self.prelude(m, PRE_FUNCTOOLS)
            N("partial", lambda f, *a, **k: Native(lambda *b, **q: I.call(f, list(a) + list(b), {**k, **q}), "partial"))
            N("reduce", lambda f, it, *init: self.reduce_(f, it, *init))

            def cached(f):
                store = {}

                def g(*a, **k):
                    key = tuple(self.hkey(x) for x in a) + tuple((q, self.hkey(v)) for q, v in sorted(k.items()))
                    if key not in store:
                        store[key] = (a, k, I.call(f, list(a), k))
                    return store[key][2]
                return Native(g, "cached", binds=True)

            def lru(*a, **k):
                if len(a) == 1 and isinstance(a[0], (FuncV, Wrapped)):
                    return cached(a[0])
                return Native(cached, "lru_cache")
            N("lru_cache", lru)
            N("cache", cached)
            N("cached_property", lambda f: self.cached_property(f))
        elif n == "operator":
            for nm, o in (("add", "Add"), ("sub", "Sub"), ("mul", "Mult"), ("truediv", "Div"), ("matmul", "MatMult"), ("floordiv", "FloorDiv"), ("mod", "Mod")):
                N(nm, lambda a, b, o=o: I.binop(o, a, b))
            N("itemgetter", lambda *ks: Native(lambda x: I.getitem(x, ks[0]) if len(ks) == 1 else tuple(I.getitem(x, k) for k in ks)))
            def attr(x, nm):
                for q in nm.split("."):
                    x = I.getattr(x, q)
                return x
            N("attrgetter", lambda *ns: Native(lambda x: attr(x, ns[0]) if len(ns) == 1 else tuple(attr(x, q) for q in ns)))
            N("methodcaller", lambda nm, *a, **k: Native(lambda x: I.call(I.getattr(x, nm), list(a), k)))
            N("call", lambda f, *a, **k: I.call(f, list(a), k))
            for nm, o in (("pow", "Pow"), ("and_", "BitAnd"), ("or_", "BitOr"), ("xor", "BitXor"), ("lshift", "LShift"), ("rshift", "RShift"), ("concat", "Add")):
                N(nm, lambda a, b, o=o: I.binop(o, a, b))
            for nm, o in (("eq", "Eq"), ("ne", "NotEq"), ("lt", "Lt"), ("le", "LtE"), ("gt", "Gt"), ("ge", "GtE"), ("is_", "Is"), ("is_not", "IsNot")):
                N(nm, lambda a, b, o=o: I.compare(o, a, b))
            N("contains", lambda a, b: I.contains(a, b))
            N("not_", lambda a: not I.truth(a))
            N("truth", lambda a: I.truth(a))
            N("neg", lambda a: I.binop("Mult", a, -1) if not isinstance(a, (Obj, T)) else (METH["neg"](a) if isinstance(a, T) else I.call(I.getattr(a, "__neg__"), [], {})))
            N("getitem", lambda a, b: I.getitem(a, b))
            N("setitem", lambda a, b, c: I.setitem(a, b, c))
            N("index", lambda a: to_int_idx(a))
        elif n == "itertools":
            import itertools
            L = I.lazy

            def chain(*a):
                return GenV(it=(x for y in a for x in L(y)))
            N("chain", chain)
            d["chain"].attrs = {"from_iterable": Native(lambda it: GenV(it=(x for y in L(it) for x in L(y))), "from_iterable")}
            N("accumulate", self.accumulate_)
            N("product", lambda *a, repeat=1: GenV(list(itertools.product(*[I.tolist(y) for y in a], repeat=repeat))))
            N("islice", lambda it, *a: GenV(it=itertools.islice(L(it), *[None if q is None else concrete(q) for q in a])))
            N("repeat", lambda x, times=None: GenV([x] * concrete(times)) if times is not None else GenV(it=itertools.repeat(x)))
            N("count", lambda start=0, step=1: GenV(it=itertools.count(start, step)))
            N("cycle", lambda it: GenV(it=itertools.cycle(I.tolist(it))))
            N("pairwise", lambda it: GenV(it=itertools.pairwise(L(it))))
            N("zip_longest", lambda *a, fillvalue=None: GenV(list(itertools.zip_longest(*[I.tolist(y) for y in a], fillvalue=fillvalue))))
            N("starmap", lambda f, it: GenV(it=(I.call(f, I.tolist(x), {}) for x in L(it))))
            N("combinations", lambda it, r: GenV(list(itertools.combinations(I.tolist(it), concrete(r)))))
            N("permutations", lambda it, r=None: GenV(list(itertools.permutations(I.tolist(it), r))))
            N("takewhile", lambda f, it: GenV(it=itertools.takewhile(lambda x: I.truth(I.call(f, [x], {})), L(it))))
            N("dropwhile", lambda f, it: GenV(it=itertools.dropwhile(lambda x: I.truth(I.call(f, [x], {})), L(it))))
            N("filterfalse", lambda f, it: GenV(it=(x for x in L(it) if not I.truth(x if f is None else I.call(f, [x], {})))))
            N("compress", lambda it, sel: GenV(it=(x for x, k in zip(L(it), L(sel)) if I.truth(k))))

            def groupby(it, key=None):
                out = []
                for x in I.tolist(it):
                    k = x if key is None else I.call(key, [x], {})
                    if out and I.truth(I.eq2(out[-1][0], k)):
                        out[-1][1].append(x)
                    else:
                        out.append((k, [x]))
                return GenV([(k, GenV(v)) for k, v in out])
            N("groupby", groupby)

            def tee(it, n_=2):
                xs = I.tolist(it)
                return tuple(GenV(list(xs)) for _ in range(n_))
            N("tee", tee)

            def batched(it, k):
                xs = I.tolist(it)
                return GenV([tuple(xs[q:q + k]) for q in range(0, len(xs), k)])
            N("batched", batched)
        elif n == "copy":
            N("copy", self.copy_)
            N("deepcopy", lambda x, memo=None: self.deepcopy_(x, {}))
        elif n == "warnings":
            N("warn", lambda *a, **k: None)
            N("filterwarnings", lambda *a, **k: None)
            N("simplefilter", lambda *a, **k: None)
        elif n == "collections":
            d["OrderedDict"] = self._b["dict"]
            N("defaultdict", lambda f=None, *a, **kw: self.mkdefault(f, *a, **kw))
            N("deque", lambda it=(), maxlen=None: list(I.tolist(it)) if maxlen is None else _unsup("deque with maxlen"))

            def namedtuple(name, fields, *, rename=False, defaults=(), module=None):
                fs = fields.replace(",", " ").split() if isinstance(fields, str) else I.tolist(fields)
                dv = I.tolist(defaults or ())
                return self.ntuple(name, fs, dict(zip(fs[len(fs) - len(dv):], dv)))
            N("namedtuple", namedtuple)
        elif n == "contextlib":
            N("nullcontext", lambda enter_result=None: NullCtx(enter_result))
            self.prelude(m, PRE_CONTEXTLIB)
        elif n == "dataclasses":
            def dataclass(c=None, **k):
                if c is None:
                    return Native(lambda q: self.dataclass_(q, **k), "dataclass")
                return self.dataclass_(c, **k)
            N("dataclass", dataclass)
            N("field", lambda default=_MISS, default_factory=None, init=True, compare=True, kw_only=False, **k: DField(default, default_factory, init, compare, kw_only))
            N("fields", lambda o: _unsup("dataclasses.fields"))
            N("asdict", lambda o: _unsup("dataclasses.asdict"))

            def replace(o, **k):
                fs = o.cls.lookup("__dataclass_fields__")[1]
                return I.call(o.cls, [], {**{q: o.attrs[q] for q, f in fs.items() if f.init}, **k})
            N("replace", replace)
        elif n == "enum":
            d["Enum"] = ClsV("Enum", [self._b["object"]], {}, native=True)
            N("auto", lambda: Unknown("enum.auto()"))
            N("unique", lambda c: c)
        elif n == "types":
            self.prelude(m, PRE_TYPES)
            N("MethodType", lambda f, o: ip.Bound(f, o))
            N("MappingProxyType", lambda q: q)
        elif n == "abc":
            def mark(f):
                g = f
                while isinstance(g, (Wrapped, StaticM, ClassM, PropV, ip.CachedP)):
                    g = g.f
                if isinstance(g, FuncV):
                    g.attrs["__isabstractmethod__"] = True
                return f
            N("abstractmethod", mark)
            d["ABC"] = ClsV("ABC", [self._b["object"]], {}, native=True)
        elif n == "typing":
            N("cast", lambda t, v: v)
            N("overload", lambda f: f)
            N("no_type_check", lambda f: f)
            N("TypeVar", lambda *a, **k: Unknown("typing.TypeVar"))
            d["TYPE_CHECKING"] = False
        elif n == "weakref":
            N("ref", lambda o, cb=None: Native(lambda: o, "ref"))
            N("WeakKeyDictionary", lambda *a: {})
            N("WeakValueDictionary", lambda *a: {})
            N("proxy", lambda o: o)
        elif n == "functorch":
            d["vmap"] = self.vmap_native
        elif n == "logging":
            lg = Obj(ClsV("Logger", [self._b["object"]], {k: Native(lambda *a, **q: None, k) for k in ("debug", "info", "warning", "error")}, native=True))
            N("getLogger", lambda *a: lg)

    def hkey(self, x):
        if isinstance(x, (int, float, str, bool, Poly)) or x is None:
            return x
        if isinstance(x, tuple):
            return tuple(self.hkey(y) for y in x)
        if isinstance(x, (T, Obj)):
            return self.id_(x)
        if isinstance(x, (list, dict)):
            err(TypeError, "unhashable type")
        return id(x)

    def mkdefault(self, f, *a, **kw):
        if f is None:
            return self.mkdict(*a, **kw)

        class DD(dict):
            def __missing__(s, k):
                s[k] = self.I.call(f, [], {})
                return s[k]
        d = DD()
        d.update(self.mkdict(*a, **kw))
        return d

    def cached_property(self, f):
        return CachedP(f, f.name if isinstance(f, FuncV) else None)

    def reduce_(self, f, it, *init):
        xs = self.I.tolist(it)
        r = init[0] if init else xs.pop(0)
        for x in xs:
            r = self.I.call(f, [r, x], {})
        return r

    def accumulate_(self, it, f=None, initial=None):
        xs = self.I.tolist(it)
        out = []
        r = initial
        if r is not None:
            out.append(r)
        for x in xs:
            r = x if r is None else (self.I.binop("Add", r, x) if f is None else self.I.call(f, [r, x], {}))
            out.append(r)
        return GenV(out)

    def copy_(self, x):
        if isinstance(x, T):
            return x
        if isinstance(x, Obj):
            o = Obj(x.cls)
            o.attrs = dict(x.attrs)
            for k in ("_parameters", "_modules", "_buffers"):
                if k in o.attrs:
                    o.attrs[k] = dict(o.attrs[k])
            return o
        if isinstance(x, (list, dict, set)):
            return type(x)(x)
        return x

    def deepcopy_(self, x, memo):
        k = id(x)
        if k in memo:
            return memo[k]
        if isinstance(x, T):
            if x.rg and not x.leaf and not x.is_param:
                err(RuntimeError, "Only Tensors created explicitly by the user (graph leaves) support the deepcopy protocol at the moment.")
            r = T(x.shape, lambda i: x.at(i), x.dtype, x.device)
            r.rg, r.is_param, r.name, r.leaf = x.rg, x.is_param, x.name, x.leaf
        elif isinstance(x, Obj) and x.cls.lookup("__deepcopy__")[1] is not None:
            r = self.I.call(self.I.getattr(x, "__deepcopy__"), [memo], {})
        elif isinstance(x, Obj):
            for n in ("__reduce__", "__reduce_ex__", "__getstate__", "__setstate__", "__getnewargs__"):
                if x.cls.lookup(n)[1] is not None:
                    raise Unsupported(f"copy of an object that defines {n}")
            r = Obj(x.cls)
            memo[k] = r
            r.attrs = {a: self.deepcopy_(v, memo) for a, v in x.attrs.items()}
        elif isinstance(x, Size):
            r = x
        elif isinstance(x, list):
            r = []
            memo[k] = r
            r.extend(self.deepcopy_(v, memo) for v in x)
        elif isinstance(x, tuple):
            r = type(x)(self.deepcopy_(v, memo) for v in x)
        elif isinstance(x, dict):
            r = {a: self.deepcopy_(v, memo) for a, v in x.items()}
        elif isinstance(x, Bound):
            r = Bound(x.f, self.deepcopy_(x.self_, memo))
        else:
            r = x
        memo[k] = r
        memo.setdefault("keep", []).append(x)
        return r

    # --- torch -----------------------------------------------------------------------------------------
    def _build_torch(self):
        I = self.I
        obj = self._b["object"]
        t = ModuleV("torch", {})
        self.mods["torch"] = t
        d = t.d
        for n, s in DTN.items():
            d[n] = DT(s)
        self.tensor_cls = ClsV("Tensor", [obj], {"__new_native__": lambda *a: (_ for _ in ()).throw(Unsupported("torch.Tensor()"))}, native=True, pytype=T)
        d["Tensor"] = self.tensor_cls
        d["FloatTensor"] = Unknown("torch.FloatTensor")
        d["Size"] = ClsV("Size", [obj], {"__new_native__": lambda x=(): Size(I.tolist(x))}, native=True, pytype=Size)
        d["device"] = ClsV("device", [obj], {"__new_native__": lambda *a: Dev(a[0])}, native=True, pytype=Dev)
        d["dtype"] = ClsV("dtype", [obj], {}, native=True, pytype=DT)
        d["strided"] = Unknown("torch.strided")
        d["contiguous_format"] = Unknown("torch.contiguous_format")
        d["preserve_format"] = Unknown("torch.preserve_format")
        d["inf"], d["pi"], d["nan"], d["e"] = math.inf, math.pi, math.nan, math.e

        def gm(mode):
            def f(*a):
                if len(a) == 1 and isinstance(a[0], (FuncV, Wrapped, Native)):
                    return Wrapped(a[0], mode)
                if len(a) == 1 and isinstance(a[0], bool) and mode is False:
                    return GradMode(not a[0])
                return GradMode(mode)
            return Native(f, "grad_mode")
        d["no_grad"] = gm(False)
        d["enable_grad"] = gm(True)
        d["inference_mode"] = gm(False)
        d["set_grad_enabled"] = Native(lambda b: GradMode(bool(b)), "set_grad_enabled")

        def finfo(x=None):
            o = Obj(ClsV("finfo", [obj], {}, native=True))
            nm = dt(x) or "f32"
            o.attrs.update({"eps": {"f16": 2 ** -10, "bf16": 2 ** -7, "f32": 2 ** -23, "f64": 2 ** -52}[nm],
                            "tiny": 1e-38, "max": 3.4e38, "min": -3.4e38, "smallest_normal": 1e-38})
            return o
        d["finfo"] = Native(finfo, "finfo")

        def mod(name, entries, parent):
            m = ModuleV(f"{parent.name}.{name}", {})
            for k, v in entries.items():
                m.d[k] = v if not callable(v) or isinstance(v, (ClsV, Native, ModuleV, Unknown)) else Native(v, f"{m.name}.{k}")
            parent.d[name] = m
            self.mods[m.name] = m
            return m

        self.vmap_native = Native(self.vmap, "vmap")
        d["vmap"] = self.vmap_native
        mod("func", {"vmap": self.vmap_native}, t)
        mod("linalg", {"cholesky": la_cholesky, "inv": la_inv, "solve": la_solve, "norm": _vnorm, "vector_norm": _vnorm,
                       "pinv": la_pinv, "multi_dot": la_multi_dot, "matmul": tz.matmul, "diagonal": lambda t_, offset=0, dim1=-2, dim2=-1: tz.diagonal(t_, offset, dim1, dim2)}, t)
        mod("special", {"expit": METH["sigmoid"], "logsumexp": METH["logsumexp"], "softmax": METH["softmax"],
                        "log_softmax": METH["log_softmax"]}, t)
        fcls = ClsV("Function", [obj], {}, native=True)
        ap = Native(self.fn_apply, "Function.apply")
        ap.clsmethod = True
        fcls.d["apply"] = ap
        ag = mod("autograd", {"Function": fcls}, t)
        mod("function", {"Function": fcls, "once_differentiable": lambda f: f}, ag)
        cuda = mod("cuda", {"is_available": lambda: False}, t)
        amp = mod("amp", {"custom_fwd": self.custom_fwd, "custom_bwd": self.custom_fwd}, cuda)
        mod("amp", {"custom_fwd": self.custom_fwd, "custom_bwd": self.custom_fwd}, t)
        mod("_C", {}, t)
        mod("jit", {"ignore": lambda f: f, "unused": lambda f: f, "export": lambda f: f, "is_scripting": lambda: False}, t)
        mod("testing", {}, t)
        nn = mod("nn", {}, t)
        F = mod("functional", {k: v for k, v in FF.items()}, nn)
        nn.d["grad"] = ModuleV("torch.nn.grad", {"conv2d_input": Native(g_conv2d_input), "conv2d_weight": Native(g_conv2d_weight)})
        self.mods["torch.nn.grad"] = nn.d["grad"]
        utils = mod("utils", {"parameters_to_vector": self.p2v, "vector_to_parameters": self.v2p}, nn)
        mod("convert_parameters", {"parameters_to_vector": self.p2v, "vector_to_parameters": self.v2p}, utils)
        mod("init", {k: (lambda t_, *a, **q: t_) for k in ("kaiming_uniform_", "xavier_uniform_", "normal_", "uniform_", "kaiming_normal_", "xavier_normal_")}, nn)
        self._build_nn(nn)
        mod("modules", dict(nn.d), nn)
        mod("parameter", {"Parameter": self.param_cls}, nn)
        d["relu"] = Native(f_relu)
        d["conv2d"] = Native(f_conv2d)
        d["conv_transpose2d"] = Native(f_conv_transpose2d)
        d["max_pool2d"] = Native(f_max_pool2d)
        torchmore.install(self, t, mod)

    def custom_fwd(self, *a, **k):
        if a and isinstance(a[0], (FuncV, Wrapped, Native, StaticM)):
            return a[0]
        return Native(lambda f: f, "custom_fwd")

    def fn_apply(self, cls, *args):
        I = self.I
        c = ctx()
        saved = []
        obj = self._b["object"]
        if not hasattr(self, "_fctx"):
            def save(o, *ts):
                o.attrs["saved_tensors"] = tuple(ts)
            self._fctx = ClsV("FunctionCtx", [obj], {
                "save_for_backward": Native(save, "save_for_backward", binds=True),
                "mark_non_differentiable": Native(lambda o, *a: None, "mnd", binds=True),
                "set_materialize_grads": Native(lambda o, *a: None, "smg", binds=True),
                "mark_dirty": Native(lambda o, *a: None, "md", binds=True)}, native=True)
        fc = Obj(self._fctx)
        fc.attrs["needs_input_grad"] = tuple(isinstance(a, T) and a.rg for a in args)
        fc.attrs["saved_tensors"] = ()
        old = c.grad
        c.grad = False
        try:
            _, fwd = cls.lookup("forward")
            out = I.call(fwd.f if isinstance(fwd, StaticM) else fwd, [fc] + list(args), {})
            if not isinstance(out, T):
                raise Unsupported("autograd Function with several outputs")
            _, bwd = cls.lookup("backward")
            g = f"$grad{T._id}"
            gt = tz.sym(g, out.shape, dtype=out.dtype, device=out.device, plain=True)
            try:
                gin = I.call(bwd.f if isinstance(bwd, StaticM) else bwd, [fc, gt], {})
            except PyErr as e:
                gin = None
        finally:
            c.grad = old
        gin = gin if isinstance(gin, (tuple, list)) else (gin,)
        lin = []
        for a, gi in zip(args, gin):
            if isinstance(a, T) and isinstance(gi, T):
                lin.append((a, gi))
        rg = c.grad and any(isinstance(a, T) and a.rg for a in args)

        def f(i):
            parts = []
            for a, gi in lin:
                if len(a.shape) != len(i):
                    return E("cust", out.at(i), ((N0, E("num", float("nan"))),)) if False else _unsup("non elementwise autograd Function")
                e = gi.at(i)
                for nm, idx in accs(e):
                    if nm == g and tuple(idx) != tuple(topoly(p) for p in i):
                        _unsup("non elementwise autograd Function")
                parts.append((a.at(i), diff(e, g, list(i))))
            return E("cust", out.at(i), tuple(parts))
        return T(out.shape, f, out.dtype, out.device, rg)

    def vmap(self, f, in_dims=0, out_dims=0, randomness="error", chunk_size=None):
        I = self.I

        def g(*args, **kw):
            ind_ = in_dims if isinstance(in_dims, (list, tuple)) else [in_dims] * len(args)
            size = None
            for a, k in zip(args, ind_):
                if k is not None and isinstance(a, T):
                    n = a.shape[tz.axis(a, k)]
                    if size is None:
                        size = n
                    elif size != n:
                        tz.require_eq(size, n, "vmap")
            if size is None:
                err(ValueError, "vmap: no batched argument")
            v = newvar(size, "B")
            new = []
            for a, k in zip(args, ind_):
                if k is None or not isinstance(a, T):
                    new.append(a)
                    continue
                d = tz.axis(a, k)
                tv = tz.view(a, a.shape[:d] + a.shape[d + 1:], lambda i, d=d: i[:d] + [V(v)] + i[d:], None, contig=a.contig and d == 0,
                             lay=tz.strides(a) and tz.strides(a)[:d] + tz.strides(a)[d + 1:])
                new.append(tv)
            ctx().vmapped = getattr(ctx(), "vmapped", 0) + 1
            ctx().vsizes.append(size)
            try:
                r = I.call(f, new, kw)
            finally:
                ctx().vmapped -= 1
                ctx().vsizes.pop()

            def back(x, od):
                if isinstance(x, (list, tuple)):
                    return type(x)(back(y, od[k] if isinstance(od, (list, tuple)) else od) for k, y in enumerate(x))
                if not isinstance(x, T):
                    raise Unsupported("vmap of a non tensor result")
                k = concrete(od) % (len(x.shape) + 1)
                sh = list(x.shape[:k]) + [size] + list(x.shape[k:])
                return mk(sh, lambda i: subst(x.at(i[:k] + i[k + 1:]), {v: i[k]}), ins=[x])
            return back(r, out_dims)
        return Native(g, "vmapped")

    def p2v(self, params):
        ps = self.I.tolist(params)
        if not ps:
            err(RuntimeError, "torch.cat(): expected a non-empty list of Tensors")
        return tz.cat([tz.reshape(p, [-1]) for p in ps], 0)

    def v2p(self, vec, params):
        if not isinstance(vec, T):
            err(TypeError, "expected torch.Tensor")
        ps = self.I.tolist(params)
        p0 = ZERO
        for p in ps:
            n = tz.numel(p)
            sl = tz.getitem(vec, slice(p0, p0 + n))
            p.set_data(_detach(tz.reshape(sl, p.shape, must_view=True)))
            p0 = p0 + n

    # --- nn ---------------------------------------------------------------------------------------------
    def new_param(self, shape, hint):
        c = ctx()
        c.nparam = getattr(c, "nparam", 0) + 1
        name = f"P{c.nparam}{hint}{[repr(topoly(s)) for s in shape]}"
        p = tz.sym(name, shape, dtype=c.default_dtype, plain=True)
        p.is_param, p.rg, p.name = True, True, name
        return p

    def _build_nn(self, nn):
        I = self.I
        obj = self._b["object"]
        M = ClsV("Module", [obj], {}, native=True)
        nn.d["Module"] = M

        def bm(name, f):
            M.d[name] = Native(f, f"Module.{name}", binds=True)

        def init(self_, *a, **k):
            if a or k:
                err(TypeError, f"{self_.cls.name}.__init__() takes 1 positional argument")
            minit(self_)

        def minit(self_):
            if "_parameters" not in self_.attrs:
                self_.attrs.update({"_parameters": {}, "_modules": {}, "_buffers": {}, "_forward_hooks": {},
                                    "_forward_pre_hooks": {}, "training": True})
        self.minit = minit

        def super_init(self_, cls):
            """Module.__init__ does not call super().__init__ of mixins"""

        bm("__init__", init)

        def call(self_, *a, **k):
            pre = self_.attrs.get("_forward_pre_hooks", {})
            for h in list(pre.values()):
                r = I.call(h, [self_, tuple(a)], {})
                if r is not None:
                    a = r if isinstance(r, tuple) else (r,)
            out = I.call(I.getattr(self_, "forward"), list(a), k)
            for h in list(self_.attrs.get("_forward_hooks", {}).values()):
                r = I.call(h, [self_, tuple(a), out], {})
                if r is not None:
                    out = r
            return out
        bm("__call__", call)
        bm("forward", lambda s, *a, **k: err(NotImplementedError, "forward"))

        def named_modules(s, prefix="", seen=None):
            seen = set() if seen is None else seen
            if s.oid in seen:
                return []
            seen.add(s.oid)
            out = [(prefix, s)]
            for k, m_ in s.attrs.get("_modules", {}).items():
                if m_ is not None:
                    out += named_modules(m_, prefix + ("." if prefix else "") + k, seen)
            return out

        def named_params(s, prefix="", recurse=True, remove_duplicate=True):
            out, seen = [], set()
            for nm, m_ in (named_modules(s) if recurse else [("", s)]):
                for k, p in m_.attrs.get("_parameters", {}).items():
                    if p is not None and p.id not in seen:
                        seen.add(p.id)
                        out.append((nm + ("." if nm else "") + k, p))
            return out
        self.named_params, self.named_modules = named_params, named_modules
        bm("named_parameters", lambda s, prefix="", recurse=True, remove_duplicate=True: GenV(named_params(s, recurse=recurse)))
        bm("parameters", lambda s, recurse=True: GenV([p for _, p in named_params(s, recurse=recurse)]))
        bm("named_modules", lambda s, *a, **k: GenV(named_modules(s)))
        bm("modules", lambda s: GenV([m_ for _, m_ in named_modules(s)]))
        bm("children", lambda s: GenV([m_ for m_ in s.attrs["_modules"].values() if m_ is not None]))
        bm("named_children", lambda s: GenV([(k, m_) for k, m_ in s.attrs["_modules"].items() if m_ is not None]))
        bm("buffers", lambda s, recurse=True: GenV([b for _, m_ in named_modules(s) for b in m_.attrs.get("_buffers", {}).values() if b is not None]))

        def named_buffers(s, *a, **k):
            return GenV([(nm + ("." if nm else "") + k_, b) for nm, m_ in named_modules(s) for k_, b in m_.attrs.get("_buffers", {}).items() if b is not None])
        bm("named_buffers", named_buffers)

        def register_parameter(s, name, p):
            s.attrs["_parameters"][name] = p
        bm("register_parameter", register_parameter)

        def register_buffer(s, name, t_, persistent=True):
            s.attrs["_buffers"][name] = t_
            np_ = s.attrs.setdefault("_non_persistent_buffers_set", set())
            if persistent:
                np_.discard(name)
            else:
                np_.add(name)
        bm("register_buffer", register_buffer)

        def add_module(s, name, m_):
            s.attrs["_modules"][name] = m_
        bm("add_module", add_module)
        bm("register_module", add_module)

        handle_cls = ClsV("RemovableHandle", [obj], {"remove": Native(lambda s: s.attrs["d"].pop(s.attrs["k"], None), "remove", binds=True)}, native=True)

        def reg(which):
            def f(s, hook, **k):
                if k.get("with_kwargs") or k.get("always_call"):
                    raise Unsupported("hook options")
                dd = s.attrs[which]
                key = len(dd) + 1000 * ctx().steps
                dd[key] = hook
                h = Obj(handle_cls)
                h.attrs.update(d=dd, k=key)
                return h
            return f
        bm("register_forward_hook", reg("_forward_hooks"))
        bm("register_forward_pre_hook", reg("_forward_pre_hooks"))
        bm("register_full_backward_hook", lambda s, *a, **k: _unsup("backward hook"))

        def train(s, mode=True):
            for _, m_ in named_modules(s):
                m_.attrs["training"] = mode
            return s
        bm("train", train)
        bm("eval", lambda s: train(s, False))
        bm("zero_grad", lambda s, set_to_none=True: None)
        bm("extra_repr", lambda s: "")
        bm("_get_name", lambda s: s.cls.name)

        def rg_(s, requires_grad=True):
            for _, p in named_params(s):
                p.rg = bool(requires_grad)
            return s
        bm("requires_grad_", rg_)

        def convert(s, dtype=None, device=None):
            for _, m_ in named_modules(s):
                for reg_ in ("_parameters", "_buffers"):
                    for k, p in m_.attrs.get(reg_, {}).items():
                        if p is not None and p.dtype in FLOATS:
                            src = T(p.shape, lambda i, p=p: p.at(i), dtype or p.dtype, device or p.device)
                            if (src.dtype, src.device) != (p.dtype, p.device):
                                p.set_data(src)
            return s
        self.convert = convert

        def to(s, *a, **k):
            d_, v_ = k.get("dtype"), k.get("device")
            for x in a:
                if isinstance(x, DT):
                    d_ = x
                elif isinstance(x, (Dev, str)):
                    v_ = x
                elif isinstance(x, T):
                    d_, v_ = DT(x.dtype), Dev(x.device)
            return convert(s, dt(d_), dev(v_) if v_ is not None else None)
        bm("to", to)
        bm("float", lambda s: convert(s, "f32"))
        bm("double", lambda s: convert(s, "f64"))
        bm("half", lambda s: convert(s, "f16"))
        bm("bfloat16", lambda s: convert(s, "bf16"))
        bm("cpu", lambda s: convert(s, None, "cpu"))

        def apply(s, f):
            for _, m_ in reversed(named_modules(s)):
                I.call(f, [m_], {})
            return s
        bm("apply", apply)

        def state(s):
            out = []
            for nm, m_ in named_modules(s):
                pre = nm + ("." if nm else "")
                np_ = m_.attrs.get("_non_persistent_buffers_set", set())
                out += [(pre + k_, p) for k_, p in m_.attrs.get("_parameters", {}).items() if p is not None]
                out += [(pre + k_, b) for k_, b in m_.attrs.get("_buffers", {}).items() if b is not None and k_ not in np_]
            return out

        def state_dict(s, *a, **k):
            if a or k:
                raise Unsupported("state_dict options")
            return {n_: _detach(p) for n_, p in state(s)}
        bm("state_dict", state_dict)

        def load_sd(s, sd, strict=True, assign=False):
            ps = dict(state(s))
            if strict and set(ps) != set(sd):
                err(RuntimeError, "Error(s) in loading state_dict")
            for n_, p in ps.items():
                if n_ in sd:
                    src = sd[n_]
                    if len(src.shape) != len(p.shape):
                        err(RuntimeError, "size mismatch")
                    g = ctx().grad
                    ctx().grad = False
                    try:
                        _copy_(p, src)
                    finally:
                        ctx().grad = g
        bm("load_state_dict", load_sd)

        def getp(s, name):
            return dict(named_params(s))[name]
        bm("get_parameter", getp)
        bm("get_submodule", lambda s, n_: dict(named_modules(s))[n_])

        # Parameter
        def newp(data=None, requires_grad=True):
            if not isinstance(data, T):
                raise Unsupported("Parameter()")
            p = T(data.shape, None, data.dtype, data.device)
            p._vars = tuple(newvar(x) for x in data.shape)
            p.parent = data
            p._rd, p._wr, p._pv = (lambda i: list(i)), (lambda k: (TRUE, list(k))), None
            p.storage = data.storage
            p.is_param, p.rg = True, bool(requires_grad)
            return p
        self.param_cls = ClsV("Parameter", [self.tensor_cls], {"__new_native__": newp}, native=True)
        nn.d["Parameter"] = self.param_cls

        def layer(name, bases, init_, fwd, extra=None):
            c = ClsV(name, bases, {}, native=True)
            c.d["__init__"] = Native(init_, f"{name}.__init__", binds=True)
            if fwd is not None:
                c.d["forward"] = Native(fwd, f"{name}.forward", binds=True)
            for k, v in (extra or {}).items():
                c.d[k] = Native(v, f"{name}.{k}", binds=True)
            nn.d[name] = c
            return c

        def fkw(device, dtype):
            return {}

        def place(p, device, dtype):
            if dtype is not None:
                p.dtype = dt(dtype)
            if device is not None:
                p.device = dev(device)
            return p

        def lin_init(s, in_features, out_features, bias=True, device=None, dtype=None):
            minit(s)
            I.setattr(s, "in_features", in_features)
            I.setattr(s, "out_features", out_features)
            I.setattr(s, "weight", place(self.new_param([out_features, in_features], "W"), device, dtype))
            if I.truth(bias):
                I.setattr(s, "bias", place(self.new_param([out_features], "b"), device, dtype))
            else:
                register_parameter(s, "bias", None)

        A = I.getattr
        layer("Linear", [M], lin_init, lambda s, input: f_linear(input, A(s, "weight"), A(s, "bias")))

        def pair_(x):
            if isinstance(x, (list, tuple)):
                return tuple(x) if len(x) != 1 else (x[0], x[0])
            return (x, x)

        def conv_init(s, in_channels, out_channels, kernel_size, stride=1, padding=0, dilation=1, groups=1, bias=True,
                      padding_mode="zeros", device=None, dtype=None):
            minit(s)
            g = topoly(groups)
            if not ge0(g - 1) and not ctx().decide(cge(g - 1), "dim"):
                err(ValueError, "groups must be a positive integer")
            ing = exact_div(topoly(in_channels), g)
            if ing is None or exact_div(topoly(out_channels), g) is None:
                err(ValueError, "in_channels must be divisible by groups")
            if padding_mode not in ("zeros", "reflect", "replicate", "circular"):
                err(ValueError, "padding_mode must be one of ...")
            if isinstance(padding, str) and padding not in ("same", "valid"):
                err(ValueError, "Invalid padding string")
            if padding == "same" and any(x != 1 for x in pair_(stride)):
                err(ValueError, "padding='same' is not supported for strided convolutions")
            for k, v in dict(in_channels=in_channels, out_channels=out_channels, kernel_size=pair_(kernel_size),
                             stride=pair_(stride), padding=padding if isinstance(padding, str) else pair_(padding),
                             dilation=pair_(dilation), groups=groups, padding_mode=padding_mode, transposed=False,
                             output_padding=(0, 0)).items():
                I.setattr(s, k, v)
            kh, kw = pair_(kernel_size)
            I.setattr(s, "weight", place(self.new_param([out_channels, ing, kh, kw], "K"), device, dtype))
            if I.truth(bias):
                I.setattr(s, "bias", place(self.new_param([out_channels], "b"), device, dtype))
            else:
                register_parameter(s, "bias", None)

        def conv_fwd2(s, input, weight, bias):
            if A(s, "padding_mode") != "zeros":
                p = A(s, "padding")
                if isinstance(p, str):
                    raise Unsupported("string padding with padding mode")
                x = f_pad(input, [p[1], p[1], p[0], p[0]], mode=A(s, "padding_mode"))
                return tz.conv2d(x, weight, bias, A(s, "stride"), (0, 0), A(s, "dilation"), A(s, "groups"))
            return tz.conv2d(input, weight, bias, A(s, "stride"), A(s, "padding"), A(s, "dilation"), A(s, "groups"))

        layer("Conv2d", [M], conv_init,
              lambda s, input: I.call(A(s, "_conv_forward"), [input, A(s, "weight"), A(s, "bias")], {}),
              {"_conv_forward": conv_fwd2})

        def pool_init(s, kernel_size, stride=None, padding=0, dilation=1, return_indices=False, ceil_mode=False):
            minit(s)
            for k, v in dict(kernel_size=kernel_size, stride=stride if stride is not None else kernel_size,
                             padding=padding, dilation=dilation, return_indices=return_indices, ceil_mode=ceil_mode).items():
                I.setattr(s, k, v)
        layer("MaxPool2d", [M], pool_init, lambda s, input: tz.max_pool2d(
            input, A(s, "kernel_size"), A(s, "stride"), A(s, "padding"), A(s, "dilation"), A(s, "ceil_mode"), A(s, "return_indices")))

        def avg_init(s, kernel_size, stride=None, padding=0, ceil_mode=False, count_include_pad=True, divisor_override=None):
            minit(s)
            for k, v in dict(kernel_size=kernel_size, stride=stride if stride is not None else kernel_size, padding=padding,
                             ceil_mode=ceil_mode, count_include_pad=count_include_pad, divisor_override=divisor_override).items():
                I.setattr(s, k, v)
        layer("AvgPool2d", [M], avg_init, lambda s, input: f_avg_pool2d(input, A(s, "kernel_size"), A(s, "stride"), A(s, "padding"), A(s, "ceil_mode")))

        def tofl(x):
            return self._b["float"].d["__new_native__"](x)

        def up_init(s, size=None, scale_factor=None, mode="nearest", align_corners=None, recompute_scale_factor=None):
            minit(s)
            I.setattr(s, "size", size)
            if isinstance(scale_factor, (list, tuple)):
                sf = tuple(tofl(x) for x in scale_factor)
            else:
                sf = tofl(scale_factor) if scale_factor is not None and (not isinstance(scale_factor, (int, float)) or scale_factor) else None
            for k, v in dict(name="Upsample", scale_factor=sf, mode=mode, align_corners=align_corners,
                             recompute_scale_factor=recompute_scale_factor).items():
                I.setattr(s, k, v)
        layer("Upsample", [M], up_init, lambda s, input: f_interpolate(input, A(s, "size"), A(s, "scale_factor"), A(s, "mode"), A(s, "align_corners")))
        nn.d["UpsamplingNearest2d"] = ClsV("UpsamplingNearest2d", [nn.d["Upsample"]], {"__init__": Native(
            lambda s, size=None, scale_factor=None: up_init(s, size, scale_factor, "nearest"), binds=True)}, native=True)

        def fl_init(s, start_dim=1, end_dim=-1):
            minit(s)
            I.setattr(s, "start_dim", start_dim)
            I.setattr(s, "end_dim", end_dim)
        layer("Flatten", [M], fl_init, lambda s, input: tz.flatten(input, A(s, "start_dim"), A(s, "end_dim")))

        def unfl_init(s, dim, unflattened_size):
            minit(s)
            I.setattr(s, "dim", dim)
            I.setattr(s, "unflattened_size", unflattened_size)
        layer("Unflatten", [M], unfl_init, lambda s, input: unflatten(input, A(s, "dim"), A(s, "unflattened_size")))

        def noarg(s, *a, **k):
            if a or k:
                err(TypeError, "unexpected argument")
            minit(s)

        def noarg_any(s, *a, **k):
            minit(s)

        layer("Tanh", [M], noarg, lambda s, input: METH["tanh"](input))
        layer("Sigmoid", [M], noarg, lambda s, input: METH["sigmoid"](input))
        layer("SiLU", [M], lambda s, inplace=False: minit(s), lambda s, input: f_silu(input))
        layer("Identity", [M], noarg_any, lambda s, input: input)
        layer("LogSigmoid", [M], noarg, lambda s, input: f_logsigmoid(input))

        def relu_init(s, inplace=False):
            minit(s)
            I.setattr(s, "inplace", inplace)
        layer("ReLU", [M], relu_init, lambda s, input: f_relu(input, A(s, "inplace")))

        def lr_init(s, negative_slope=0.01, inplace=False):
            minit(s)
            I.setattr(s, "negative_slope", negative_slope)
            I.setattr(s, "inplace", inplace)
        layer("LeakyReLU", [M], lr_init, lambda s, input: f_leaky(input, A(s, "negative_slope")))

        def elu_init(s, alpha=1.0, inplace=False):
            minit(s)
            I.setattr(s, "alpha", alpha)
        layer("ELU", [M], elu_init, lambda s, input: f_elu(input, A(s, "alpha")))

        def sp_init(s, beta=1.0, threshold=20.0):
            minit(s)
            I.setattr(s, "beta", beta)
            I.setattr(s, "threshold", threshold)
        layer("Softplus", [M], sp_init, lambda s, input: f_softplus(input, A(s, "beta"), A(s, "threshold")))

        def sm_init(s, dim=None):
            minit(s)
            I.setattr(s, "dim", dim)
        layer("Softmax", [M], sm_init, lambda s, input: _softmax(input, A(s, "dim")))
        for nm in ("Dropout", "Dropout2d", "BatchNorm1d", "BatchNorm2d", "LayerNorm", "GELU", "AdaptiveAvgPool2d", "AdaptiveMaxPool2d", "Tanhshrink", "Dropout1d", "AlphaDropout", "Mish", "Hardswish", "Hardsigmoid", "ReLU6", "CELU", "SELU", "Softmin", "LogSoftmax",
                   "InstanceNorm2d", "PixelShuffle", "ZeroPad2d", "FractionalMaxPool2d", "LazyLinear", "Embedding", "GroupNorm", "Hardtanh", "Bilinear", "Softsign"):
            def other(s, *a, nm=nm, **k):
                # some function of the input that no layer of the package computes
                x = a[0]
                an = tz.opname("other" + nm, tz.tkey(x))
                return tz.sym(an, x.shape, dtype=x.dtype, device=x.device, rg=x.rg, plain=True)
            layer(nm, [M], noarg_any, other)

        def unlike(nm):
            def f(s, x):
                # some function of the input that no layer of the package computes
                an = tz.opname("other" + nm, tz.tkey(x))
                return tz.sym(an, x.shape, dtype=x.dtype, device=x.device, rg=x.rg, plain=True)
            return f

        def conv_nd(nm, n):
            def init(s, in_channels, out_channels, kernel_size, stride=1, padding=0, output_padding=0, groups=1, bias=True, dilation=1, padding_mode="zeros", device=None, dtype=None):
                minit(s)
                t = lambda v: tuple(v) if isinstance(v, (list, tuple)) else (v,) * n
                for k, v in dict(in_channels=in_channels, out_channels=out_channels, kernel_size=t(kernel_size), stride=t(stride), padding=padding if isinstance(padding, str) else t(padding),
                                 dilation=t(dilation), groups=groups, padding_mode=padding_mode, transposed="Transpose" in nm, output_padding=t(output_padding)).items():
                    I.setattr(s, k, v)
                a, b = (in_channels, out_channels) if "Transpose" in nm else (out_channels, in_channels)
                I.setattr(s, "weight", place(self.new_param([a, b, *t(kernel_size)], "K"), device, dtype))
                if I.truth(bias):
                    I.setattr(s, "bias", place(self.new_param([out_channels], "b"), device, dtype))
                else:
                    register_parameter(s, "bias", None)
            layer(nm, [M], init, unlike(nm))
        for nm, n in (("Conv1d", 1), ("Conv3d", 3), ("ConvTranspose1d", 1), ("ConvTranspose2d", 2)):
            conv_nd(nm, n)

        def pool1(s, input):
            k, st, pd, dl = ((v[0] if isinstance(v, (list, tuple)) else v) for v in (A(s, "kernel_size"), A(s, "stride"), A(s, "padding"), A(s, "dilation")))
            d = len(input.shape) - 1
            r = tz.max_pool2d(METH["unsqueeze"](input, d), (1, k), (1, st), (0, pd), (1, dl), A(s, "ceil_mode"), False)
            return METH["squeeze"](r, d)
        layer("MaxPool1d", [M], pool_init, pool1)
        layer("MaxPool3d", [M], pool_init, unlike("MaxPool3d"))
        layer("AvgPool1d", [M], avg_init, unlike("AvgPool1d"))
        layer("AvgPool3d", [M], avg_init, unlike("AvgPool3d"))

        def lp_init(s, norm_type, kernel_size, stride=None, ceil_mode=False):
            minit(s)
            for k, v in dict(norm_type=norm_type, kernel_size=kernel_size, stride=stride, ceil_mode=ceil_mode).items():
                I.setattr(s, k, v)
        layer("LPPool2d", [M], lp_init, unlike("LPPool2d"))
        layer("LPPool1d", [M], lp_init, unlike("LPPool1d"))
        nn.d["UpsamplingBilinear2d"] = ClsV("UpsamplingBilinear2d", [nn.d["Upsample"]], {"__init__": Native(
            lambda s, size=None, scale_factor=None: up_init(s, size, scale_factor, "bilinear", align_corners=True), binds=True)}, native=True)

        def seq_init(s, *args):
            minit(s)
            if len(args) == 1 and isinstance(args[0], dict):
                for k, v in args[0].items():
                    add_module(s, k, v)
            else:
                for k, v in enumerate(args):
                    if not is_module_obj(v):
                        err(TypeError, f"{v!r} is not a Module subclass")
                    add_module(s, str(k), v)

        def seq_fwd(s, input):
            for m_ in s.attrs["_modules"].values():
                input = I.call(m_, [input], {})
            return input

        def cut(k):
            f = lambda x: None if x is None else concrete(x)
            return slice(f(k.start), f(k.stop), f(k.step))

        def seq_key(s, k):
            ks = list(s.attrs["_modules"])
            k = concrete(k)
            if not -len(ks) <= k < len(ks):
                err(IndexError, f"index {k} is out of range")
            return ks[k]

        def seq_get(s, k):
            if isinstance(k, slice):
                return I.instantiate(s.cls, [dict(list(s.attrs["_modules"].items())[cut(k)])], {})
            return s.attrs["_modules"][seq_key(s, k)]

        def seq_set(s, k, m_):
            I.setattr(s, seq_key(s, k), m_)

        def seq_del(s, k):
            ms = s.attrs["_modules"]
            for key in (list(ms)[cut(k)] if isinstance(k, slice) else [seq_key(s, k)]):
                del ms[key]
            s.attrs["_modules"] = {str(n): v for n, v in enumerate(ms.values())}

        def seq_pop(s, k):
            v = I.getitem(s, k)
            seq_del(s, k)
            return v

        def addm(s, name, m_):
            I.call(I.getattr(s, "add_module"), [name, m_], {})

        def append(s, m_):
            addm(s, str(len(s.attrs["_modules"])), m_)
            return s

        def insert(s, k, m_):
            if not is_module_obj(m_):
                err(AssertionError, "module should be of type Module")
            ms = list(s.attrs["_modules"].values())
            k = concrete(k)
            if not -len(ms) <= k <= len(ms):
                err(IndexError, f"Index out of range: {k}")
            ms.insert(k, m_)
            d = s.attrs["_modules"]
            for n, v in enumerate(ms):
                d[str(n)] = v
            return s

        def extend(s, ms):
            for m_ in I.tolist(ms):
                I.call(I.getattr(s, "append"), [m_], {})
            return s

        def seq_iadd(s, o):
            if not is_module_obj(o):
                err(ValueError, "add operator supports only objects of Sequential class")
            for m_ in list(o.attrs["_modules"].values()):
                addm(s, str(len(s.attrs["_modules"])), m_)
            return s

        def seq_add(s, o):
            r = I.instantiate(nn.d["Sequential"], [], {})
            seq_iadd(r, s)
            return seq_iadd(r, o)
        seqx = {"__getitem__": seq_get, "__len__": lambda s: len(s.attrs["_modules"]),
                "__iter__": lambda s: list(s.attrs["_modules"].values()), "append": append, "__setitem__": seq_set,
                "__delitem__": seq_del, "pop": seq_pop, "insert": insert, "extend": extend, "__iadd__": seq_iadd, "__add__": seq_add}
        layer("Sequential", [M], seq_init, seq_fwd, seqx)

        def ml_init(s, modules=None):
            minit(s)
            for k, v in enumerate(I.tolist(modules) if modules is not None else []):
                add_module(s, str(k), v)

        def ml_extend(s, ms):
            for m_ in I.tolist(ms):
                append(s, m_)
            return s
        layer("ModuleList", [M], ml_init, None, {**seqx, "extend": ml_extend})

        def md_init(s, modules=None):
            minit(s)
            for k, v in (modules or {}).items():
                add_module(s, k, v)
        layer("ModuleDict", [M], md_init, None, {"__getitem__": lambda s, k: s.attrs["_modules"][k],
              "__setitem__": lambda s, k, v: add_module(s, k, v), "items": lambda s: list(s.attrs["_modules"].items()),
              "keys": lambda s: list(s.attrs["_modules"]), "values": lambda s: list(s.attrs["_modules"].values()),
              "__len__": lambda s: len(s.attrs["_modules"]), "__iter__": lambda s: list(s.attrs["_modules"])})

        def pl_init(s, parameters=None):
            minit(s)
            for k, v in enumerate(I.tolist(parameters) if parameters is not None else []):
                register_parameter(s, str(k), v)
        layer("ParameterList", [M], pl_init, None, {"__len__": lambda s: len(s.attrs["_parameters"]),
              "__iter__": lambda s: list(s.attrs["_parameters"].values()),
              "__getitem__": lambda s, k: list(s.attrs["_parameters"].values())[concrete(k)]})

    # --- tensor dispatch ------------------------------------------------------------------------------------
    def tensor_binop(self, o, a, b):
        for x, y, nm in ((a, b, "l"), (b, a, "r")):
            if isinstance(x, (list, tuple, str, dict)) or x is None:
                err(TypeError, f"unsupported operand type(s) for {o}: 'Tensor' and '{type(x).__name__}'")
        if o == "MatMult":
            return tz.matmul(a, b)
        return binary(o, a, b)

    def inplace_binary(self, nm, a, b):
        if isinstance(b, (list, tuple, str)) or b is None:
            err(TypeError, "unsupported in-place operand")
        return inplace(nm, a, b)

    def mask_attr(self, o, n):
        if n in ELEM:
            return Native(lambda *a, **k: tz.mask_map(lambda x, *xs: METH[n](x, *xs, **k), o, *a), f"Tensor.{n}")
        if n == "dtype":
            return DT(o.t.dtype)
        if n == "device":
            return Dev(o.t.device)
        if n == "sum":
            return Native(lambda: _sum(_where(o.mask, o.t, 0)), "Tensor.sum")
        raise Unsupported(f"{n} of a selection")

    def tensor_compare(self, o, a, b):
        return compare(o, a, b)

    def tensor_attr(self, t, n, default):
        if n == "shape":
            return shape_of(t)
        if n == "dtype":
            return DT(t.dtype)
        if n == "device":
            return Dev(t.device)
        if n in ("T", "mT", "H"):
            if n == "T" and len(t.shape) != 2:
                return tz.permute(t, list(range(len(t.shape)))[::-1])
            return tz.transpose(t, -1, -2)
        if n == "ndim":
            return len(t.shape)
        if n == "requires_grad":
            return t.rg
        if n == "is_leaf":
            return t.is_param or not t.rg or t.leaf
        if n == "grad":
            return t.attrs.get("grad")
        if n == "grad_fn":
            return Unknown("grad_fn") if t.rg and not t.is_param and not t.leaf else None
        if n == "data":
            return _detach(t)
        if n == "_version":
            return t.totver()
        if n == "is_cuda":
            return t.device != "cpu"
        if n == "itemsize":
            return METH["element_size"](t)
        if n == "layout":
            return Unknown("torch.strided")
        if n == "__class__":
            return self.type_(t)
        if n == "real":
            return t
        if n in t.attrs:
            return t.attrs[n]
        if n in METH:
            return Native(lambda *a, **k: METH[n](t, *a, **k), f"Tensor.{n}")
        if n.endswith("_") and not n.startswith("_") and n[:-1] in METH:
            return Native(lambda *a, **k: inplace(n, t, *a, **k), f"Tensor.{n}")
        if n in FUNC and n not in ("ones", "zeros", "eye", "arange", "tensor"):
            return Native(lambda *a, **k: FUNC[n](t, *a, **k), f"Tensor.{n}")
        if n in ("__getitem__",):
            return Native(lambda k: tz.getitem(t, self.I.normkey(k)))
        if n in ("__setitem__",):
            return Native(lambda k, v: tz.setitem(t, self.I.normkey(k), v))
        if n.startswith("__") and n.endswith("__"):
            m = {"__add__": "Add", "__sub__": "Sub", "__mul__": "Mult", "__truediv__": "Div", "__pow__": "Pow", "__matmul__": "MatMult"}.get(n)
            if m:
                return Native(lambda o: self.tensor_binop(m, t, o))
        if n in TENSOR_API:
            raise Unsupported(f"Tensor.{n}")
        if default is not _MISS:
            return default
        err(AttributeError, f"'Tensor' object has no attribute {n!r}")

    def tensor_setattr(self, t, n, v):
        if n == "data":
            if not isinstance(v, T):
                err(TypeError, "Variable data has to be a tensor")
            t.set_data(v)
        elif n == "requires_grad":
            torchmore.leafify(t, bool(v))
        elif n == "grad":
            t.attrs["grad"] = v
        else:
            t.attrs[n] = v

    def native_attr(self, o, n, default):
        I = self.I
        if isinstance(o, Size):
            if n == "numel":
                return Native(lambda: norm_int(prod([topoly(x) for x in o])), "numel")
        if isinstance(o, NT) and n in NT.names:
            return o[NT.names.index(n)]
        if isinstance(o, (list,)):
            f = {
                "append": lambda x: o.append(x), "extend": lambda x: o.extend(self.mklist(x)),
                "insert": lambda k, x: o.insert(concrete(k), x), "pop": lambda k=-1: self.lpop(o, k),
                "reverse": lambda: o.reverse(), "copy": lambda: list(o), "clear": lambda: o.clear(),
                "index": lambda x: [k for k, y in enumerate(o) if y is x or I.truth(I.eq2(x, y))][0],
                "count": lambda x: sum(1 for y in o if I.truth(I.eq2(x, y))),
                "remove": lambda x: o.remove(x), "appendleft": lambda x: o.insert(0, x), "popleft": lambda: self.lpop(o, 0),
                "sort": lambda key=None, reverse=False: o.__setitem__(slice(None), self.sorted_(list(o), key, reverse)), "__len__": lambda: self.len_(o),
            }.get(n)
            if f:
                return Native(f, f"list.{n}")
        if isinstance(o, tuple):
            f = {"index": lambda x: [k for k, y in enumerate(o) if I.truth(I.eq2(x, y))][0],
                 "count": lambda x: sum(1 for y in o if I.truth(I.eq2(x, y)))}.get(n)
            if f:
                return Native(f, f"tuple.{n}")
        if isinstance(o, dict):
            def dpop(k, *d):
                if k in o:
                    return o.pop(k)
                if d:
                    return d[0]
                err(KeyError, k)
            f = {
                "items": lambda: [(k, v) for k, v in o.items()], "keys": lambda: list(o.keys()), "values": lambda: list(o.values()),
                "get": lambda k, d=None: o.get(k, d), "pop": dpop, "update": lambda x=None, **k: o.update(dict(x or {}), **k),
                "setdefault": lambda k, d=None: o.setdefault(k, d), "copy": lambda: dict(o), "clear": lambda: o.clear(),
                "popitem": lambda: o.popitem(),
            }.get(n)
            if f:
                return Native(f, f"dict.{n}")
        if isinstance(o, str):
            if hasattr(o, n):
                g = getattr(o, n)

                def sf(*a, **k):
                    a = [self.mklist(x) if isinstance(x, GenV) else x for x in a]
                    if n == "format" and not all(isinstance(x, (str, int, float)) for x in [*a, *k.values()]):
                        try:
                            return g(*[x if isinstance(x, (str, int, float)) else I.str_(x) for x in a], **{q: x if isinstance(x, (str, int, float)) else I.str_(x) for q, x in k.items()})
                        except (ValueError, TypeError, AttributeError):
                            return o
                    if n == "format_map":
                        raise Unsupported("str.format_map")
                    try:
                        return g(*a, **k)
                    except (ValueError, TypeError, IndexError, KeyError) as ex:
                        raise PyErr(ex, ctx().loc())
                return Native(sf, f"str.{n}")
        if isinstance(o, (set, frozenset)):
            if n in ("add", "discard", "remove", "pop", "clear", "copy") and hasattr(o, n):
                def sop(*a):
                    try:
                        return getattr(o, n)(*a)
                    except KeyError as ex:
                        raise PyErr(ex, ctx().loc())
                return Native(sop, f"set.{n}")
            if n in ("update", "union", "intersection", "difference", "symmetric_difference", "issubset", "issuperset", "isdisjoint", "intersection_update", "difference_update"):
                return Native(lambda *a: getattr(o, n)(*[set(I.tolist(x)) for x in a]), f"set.{n}")
        if isinstance(o, BaseException):
            if n == "args":
                return o.args
        if isinstance(o, Dev):
            if n == "type":
                return o.s.split(":")[0]
            if n == "index":
                return None
        if isinstance(o, DT):
            if n == "is_floating_point":
                return o.name in FLOATS
            if n == "itemsize":
                return {"f64": 8, "i64": 8, "f16": 2, "bf16": 2, "bool": 1}.get(o.name, 4)
        if isinstance(o, SReal):
            if n == "is_integer":
                return Native(lambda: to_poly(o.e) is not None, "is_integer")
        if isinstance(o, (int, float)):
            if hasattr(o, n):
                v = getattr(o, n)
                return Native(v, n) if callable(v) else v
        if isinstance(o, Poly):
            if n in ("bit_length", "real", "numerator"):
                raise Unsupported(f"int.{n}")
        if isinstance(o, Native):
            if n in getattr(o, "attrs", {}):
                return o.attrs[n]
            if n in ("__name__", "__qualname__"):
                return o.name
            if n == "cache_clear":
                raise Unsupported("cache_clear")
        if isinstance(o, slice):
            return getattr(o, n)
        if n == "__class__":
            return self.type_(o)
        for py, ext in ((list, _deque), (dict, _odict), (Poly, int), (SReal, float)):
            if isinstance(o, py) and hasattr(ext, n):
                raise Unsupported(f"attribute {n} of {py.__name__}")
        if isinstance(o, (int, float, str, list, tuple, dict, set, frozenset, BaseException)) and hasattr(o, n):
            raise Unsupported(f"attribute {n} of {type(o).__name__}")
        if default is not _MISS:
            return default
        if o is None or isinstance(o, (int, float, str, list, tuple, dict, Poly, SReal, set, BaseException)):
            err(AttributeError, f"{type(o).__name__!r} object has no attribute {n!r}")
        raise Unsupported(f"attribute {n} of {type(o).__name__}")

    def lpop(self, o, k):
        if not o:
            err(IndexError, "pop from empty list")
        if isinstance(o[concrete(k)], SymSeg):
            raise Unsupported("pop of a symbolic list")
        return o.pop(concrete(k))


ELEM = {"exp", "log", "log1p", "expm1", "sin", "cos", "tanh", "sigmoid", "sqrt", "erf", "atan", "rsqrt", "reciprocal", "neg",
        "abs", "sign", "square", "relu", "clamp", "clip", "clamp_min", "clamp_max", "add", "sub", "mul", "div", "pow", "maximum",
        "minimum", "where", "to", "float", "double", "detach", "clone", "floor", "round", "type_as", "contiguous"}


def with_out(f, name=None):
    """the out= argument of torch functions"""
    def g(*a, **k):
        if any(isinstance(x, tz.MaskSel) for x in a):
            if name not in ELEM:
                raise Unsupported(f"torch.{name} of a selection")
            return tz.mask_map(lambda *xs: f(*xs, **k), *a)
        out = k.get("out")
        if not isinstance(out, T):
            return f(*a, **k)
        k = {n: v for n, v in k.items() if n != "out"}
        r = f(*a, **k)
        if not isinstance(r, T) or len(r.shape) != len(out.shape) or any(x != y and not tz.dim_eq(x, y) for x, y in zip(r.shape, out.shape)):
            raise Unsupported("out= of another shape")
        if tz.CAT[r.dtype] > tz.CAT[out.dtype]:
            err(RuntimeError, f"result type {r.dtype} can't be cast to the desired output type {out.dtype}")
        if ctx().grad and (r.rg or out.rg):
            err(RuntimeError, "functions with out=... arguments don't support automatic differentiation")
        tz.inplace_set(out, tz.cast(r, out.dtype))
        return out
    return g


def to_int_idx(x):
    if isinstance(x, T):
        p = to_poly(val_expr(x))
        if p is None:
            raise Unsupported("tensor as an integer")
        return norm_int(p)
    if isinstance(x, (float, SReal)) or x is None:
        err(TypeError, "integer expected")
    if isinstance(x, Poly):
        return norm_int(x)
    return x


def _unsup(m):
    raise Unsupported(m)


from collections import deque as _deque, OrderedDict as _odict  # noqa: E402


class DField:
    """a field of a dataclass"""

    def __init__(self, default=_MISS, factory=None, init=True, compare=True, kw_only=False):
        self.default, self.factory, self.init, self.compare, self.kw_only = default, factory, init, compare, kw_only


PRE_CONTEXTLIB = '''
class AbstractContextManager:
    def __enter__(self):
        return self

    def __exit__(self, t, e, tb):
        return None


class ContextDecorator:
    def __call__(self, g):
        def inner(*a, **k):
            with self:
                return g(*a, **k)
        return inner


class _GeneratorContextManager(AbstractContextManager):
    def __init__(self, f, a, k):
        self.f, self.a, self.k = f, a, k
        self.gen = f(*a, **k)

    def __call__(self, g):
        def inner(*a, **k):
            with _GeneratorContextManager(self.f, self.a, self.k):
                return g(*a, **k)
        return inner

    def __enter__(self):
        try:
            return next(self.gen)
        except StopIteration:
            raise RuntimeError("generator didn't yield")

    def __exit__(self, t, e, tb):
        if t is None:
            try:
                next(self.gen)
            except StopIteration:
                return False
            raise RuntimeError("generator didn't stop")
        try:
            self.gen.throw(e)
        except StopIteration as x:
            return x is not e
        except BaseException as x:
            if x is e:
                return False
            raise
        raise RuntimeError("generator didn't stop after throw()")


def contextmanager(f):
    def helper(*a, **k):
        return _GeneratorContextManager(f, a, k)
    return helper


class suppress:
    def __init__(self, *exc):
        self.exc = exc

    def __enter__(self):
        return None

    def __exit__(self, t, e, tb):
        return t is not None and issubclass(t, self.exc)


class closing:
    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, t, e, tb):
        self.thing.close()


class ExitStack:
    def __init__(self):
        self.todo = []

    def __enter__(self):
        return self

    def push(self, f):
        self.todo.append(f)
        return f

    def callback(self, f, *a, **k):
        def run(t, e, tb):
            f(*a, **k)
            return False
        self.todo.append(run)
        return f

    def enter_context(self, cm):
        leave = cm.__exit__
        r = cm.__enter__()
        self.todo.append(leave)
        return r

    def close(self):
        self.__exit__(None, None, None)

    def __exit__(self, t, e, tb):
        done = False
        while self.todo:
            if self.todo.pop()(t, e, tb) and t is not None:
                done = True
                t, e, tb = None, None, None
        return done
'''

PRE_FUNCTOOLS = '''
class partialmethod:
    def __init__(self, f, *a, **k):
        self.f, self.a, self.k = f, a, k

    def __get__(self, o, cls=None):
        def run(*b, **q):
            return self.f(o, *self.a, *b, **{**self.k, **q})
        return run


def cmp_to_key(f):
    class K:
        def __init__(self, v):
            self.v = v

        def __lt__(self, o):
            return f(self.v, o.v) < 0

        def __gt__(self, o):
            return f(self.v, o.v) > 0

        def __eq__(self, o):
            return f(self.v, o.v) == 0
    return K


class singledispatch:
    def __init__(self, f):
        self.f = f
        self.table = {}

    def dispatch(self, cls):
        for c in cls.__mro__:
            if c in self.table:
                return self.table[c]
        return self.f

    def __call__(self, x, *a, **k):
        return self.dispatch(type(x))(x, *a, **k)

    def register(self, cls, f=None):
        if f is None:
            if not isinstance(cls, type):
                raise NotImplementedError("registration by annotation")

            def reg(g):
                self.table[cls] = g
                return g
            return reg
        self.table[cls] = f
        return f


class singledispatchmethod:
    def __init__(self, f):
        self.d = singledispatch(f)

    def register(self, cls, f=None):
        return self.d.register(cls, f)

    def __get__(self, o, cls=None):
        def run(x, *a, **k):
            return self.d.dispatch(type(x))(o, x, *a, **k)
        return run


def total_ordering(c):
    if hasattr(c, "__lt__"):
        if not hasattr(c, "__gt__"):
            c.__gt__ = lambda s, o: not (s < o) and s != o
        if not hasattr(c, "__le__"):
            c.__le__ = lambda s, o: s < o or s == o
        if not hasattr(c, "__ge__"):
            c.__ge__ = lambda s, o: not s < o
    return c
'''

PRE_TYPES = '''
class SimpleNamespace:
    def __init__(self, **k):
        for n, v in k.items():
            setattr(self, n, v)
'''


from .torchapi import TENSOR as TENSOR_API


from . import torchmore  # noqa: E402  (extends METH, FUNC and FF)
