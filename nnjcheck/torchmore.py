"""More of the torch API, mostly composed from the operations of torchmodel."""
import math
from fractions import Fraction

from . import tensor as tz
from .tensor import T, SReal, Unsupported, ctx, err, val_expr, FLOATS, mk, concrete
from .poly import Poly, V, newvar, topoly, fdiv, ge0, ZERO, ONE, prod, exact_div
from .expr import (E, N0, N1, num, ix, add, mul, neg, sub, pow_, div, fn, sum_, ite, ind, ceq, cge, cgt, cgev, ceqv, cand,
                   inrange, to_poly, diff, mapacc, acc, NoDeriv)
from .evalx import ACCSHAPE, KIND, OPQ
from .interp import Native, norm_int, is_int
from . import torchmodel as tm
from .torchmodel import METH, FUNC, FF, meth, func, same, un, binary, bad_tensor, newt, ints, DT, dt

HALF = Fraction(1, 2)


# --- elementwise
same("ceil", lambda e: e if to_poly(e) is not None else neg(fn("floor", neg(e))))
same("frac", lambda e: sub(e, fn("trunc", e)))
un("logit", lambda e: sub(fn("log", e), fn("log", sub(N1, e))))
un("log10", lambda e: div(fn("log", e), fn("log", num(10))))
un("erfc", lambda e: sub(N1, fn("erf", e)))
METH["fix"] = METH["trunc"]
METH["sgn"] = METH["sign"]
METH["hypot"] = lambda a, b: tz.elementwise(lambda x, y: fn("sqrt", add(pow_(x, 2), pow_(y, 2))), a, b)
METH["xlogy"] = lambda a, b: tz.elementwise(lambda x, y: ite(ceqv(x), N0, mul(x, fn("log", y))), a, b)
METH["logical_not"] = METH["logical_not"]
METH["signbit"] = lambda t: tm.compare("Lt", t, 0)
METH["addcdiv"] = lambda t, a, b, value=1: binary("Add", t, binary("Mult", binary("Div", a, b), value))


def fmod_(a, b):
    return tz.elementwise(lambda x, y: sub(x, mul(y, fn("trunc", div(x, y)))), a, b)


METH["fmod"] = fmod_


def clamp_t(t, lo=None, hi=None):
    r = t
    if lo is not None:
        r = tm._maximum(r, lo) if isinstance(lo, T) else tm._clamp(r, lo, None)
    if hi is not None:
        r = tm._minimum(r, hi) if isinstance(hi, T) else tm._clamp(r, None, hi)
    return r


# --- creation
@func("arange")
def _arange(*a, dtype=None, device=None, start=None, end=None, step=None, requires_grad=False, layout=None, pin_memory=False):
    a = list(a)
    if end is not None:
        a = [start if start is not None else 0, end] if not a else a + [end]
    elif start is not None:
        a = [start] + a
    if step is not None:
        a = ([0] + a if len(a) == 1 else a) + [step]
    if any(isinstance(x, float) for x in a):
        if not all(isinstance(x, (int, float)) for x in a):
            raise Unsupported("arange of symbolic floats")
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1 if len(a) == 2 else a[2])
        n = max(0, math.ceil((hi - lo) / st))
        return newt([n], lambda i: add(mul(num(Fraction(st)), ix(i[0])), num(Fraction(lo))), dtype, device)
    if any(isinstance(x, SReal) for x in a):
        raise Unsupported("arange of symbolic floats")
    return OLD_ARANGE(*a, dtype=dtype, device=device)


OLD_ARANGE = tm._arange


@func("linspace")
def _linspace(start, end, steps, dtype=None, device=None, **kw):
    a, b, n = val_expr(start), val_expr(end), topoly(steps)
    if n == ONE:
        return newt([n], lambda i: a, dtype, device)
    return newt([n], lambda i: add(a, mul(sub(b, a), div(ix(i[0]), ix(n - 1)))), dtype, device)


FUNC["scalar_tensor"] = lambda x, dtype=None, device=None, **k: newt([], lambda i: val_expr(x), dtype, device)


def junk(shape, dtype, device, requires_grad=False):
    """uninitialised memory: arbitrary numbers, different ones for every allocation"""
    shape = [topoly(s) for s in shape]
    d = dt(dtype) or ctx().default_dtype
    if d not in FLOATS:
        return newt(shape, lambda i: N0, dtype, device, requires_grad)
    c = ctx()
    c.njunk = getattr(c, "njunk", 0) + 1
    name = f"uninitialised memory {c.njunk}"
    ACCSHAPE[name] = tuple(shape)
    KIND[name] = "junk"
    return newt(shape, lambda i: acc(name, i), dtype, device, requires_grad)


@func("empty")
def _empty(*size, dtype=None, device=None, requires_grad=False, layout=None, memory_format=None, pin_memory=False, out=None, size_=None, **kw):
    if "size" in kw:
        size = (kw["size"],)
    return junk(ints(size), dtype, device, requires_grad)


@func("empty_like")
def _empty_like(x, dtype=None, device=None, requires_grad=False, memory_format=None, layout=None):
    bad_tensor(x, "empty_like")
    return tz.keep_layout(junk(x.shape, dtype or DT(x.dtype), device or x.device, requires_grad), [x])


@meth("new_empty")
def _new_empty(t, *size, dtype=None, device=None, **kw):
    if "size" in kw:
        size = (kw["size"],)
    return junk(ints(size), dtype or DT(t.dtype), device or t.device)


@func("tril_indices")
def _tril_indices(*a, **k):
    raise Unsupported("tril_indices")


# --- shapes
@meth("chunk")
def _chunk(t, chunks, dim=0):
    d = tz.axis(t, dim)
    n, c = t.shape[d], concrete(chunks)
    if n.is_const():
        return tm._split(t, -(-n.cval() // c), d)
    q = exact_div(n, topoly(c))
    if q is not None:
        return tm._split(t, [q] * c, d)
    q = fdiv(n + c - 1, topoly(c))
    rest = n - q * (c - 1)
    if not ge0(rest - 1) and not ctx().decide(cge(rest - 1), "dim"):
        raise Unsupported("chunk into fewer pieces")
    out, lo = [], ZERO
    for k in range(c):
        hi = lo + q if k < c - 1 else n
        key = [slice(None)] * len(t.shape)
        key[d] = slice(lo, hi)
        out.append(tz.getitem(t, tuple(key)))
        lo = hi
    return tuple(out)


@func("atleast_1d")
def _al1(t):
    return t if t.shape else tz.reshape(t, [1])


@func("atleast_2d")
def _al2(t):
    return t if len(t.shape) > 1 else tz.reshape(t, [1, -1])


FUNC["column_stack"] = lambda ts: tz.cat([t if len(t.shape) > 1 else tz.reshape(t, [-1, 1]) for t in ts], 1)
FUNC["dstack"] = lambda ts: tz.cat([tz.unsqueeze(_al2(t), 2) if len(t.shape) < 3 else t for t in ts], 2)


def _resize_inplace(name):
    f = METH[name]

    def g(t, *a, **k):
        old = T(t.shape, lambda i: t.at(i), t.dtype, t.device, t.rg)
        r = f(old, *a, **k)
        if t.parent is not None or t.is_param:
            raise Unsupported(f"Tensor.{name}_")
        t.shape = r.shape
        t._vars, t._expr = r.vars, r.expr
        t.ver += 1
        return t
    return g


for _n in ("t", "unsqueeze", "squeeze", "transpose", "swapaxes"):
    METH[_n + "_"] = _resize_inplace(_n)


# --- reductions
def _var(std):
    def f(t, dim=None, unbiased=True, keepdim=False, correction=None):
        if isinstance(dim, bool):
            dim, unbiased = None, dim
        c = (1 if unbiased else 0) if correction is None else correction
        m = tm._mean(t, dim, True) if dim is not None else tm._mean(t)
        q = tm._sum(binary("Pow", binary("Sub", t, m), 2), dim, keepdim)
        n = prod([t.shape[k] for k in (tz.reduce_dims(t, dim) if dim is not None else range(len(t.shape)))])
        r = binary("Div", q, norm_int(n - topoly(c)))
        return METH["sqrt"](r) if std else r
    return f


METH["var"] = _var(False)
METH["std"] = _var(True)


@meth("prod")
def _prod(t, dim=None, keepdim=False, dtype=None):
    if dim is None:
        if not t.shape:
            return t
        t, dim = tz.flatten(t), 0
    d = tz.axis(t, dim)
    if not t.shape[d].is_const():
        raise Unsupported("prod reduction")
    sh = list(t.shape)
    sh[d:d + 1] = [ONE] if keepdim else []

    def f(i):
        i = list(i)
        if keepdim:
            i.pop(d)
        return mul(*[t.at(i[:d] + [topoly(k)] + i[d:]) for k in range(t.shape[d].cval())])
    return mk(sh, f, ins=[t])


METH["nansum"] = METH["sum"]


# --- products
@meth("inner")
def _inner(a, b):
    if not a.shape or not b.shape:
        return binary("Mult", a, b)
    return tm._tensordot(a, b, ([-1], [-1]))


FUNC["inner"] = _inner


def vecdot(a, b, dim=-1):
    return tm._sum(binary("Mult", a, b), dim)


METH["addmv"] = lambda t, a, b, beta=1, alpha=1: binary("Add", binary("Mult", t, beta), binary("Mult", tz.matmul(a, b), alpha))
METH["addr"] = lambda t, a, b, beta=1, alpha=1: binary("Add", binary("Mult", t, beta), binary("Mult", tm._outer(a, b), alpha))
METH["addbmm"] = lambda t, a, b, beta=1, alpha=1: binary("Add", binary("Mult", t, beta), binary("Mult", tm._sum(tm._bmm(a, b), 0), alpha))


@func("cdist")
def _cdist(a, b, p=2.0):
    if p != 2:
        raise Unsupported("cdist")
    return tm._norm(binary("Sub", tz.unsqueeze(a, -2), tz.unsqueeze(b, -3)), 2, [-1])


# --- indexing
@meth("index_fill_")
def _index_fill_(t, dim, index, value):
    d = tz.axis(t, dim)
    key = [slice(None)] * len(t.shape)
    key[d] = index
    tz.inplace_check(t, value)
    t.write(tz.adv_scatter(t, tuple(key), value, False))
    return t


METH["index_fill"] = lambda t, dim, index, value: _index_fill_(tm._clone(t), dim, index, value)
METH["index_copy"] = lambda t, dim, index, source: tm._index_copy_(tm._clone(t), dim, index, source)


@meth("select_scatter")
def _select_scatter(t, src, dim, index):
    r = tm._clone(t)
    tz.inplace_set(tm._select(r, dim, index), src)
    return r


@meth("slice_scatter")
def _slice_scatter(t, src, dim=0, start=None, end=None, step=1):
    r = tm._clone(t)
    key = [slice(None)] * len(t.shape)
    key[tz.axis(t, dim)] = slice(start, end, step)
    tz.inplace_set(tz.getitem(r, tuple(key)), src)
    return r


@meth("masked_scatter")
def _masked_scatter(t, mask, src):
    raise Unsupported("masked_scatter")


@meth("masked_select")
def _masked_select(t, mask):
    return tz.getitem(t, (mask,))


# --- nn.functional
def reduce_loss(r, reduction):
    if reduction not in ("none", "sum", "mean"):
        err(ValueError, f"{reduction} is not a valid value for reduction")
    return {"none": lambda: r, "sum": lambda: tm._sum(r), "mean": lambda: tm._mean(r)}[reduction]()


def noextra(**k):
    if any(v is not None for v in k.values()):
        raise Unsupported("weighted loss")


def f_cross_entropy(input, target, weight=None, size_average=None, ignore_index=-100, reduce=None, reduction="mean", label_smoothing=0.0):
    noextra(weight=weight, a=size_average, b=reduce)
    if label_smoothing:
        raise Unsupported("label smoothing")
    d = 1 if len(input.shape) > 1 else 0
    lp = METH["log_softmax"](input, d)
    if target.dtype in FLOATS:
        r = METH["neg"](tm._sum(binary("Mult", target, lp), d))
        if reduction == "mean":
            return binary("Div", tm._sum(r), norm_int(prod([s for k, s in enumerate(input.shape) if k != d])))
        return reduce_loss(r, reduction)
    return f_nll(lp, target, reduction=reduction)


def f_nll(input, target, weight=None, size_average=None, ignore_index=-100, reduce=None, reduction="mean"):
    noextra(weight=weight, a=size_average, b=reduce)
    d = 1 if len(input.shape) > 1 else 0
    r = METH["neg"](METH["squeeze"](tm._gather(input, d, tz.unsqueeze(target, d)), d))
    return reduce_loss(r, reduction)


def f_bce(input, target, weight=None, size_average=None, reduce=None, reduction="mean"):
    noextra(weight=weight, a=size_average, b=reduce)
    lg = lambda e: ite(cgt(sub(num(-100), fn("log", e))), num(-100), fn("log", e))
    r = tz.elementwise(lambda a, t: neg(add(mul(t, lg(a)), mul(sub(N1, t), lg(sub(N1, a))))), input, target)
    return reduce_loss(r, reduction)


def f_gaussian_nll(input, target, var, full=False, eps=1e-6, reduction="mean"):
    if not isinstance(var, T):
        raise Unsupported("gaussian_nll_loss")
    v = tm._clamp(var, eps, None)
    r = tz.elementwise(lambda a, t, s: mul(num(HALF), add(fn("log", s), div(pow_(sub(a, t), 2), s))), input, target, v)
    if full:
        r = binary("Add", r, 0.5 * math.log(2 * math.pi))
    return reduce_loss(r, reduction)


def f_cosine(x1, x2, dim=1, eps=1e-8):
    n1, n2 = (tm._clamp(tm._norm(x, 2, [concrete(dim)], True), eps, None) for x in (x1, x2))
    return vecdot(binary("Div", x1, n1), binary("Div", x2, n2), concrete(dim))


def f_fold(x, output_size, kernel_size, dilation=1, padding=0, stride=1):
    k, d, p, s, o = tz.pair(kernel_size), tz.pair(dilation), tz.pair(padding), tz.pair(stride), tz.pair(output_size)
    if len(x.shape) != 3:
        raise Unsupported("fold of a non 3D input")
    N, Q, Lk = x.shape
    C = exact_div(Q, k[0] * k[1])
    if C is None:
        raise Unsupported("fold of this shape")
    oH = fdiv(o[0] + 2 * p[0] - d[0] * (k[0] - 1) - 1, s[0]) + 1
    oW = fdiv(o[1] + 2 * p[1] - d[1] * (k[1] - 1) - 1, s[1]) + 1
    tz.require_eq(Lk, oH * oW, "fold")

    def f(i):
        n, c, y, z = i
        u, v, a, b = newvar(oH, "u"), newvar(oW, "v"), newvar(k[0], "a"), newvar(k[1], "b")
        cond = cand(ceq(V(u) * s[0] + V(a) * d[0] - p[0] - y), ceq(V(v) * s[1] + V(b) * d[1] - p[1] - z))
        e = mul(ind(cond), x.at([n, tz.flat([c, V(a), V(b)], [C, k[0], k[1]]), tz.flat([V(u), V(v)], [oH, oW])]))
        return tz.rsum(e, [(u, oH), (v, oW), (a, k[0]), (b, k[1])])
    return mk([N, C, o[0], o[1]], f, ins=[x])


def f_max_unpool2d(x, indices, kernel_size, stride=None, padding=0, output_size=None):
    k = tz.pair(kernel_size)
    s = k if stride is None or stride == [] else tz.pair(stride)
    p = tz.pair(padding)
    n = len(x.shape)
    if n not in (3, 4):
        err(RuntimeError, "max_unpool2d: expected 3D or 4D input")
    if output_size is None:
        o = [(x.shape[n - 2 + j] - 1) * s[j] - 2 * p[j] + k[j] for j in (0, 1)]
    else:
        o = [topoly(q) for q in list(output_size)[-2:]]
    lead = list(x.shape[:-2])
    z = T(lead + [o[0] * o[1]], lambda i: N0, x.dtype, x.device)
    z.write(tm._scatter(z, n - 2, tz.flatten(indices, n - 2), tz.flatten(x, n - 2), False))
    z.rg = x.rg and ctx().grad
    return tz.reshape(z, lead + o)


def f_adaptive_avg_pool2d(x, output_size):
    o = output_size if isinstance(output_size, (list, tuple)) else (output_size, output_size)
    if any(q != 1 for q in o):
        raise Unsupported("adaptive_avg_pool2d")
    return tm._mean(x, [-2, -1], True)


def f_hardtanh(x, min_val=-1.0, max_val=1.0, inplace=False):
    return tm._clamp(x, min_val, max_val)


def f_threshold(x, threshold, value, inplace=False):
    t, v = val_expr(threshold), val_expr(value)
    return mk(x.shape, lambda i: ite(cgt(sub(x.at(i), t)), x.at(i), v), ins=[x])


def f_gelu(x, approximate="none"):
    if approximate == "tanh":
        c = num(Fraction(math.sqrt(2 / math.pi)))
        return tz.unary(lambda e: mul(num(HALF), e, add(N1, fn("tanh", mul(c, add(e, mul(num(Fraction("0.044715")), pow_(e, 3))))))), x)
    return tz.unary(lambda e: mul(num(HALF), e, add(N1, fn("erf", mul(e, num(Fraction(math.sqrt(0.5))))))), x)


def f_selu(x, inplace=False):
    a, s = num(Fraction(1.6732632423543772848170429916717)), num(Fraction(1.0507009873554804934193349852946))
    return tz.unary(lambda e: mul(s, ite(cgt(e), e, mul(a, fn("expm1", e)))), x)


def f_hardsigmoid(x, inplace=False):
    return tm._clamp(binary("Add", binary("Div", x, 6), 0.5), 0, 1)


def f_l1(x, target, reduction="mean"):
    return reduce_loss(tz.elementwise(lambda a, t: fn("abs", sub(a, t)), x, target), reduction)


def f_kl(x, target, reduction="mean", log_target=False):
    if log_target:
        r = tz.elementwise(lambda a, t: mul(fn("exp", t), sub(t, a)), x, target)
    else:
        r = tz.elementwise(lambda a, t: sub(ite(ceqv(t), N0, mul(t, fn("log", t))), mul(t, a)), x, target)
    if reduction == "batchmean":
        return binary("Div", tm._sum(r), norm_int(r.shape[0]))
    return reduce_loss(r, reduction)


def f_bilinear(a, b, w, bias=None):
    r = tz.einsum("...i,oij,...j->...o", [a, w, b])
    return r if bias is None else binary("Add", r, bias)


def f_embedding(idx, weight, **k):
    return tz.getitem(weight, (idx,))


FF.update({"cross_entropy": f_cross_entropy, "nll_loss": f_nll, "binary_cross_entropy": f_bce, "gaussian_nll_loss": f_gaussian_nll,
           "cosine_similarity": f_cosine, "fold": f_fold, "max_unpool2d": f_max_unpool2d, "hardtanh": f_hardtanh,
           "adaptive_avg_pool2d": f_adaptive_avg_pool2d, "threshold": f_threshold, "gelu": f_gelu, "selu": f_selu, "relu6": lambda x, inplace=False: f_hardtanh(x, 0, 6),
           "softsign": lambda x: tz.unary(lambda e: div(e, add(N1, fn("abs", e))), x), "hardsigmoid": f_hardsigmoid,
           "mish": lambda x, inplace=False: binary("Mult", x, METH["tanh"](tm.f_softplus(x))), "l1_loss": f_l1, "kl_div": f_kl,
           "tanhshrink": lambda x: binary("Sub", x, METH["tanh"](x)), "softmin": lambda x, dim=None, **k: METH["softmax"](METH["neg"](x), dim),
           "bilinear": f_bilinear, "embedding": f_embedding, "logsigmoid": METH["logsigmoid"], "relu_": lambda x: tm.inplace("relu_", x),
           "leaky_relu_": lambda x, s=0.01: (tz.inplace_set(x, tm.f_leaky(x, s)), x)[1]})
FUNC["cosine_similarity"] = f_cosine
FUNC["selu"], FUNC["threshold"], FUNC["max_pool2d"] = f_selu, f_threshold, tm.f_max_pool2d


# --- linear algebra
def la_det(t):
    import numpy as np
    tm._square(t, "det")
    return tm.opaque_mat("det", t, t.shape[:-2], lambda a: np.linalg.det(a))


def la_logdet(t):
    return METH["log"](la_det(t))


def la_solve_triangular(a, b, upper=None, left=True, unitriangular=False):
    if not left or unitriangular:
        raise Unsupported("solve_triangular options")
    return tz.matmul(tm.la_inv(METH["triu" if upper else "tril"](a)), b)


def la_matrix_power(t, n):
    n = concrete(n)
    if n < 0:
        t, n = tm.la_inv(t), -n
    r = None
    for _ in range(n):
        r = t if r is None else tz.matmul(r, t)
    if r is None:
        r = mk(t.shape, lambda i: ind(ceq(i[-1] - i[-2])), ins=[t])
    return r


METH["logdet"], METH["det"] = la_logdet, la_det


# --- derivatives
def as_tuple(x):
    return x if isinstance(x, tuple) else (x,)


class Graph:
    """one evaluation of f with its inputs replaced by fresh variables"""

    def __init__(self, model, f, xs, which):
        c = ctx()
        self.xs, self.names, ins = xs, {}, list(xs)
        for k in which:
            x = xs[k]
            if not isinstance(x, T):
                err(TypeError, "expected a tensor")
            c.nvar = getattr(c, "nvar", 0) + 1
            nm = f"$x{c.nvar}"
            t = tz.sym(nm, x.shape, dtype=x.dtype, device=x.device, rg=True, plain=True)
            if not (x.expr.fv - set(x.vars)):
                snap = T(x.shape, lambda i, x=x: x.at(i), x.dtype)
                OPQ[nm] = lambda ev, snap=snap: ev.array(snap)
            self.names[k] = nm
            ins[k] = t
        og, os_ = c.grad, c.stops
        c.grad = c.stops = True
        try:
            self.out = model.I.call(f, ins, {})
        finally:
            c.grad, c.stops = og, os_
        self.snaps = {nm: T(xs[k].shape, lambda i, x=xs[k]: x.at(i), xs[k].dtype) for k, nm in self.names.items()}

    def back(self, e):
        return mapacc(e, lambda n, idx: self.snaps[n].at(list(idx)) if n in self.snaps else acc(n, idx))

    def ins(self):
        return [x for x in self.xs if isinstance(x, T)]

    def value(self, o=None):
        o = self.out if o is None else o
        if isinstance(o, (tuple, list)):
            return tuple(self.value(y) for y in o)
        return mk(o.shape, lambda i: self.back(o.at(i)), ins=self.ins(), dtype=o.dtype, device=o.device)

    def d(self, e, k, idx):
        try:
            return self.back(diff(e, self.names[k], list(idx)))
        except NoDeriv as ex:
            raise Unsupported(f"derivative of {ex}")

    def single(self):
        if not isinstance(self.out, T):
            raise Unsupported("derivative of several outputs")
        return self.out

    def jac(self, k):
        o, x = self.single(), self.xs[k]
        n = len(o.shape)
        return mk(list(o.shape) + list(x.shape), lambda i: self.d(o.at(i[:n]), k, i[n:]), ins=self.ins(), dtype=x.dtype)

    def vjp(self, k, g):
        o, x = self.single(), self.xs[k]
        for a, b in zip(o.shape, g.shape):
            tz.require_eq(a, b, "vjp")

        def f(i):
            vs = [newvar(s, "o") for s in o.shape]
            V_ = [V(v) for v in vs]
            return tz.rsum(mul(g.at(V_), self.d(o.at(V_), k, i)), list(zip(vs, o.shape)))
        return mk(x.shape, f, ins=self.ins() + [g], dtype=x.dtype)

    def jvp(self, tangents):
        o = self.single()

        def f(i):
            parts = []
            for k, t in tangents.items():
                vs = [newvar(s, "j") for s in t.shape]
                V_ = [V(v) for v in vs]
                parts.append(tz.rsum(mul(t.at(V_), self.d(o.at(i), k, V_)), list(zip(vs, t.shape))))
            return add(*parts)
        return mk(o.shape, f, ins=self.ins() + list(tangents.values()), dtype=o.dtype)


def one_g(t):
    return T(t.shape, lambda i: N1, t.dtype, t.device)


class Transforms:
    def __init__(self, model):
        self.m = model

    def jacrev(self, f, argnums=0, has_aux=False, chunk_size=None, randomness="error"):
        if has_aux:
            raise Unsupported("has_aux")

        def g(*xs):
            ks = argnums if isinstance(argnums, (tuple, list)) else (argnums,)
            G = Graph(self.m, f, list(xs), list(ks))
            r = tuple(G.jac(k) for k in ks)
            return r if isinstance(argnums, (tuple, list)) else r[0]
        return Native(g, "jacrev")

    def grad(self, f, argnums=0, has_aux=False):
        if has_aux:
            raise Unsupported("has_aux")

        def g(*xs):
            ks = argnums if isinstance(argnums, (tuple, list)) else (argnums,)
            G = Graph(self.m, f, list(xs), list(ks))
            if not isinstance(G.out, T) or G.out.shape:
                err(RuntimeError, "Expected f(*args) to return a scalar tensor")
            r = tuple(G.vjp(k, one_g(G.out)) for k in ks)
            return r if isinstance(argnums, (tuple, list)) else r[0]
        return Native(g, "grad")

    def vjp(self, f, *xs, has_aux=False):
        if has_aux:
            raise Unsupported("has_aux")
        G = Graph(self.m, f, list(xs), list(range(len(xs))))
        return (G.value(), Native(lambda *g, **k: tuple(G.vjp(j, g[0]) for j in range(len(xs))), "vjp_fn"))

    def jvp(self, f, primals, tangents, has_aux=False, strict=False):
        primals, tangents = as_tuple(primals), as_tuple(tangents)
        G = Graph(self.m, f, list(primals), list(range(len(primals))))
        return (G.value(), G.jvp(dict(enumerate(tangents))))

    def jacobian(self, f, inputs, create_graph=False, strict=False, vectorize=False, strategy="reverse-mode"):
        xs = as_tuple(inputs)
        G = Graph(self.m, f, list(xs), list(range(len(xs))))
        r = tuple(self.cut(G.jac(k), create_graph) for k in range(len(xs)))
        return r if isinstance(inputs, tuple) else r[0]

    def avjp(self, f, inputs, v=None, create_graph=False, strict=False):
        xs = as_tuple(inputs)
        G = Graph(self.m, f, list(xs), list(range(len(xs))))
        v = one_g(G.single()) if v is None else v
        r = tuple(self.cut(G.vjp(k, v), create_graph) for k in range(len(xs)))
        return (self.cut(G.value(), create_graph), r if isinstance(inputs, tuple) else r[0])

    def ajvp(self, f, inputs, v=None, create_graph=False, strict=False):
        xs = as_tuple(inputs)
        G = Graph(self.m, f, list(xs), list(range(len(xs))))
        vs = as_tuple(v) if v is not None else (one_g(xs[0]),)
        return (self.cut(G.value(), create_graph), self.cut(G.jvp(dict(enumerate(vs))), create_graph))

    def cut(self, t, keep):
        if not keep and isinstance(t, T):
            t.rg = False
        return t

    def autograd_grad(self, outputs, inputs, grad_outputs=None, retain_graph=None, create_graph=False, only_inputs=True,
                      allow_unused=None, is_grads_batched=False, materialize_grads=False):
        many = isinstance(inputs, (tuple, list))
        outs = list(outputs) if isinstance(outputs, (tuple, list)) else [outputs]
        gs = list(grad_outputs) if isinstance(grad_outputs, (tuple, list)) else [grad_outputs]
        if is_grads_batched or len(outs) != 1:
            raise Unsupported("autograd.grad of several outputs")
        o, g = outs[0], gs[0]
        if not o.rg:
            err(RuntimeError, "element 0 of tensors does not require grad and does not have a grad_fn")
        if g is None:
            if o.shape and any(s != ONE for s in o.shape):
                err(RuntimeError, "grad can be implicitly created only for scalar outputs")
            g = one_g(o)
        if not ctx().stops:
            raise Unsupported("autograd.grad of a graph that was not recorded")
        res = []
        for x in (inputs if many else [inputs]):
            e = x.expr
            if e.op != "acc" or tuple(e.a[1]) != tuple(V(v) for v in x.vars) or not x.rg:
                raise Unsupported("autograd.grad with respect to an intermediate tensor")
            nm = e.a[0]

            def f(i):
                vs = [newvar(s, "o") for s in o.shape]
                V_ = [V(v) for v in vs]
                try:
                    return tz.rsum(mul(g.at(V_), diff(o.at(V_), nm, list(i))), list(zip(vs, o.shape)))
                except NoDeriv as ex:
                    raise Unsupported(f"derivative of {ex}")
            res.append(mk(x.shape, f, ins=[o, g], dtype=x.dtype, rg=bool(create_graph)))
        return tuple(res)


@meth("requires_grad_")
def _requires_grad_(t, requires_grad=True):
    leafify(t, bool(requires_grad))
    return t


def leafify(t, rg):
    if rg and t.dtype not in FLOATS:
        err(RuntimeError, "only Tensors of floating point dtype can require gradients")
    if rg and not t.rg and not t.is_param:
        free = t.expr.fv - set(t.vars)
        if not free and t.parent is None:
            # from here on t is a variable of its own
            c = ctx()
            c.stops = True
            c.nvar = getattr(c, "nvar", 0) + 1
            nm = f"$x{c.nvar}"
            e, vs = t.expr, t.vars
            if not (e.op == "acc" and tuple(e.a[1]) == tuple(V(v) for v in vs)):
                snap = T(t.shape, lambda i: t.at(i), t.dtype)
                ACCSHAPE[nm] = t.shape
                KIND[nm] = "real"
                OPQ[nm] = lambda ev: ev.array(snap)
                t._expr = acc(nm, [V(v) for v in vs])
    t.rg = rg
    t.leaf = rg


def install(model, torch, mod):
    tr = Transforms(model)
    d = torch.d["func"].d
    for k, f in (("jacrev", tr.jacrev), ("jacfwd", tr.jacrev), ("grad", tr.grad), ("vjp", tr.vjp), ("jvp", tr.jvp)):
        d[k] = Native(f, f"torch.func.{k}")
    d["functional_call"] = Native(lambda *a, **k: (_ for _ in ()).throw(Unsupported("functional_call")), "functional_call")
    ag = torch.d["autograd"]
    mod("functional", {"jacobian": tr.jacobian, "vjp": tr.avjp, "jvp": tr.ajvp}, ag)
    ag.d["grad"] = Native(tr.autograd_grad, "torch.autograd.grad")
    la = torch.d["linalg"].d
    for k, f in (("vecdot", vecdot), ("det", la_det), ("solve_triangular", la_solve_triangular), ("matrix_power", la_matrix_power),
                 ("inv_ex", lambda t: (tm.la_inv(t), T(t.shape[:-2], lambda i: N0, "i32"))), ("cholesky_ex", lambda t, upper=False: (tm.la_cholesky(t, upper), T(t.shape[:-2], lambda i: N0, "i32"))),
                 ("matrix_norm", lambda t, ord="fro", dim=(-2, -1), keepdim=False, dtype=None: tm._norm(t, ord, list(dim), keepdim))):
        la[k] = Native(f, f"torch.linalg.{k}")


# --- rotations, splits
@meth("rot90")
def _rot90(t, k=1, dims=(0, 1)):
    k = concrete(k) % 4
    a, b = (tz.axis(t, d) for d in ints(dims))
    if k == 0:
        return METH["clone"](t)
    if k == 2:
        return tz.flip(t, [a, b])
    return METH["transpose"](tz.flip(t, [b if k == 1 else a]), a, b)


@meth("tensor_split")
def _tensor_split(t, indices_or_sections=None, dim=0, *, sections=None, indices=None):
    s = next(q for q in (indices_or_sections, sections, indices) if q is not None)
    d = tz.axis(t, dim)
    if isinstance(s, (list, tuple)):
        cuts = [ZERO] + [topoly(c) for c in s] + [t.shape[d]]
        out = []
        for lo, hi in zip(cuts, cuts[1:]):
            key = [slice(None)] * len(t.shape)
            key[d] = slice(norm_int(lo), norm_int(hi))
            out.append(tz.getitem(t, tuple(key)))
        return tuple(out)
    c = concrete(s)
    n = t.shape[d]
    q = exact_div(n, topoly(c))
    if q is not None:
        return tm._split(t, [q] * c, d)
    if n.is_const():
        n = n.cval()
        sizes = [n // c + (1 if i < n % c else 0) for i in range(c)]
        return tm._split(t, sizes, d)
    raise Unsupported("tensor_split of a symbolic size")


METH["hsplit"] = lambda t, s: _tensor_split(t, s, 0 if len(t.shape) == 1 else 1)
METH["vsplit"] = lambda t, s: _tensor_split(t, s, 0)
if "vstack" in FUNC:
    FUNC["row_stack"] = FUNC["vstack"]
