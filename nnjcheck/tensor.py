"""Abstract tensors: shape polynomials plus a term for the generic element, with views, types and gradient tags."""
from fractions import Fraction

from .poly import (Poly, Atom, V, newvar, topoly, fdiv, fmod, exact_div, prod, ge0, nonzero, ZERO, ONE, SIZE, IRANGE,
                   dim, iacc, LB)
from . import poly as _poly
from .expr import (E, N0, N1, TRUE, FALSE, num, ix, acc, add, mul, neg, sub, pow_, div, fn, sum_, red, ite, ind, ceq,
                   cge, cgt, cgev, ceqv, cnot, cand, cor, inrange, subst, isnum, to_poly, accs)
from .evalx import ACCSHAPE, KIND, DIMDEF, OPQ


class Unsupported(Exception):
    """a construct the analysis does not model: the obligation stays undecided"""


class PyErr(Exception):
    """an exception raised by the analysed program"""

    def __init__(self, exc, where=None):
        self.exc = exc
        self.where = where

    def name(self):
        e = self.exc
        return type(e).__name__ if isinstance(e, BaseException) else getattr(getattr(e, "cls", None), "name", "?")

    def __str__(self):
        return f"{self.name()}: {self.exc}"


def err(cls, msg):
    raise PyErr(cls(msg), CX.loc())


class Infeasible(Exception):
    pass


class Ctx:
    """one abstract execution"""

    def __init__(self):
        self.decisions = []      # prescribed
        self.taken = []          # (cond, kind, value, loc)
        self.cache = {}
        self.grad = True
        self.log = None          # created tensors
        self.stack = []          # source locations
        self.loops = []
        self.steps = 0
        self.default_dtype = "f32"
        self.same_dtype_errors = True
        self.touched = None
        self.vsizes = []
        self.stops = False
        self.strided = False
        self.filling = False
        self.eqs = []            # sizes known equal on this path

    def loc(self):
        return self.stack[-1] if self.stack else None

    def decide(self, cond, kind):
        """truth of cond (a term) on this path"""
        if cond is TRUE:
            return True
        if cond is FALSE:
            return False
        if cond in self.cache:
            return self.cache[cond]
        n = cnot(cond)
        if n in self.cache:
            return not self.cache[n]
        if kind == "dim":
            c2 = self.simplify(cond)
            if c2 is TRUE or c2 is FALSE:
                return c2 is TRUE
        if kind == "dim" and self.loops and any(l.var in cond.fv for l in self.loops):
            raise Unsupported("branch on the index of a loop of symbolic length")
        k = len(self.taken)
        val = self.decisions[k] if k < len(self.decisions) else True
        if k > 14:
            raise Unsupported("too many undecided branches")
        self.taken.append((cond, kind, val, tuple(self.loc() or ())))
        self.cache[cond] = val
        if kind == "dim":
            self.learn(cond, val)
        return val

    def simplify(self, cond):
        """the size condition under the equalities already decided on this path"""
        if cond.op in ("c.eq", "c.ge"):
            p = cond.a[0]
            for a, q in self.eqs:
                p = p.subst({a: q})
            return ceq(p) if cond.op == "c.eq" else cge(p)
        if cond.op == "c.not":
            return cnot(self.simplify(cond.a[0]))
        if cond.op in ("c.and", "c.or"):
            return (cand if cond.op == "c.and" else cor)(*[self.simplify(c) for c in cond.a])
        return cond

    def learn(self, cond, val):
        if cond.op == "c.not":
            return self.learn(cond.a[0], not val)
        if cond.op == "c.and" and val or cond.op == "c.or" and not val:
            for c in cond.a:
                self.learn(c, val)
        if cond.op == "c.ge":
            _poly.add_fact(cond.a[0] if val else -cond.a[0] - 1)
        if cond.op == "c.eq" and val:
            p = cond.a[0]
            _poly.add_fact(p)
            _poly.add_fact(-p)
            for a in sorted(p.atoms(), key=lambda a: a.key):
                cb = p.coeff(a) if a.kind == "d" else None
                if cb is not None and cb[0].is_const() and abs(cb[0].cval()) == 1:
                    q = -cb[1] * cb[0].cval()
                    if a not in q.atoms():
                        self.eqs.append((a, q))
                        break


CX = Ctx()


def set_ctx(c):
    global CX
    CX = c
    return c


def ctx():
    return CX


FLOATS = ("f16", "bf16", "f32", "f64")
CAT = {"bool": 0, "u8": 1, "i8": 1, "i16": 1, "i32": 1, "i64": 1, "f16": 2, "bf16": 2, "f32": 2, "f64": 2}
RANK = {"bool": 0, "u8": 1, "i8": 1, "i16": 2, "i32": 3, "i64": 4, "f16": 5, "bf16": 5, "f32": 6, "f64": 7}


def promote2(a, b):
    if a == b:
        return a
    if {a, b} == {"f16", "bf16"}:
        return "f32"
    return a if RANK[a] >= RANK[b] else b


class SReal:
    """a symbolic Python float"""

    def __init__(self, e, kind="float"):
        self.e = e

    def __repr__(self):
        return f"SReal({self.e!r})"


class T:
    _id = 0

    def __init__(self, shape, fn_, dtype="f32", device="cpu", rg=False, contig=True):
        self.shape = tuple(topoly(s) for s in shape)
        self.dtype = dtype
        self.device = device
        self.rg = rg and dtype in FLOATS
        self.contig = contig
        self.lay = None       # strides, where they are known and not those of a contiguous tensor
        self.parent = None
        self.ver = 0
        self.is_param = False
        self.leaf = False
        self.name = None
        self.hooks = None
        self.loopw = None
        T._id += 1
        self.id = T._id
        self.storage = self.id
        self.attrs = {}
        self.grad_fn_cut = False
        if fn_ is not None:
            self._vars = tuple(newvar(s) for s in self.shape)
            self._expr = fn_([V(v) for v in self._vars])
            if CX.log is not None:
                CX.log.append((self, tuple(CX.loc() or ()), tuple(CX.vsizes)))

    # content -----------------------------------------------------------
    def totver(self):
        return self.ver + (self.parent.totver() if self.parent is not None else 0)

    def sync(self):
        if self.parent is not None:
            v = self.parent.totver()
            if v != self._pv:
                self._pv = v
                self._expr = self.parent.at(self._rd([V(x) for x in self._vars]))

    def at(self, idx):
        self.sync()
        if CX.touched is not None:
            CX.touched.append(self)
        return subst(self._expr, {a: topoly(p) for a, p in zip(self._vars, idx)})

    @property
    def expr(self):
        self.sync()
        return self._expr

    @property
    def vars(self):
        return self._vars

    def root(self):
        t = self
        while t.parent is not None:
            t = t.parent
        return t

    def write(self, fn_):
        """in-place: new content fn_(idx)"""
        if CX.loops:
            self.root().loopw = CX.loops[-1]
        if self.parent is None:
            vs = tuple(newvar(s) for s in self.shape)
            self._expr, self._vars = fn_([V(v) for v in vs]), vs
            self.ver += 1
            return
        if self._wr is None:
            raise Unsupported("in-place write through this view")
        old = self.parent
        wr = self._wr
        vs = tuple(newvar(s) for s in self.shape)
        new = fn_([V(v) for v in vs])

        def f(k):
            c, vi = wr(k)
            return ite(c, subst(new, dict(zip(vs, vi))), oldexpr(k))

        snap_vars, snap = old.vars, old.expr
        oldexpr = lambda k: subst(snap, dict(zip(snap_vars, k)))
        old.write(f)

    def set_data(self, src):
        """self.data = src: share the content of src"""
        self.shape = src.shape
        self.lay, self.contig = src.lay, src.contig
        self._vars = tuple(newvar(s) for s in self.shape)
        self.parent = src
        self._rd = lambda i: i
        self._wr = lambda k: (TRUE, k)
        self._pv = None
        self.storage = src.storage
        self.dtype, self.device = src.dtype, src.device
        self.ver += 1

    def ndim(self):
        return len(self.shape)

    def __repr__(self):
        return f"T{list(self.shape)}:{self.dtype}"


class Undef:
    """content of torch.empty"""


def mk(shape, f, like=None, ins=(), dtype=None, device=None, contig=True, rg=None):
    ins = [t for t in ins if isinstance(t, T)]
    if like is not None:
        dtype = dtype or like.dtype
        device = device or like.device
    if device is None:
        device = common_device(ins)
    if dtype is None:
        dtype = result_type(ins)
    if rg is None:
        rg = CX.grad and any(t.rg for t in ins)
    if CX.stops and not CX.grad and any(t.rg for t in ins):
        return T(shape, lambda i: stop(f(i)), dtype, device, rg, contig)
    return T(shape, f, dtype, device, rg, contig)


def stop(e):
    """the value e as a constant for differentiation"""
    return E("cust", e, ())


def strides(t):
    """strides of t, None if unknown"""
    if t.lay is not None:
        return t.lay
    return contiguous(t.shape) if t.contig else None


def contiguous(shape):
    return tuple(prod(shape[k + 1:]) for k in range(len(shape)))


def is_contig(shape, st):
    return all(n == ONE or a == b for n, a, b in zip(shape, st, contiguous(shape)))


def set_layout(t, st):
    if st is not None:
        t.contig = is_contig(t.shape, st)
        t.lay = None if t.contig else tuple(st)
    return t


def dense(t):
    """is t a permutation of a contiguous tensor"""
    st = strides(t)
    if st is None:
        return False
    rest = [k for k, n in enumerate(t.shape) if n != ONE]
    e = ONE
    while rest:
        k = next((k for k in rest if st[k] == e), None)
        if k is None:
            return False
        rest.remove(k)
        e = e * t.shape[k]
    return True


def keep_layout(r, ins):
    """memory order of the result of an elementwise operation: that of the first operand"""
    ts = [t for t in ins if isinstance(t, T) and t.shape]
    if ts and ts[0].shape == r.shape and ts[0].lay is not None and r.parent is None and dense(ts[0]):
        r.lay, r.contig = ts[0].lay, False
    return r


def peq(a, b):
    return a == b or ge0(a - b) and ge0(b - a)


def view_strides(t, shape):
    """strides of t.view(shape): a tuple, None if torch refuses, Undef if not known"""
    st, src = strides(t), t.shape
    if st is None or prod(src) != prod(shape):
        return Undef
    if not src:
        return contiguous(shape)
    out = [None] * len(shape)
    vd = len(shape) - 1
    base, tn, vn = st[-1], ONE, ONE
    for d in range(len(src) - 1, -1, -1):
        tn = tn * src[d]
        if d == 0 or (src[d - 1] != ONE and not peq(st[d - 1], tn * base)):
            while vd >= 0 and (not peq(vn, tn) or shape[vd] == ONE):
                out[vd] = vn * base
                vn = vn * shape[vd]
                vd -= 1
            if not peq(vn, tn):
                return None
            if d > 0:
                base, tn, vn = st[d - 1], ONE, ONE
    return tuple(out) if vd == -1 else None


def view(p, shape, rd, wr, contig=False, lay=None):
    t = _mkview(p, shape, rd, wr, contig)
    return t if lay is None else set_layout(t, lay)


def _mkview(p, shape, rd, wr, contig=False):
    t = T(shape, None, p.dtype, p.device, p.rg and CX.grad, contig)
    t.parent = p
    t._vars = tuple(newvar(s) for s in t.shape)
    t._rd, t._wr = rd, wr
    t._pv = None
    t.storage = p.storage
    if p.rg and not CX.grad:
        t.rg = False
    if CX.stops and p.rg and not CX.grad:
        return T(t.shape, lambda i: stop(t.at(i)), p.dtype, p.device, False, contig)
    return t


def common_device(ts):
    ds = []
    for t in ts:
        if len(t.shape) == 0 and t.device == "cpu":
            continue
        if t.device not in ds:
            ds.append(t.device)
    if len(ds) > 1:
        err(RuntimeError, f"tensors on different devices {ds}")
    return ds[0] if ds else "cpu"


def result_type(xs):
    """torch type promotion over tensors and python scalars"""
    dimr = zero = scal = None

    def m(a, b):
        return b if a is None else promote2(a, b)

    for x in xs:
        if isinstance(x, T):
            if x.shape:
                dimr = m(dimr, x.dtype)
            else:
                zero = m(zero, x.dtype)
        elif isinstance(x, bool):
            scal = m(scal, "bool")
        elif isinstance(x, (int, Poly)):
            scal = m(scal, "i64")
        elif isinstance(x, (float, SReal)):
            scal = m(scal, CX.default_dtype)
    r = dimr
    for o in (zero, scal):
        if o is None:
            continue
        if r is None:
            r = o
        elif CAT[o] > CAT[r]:
            r = o if o != "i64" or CAT[r] != 0 else "i64"
    return r or CX.default_dtype


def same_dtype(ts, what):
    ds = {t.dtype for t in ts}
    if len(ds) > 1:
        err(RuntimeError, f"{what}: operands of different types {sorted(ds)}")


def val_expr(x):
    """python scalar -> term"""
    if isinstance(x, T):
        if x.shape and not all(s == ONE for s in x.shape):
            raise Unsupported("tensor used as scalar")
        return x.at([ZERO] * len(x.shape))
    if isinstance(x, SReal):
        return x.e
    if isinstance(x, Poly):
        return ix(x)
    if isinstance(x, (bool, int, float)):
        return num(x)
    raise Unsupported(f"not a scalar: {type(x).__name__}")


# --- dimension reasoning ------------------------------------------------------
def dim_eq(p, q):
    p, q = topoly(p), topoly(q)
    d = p - q
    if not d.t:
        return True
    if nonzero(d):
        return False
    return CX.decide(ceq(d), "dim")


def require_eq(p, q, what):
    """the program only continues if p == q; otherwise torch raises"""
    if not dim_eq(p, q):
        err(RuntimeError, f"{what}: size {p} vs {q}")


def bcast(shapes, what="broadcast"):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        r = None
        for s in shapes:
            i = k - (n - len(s))
            if i < 0:
                continue
            d = s[i]
            if r is None or r == ONE:
                r = d if r is None or d != ONE else r
            elif d == ONE or d == r:
                pass
            else:
                if not dim_eq(r, d):
                    if CX.decide(ceq(r - 1), "dim"):
                        r = d
                    elif CX.decide(ceq(d - 1), "dim"):
                        pass
                    else:
                        err(RuntimeError, f"{what}: size {r} vs {d}")
        out.append(r)
    return tuple(out)


def bidx(t, shape, idx):
    """indices into t for broadcast position idx of shape"""
    off = len(shape) - len(t.shape)
    out = []
    for k, s in enumerate(t.shape):
        full = shape[k + off]
        if s == ONE and full != ONE:
            out.append(ZERO)
        elif s != full and CX.cache.get(ceq(s - 1)) is True:
            out.append(ZERO)
        else:
            out.append(idx[k + off])
    return out


def elementwise(f, *xs, dtype=None, what="elementwise"):
    ts = [x for x in xs if isinstance(x, T)]
    shape = bcast([t.shape for t in ts], what)
    dt = dtype or result_type(xs)

    def g(idx):
        return f(*[x.at(bidx(x, shape, idx)) if isinstance(x, T) else val_expr(x) for x in xs])

    return keep_layout(mk(shape, g, ins=ts, dtype=dt), ts)


def floatify(x):
    dt = x.dtype
    return dt if dt in FLOATS else CX.default_dtype


def unary(f, x):
    return keep_layout(mk(x.shape, lambda i: f(x.at(i)), ins=[x], dtype=floatify(x)), [x])


def axis(t, d, extra=0):
    n = len(t.shape) + extra
    d = concrete(d)
    if not -n <= d < max(n, 1):
        err(IndexError, f"Dimension out of range (got {d} for {n} dims)")
    return d % n if n else 0


def concrete(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Poly) and x.is_const():
        return x.cval()
    raise Unsupported(f"symbolic integer {x!r} where a constant is needed")


# --- shape operations ---------------------------------------------------------
def numel(t):
    return prod(t.shape)


def permute(t, order):
    n = len(t.shape)
    order = [axis(t, o) for o in order]
    if sorted(order) != list(range(n)):
        err(RuntimeError, "permute: invalid dims")
    inv = [order.index(k) for k in range(n)]
    return view(t, [t.shape[o] for o in order], lambda i: [i[inv[k]] for k in range(n)],
                lambda k: (TRUE, [k[o] for o in order]), contig=t.contig and order == list(range(n)),
                lay=strides(t) and [strides(t)[o] for o in order])


def transpose(t, a, b):
    a, b = axis(t, a), axis(t, b)
    o = list(range(len(t.shape)))
    o[a], o[b] = o[b], o[a]
    return permute(t, o)


def movedim(t, src, dst):
    src = [src] if isinstance(src, (int, Poly)) else list(src)
    dst = [dst] if isinstance(dst, (int, Poly)) else list(dst)
    n = len(t.shape)
    src = [axis(t, s) for s in src]
    dst = [axis(t, d) for d in dst]
    if len(set(src)) != len(src) or len(set(dst)) != len(dst) or len(src) != len(dst):
        err(RuntimeError, "movedim: invalid dims")
    order = [None] * n
    for s, d in zip(src, dst):
        order[d] = s
    rest = iter(k for k in range(n) if k not in src)
    order = [next(rest) if o is None else o for o in order]
    return permute(t, order)


def unsqueeze(t, d):
    d = axis(t, d, 1)
    return view(t, t.shape[:d] + (ONE,) + t.shape[d:], lambda i: i[:d] + i[d + 1:],
                lambda k: (TRUE, k[:d] + [ZERO] + k[d:]), contig=t.contig,
                lay=strides(t) and strides(t)[:d] + (ONE,) + strides(t)[d:])


def squeeze(t, d=None):
    n = len(t.shape)
    if d is None:
        ds = [k for k in range(n) if t.shape[k] == ONE]
        for k in range(n):
            if not t.shape[k].is_const():
                # a symbolic size could be one: shape would then change
                if CX.decide(ceq(t.shape[k] - 1), "dim"):
                    ds.append(k)
        ds.sort()
    else:
        dl = [axis(t, x) for x in (d if isinstance(d, (list, tuple)) else [d])]
        ds = [k for k in dl if t.shape[k] == ONE or (not t.shape[k].is_const() and CX.decide(ceq(t.shape[k] - 1), "dim"))]
    keep = [k for k in range(n) if k not in ds]

    def rd(i):
        o = [ZERO] * n
        for k, p in zip(keep, i):
            o[k] = p
        return o

    return view(t, [t.shape[k] for k in keep], rd, lambda k: (TRUE, [k[j] for j in keep]), contig=t.contig,
                lay=strides(t) and [strides(t)[k] for k in keep])


def flat(idx, shape):
    r = ZERO
    for i, s in zip(idx, shape):
        r = r * s + i
    return r


def unflat(f, shape):
    out = []
    for k in range(len(shape)):
        st = prod(shape[k + 1:])
        q = fdiv(f, st)
        out.append(q if k == 0 else fmod(q, shape[k]))
    return out


def reindex(idx, src, dst):
    """position idx in shape src -> the position in shape dst with the same row-major offset"""
    out = [None] * len(dst)
    i = j = 0
    while i < len(src) or j < len(dst):
        # next group with equal products
        i0, j0 = i, j
        a = b = None
        pa, pb = ONE, ONE
        best = None
        ii, jj = i, j
        pas = [ONE]
        for s in src[i:]:
            pas.append(pas[-1] * s)
        pbs = [ONE]
        for s in dst[j:]:
            pbs.append(pbs[-1] * s)
        found = None
        for tot in range(1, len(pas) + len(pbs)):
            for x in range(0, len(pas)):
                y = tot - x
                if 0 <= y < len(pbs) and (x or y) and pas[x] == pbs[y]:
                    found = (x, y)
                    break
            if found:
                break
        if not found:
            raise AssertionError("reindex")
        x, y = found
        S, D = src[i:i + x], dst[j:j + y]
        f = flat(idx[i:i + x], S)
        for k, p in enumerate(unflat(f, D) if y else []):
            out[j + k] = p
        i += x
        j += y
    return out


def resolve_shape(t, shape):
    shape = list(shape)
    n = numel(t)
    neg1 = [k for k, s in enumerate(shape) if isinstance(s, int) and s == -1 or isinstance(s, Poly) and s.is_const() and s.cval() == -1]
    if len(neg1) > 1:
        err(RuntimeError, "only one dimension can be inferred")
    shape = [topoly(s) if not isinstance(s, (float, SReal)) else err(TypeError, "shape must be int") for s in shape]
    if neg1:
        rest = prod([s for k, s in enumerate(shape) if k != neg1[0]])
        q = exact_div(n, rest)
        if q is None:
            # sizes may still be compatible on this path
            q = fdiv(n, rest)
            if not dim_eq(n, q * rest):
                err(RuntimeError, f"shape {shape} is invalid for input of size {n}")
        shape[neg1[0]] = q
    else:
        m = prod(shape)
        if m != n and not dim_eq(m, n):
            err(RuntimeError, f"shape {shape} is invalid for input of size {n}")
    return tuple(shape)


def reshape(t, shape, must_view=False):
    shape = resolve_shape(t, shape)
    src = t.shape
    if tuple(shape) == tuple(src):
        return view(t, shape, lambda i: list(i), lambda k: (TRUE, list(k)), contig=t.contig, lay=t.lay)
    exact = prod(shape) == prod(src)
    if exact:
        rd = lambda i: reindex(i, shape, src)
        wr = lambda k: (TRUE, reindex(k, src, shape))
    else:
        rd = lambda i: unflat(flat(i, shape), src)
        wr = lambda k: (TRUE, unflat(flat(k, src), shape))
    if t.contig:
        return view(t, shape, rd, wr, contig=True)
    st = view_strides(t, shape)
    if st is None and must_view:
        err(RuntimeError, "view size is not compatible with input tensor's size and stride")
    if st is not None and st is not Undef:
        return view(t, shape, rd, wr, contig=False, lay=st)
    if must_view:
        # only compatible strides are accepted; merging permuted axes raises
        if not _viewable(src, shape, t):
            err(RuntimeError, "view size is not compatible with input tensor's size and stride")
        return view(t, shape, rd, wr, contig=False)
    r = mk(shape, lambda i: t.at(rd(i)), ins=[t])
    return r


def _viewable(src, shape, t):
    # a split of axes is always a view; anything that merges non-contiguous axes is not decided here
    i = j = 0
    while i < len(src):
        p = ONE
        if j >= len(shape):
            return src[i] == ONE
        while p != src[i] and j < len(shape):
            p = p * shape[j]
            j += 1
        if p != src[i]:
            raise Unsupported("view of a non-contiguous tensor")
        i += 1
    return True


def flatten(t, a=0, b=-1):
    n = len(t.shape)
    if n == 0:
        return reshape(t, [1])
    a, b = axis(t, a), axis(t, b)
    return reshape(t, t.shape[:a] + (prod(t.shape[a:b + 1]),) + t.shape[b + 1:])


def expand(t, shape):
    shape = list(shape)
    off = len(shape) - len(t.shape)
    if off < 0:
        err(RuntimeError, "expand: fewer dimensions than the tensor")
    out = []
    for k, s in enumerate(shape):
        if isinstance(s, int) and s == -1 or isinstance(s, Poly) and s.is_const() and s.cval() == -1:
            if k < off:
                err(RuntimeError, "expand: -1 for a new dimension")
            out.append(t.shape[k - off])
        else:
            out.append(topoly(s))
    bc = []
    for k, s in enumerate(t.shape):
        if s == ONE:
            bc.append(True)
        else:
            if s != out[k + off] and not dim_eq(s, out[k + off]):
                if CX.decide(ceq(s - 1), "dim"):
                    bc.append(True)
                    continue
                err(RuntimeError, f"expand: size {out[k + off]} vs {s}")
            bc.append(False)
    same = off == 0 and tuple(out) == t.shape
    return view(t, out, lambda i: [ZERO if bc[k] else i[k + off] for k in range(len(t.shape))],
                (lambda k: (TRUE, list(k))) if same else overlap, contig=t.contig and same,
                lay=strides(t) and [ZERO] * off + [ZERO if b and n != ONE else q for b, q, n in zip(bc, strides(t), out[off:])])


def overlap(k):
    if CX.filling:
        raise Unsupported("fill through an expanded view")
    err(RuntimeError, "unsupported operation: more than one element of the written-to tensor refers to a single memory location")


def repeat(t, reps):
    reps = [topoly(r) for r in reps]
    off = len(reps) - len(t.shape)
    if off < 0:
        err(RuntimeError, "repeat: too few dims")
    src = (ONE,) * off + t.shape
    shape = [r * s for r, s in zip(reps, src)]
    return mk(shape, lambda i: t.at([fmod(i[k], src[k]) if src[k] != ONE else ZERO for k in range(off, len(src))]), ins=[t])


def repeat_interleave(t, r, d=None):
    r = topoly(r) if not isinstance(r, T) else r
    if isinstance(r, T):
        raise Unsupported("repeat_interleave with tensor repeats")
    if d is None:
        t = flatten(t)
        d = 0
    d = axis(t, d)
    shape = list(t.shape)
    shape[d] = shape[d] * r
    return mk(shape, lambda i: t.at([fdiv(p, r) if k == d else p for k, p in enumerate(i)]), ins=[t])


def flip(t, dims):
    dims = [axis(t, d) for d in (dims if isinstance(dims, (list, tuple)) else [dims])]
    return mk(t.shape, lambda i: t.at([t.shape[k] - 1 - p if k in dims else p for k, p in enumerate(i)]), ins=[t])


def roll(t, shifts, dims):
    shifts = shifts if isinstance(shifts, (list, tuple)) else [shifts]
    dims = [axis(t, d) for d in (dims if isinstance(dims, (list, tuple)) else [dims])]
    m = dict(zip(dims, shifts))
    return mk(t.shape, lambda i: t.at([fmod(p - topoly(m[k]), t.shape[k]) if k in m else p for k, p in enumerate(i)]), ins=[t])


def cat(ts, d=0):
    if not ts:
        err(RuntimeError, "torch.cat(): expected a non-empty list of Tensors")
    if any(not isinstance(t, T) for t in ts):
        err(TypeError, "cat: expected Tensor as element")
    ts = [t for t in ts if not (len(t.shape) == 1 and t.shape[0] == ZERO)] or ts
    d = axis(ts[0], d)
    n = len(ts[0].shape)
    for t in ts[1:]:
        if len(t.shape) != n:
            err(RuntimeError, "cat: tensors must have same number of dimensions")
        for k in range(n):
            if k != d and t.shape[k] != ts[0].shape[k]:
                require_eq(t.shape[k], ts[0].shape[k], "cat")
    tot = ZERO
    offs = []
    for t in ts:
        offs.append(tot)
        tot = tot + t.shape[d]
    shape = list(ts[0].shape)
    shape[d] = tot
    ts = [t for t in ts]

    def f(i):
        r = None
        for t, o in reversed(list(zip(ts, offs))):
            if t.shape[d] == ZERO:
                continue
            e = t.at([p - o if k == d else p for k, p in enumerate(i)])
            r = e if r is None else ite(cge(o + t.shape[d] - 1 - i[d]), e, r)
        return r if r is not None else N0

    return mk(shape, f, ins=ts)


def stack(ts, d=0):
    if not ts:
        err(RuntimeError, "stack expects a non-empty TensorList")
    return cat([unsqueeze(t, d) for t in ts], axis(ts[0], d, 1))


def diag_embed(t, offset=0, dim1=-2, dim2=-1):
    off = concrete(offset)
    n = len(t.shape) + 1
    a, b = concrete(dim1), concrete(dim2)
    if not (-n <= a < n and -n <= b < n):
        err(IndexError, "Dimension out of range")
    a, b = a % n, b % n
    if a == b:
        err(RuntimeError, "diagonal dimensions cannot be identical")
    m = t.shape[-1] + abs(off)
    rest = list(t.shape[:-1])
    shape = []
    it = iter(rest)
    for k in range(n):
        shape.append(m if k in (a, b) else next(it))

    def f(i):
        lead = [p for k, p in enumerate(i) if k not in (a, b)]
        return ite(ceq(i[b] - i[a] - off), t.at(lead + [i[a] if off >= 0 else i[b]]), N0)

    return mk(shape, f, ins=[t])


def diagonal(t, offset=0, dim1=0, dim2=1):
    off = concrete(offset)
    a, b = axis(t, dim1), axis(t, dim2)
    if a == b:
        err(RuntimeError, "diagonal dimensions cannot be identical")
    n = len(t.shape)
    sa, sb = t.shape[a], t.shape[b]
    if off > 0:
        sb = sb - off
    elif off < 0:
        sa = sa + off
    if sa == sb or dim_eq(sa, sb):
        m = sa
    elif ge0(sb - sa):
        m = sa
    elif ge0(sa - sb):
        m = sb
    else:
        m = sa if CX.decide(cge(sb - sa), "dim") else sb
    if not ge0(m) and not CX.decide(cge(m), "dim"):
        m = ZERO
    keep = [k for k in range(n) if k not in (a, b)]
    oa, ob = max(-off, 0), max(off, 0)

    def rd(i):
        o = [None] * n
        for k, p in zip(keep, i):
            o[k] = p
        o[a], o[b] = i[-1] + oa, i[-1] + ob
        return o

    def wr(k):
        c = [ceq(k[a] - oa - k[b] + ob)]
        if off:
            c.append(inrange(k[a] - oa, m))
        return cand(*c), [k[j] for j in keep] + [k[a] - oa]

    st = strides(t)
    return view(t, [t.shape[k] for k in keep] + [m], rd, wr, lay=st and [st[k] for k in keep] + [st[a] + st[b]])


def diag(t, offset=0):
    if len(t.shape) == 1:
        return diag_embed(t, offset)
    if len(t.shape) == 2:
        d = diagonal(t, offset)
        return mk(d.shape, lambda i: d.at(i), ins=[d])
    err(RuntimeError, "diag: expects 1D or 2D tensor")


# --- indexing -----------------------------------------------------------------
class SliceV:
    """slice with analysed bounds"""

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


def clampdim(p, n, default):
    """python slice bound semantics for a symbolic bound"""
    if p is None:
        return default
    p = topoly(p)
    if ge0(-p - 1):
        p = p + n
        if not ge0(p):
            if CX.decide(cge(p), "dim"):
                return p
            return ZERO
        return p
    if not ge0(p):
        if not CX.decide(cge(p), "dim"):
            p = p + n
    if ge0(n - p):
        return p
    if ge0(p - n):
        return n
    return p if CX.decide(cge(n - p), "dim") else n


def getitem(t, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    if any(isinstance(k, (list,)) for k in key):
        key = [tensor_from(k) if isinstance(k, list) else k for k in key]
    consumed = 0
    for k in key:
        if k is None or k is Ellipsis or isinstance(k, bool):
            continue
        consumed += len(k.shape) if isinstance(k, T) and k.dtype == "bool" else 1
    n = len(t.shape)
    if consumed > n:
        err(IndexError, "too many indices for tensor")
    if Ellipsis in [k for k in key if not isinstance(k, T)]:
        j = [i for i, k in enumerate(key) if k is Ellipsis][0]
        key[j:j + 1] = [slice(None)] * (n - consumed)
        if any(k is Ellipsis for k in key):
            raise Unsupported("two ellipses")
    else:
        key += [slice(None)] * (n - consumed)
    if any(isinstance(k, T) for k in key):
        # basic part first (as a view), then advanced
        return adv_get(t, key)
    return basic_get(t, key)


def basic_get(t, key):
    if all(isinstance(k, slice) and k == slice(None) for k in key):
        return view(t, t.shape, lambda i: list(i), lambda k: (TRUE, list(k)), contig=t.contig, lay=t.lay)
    shape, plan = [], []
    d = 0
    contig = t.contig
    first = True
    for k in key:
        if k is None:
            shape.append(ONE)
            plan.append(("new",))
            continue
        s = t.shape[d]
        if isinstance(k, slice):
            st = 1 if k.step is None else k.step
            if isinstance(st, Poly) and not st.is_const():
                if not ge0(st - 1) and not CX.decide(cge(st - 1), "dim"):
                    err(ValueError, "step must be greater than zero")
            else:
                st = concrete(st)
                if st <= 0:
                    err(ValueError, "step must be greater than zero")
            lo = clampdim(k.start, s, ZERO)
            hi = clampdim(k.stop, s, s)
            if lo == ZERO and hi == s and st == 1:
                shape.append(s)
                plan.append(("all",))
            else:
                ln = hi - lo
                if not ge0(ln):
                    if not CX.decide(cge(ln), "dim"):
                        ln = ZERO
                if st != 1:
                    ln = fdiv(ln + (st - 1), topoly(st))
                    contig = False
                shape.append(ln)
                plan.append(("slice", lo, st, ln))
                if d > 0:
                    contig = False
            d += 1
        elif isinstance(k, (int, Poly)) and not isinstance(k, bool):
            p = topoly(k)
            if ge0(-p - 1):
                p = p + s
            if not (ge0(p) and ge0(s - 1 - p)):
                if ge0(-p - 1) or ge0(p - s):
                    err(IndexError, f"index {p} is out of bounds for dimension with size {s}")
                if not CX.decide(cand(cge(p), cge(s - 1 - p)), "dim"):
                    err(IndexError, f"index {p} is out of bounds for dimension with size {s}")
            plan.append(("pick", p))
            if d > 0:
                contig = False
            d += 1
        else:
            raise Unsupported(f"index of type {type(k).__name__}")

    def rd(i):
        o = []
        j = 0
        for pl in plan:
            if pl[0] == "new":
                j += 1
            elif pl[0] == "all":
                o.append(i[j])
                j += 1
            elif pl[0] == "slice":
                o.append(i[j] * pl[2] + pl[1])
                j += 1
            else:
                o.append(pl[1])
        return o

    def wr(k):
        c = []
        o = []
        j = 0
        for pl in plan:
            if pl[0] == "new":
                o.append(ZERO)
                continue
            p = k[j]
            j += 1
            if pl[0] == "all":
                o.append(p)
            elif pl[0] == "slice":
                lo, st, ln = pl[1:]
                if st == 1:
                    c += [cge(p - lo), cge(lo + ln - 1 - p)]
                    o.append(p - lo)
                else:
                    q = fdiv(p - lo, topoly(st))
                    c += [cge(p - lo), ceq(q * st + lo - p), cge(ln - 1 - q)]
                    o.append(q)
            else:
                c.append(ceq(p - pl[1]))
        return cand(*c), o

    st, lay = strides(t), None
    if st is not None:
        lay, d = [], 0
        for pl in plan:
            if pl[0] == "new":
                lay.append(ONE)
                continue
            if pl[0] == "all":
                lay.append(st[d])
            elif pl[0] == "slice":
                lay.append(st[d] * pl[2])
            d += 1
    v = view(t, shape, rd, wr, contig=contig, lay=lay)
    v.pick = plan
    return v


def index_poly(t, idx, n=None):
    """index expression of an integer tensor (negative values count from the end of a dimension of size n)"""
    e = t.at(idx)
    p = to_poly(e)
    if p is not None:
        return p
    if t.dtype in FLOATS or t.dtype == "bool" or n is None:
        raise Unsupported("index tensor that is not an integer index expression")
    import numpy as np
    free = sorted(t.expr.fv - set(t.vars), key=lambda a: a.key)
    name = opname("itab", (tkey(t), topoly(n)))
    ACCSHAPE[name] = tuple(SIZE[a] for a in free) + tuple(t.shape)
    IRANGE[name] = topoly(n)
    snap = T(t.shape, lambda i: t.at(i), t.dtype)

    def comp(ev):
        a = np.rint(ev.array(snap, free)).astype(int)
        m = ev.const(n)
        return np.where(a < 0, a + m, a)
    OPQ[name] = comp
    return topoly(iacc(name, [V(a) for a in free] + [topoly(q) for q in idx]))


def adv_get(t, key):
    """advanced indexing: tensors (integer) possibly mixed with slices and ints"""
    if any(isinstance(k, T) and k.dtype == "bool" for k in key):
        if len(key) == 1 and len(key[0].shape) == len(t.shape):
            for a, b in zip(key[0].shape, t.shape):
                require_eq(a, b, "mask")
            return MaskSel(t, key[0])
        raise Unsupported("boolean mask indexing")
    if any(k is None for k in key):
        raise Unsupported("None in advanced indexing")
    # apply slices first
    sl = [k if isinstance(k, slice) else slice(None) for k in key]
    base = basic_get(t, sl) if any(s != slice(None) for s in sl) else t
    advs = [(d, k) for d, k in enumerate(key) if not isinstance(k, slice)]
    ts = [k for _, k in advs if isinstance(k, T)]
    bs = bcast([k.shape for k in ts], "index")
    ds = [d for d, _ in advs]
    adjacent = ds == list(range(ds[0], ds[0] + len(ds)))
    pos = ds[0] if adjacent else 0
    rest = [d for d in range(len(base.shape)) if d not in ds]
    shape = [base.shape[d] for d in rest[:pos]] + list(bs) + [base.shape[d] for d in rest[pos:]]
    for k in ts:
        if k.device not in ("cpu", base.device):
            err(RuntimeError, "indices on another device")
        if k.dtype in FLOATS:
            err(IndexError, "tensors used as indices must be integer")

    def rd(i):
        lead, mid, tail = i[:pos], i[pos:pos + len(bs)], i[pos + len(bs):]
        o = [None] * len(base.shape)
        for d, p in zip(rest, lead + tail):
            o[d] = p
        for d, k in advs:
            if isinstance(k, T):
                p = index_poly(k, bidx(k, bs, mid), base.shape[d])
                o[d] = wrapneg(p, base.shape[d])
            else:
                o[d] = wrapneg(topoly(k), base.shape[d])
        return o

    return mk(shape, lambda i: base.at(rd(i)), ins=[base])


def wrapneg(p, n):
    if ge0(-p - 1):
        return p + n
    return p


def adv_scatter(t, key, val, accumulate):
    """t.index_put_(key, val) ; returns the new content function"""
    key = list(key) + [slice(None)] * (len(t.shape) - len(key))
    if any(k is None or k is Ellipsis for k in key) or any(isinstance(k, slice) and k != slice(None) for k in key):
        raise Unsupported("this form of advanced assignment")
    if any(isinstance(k, T) and k.dtype == "bool" for k in key):
        raise Unsupported("boolean mask assignment")
    advs = [(d, k) for d, k in enumerate(key) if not isinstance(k, slice)]
    ts = [k for _, k in advs if isinstance(k, T)]
    for k in ts:
        if k.dtype in FLOATS:
            err(IndexError, "tensors used as indices must be integer")
    bs = bcast([k.shape for k in ts], "index")
    ds = [d for d, _ in advs]
    adjacent = ds == list(range(ds[0], ds[0] + len(ds)))
    pos = ds[0] if adjacent else 0
    rest = [d for d in range(len(t.shape)) if d not in ds]
    shape = [t.shape[d] for d in rest[:pos]] + list(bs) + [t.shape[d] for d in rest[pos:]]
    if isinstance(val, T):
        bcast([tuple(shape), val.shape], "index_put")
        if val.dtype != t.dtype:
            err(RuntimeError, "Index put requires the source and destination dtypes match")
        vt = val
        vat = lambda i: vt.at(bidx(vt, tuple(shape), i))
    else:
        ve = val_expr(val)
        vat = lambda i: ve
    old_vars, old = t.vars, t.expr

    def f(k):
        u = [newvar(s, "u") for s in bs]
        U = [V(x) for x in u]
        conds = []
        for d, kk in advs:
            p = index_poly(kk, bidx(kk, bs, U), t.shape[d]) if isinstance(kk, T) else topoly(kk)
            conds.append(ceq(wrapneg(p, t.shape[d]) - k[d]))
        lead = [k[d] for d in rest[:pos]]
        tail = [k[d] for d in rest[pos:]]
        hit = ind(cand(*conds))
        body = mul(hit, vat(lead + U + tail))
        cnt = hit
        for x, s in zip(u, bs):
            body = sum_(x, s, body)
        o = subst(old, dict(zip(old_vars, k)))
        if accumulate:
            return add(o, body)
        # plain assignment: if positions repeat, one of the values wins (here: the last one)
        return lastwrite(u, bs, conds, vat, lead, tail, o)

    return f


def lastwrite(u, bs, conds, vat, lead, tail, old):
    """value of the last write hitting the position, else old"""
    U = [V(x) for x in u]
    fl = flat(U, bs)
    # last = max over u of hit*(flat+1)
    m = mul(ind(cand(*conds)), add(ix(fl), N1))
    for x, s in zip(reversed(u), reversed(bs)):
        m = red("max", x, s, m)
    w = [newvar(s, "w") for s in bs]
    W = [V(x) for x in w]
    mp = dict(zip(u, W))
    body = mul(ind(ceqv(sub(add(ix(flat(W, bs)), N1), m))), ite(cgt(m), N1, N0), vat(lead + W + tail))
    for x, s in zip(w, bs):
        body = sum_(x, s, body)
    return add(body, mul(ite(cgt(m), N0, N1), old))


def setitem(t, key, val):
    if not isinstance(key, tuple):
        key = (key,)
    if any(isinstance(k, T) or isinstance(k, list) for k in key):
        key = [tensor_from(k) if isinstance(k, list) else k for k in key]
        if any(isinstance(k, T) and k.dtype == "bool" for k in key):
            return mask_set(t, key, val)
        if isinstance(val, T) and val.dtype != t.dtype:
            val = cast(val, t.dtype)
        t.write(adv_scatter(t, tuple(key), val, False))
        return
    tgt = getitem(t, tuple(key))
    inplace_set(tgt, val)


class MaskSel:
    """t[mask]: the entries of t where mask holds (only element by element uses are followed)"""

    def __init__(self, t, mask):
        self.t, self.mask = mk(t.shape, lambda i: t.at(i), ins=[t]), mask
        self.mexpr = mask.at([V(v) for v in self.t.vars])

    def same(self, o):
        return o.mask.at([V(v) for v in self.t.vars]) is self.mexpr


def mask_map(f, *xs):
    ms = [x for x in xs if isinstance(x, MaskSel)]
    if any(not ms[0].same(m) for m in ms[1:]):
        raise Unsupported("selections by different masks")
    if any(isinstance(x, T) and x.shape for x in xs):
        raise Unsupported("a selection combined with a tensor")
    r = f(*[x.t if isinstance(x, MaskSel) else x for x in xs])
    return MaskSel(r, ms[0].mask)


def mask_set(t, key, val):
    if len(key) != 1 or len(key[0].shape) != len(t.shape):
        raise Unsupported("boolean mask assignment")
    inplace_check(t, val)
    if isinstance(val, MaskSel):
        m = key[0]
        for a, b in zip(m.shape, t.shape):
            require_eq(a, b, "mask")
        if m.at([V(v) for v in val.t.vars]) is not val.mexpr:
            raise Unsupported("selections by different masks")
        ov, oe = t.vars, t.expr
        t.write(lambda k: ite(as_cond(m.at(k)), val.t.at(k), subst(oe, dict(zip(ov, k)))))
        if val.t.rg and CX.grad:
            t.root().rg = t.rg = True
        return
    if isinstance(val, T) and val.shape:
        raise Unsupported("boolean mask assignment of a tensor")
    m = key[0]
    for a, b in zip(m.shape, t.shape):
        require_eq(a, b, "mask")
    e = val_expr(val)
    ov, oe = t.vars, t.expr
    t.write(lambda k: ite(as_cond(m.at(k)), e, subst(oe, dict(zip(ov, k)))))


def inplace_check(t, val):
    p = t
    while p is not None and p.rg and CX.grad:
        if p.is_param or p.leaf:
            err(RuntimeError, "a leaf Variable that requires grad is being used in an in-place operation.")
        p = p.parent


def inplace_set(t, val):
    """t[...] = val / t.copy_(val)"""
    inplace_check(t, val)
    if isinstance(val, T):
        s = bcast([t.shape, val.shape], "copy")
        if len(s) != len(t.shape):
            # leading ones may be dropped
            if not all(x == ONE for x in s[: len(s) - len(t.shape)]):
                err(RuntimeError, "shape mismatch in assignment")
        for a, b in zip(s[-len(t.shape):] if t.shape else (), t.shape):
            if a != b and not dim_eq(a, b):
                err(RuntimeError, f"shape mismatch in assignment: {a} vs {b}")
        vv = T(val.shape, lambda i: val.at(i), val.dtype, val.device, val.rg)
        if t.device != val.device and val.shape and CX.loc() and not getattr(t, "_copyok", True):
            err(RuntimeError, "device mismatch")
        drop = len(val.shape) - len(t.shape)

        def f(i):
            ii = [ZERO] * max(drop, 0) + list(i)
            return vv.at(bidx(vv, ((ONE,) * max(drop, 0)) + t.shape, ii))

        t.write(f)
        if val.rg and CX.grad:
            t.root().rg = True
            t.rg = True
    else:
        e = val_expr(val)
        CX.filling = True
        try:
            t.write(lambda i: e)
        finally:
            CX.filling = False


def as_cond(e):
    if e.op == "ite" and e.a[1] is N1 and e.a[2] is N0:
        return e.a[0]
    if isnum(e):
        return TRUE if e.a[0] != 0 else FALSE
    return cnot(ceqv(e))


def cast(t, dt):
    if dt == t.dtype:
        return t
    if dt == "bool":
        f = lambda i: ind(as_cond(t.at(i)))
    elif CAT[dt] == 1 and t.dtype in FLOATS:
        def f(i):
            e = t.at(i)
            if to_poly(e) is not None:
                return e
            return fn("trunc", e)
    else:
        f = lambda i: t.at(i)
    return keep_layout(mk(t.shape, f, ins=[t], dtype=dt, device=t.device), [t])


def tensor_from(x, dtype=None, device="cpu"):
    """torch.tensor(nested lists)"""
    if isinstance(x, T):
        return cast(mk(x.shape, lambda i: x.at(i), like=x, rg=False), dtype or x.dtype)

    def shp(y):
        if isinstance(y, (list, tuple)):
            return [len(y)] + (shp(y[0]) if y else [])
        return []

    sh = shp(x)
    flat_ = []

    def walk(y):
        if isinstance(y, (list, tuple)):
            for z in y:
                walk(z)
        else:
            flat_.append(y)

    walk(x)
    es = [val_expr(y) for y in flat_]
    if dtype is None:
        dtype = result_type(flat_) if flat_ else CX.default_dtype
    if not sh:
        return T((), lambda i: es[0], dtype, device)
    if len(es) == 1:
        return T(sh, lambda i: es[0], dtype, device)

    def f(i):
        fl = flat(i, [topoly(s) for s in sh])
        r = es[-1]
        for k in range(len(es) - 2, -1, -1):
            r = ite(ceq(fl - k), es[k], r)
        return r

    return T(sh, f, dtype, device)


# --- contractions -------------------------------------------------------------
def einsum(eq, ops):
    eq = eq.replace(" ", "")
    if "->" in eq:
        lhs, rhs = eq.split("->")
    else:
        lhs, rhs = eq, None
    subs = lhs.split(",")
    if len(subs) != len(ops):
        err(RuntimeError, "einsum: wrong number of operands")
    if any(not isinstance(o, T) for o in ops):
        err(TypeError, "einsum: operands must be tensors")
    # parse
    labs = []
    ellipsis_rank = 0
    for s, o in zip(subs, ops):
        if "..." in s:
            a, b = s.split("...")
            k = len(o.shape) - len(a) - len(b)
            if k < 0:
                err(RuntimeError, "einsum: too few dimensions")
            ellipsis_rank = max(ellipsis_rank, k)
            labs.append((list(a), k, list(b)))
        else:
            if len(s) != len(o.shape):
                err(RuntimeError, f"einsum(): the number of subscripts in the equation ({len(s)}) does not match the number of dimensions ({len(o.shape)})")
            labs.append((list(s), None, []))
    full = []
    for a, k, b in labs:
        e = [] if k is None else [f"..{ellipsis_rank - k + j}" for j in range(k)]
        full.append(a + e + b)
    if rhs is None:
        cnt = {}
        for l in full:
            for c in l:
                cnt[c] = cnt.get(c, 0) + 1
        out = [f"..{j}" for j in range(ellipsis_rank)] + sorted(c for c, n in cnt.items() if n == 1 and not c.startswith(".."))
    else:
        out = []
        if "..." in rhs:
            a, b = rhs.split("...")
            out = list(a) + [f"..{j}" for j in range(ellipsis_rank)] + list(b)
        else:
            out = list(rhs)
    sizes = {}
    for l, o in zip(full, ops):
        for c, s in zip(l, o.shape):
            if c not in sizes or sizes[c] == ONE:
                sizes[c] = s
            elif s != ONE and s != sizes[c]:
                require_eq(s, sizes[c], f"einsum '{eq}' label {c}")
    for c in out:
        if c not in sizes:
            err(RuntimeError, f"einsum: output label {c} not in inputs")
    if len(set(out)) != len(out):
        err(RuntimeError, "einsum: repeated output label")
    if len(ops) > 1:
        same_dtype(ops, "einsum")
    red_ = [c for c in sizes if c not in out]

    def f(i):
        env = dict(zip(out, i))
        bound = []
        for c in red_:
            v = newvar(sizes[c], "e")
            env[c] = V(v)
            bound.append((v, sizes[c]))
        body = mul(*[o.at([ZERO if s == ONE and sizes[c] != ONE else env[c] for c, s in zip(l, o.shape)])
                     for l, o in zip(full, ops)])
        for v, s in bound:
            body = sum_(v, s, body)
        return body

    if len(ops) == 1 and not red_:
        # a view of the operand (diagonal / permutation)
        o, l = ops[0], full[0]
        return view(o, [sizes[c] for c in out], lambda i: [dict(zip(out, i))[c] for c in l], None, contig=False) \
            if True else None
    return mk([sizes[c] for c in out], f, ins=ops, contig=False)


def matmul(a, b):
    if not isinstance(a, T) or not isinstance(b, T):
        err(TypeError, "matmul: expected tensors")
    if not a.shape or not b.shape:
        err(RuntimeError, "both arguments to matmul need to be at least 1D")
    same_dtype([a, b], "matmul")
    va, vb = len(a.shape) == 1, len(b.shape) == 1
    A = unsqueeze(a, 0) if va else a
    B = unsqueeze(b, 1) if vb else b
    n = A.shape[-1]
    if n != B.shape[-2]:
        require_eq(n, B.shape[-2], "matmul")
    bs = bcast([A.shape[:-2], B.shape[:-2]], "matmul") if len(A.shape) > 2 or len(B.shape) > 2 else ()

    def bi(t, i):
        off = len(bs) - (len(t.shape) - 2)
        return [ZERO if s == ONE and bs[k + off] != ONE else i[k + off] for k, s in enumerate(t.shape[:-2])]

    def f(i):
        i = list(i)
        lead, rest = i[:len(bs)], i[len(bs):]
        r = ZERO if va else rest.pop(0)
        c = ZERO if vb else rest.pop(0)
        v = newvar(n, "k")
        return sum_(v, n, mul(A.at(bi(A, lead) + [r, V(v)]), B.at(bi(B, lead) + [V(v), c])))

    shape = list(bs) + ([] if va else [A.shape[-2]]) + ([] if vb else [B.shape[-1]])
    return mk(shape, f, ins=[a, b])


def reduce_dims(t, dims):
    n = len(t.shape)
    if dims is None:
        return list(range(n))
    if not isinstance(dims, (list, tuple)):
        dims = [dims]
    return [axis(t, d) for d in dims]


def reduce(t, dims, keep, op, post=None, dtype=None):
    ds = reduce_dims(t, dims)
    n = len(t.shape)
    shape = []
    for k in range(n):
        if k in ds:
            if keep:
                shape.append(ONE)
        else:
            shape.append(t.shape[k])

    def f(i):
        o = [None] * n
        it = iter(i)
        bound = []
        for k in range(n):
            if k in ds:
                if keep:
                    next(it)
                v = newvar(t.shape[k], "r")
                bound.append((v, t.shape[k]))
                o[k] = V(v)
            else:
                o[k] = next(it)
        e = op(t.at(o), bound)
        return post(e, prod([t.shape[k] for k in ds])) if post else e

    return mk(shape, f, ins=[t], dtype=dtype)


def rsum(e, bound):
    for v, s in bound:
        e = sum_(v, s, e)
    return e


def rmax(e, bound):
    for v, s in bound:
        e = red("max", v, s, e)
    return e


def rmin(e, bound):
    for v, s in bound:
        e = red("min", v, s, e)
    return e


def rlse(e, bound):
    if len(bound) != 1:
        v0, s0 = bound[0]
        r = red("lse", v0, s0, e)
        for v, s in bound[1:]:
            r = red("lse", v, s, r)
        return r
    return red("lse", *bound[0], e)


# --- keys of opaque functions ---------------------------------------------------
def alpha(e, env=None, depth=0):
    """alpha-invariant text of a term (arguments of sums and products sorted)"""
    env = env or {}

    def P(p):
        m = {a: Poly.atom(env[a]) for a in p.all_atoms() if a in env}
        return repr(p.subst(m)) if m else repr(p)

    op, a = e.op, e.a
    if op == "num":
        return str(a[0])
    if op == "ix":
        return "<" + P(a[0]) + ">"
    if op == "acc":
        return a[0] + "[" + ",".join(P(p) for p in a[1]) + "]"
    if op in ("add", "mul", "c.and", "c.or"):
        return op + "(" + ";".join(sorted(alpha(x, env, depth) for x in a)) + ")"
    if op in ("sum", "max", "min", "lse"):
        at = Atom("v", f"%{depth}")
        SIZE.setdefault(at, a[1])
        e2 = dict(env)
        e2[a[0]] = at
        return f"{op}{{{depth}<{P(a[1])}}}({alpha(a[2], e2, depth + 1)})"
    parts = []
    for x in a:
        if isinstance(x, E):
            parts.append(alpha(x, env, depth))
        elif isinstance(x, Poly):
            parts.append(P(x))
        elif isinstance(x, tuple):
            parts.append(";".join(alpha(y[0], env, depth) + "~" + alpha(y[1], env, depth) for y in x))
        else:
            parts.append(str(x))
    return op + "(" + "|".join(parts) + ")"


NORMKEY = [None]
_kc = {}


def tkey(t):
    """identity of the *value* of a tensor"""
    cv = []
    for k, s in enumerate(t.shape):
        a = Atom("v", f"&{k}:{s!r}")
        SIZE.setdefault(a, s)
        cv.append(V(a))
    e = t.at(cv)
    k = _kc.get(e)
    if k is None:
        k = NORMKEY[0](e, [list(v.atoms())[0] for v in cv]) if NORMKEY[0] else None
        if k is None:
            k = alpha(e)
        _kc[e] = k
    return f"{[repr(s) for s in t.shape]}:{k}"


_names = {}


def reset():
    _names.clear()
    _kc.clear()


def opname(prefix, key):
    k = (prefix, key)
    if k not in _names:
        _names[k] = f"{prefix}#{len([1 for p, _ in _names if p == prefix])}"
    return _names[k]


def sym(name, shape, kind="real", dtype="f32", device="cpu", rg=False, plain=False):
    shape = tuple(topoly(s) for s in shape)
    ACCSHAPE[name] = shape
    KIND[name] = kind
    t = T(shape, lambda i: acc(name, i), dtype, device, rg)
    t.leaf = rg
    if CX.strided and not plain and len(shape) > 1:
        # batch slowest, the other axes in reverse memory order
        if len(shape) == 2:
            st = (ONE, shape[0])
        else:
            st = (prod(shape[1:]),) + tuple(prod(shape[1:k]) for k in range(1, len(shape)))
        set_layout(t, st)
    return t


# --- convolution and pooling ------------------------------------------------------
def pair(x):
    if isinstance(x, (list, tuple)):
        if len(x) == 1:
            return (topoly(x[0]), topoly(x[0]))
        return tuple(topoly(y) for y in x)
    return (topoly(x), topoly(x))


def conv2d(x, w, bias=None, stride=1, padding=0, dilation=1, groups=1):
    if len(x.shape) == 3:
        r = conv2d(unsqueeze(x, 0), w, bias, stride, padding, dilation, groups)
        return squeeze0(r)
    if len(x.shape) != 4 or len(w.shape) != 4:
        err(RuntimeError, "conv2d: expected 4D input and weight")
    ins = [x, w] + ([bias] if bias is not None else [])
    same_dtype(ins, "conv2d")
    s, d = pair(stride), pair(dilation)
    N, C, H, W = x.shape
    O, I, kh, kw = w.shape
    if isinstance(padding, str):
        if padding == "valid":
            p = (ZERO, ZERO)
        elif padding == "same":
            if any(not dim_eq(y, 1) for y in s):
                err(RuntimeError, "padding='same' is not supported for strided convolutions")
            tot = [d[0] * (kh - 1), d[1] * (kw - 1)]
            p = (fdiv(tot[0], Poly.const(2)), fdiv(tot[1], Poly.const(2)))
            oH, oW = H, W
        else:
            err(RuntimeError, "invalid padding string")
    else:
        p = pair(padding)
    g = topoly(groups)
    if g != ONE:
        if not g.is_const() and not CX.decide(ceq(g - 1), "dim"):
            pass
        elif not g.is_const():
            g = ONE
    if g == ONE:
        if I != C:
            require_eq(I, C, "conv2d channels")
        chan = lambda o, i: i
    else:
        if I * g != C:
            require_eq(I * g, C, "conv2d channels")
        og = exact_div(O, g)
        if og is None:
            og = fdiv(O, g)
        chan = lambda o, i: fdiv(o, og) * I + i
    for q in p:
        if ge0(-q - 1):
            err(RuntimeError, "negative padding is not supported")
        if not ge0(q):
            if not CX.decide(cge(q), "dim"):
                err(RuntimeError, "negative padding is not supported")
    if not (isinstance(padding, str) and padding == "same"):
        oH = fdiv(H + 2 * p[0] - d[0] * (kh - 1) - 1, s[0]) + 1
        oW = fdiv(W + 2 * p[1] - d[1] * (kw - 1) - 1, s[1]) + 1
    for o in (oH, oW):
        if not ge0(o - 1):
            if ge0(-o) or not CX.decide(cge(o - 1), "dim"):
                err(RuntimeError, f"conv2d: Calculated output size {o} is too small")

    def f(i):
        n, o, y, z = i
        c, a, b = newvar(I, "c"), newvar(kh, "kh"), newvar(kw, "kw")
        yy = y * s[0] + V(a) * d[0] - p[0]
        zz = z * s[1] + V(b) * d[1] - p[1]
        g_ = cand(inrange(yy, H), inrange(zz, W))
        body = mul(ind(g_), x.at([n, chan(o, V(c)), yy, zz]), w.at([o, V(c), V(a), V(b)]))
        r = sum_(c, I, sum_(a, kh, sum_(b, kw, body)))
        return add(r, bias.at([o])) if bias is not None else r

    return mk((N, O, oH, oW), f, ins=ins)


def squeeze0(t):
    return view(t, t.shape[1:], lambda i: [ZERO] + list(i), lambda k: (TRUE, k[1:]), contig=t.contig)


def conv_transpose2d(x, w, bias=None, stride=1, padding=0, output_padding=0, groups=1, dilation=1):
    if len(x.shape) == 3:
        return squeeze0(conv_transpose2d(unsqueeze(x, 0), w, bias, stride, padding, output_padding, groups, dilation))
    if len(x.shape) != 4 or len(w.shape) != 4:
        err(RuntimeError, "conv_transpose2d: expected 4D input and weight")
    ins = [x, w] + ([bias] if bias is not None else [])
    same_dtype(ins, "conv_transpose2d")
    s, d, p, op = pair(stride), pair(dilation), pair(padding), pair(output_padding)
    g = topoly(groups)
    if g != ONE:
        if g.is_const() or not CX.decide(ceq(g - 1), "dim"):
            raise Unsupported("grouped transposed convolution")
    N, C, H, W = x.shape
    C2, O, kh, kw = w.shape
    if C != C2:
        require_eq(C, C2, "conv_transpose2d channels")
    for q in p:
        if not ge0(q) and (ge0(-q - 1) or not CX.decide(cge(q), "dim")):
            err(RuntimeError, "negative padding is not supported")
    oH = (H - 1) * s[0] - 2 * p[0] + d[0] * (kh - 1) + op[0] + 1
    oW = (W - 1) * s[1] - 2 * p[1] + d[1] * (kw - 1) + op[1] + 1
    for o in (oH, oW):
        if not ge0(o - 1):
            if ge0(-o) or not CX.decide(cge(o - 1), "dim"):
                err(RuntimeError, "conv_transpose2d: output size too small")

    def f(i):
        n, o, y, z = i
        c, a, b = newvar(C, "c"), newvar(kh, "kh"), newvar(kw, "kw")
        conds, idx, extra = [], [], []
        for yy, k, st, dd, pp, n_ in ((y, a, s[0], d[0], p[0], H), (z, b, s[1], d[1], p[1], W)):
            q = yy + pp - V(k) * dd
            if st == ONE:
                idx.append(q)
                conds.append(inrange(q, n_))
            else:
                u = newvar(n_, "u")
                extra.append((u, n_))
                idx.append(V(u))
                conds.append(ceq(V(u) * st - q))
        body = mul(ind(cand(*conds)), x.at([n, V(c)] + idx), w.at([V(c), o, V(a), V(b)]))
        for u, n_ in extra:
            body = sum_(u, n_, body)
        r = sum_(c, C, sum_(a, kh, sum_(b, kw, body)))
        return add(r, bias.at([o])) if bias is not None else r

    return mk((N, O, oH, oW), f, ins=ins)


def max_pool2d(x, kernel_size, stride=None, padding=0, dilation=1, ceil_mode=False, return_indices=False):
    if len(x.shape) == 3:
        v, i = max_pool2d(unsqueeze(x, 0), kernel_size, stride, padding, dilation, ceil_mode, True)
        v, i = squeeze0(v), squeeze0(i)
        return (v, i) if return_indices else v
    if len(x.shape) != 4:
        err(RuntimeError, "max_pool2d: expected 3D or 4D input")
    if stride is None or stride == []:
        stride = kernel_size
    k, s, p, d = pair(kernel_size), pair(stride), pair(padding), pair(dilation)
    if ceil_mode not in (True, False):
        raise Unsupported("symbolic ceil_mode")
    N, C, H, W = x.shape
    cfg = f"{k}{s}{p}{d}{ceil_mode}"
    out = []
    for n_, j in ((H, 0), (W, 1)):
        for q in (k[j] - 1, s[j] - 1, d[j] - 1, p[j], k[j] - 2 * p[j]):
            if not ge0(q) and (ge0(-q - 1) or not CX.decide(cge(q), "dim")):
                err(RuntimeError, "max_pool2d: invalid kernel, stride, padding or dilation")
        q = n_ + 2 * p[j] - d[j] * (k[j] - 1) - 1
        e = fdiv(q, s[j]) if not ceil_mode else None
        if e is not None and not any(a.kind != "d" for a in e.atoms()):
            o = e + 1
        else:
            key = f"pool({n_!r},{k[j]!r},{s[j]!r},{p[j]!r},{d[j]!r},{ceil_mode})"
            DIMDEF[key] = lambda ev, q=q, n_=n_, j=j: pool_out(ev.const(q), ev.const(s[j]), ev.const(n_), ev.const(p[j]), ceil_mode)
            o = dim(key)
        if not ge0(o - 1) and (ge0(-o) or not CX.decide(cge(o - 1), "dim")):
            err(RuntimeError, "max_pool2d: Calculated output size is too small")
        out.append(o)
    from .torchmodel import opaque_idx

    def comp(a, ev):
        c = [ev.const(z) for z in (k[0], k[1], s[0], s[1], p[0], p[1], d[0], d[1], out[0], out[1])]
        return pool_argmax(a, *c)

    name, fr = opaque_idx("poolidx", x, H * W, (N, C, out[0], out[1]), cfg, comp)
    DEPS[name] = x

    def f(i):
        I = iacc(name, fr + list(i))
        return x.at([i[0], i[1], fdiv(I, W), fmod(I, W)])

    val = mk((N, C, out[0], out[1]), f, ins=[x])
    idx = T((N, C, out[0], out[1]), lambda i: ix(iacc(name, fr + list(i))), "i64", x.device)
    return (val, idx) if return_indices else val


def pool_out(q, s, n, p, ceil):
    o = (q + (s - 1 if ceil else 0)) // s + 1
    if ceil and (o - 1) * s >= n + p:
        o -= 1
    return o


def pool_argmax(a, kh, kw, sh, sw, ph, pw, dh, dw, oh, ow):
    import numpy as np
    lead = a.shape[:-2]
    H, W = a.shape[-2:]
    A = a.reshape((-1, H, W))
    best = np.full((A.shape[0], oh, ow), -np.inf)
    idx = np.zeros((A.shape[0], oh, ow), dtype=np.int64)
    for y in range(oh):
        for z in range(ow):
            y0, z0 = y * sh - ph, z * sw - pw
            first = True
            for i in range(kh):
                for j in range(kw):
                    yy, zz = y0 + i * dh, z0 + j * dw
                    if not (0 <= yy < H and 0 <= zz < W):
                        continue
                    v = A[:, yy, zz]
                    m = v > best[:, y, z]
                    if first:
                        m = np.ones_like(m)
                        first = False
                    best[:, y, z] = np.where(m, v, best[:, y, z])
                    idx[:, y, z] = np.where(m, yy * W + zz, idx[:, y, z])
    return idx.reshape(lead + (oh, ow))


DEPS = {}


def upsample_nearest(x, sc):
    """nearest interpolation by integer factors"""
    N, C, H, W = x.shape
    s = pair(sc)
    return mk((N, C, H * s[0], W * s[1]), lambda i: x.at([i[0], i[1], fdiv(i[2], s[0]), fdiv(i[3], s[1])]), ins=[x])
