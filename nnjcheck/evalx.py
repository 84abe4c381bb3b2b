"""Point evaluation of extracted terms (identity testing of two terms; the program itself never runs)."""
import numpy as np
from fractions import Fraction

from .poly import Poly, SIZE, IRANGE, topoly
from .expr import E, N0, N1, isnum

ACCSHAPE = {}   # access name -> tuple of Poly
KIND = {}       # access name -> generator kind
OPQ = {}        # opaque table name -> function(Ev) computing it from the values it is a function of
OPQV = {}       # opaque table name -> the value it is computed from
DIMDEF = {}     # opaque dimension -> function(Ev)


class TooBig(Exception):
    pass


class Ev:
    LIMIT = 6_000_000

    def __init__(self, dims, seed=0, mode="normal", tables=None, scale=None, near=(), ft=float):
        self.near = list(near)
        self.ft = ft
        self.work = 0
        self.dims = dims
        self.seed = seed
        self.mode = mode
        self.tables = tables if tables is not None else {}
        self.scale = scale or {}
        self.memo = {}
        self.pm = {}

    def precise(self):
        """the same point evaluated with more digits"""
        e = getattr(self, "_hp", None)
        if e is None:
            t = {k: v for k, v in self.tables.items() if k not in OPQ}
            e = self._hp = Ev(self.dims, self.seed, self.mode, t, self.scale, self.near, np.longdouble)
        return e

    # --- tables
    def shape(self, name):
        return tuple(int(self.const(p)) for p in ACCSHAPE[name])

    def const(self, p):
        v, d = self.poly(topoly(p))
        assert not v, (p, v)
        return int(d)

    def table(self, name):
        t = self.tables.get(name)
        if t is None:
            if name in OPQ:
                t = np.asarray(OPQ[name](self))
                self.tables[name] = t
                return t
            import zlib
            rng = np.random.default_rng((self.seed * 1000003 + zlib.crc32(name.encode())) & 0x7FFFFFFF)
            if name in IRANGE:
                t = rng.integers(0, max(1, self.const(IRANGE[name])), size=self.shape(name))
            else:
                sh = self.shape(name)
                kind = KIND.get(name, "real")
                if kind == "real":
                    if self.mode == "normal":
                        t = rng.uniform(-1.5, 1.5, size=sh)
                    elif self.mode == "near":
                        t = rng.uniform(-1.5, 1.5, size=sh)
                        if self.near:
                            c = rng.choice(self.near, size=sh) * (1 + rng.choice([0.004, -0.004, 0.05, -0.05, 0.2, -0.2], size=sh) * rng.uniform(0.5, 1, size=sh))
                            t = np.where(rng.random(size=sh) < 0.6, c, t)
                    elif self.mode == "ints":
                        t = rng.integers(-2, 3, size=sh).astype(float)
                    elif self.mode == "big":
                        t = rng.normal(size=sh) * 12
                    elif self.mode == "zeros":
                        t = np.zeros(sh)
                    elif self.mode == "sym":
                        t = rng.uniform(-1.5, 1.5, size=sh)
                        if len(sh) >= 2 and sh[-1] == sh[-2]:
                            t = t + np.swapaxes(t, -1, -2)
                    elif self.mode == "spread":
                        # samples of very different magnitudes in one batch
                        t = rng.uniform(-1.5, 1.5, size=sh)
                        if len(sh) >= 2 and not name.startswith("th"):
                            t = t * rng.choice([1e-4, 1.0, 1e3, 1e9], size=(sh[0],) + (1,) * (len(sh) - 1))
                    elif self.mode == "mixed":
                        t = rng.choice([0.0, -0.5, 1e3, -1e3, 120.0, -120.0], size=sh)
                    elif self.mode == "huge":
                        t = rng.choice([-1.0, 1.0], size=sh) * rng.choice([0.5, 90.0, 300.0, 1e3, 1e4, 1e8, 1e30], size=sh)
                    else:
                        raise AssertionError(self.mode)
                elif kind == "junk":
                    t = rng.normal(size=sh) * 3
                elif kind == "pos":
                    t = rng.uniform(0.3, 1.7, size=sh)
                elif kind == "tiny":
                    t = rng.uniform(1e-3, 1e-1, size=sh)
                elif kind == "unit":
                    t = rng.uniform(0, 1, size=sh) if self.mode != "ints" else rng.integers(0, 2, size=sh).astype(float)
                elif kind == "prob":
                    t = rng.uniform(0.05, 1, size=sh)
                    t = t / t.sum(-1, keepdims=True)
                elif kind == "onehot":
                    t = np.eye(sh[-1])[rng.integers(0, sh[-1], size=sh[:-1])]
                elif kind == "spd":
                    t = rng.normal(size=sh)
                    t = t @ np.swapaxes(t, -1, -2) + 0.5 * np.eye(sh[-1])
                else:
                    raise AssertionError(kind)
            s = self.scale.get(name)
            if s is not None:
                t = t * s
            self.tables[name] = t
        return t

    # --- named arrays
    def align(self, xs):
        vs = sorted({v for x in xs for v in x[0]}, key=lambda a: a.key)
        out = []
        for v, d in xs:
            if not isinstance(d, np.ndarray) or d.ndim == 0:
                out.append(d)
                continue
            sh = [1] * len(vs)
            order = sorted(range(len(v)), key=lambda i: v[i].key)
            d = d.transpose(order)
            for i, j in enumerate(order):
                sh[vs.index(v[j])] = d.shape[i]
            out.append(d.reshape(sh))
        n = 1
        for v in vs:
            n *= self.const(SIZE[v])
        if n > self.LIMIT:
            raise TooBig(n)
        self.work += n + 20
        return tuple(vs), out

    def poly(self, p):
        r = self.pm.get(p)
        if r is not None:
            return r
        xs = []
        for m, c in p.t.items():
            fs = []
            for a, e in m:
                x = self.atom(a)
                fs += [x] * e
            if not fs:
                xs.append(((), np.int64(c)))
                continue
            vs, ds = self.align(fs)
            d = np.int64(c)
            for y in ds:
                d = d * y
            xs.append((vs, d))
        if not xs:
            r = ((), np.int64(0))
        else:
            vs, ds = self.align(xs)
            d = ds[0]
            for y in ds[1:]:
                d = d + y
            r = (vs, d)
        self.pm[p] = r
        return r

    def atom(self, a):
        if a.kind == "d":
            if a.key not in self.dims:
                self.dims[a.key] = int(DIMDEF[a.key](self))
            return ((), np.int64(self.dims[a.key]))
        if a.kind == "v":
            n = self.const(SIZE[a])
            return ((a,), np.arange(n))
        if a.kind in "qm":
            vs, (x, y) = self.align([self.poly(a.args[0]), self.poly(a.args[1])])
            return (vs, x // y if a.kind == "q" else x % y)
        if a.kind == "a":
            return self.access(a.args[0], a.args[1:])
        raise AssertionError(a.kind)

    def access(self, name, idx):
        t = self.table(name)
        if not idx:
            return ((), t[()])
        vs, ds = self.align([self.poly(p) for p in idx])
        ds = [np.clip(d, 0, s - 1) for d, s in zip(ds, t.shape)]
        r = t[tuple(ds)]
        if isinstance(r, np.ndarray) and r.ndim != len(vs):
            r = np.broadcast_to(r, (1,) * (len(vs) - r.ndim) + r.shape)
        # drop axes of size one that are broadcast
        return self._full(vs, r)

    def _full(self, vs, r):
        r = np.asarray(r)
        sh = tuple(self.const(SIZE[v]) for v in vs)
        if r.shape != sh:
            r = np.broadcast_to(r, sh)
        return (vs, r)

    def array(self, t, free=()):
        """values of an abstract tensor, axes (free..., own...)"""
        order = list(free) + list(t.vars)
        vs, d = self.ev(t.expr)
        sh = tuple(self.const(SIZE[v]) for v in order)
        d = np.asarray(d, dtype=self.ft)
        src = [v for v in order if v in vs]
        d = d.transpose([vs.index(v) for v in src]) if src else d
        d = d.reshape([self.const(SIZE[v]) if v in vs else 1 for v in order])
        return np.broadcast_to(d, sh)

    def ev(self, e):
        r = self.memo.get(e.id)
        if r is None:
            r = self._ev(e)
            self.memo[e.id] = r
        return r

    def _ev(self, e):
        op, a = e.op, e.a
        if op == "num":
            return ((), self.ft(a[0].numerator) / self.ft(a[0].denominator) if isinstance(a[0], Fraction) and max(abs(a[0].numerator), a[0].denominator) < 2 ** 60 else self.ft(float(a[0])))
        if op == "ix":
            v, d = self.poly(a[0])
            return (v, np.asarray(d, dtype=self.ft))
        if op == "acc":
            return self.access(a[0], a[1])
        if op == "add":
            vs, ds = self.align([self.ev(x) for x in a])
            d = ds[0]
            for y in ds[1:]:
                d = d + y
            return self._full(vs, d) if vs else (vs, d)
        if op == "mul":
            vs, ds = self.align([self.ev(x) for x in a])
            d = ds[0]
            for y in ds[1:]:
                d = d * y
            return self._full(vs, d) if vs else (vs, d)
        if op == "pow":
            v, d = self.ev(a[0])
            ex = a[1]
            d = np.asarray(d, dtype=self.ft)
            return (v, d ** int(ex) if ex.denominator == 1 and ex > 0 else d ** self.ft(float(ex)))
        if op == "fn":
            v, d = self.ev(a[1])
            r = _fn(a[0], np.asarray(d, dtype=self.ft))
            if self.mode in ("huge", "mixed") and a[0] in ("exp", "expm1"):
                r = np.where(r > 3.4e38, np.inf, np.where(r < 1.2e-38, 0.0, r) if a[0] == "exp" else r)
            return (v, r)
        if op == "fn2":
            vs, (x, y) = self.align([self.ev(a[1]), self.ev(a[2])])
            if a[0] == "pow":
                return self._full(vs, np.power(np.asarray(x, self.ft), y))
            raise AssertionError(a[0])
        if op == "sum":
            return self._sum(e)
        if op in ("max", "min", "lse"):
            v, d = self.ev(a[2])
            n = self.const(a[1])
            if a[0] not in v:
                return (v, d if op != "lse" else d + np.log(n))
            k = v.index(a[0])
            rest = v[:k] + v[k + 1:]
            if op == "max":
                return (rest, d.max(axis=k))
            if op == "min":
                return (rest, d.min(axis=k))
            m = d.max(axis=k, keepdims=True)
            return (rest, (np.log(np.exp(d - m).sum(axis=k, keepdims=True)) + m).squeeze(k))
        if op == "ite":
            c = self.ev(a[0])
            vs, (c, x, y) = self.align([c, self.ev(a[1]), self.ev(a[2])])
            return self._full(vs, np.where(c, x, y))
        if op == "cust":
            return self.ev(a[0])
        if op == "c.true":
            return ((), np.bool_(True))
        if op == "c.false":
            return ((), np.bool_(False))
        if op == "c.eq":
            v, d = self.poly(a[0])
            return (v, d == 0)
        if op == "c.ge":
            v, d = self.poly(a[0])
            return (v, d >= 0)
        if op == "c.gt":
            v, d = self.ev(a[0])
            return (v, d > 0)
        if op == "c.gev":
            v, d = self.ev(a[0])
            return (v, d >= 0)
        if op == "c.eqv":
            v, d = self.ev(a[0])
            return (v, d == 0)
        if op == "c.not":
            v, d = self.ev(a[0])
            return (v, ~np.asarray(d))
        if op in ("c.and", "c.or"):
            vs, ds = self.align([self.ev(x) for x in a])
            d = ds[0]
            for y in ds[1:]:
                d = (d & y) if op == "c.and" else (d | y)
            return self._full(vs, d)
        raise AssertionError(op)

    def size(self, vs):
        n = 1
        for v in vs:
            n *= self.const(SIZE[v])
        return n

    def _sum(self, e):
        bound = []
        b = e
        facs = []
        mult = 1
        while b.op == "sum":
            bound.append(b.a[0])
            b = b.a[2]
        work = list(b.a) if b.op == "mul" else [b]
        # pull nested sums that are factors up (variables are globally unique)
        out = []
        while work:
            x = work.pop()
            if x.op == "sum" and x.a[0] not in bound and self.size(x.fv) > 300_000 and all(x.a[0] not in y.fv for y in work + out):
                bound.append(x.a[0])
                y = x.a[2]
                work += list(y.a) if y.op == "mul" else [y]
            else:
                out.append(x)
        arrs = [self.ev(x) for x in out]
        names = {}
        ops = []
        allv = set()
        for v, d in arrs:
            d = np.asarray(d, dtype=self.ft)
            v2, d2 = v, d
            ops.append(d2)
            ops.append([names.setdefault(x, len(names)) for x in v2])
            allv |= set(v2)
        for x in bound:
            if x not in allv:
                mult *= self.const(SIZE[x])
        rest = sorted([v for v in allv if v not in bound], key=lambda a: a.key)
        n = 1
        for v in rest:
            n *= self.const(SIZE[v])
        if n > self.LIMIT:
            raise TooBig(n)
        if not all(np.all(np.isfinite(o)) for o in ops[::2]) or len(names) > 50:
            vs, ds = self.align(arrs)
            d = ds[0]
            for y in ds[1:]:
                d = d * y
            vs, d = self._full(vs, d)
            ax = tuple(i for i, v in enumerate(vs) if v in bound)
            d = d.sum(axis=ax) if ax else d
            return (tuple(v for v in vs if v not in bound), d * mult)
        d = np.einsum(*ops, [names[v] for v in rest], optimize="greedy" if len(arrs) > 2 else False)
        return (tuple(rest), d * mult)


def _fn(f, x):
    with np.errstate(all="ignore"):
        if f == "exp":
            return np.exp(x)
        if f == "log":
            return np.log(x)
        if f == "log1p":
            return np.log1p(x)
        if f == "expm1":
            return np.expm1(x)
        if f == "sin":
            return np.sin(x)
        if f == "cos":
            return np.cos(x)
        if f == "tanh":
            return np.tanh(x)
        if f == "sigmoid":
            return np.where(x >= 0, 1 / (1 + np.exp(-np.abs(x))), np.exp(-np.abs(x)) / (1 + np.exp(-np.abs(x))))
        if f == "relu":
            return np.maximum(x, 0)
        if f == "abs":
            return np.abs(x)
        if f == "sign":
            return np.sign(x)
        if f in ("sqrt", "norm0"):
            return np.sqrt(x)
        if f == "round":
            return np.round(x)
        if f == "floor":
            return np.floor(x)
        if f == "trunc":
            return np.trunc(x)
        if f == "atan":
            return np.arctan(x)
        if f == "erf":
            from math import erf
            return np.vectorize(erf)(np.asarray(x, float)).astype(np.asarray(x).dtype)
    raise AssertionError(f)
