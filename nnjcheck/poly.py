"""Integer polynomials over dimension symbols, index variables and opaque integer atoms.

They describe tensor shapes and tensor indices.  Everything here is exact: `ge0` and
friends only answer True when the statement holds for *all* sizes.
"""
from functools import lru_cache


class Atom:
    __slots__ = ("kind", "key", "args", "__weakref__")
    _tab = {}

    def __new__(cls, kind, key, args=()):
        k = (kind, key)
        a = cls._tab.get(k)
        if a is None:
            a = object.__new__(cls)
            a.kind, a.key, a.args = kind, key, args
            cls._tab[k] = a
        return a

    def __repr__(self):
        return self.key

    def __reduce__(self):
        raise TypeError


SIZE = {}     # var atom -> Poly, var in [0, SIZE)
IRANGE = {}   # integer access name -> Poly, value in [0, IRANGE)
LB = {}       # dim atom -> int lower bound (default 1)
FACTS = []    # polys known to be >= 0


class Poly:
    __slots__ = ("t", "_h", "_k")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._k = None

    @staticmethod
    def const(c):
        return Poly({(): int(c)} if c else {})

    @staticmethod
    def atom(a):
        return Poly({((a, 1),): 1})

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(((tuple((a.kind, a.key, e) for a, e in m), c) for m, c in self.t.items())))
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        if isinstance(o, int):
            o = Poly.const(o)
        return isinstance(o, Poly) and (self is o or self.t == o.t)

    def __ne__(self, o):
        return not self == o

    def __add__(self, o):
        o = topoly(o)
        t = dict(self.t)
        for m, c in o.t.items():
            n = t.get(m, 0) + c
            if n:
                t[m] = n
            else:
                t.pop(m, None)
        return Poly(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-topoly(o))

    def __rsub__(self, o):
        return topoly(o) - self

    def __mul__(self, o):
        o = topoly(o)
        t = {}
        for m, c in self.t.items():
            for m2, c2 in o.t.items():
                mm = _mmul(m, m2)
                n = t.get(mm, 0) + c * c2
                if n:
                    t[mm] = n
                else:
                    t.pop(mm, None)
        return Poly(t)

    __rmul__ = __mul__

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), 0)

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def all_atoms(self):
        """atoms, including those inside composite atoms"""
        s = set()
        for a in self.atoms():
            s.add(a)
            for p in a.args:
                if isinstance(p, Poly):
                    s |= p.all_atoms()
        return s

    def fvars(self):
        return frozenset(a for a in self.all_atoms() if a.kind == "v")

    def degree_in(self, a):
        return max([e for m in self.t for b, e in m if b is a], default=0)

    def coeff(self, a):
        """(A, B) with self = A*a + B, for self linear in a"""
        A, B = {}, {}
        for m, c in self.t.items():
            es = [e for b, e in m if b is a]
            if not es:
                B[m] = c
            elif es[0] == 1:
                A[tuple(x for x in m if x[0] is not a)] = c
            else:
                return None
        return Poly(A), Poly(B)

    def subst(self, mp):
        if not (self.all_atoms() & mp.keys()):
            return self
        r = ZERO
        for m, c in self.t.items():
            t = Poly.const(c)
            for a, e in m:
                p = subst_atom(a, mp)
                for _ in range(e):
                    t = t * p
            r = r + t
        return r

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda mc: [(a.key, e) for a, e in mc[0]]):
            s = "*".join(a.key if e == 1 else f"{a.key}^{e}" for a, e in m)
            if not s:
                s = str(c)
            elif c == -1:
                s = "-" + s
            elif c != 1:
                s = f"{c}*{s}"
            out.append(s)
        return "+".join(out).replace("+-", "-")


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items(), key=lambda x: (x[0].kind, x[0].key)))


def topoly(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return Poly.const(int(x))
    if isinstance(x, int):
        return Poly.const(x)
    raise TypeError(f"not an integer: {x!r}")


ZERO = Poly({})
ONE = Poly.const(1)


def subst_atom(a, mp):
    if a in mp:
        return mp[a]
    if not a.args:
        return Poly.atom(a)
    if a.kind == "q":
        return fdiv(a.args[0].subst(mp), a.args[1].subst(mp))
    if a.kind == "m":
        return fmod(a.args[0].subst(mp), a.args[1].subst(mp))
    if a.kind == "a":
        return iacc(a.args[0], [p.subst(mp) for p in a.args[1:]])
    raise AssertionError(a.kind)


def dim(name, lb=1):
    a = Atom("d", name)
    LB[a] = lb
    return Poly.atom(a)


_n = [0]


def newvar(size, hint="i"):
    _n[0] += 1
    a = Atom("v", f"{hint}{_n[0]}")
    SIZE[a] = topoly(size)
    return a


def V(a):
    return Poly.atom(a)


def iacc(name, idx):
    key = name + "[" + ",".join(map(repr, idx)) + "]"
    return Poly.atom(Atom("a", key, (name, *idx)))


def _mono_div(m, d):
    """divide monomial m by monomial d, or None"""
    r = dict(m)
    for a, e in d:
        k = r.get(a, 0) - e
        if k < 0:
            return None
        if k:
            r[a] = k
        else:
            r.pop(a, None)
    return tuple(sorted(r.items(), key=lambda x: (x[0].kind, x[0].key)))


@lru_cache(maxsize=200000)
def exact_div(p, d):
    """q with p == q*d, or None"""
    if not p.t:
        return ZERO
    if d == ONE:
        return p
    if not d.t:
        return None
    # leading term division (lex order on a fixed key)
    def lead(t):
        return max(t, key=lambda m: (sum(e for _, e in m), [(a.kind, a.key, e) for a, e in m]))
    ld = lead(d.t)
    cd = d.t[ld]
    q, r = ZERO, p
    for _ in range(200):
        if not r.t:
            return q
        lr = lead(r.t)
        mq = _mono_div(lr, ld)
        if mq is None or r.t[lr] % cd:
            return None
        tq = Poly({mq: r.t[lr] // cd})
        q = q + tq
        r = r - tq * d
    return None


def split_by(p, m):
    """p = m*q + r, q collecting the terms divisible by m (m monomial or polynomial)"""
    if m.is_const():
        c = m.cval()
        q, r = {}, {}
        for k, v in p.t.items():
            if c and v % c == 0:
                q[k] = v // c
            else:
                r[k] = v
        return Poly(q), Poly(r)
    if len(m.t) == 1:
        (mm, c), = m.t.items()
        q, r = {}, {}
        for k, v in p.t.items():
            d = _mono_div(k, mm)
            if d is not None and v % c == 0:
                q[d] = v // c
            else:
                r[k] = v
        return Poly(q), Poly(r)
    # polynomial m: collect coefficients of index atoms that are divisible by m
    q, r = ZERO, ZERO
    groups = {}
    for k, v in p.t.items():
        ix = tuple((a, e) for a, e in k if a.kind != "d")
        dm = tuple((a, e) for a, e in k if a.kind == "d")
        groups.setdefault(ix, {})[dm] = v
    for ix, t in groups.items():
        d = exact_div(Poly(t), m)
        if d is not None:
            q = q + d * Poly({ix: 1})
        else:
            # best effort: leading-term reduction by m
            qq, rr = _reduce(Poly(t), m)
            q = q + qq * Poly({ix: 1})
            r = r + rr * Poly({ix: 1})
    return q, r


def _reduce(p, m):
    """p = m*q + r by leading term reduction (lex), whatever r"""
    def lead(t):
        return max(t, key=lambda k: (sum(e for _, e in k), [(a.kind, a.key, e) for a, e in k]))
    lm = lead(m.t)
    cm = m.t[lm]
    q, r = ZERO, ZERO
    w = p
    for _ in range(50):
        if not w.t:
            break
        lw = lead(w.t)
        d = _mono_div(lw, lm)
        if d is None or w.t[lw] % cm:
            r = r + Poly({lw: w.t[lw]})
            w = w - Poly({lw: w.t[lw]})
            continue
        tq = Poly({d: w.t[lw] // cm})
        q = q + tq
        w = w - tq * m
    return q, r + w


_ge_cache = {}


def reset_facts():
    FACTS.clear()
    _ge_cache.clear()


def add_fact(p):
    FACTS.append(p)
    _ge_cache.clear()


def ge0(p, depth=0):
    """True only if p >= 0 for all admissible sizes and index values"""
    if p.is_const():
        return p.cval() >= 0
    if depth > 14:
        return False
    r = _ge_cache.get(p)
    if r is not None:
        return r
    global _steps
    top = not _busy[0]
    if top:
        _busy[0] = 1
        _steps = 0
    _steps += 1
    try:
        if _steps > 150:
            return False
        r = _ge0(p, depth)
    finally:
        if top:
            _busy[0] = 0
    _ge_cache[p] = r
    return r


_steps = 0
_busy = [0]


def _bounds(a):
    """(lo, hi) of an index atom, polys or None"""
    if a.kind == "v":
        s = SIZE.get(a)
        return (ZERO, s - 1) if s is not None else (None, None)
    if a.kind == "a":
        s = IRANGE.get(a.args[0])
        return (ZERO, s - 1) if s is not None else (None, None)
    if a.kind == "m":
        return ZERO, a.args[1] - 1
    if a.kind == "q":
        lo = ZERO if ge0(a.args[0]) and ge0(a.args[1]) else None
        # p // m <= hi  if p <= m*hi + m-1
        hi = None
        up = upper(a.args[0])
        if up is not None:
            q, r = split_by(up + 1, a.args[1])
            if not r.t:
                hi = q - 1
            elif ge0(-r):
                hi = q
        return lo, hi
    return None, None


def upper(p):
    """a poly in dims that bounds p from above, or None"""
    for a in sorted(p.atoms(), key=lambda a: a.key):
        if a.kind == "d":
            continue
        cb = p.coeff(a)
        if cb is None:
            return None
        A, B = cb
        lo, hi = _bounds(a)
        if ge0(A) and hi is not None:
            p = A * hi + B
        elif ge0(-A) and lo is not None:
            p = A * lo + B
        else:
            return None
    return p


def _ge0(p, depth):
    ix = [a for a in p.atoms() if a.kind != "d"]
    for a in sorted(ix, key=lambda a: (a.kind == "q", a.key)):
        cb = p.coeff(a)
        if cb is None:
            continue
        A, B = cb
        lo, hi = _bounds(a)
        if lo is not None and ge0(A, depth + 1):
            if ge0(A * lo + B, depth + 1):
                return True
        elif hi is not None and ge0(-A, depth + 1):
            if ge0(A * hi + B, depth + 1):
                return True
    if ix:
        # m*mod-decomposition: m*div(p,m)+mod(p,m) = p
        return False
    if _dims_nonneg(p):
        return True
    for f in FACTS:
        if _dims_nonneg(p - f):
            return True
        for g in FACTS:
            if _dims_nonneg(p - f - g):
                return True
    return False


def _dims_nonneg(p):
    mp = {}
    for a in p.atoms():
        mp[a] = Poly.atom(a) + LB.get(a, 1)
    q = ZERO
    for m, c in p.t.items():
        t = Poly.const(c)
        for a, e in m:
            for _ in range(e):
                t = t * mp[a]
        q = q + t
    return all(c >= 0 for c in q.t.values())


def nonzero(p):
    return ge0(p - 1) or ge0(-p - 1)


def _factors(p, m):
    """proper divisors of m (polys in dims) that occur as coefficients of index atoms in p"""
    groups = {}
    for k, v in p.t.items():
        ix = tuple((a, e) for a, e in k if a.kind != "d")
        dm = tuple((a, e) for a, e in k if a.kind == "d")
        groups.setdefault(ix, {})[dm] = v
    out = []
    for ix, t in groups.items():
        g = Poly(t)
        if g.is_const() and abs(g.cval()) == 1:
            continue
        for c in (g, -g):
            if c != m and c not in out and exact_div(m, c) is not None and ge0(c - 1):
                out.append(c)
    return out


def fdiv(p, m):
    p, m = topoly(p), topoly(m)
    if m == ONE:
        return p
    if p.is_const() and m.is_const() and m.cval() != 0:
        return Poly.const(p.cval() // m.cval())
    q, r = split_by(p, m)
    if not r.t:
        return q
    if ge0(r) and ge0(m - 1 - r):
        return q
    if ge0(-r - 1) and ge0(m + r):
        return q - 1
    for g in _factors(r, m):
        q2, r2 = split_by(r, g)
        if q2.t and ge0(r2) and ge0(g - 1 - r2):
            return q + fdiv(q2, exact_div(m, g))
    # (p div a) div b = p div (a*b)
    if len(r.t) == 1:
        (mm, c), = r.t.items()
        if c == 1 and len(mm) == 1 and mm[0][1] == 1 and mm[0][0].kind == "q":
            a = mm[0][0]
            return q + fdiv(a.args[0], a.args[1] * m)
    key = f"({r!r} div {m!r})"
    return q + Poly.atom(Atom("q", key, (r, m)))


def fmod(p, m):
    p, m = topoly(p), topoly(m)
    if m == ONE:
        return ZERO
    if p.is_const() and m.is_const() and m.cval() != 0:
        return Poly.const(p.cval() % m.cval())
    q, r = split_by(p, m)
    if not r.t:
        return ZERO
    if ge0(r) and ge0(m - 1 - r):
        return r
    if ge0(-r - 1) and ge0(m + r):
        return r + m
    for g in _factors(r, m):
        q2, r2 = split_by(r, g)
        if q2.t and ge0(r2) and ge0(g - 1 - r2):
            return g * fmod(q2, exact_div(m, g)) + r2
    if len(r.t) == 1:
        (mm, c), = r.t.items()
        if c == 1 and len(mm) == 1 and mm[0][1] == 1 and mm[0][0].kind == "m":
            a = mm[0][0]
            if exact_div(a.args[1], m) is not None:
                return fmod(a.args[0], m)
    key = f"({r!r} mod {m!r})"
    return Poly.atom(Atom("m", key, (r, m)))


def prod(ps):
    r = ONE
    for p in ps:
        r = r * p
    return r
