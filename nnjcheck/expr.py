"""Scalar terms over tensor accesses (hash-consed)."""
import math
from fractions import Fraction

from .poly import Poly, Atom, topoly, ge0, nonzero, ZERO, ONE


class E:
    __slots__ = ("op", "a", "_fv", "id")
    _tab = {}
    _n = 0

    def __new__(cls, op, *a):
        k = (op, a)
        e = cls._tab.get(k)
        if e is None:
            e = object.__new__(cls)
            e.op, e.a = op, a
            e._fv = None
            E._n += 1
            e.id = E._n
            cls._tab[k] = e
        return e

    def __repr__(self):
        return show(self)

    @property
    def fv(self):
        if self._fv is None:
            self._fv = _fv(self)
        return self._fv


def clear_tables():
    """forget all terms of the previous path (its simplifications used its size conditions)"""
    E._tab.clear()
    _sub_memo.clear()
    for e in (N0, N1, NM1, TRUE, FALSE):
        E._tab[(e.op, e.a)] = e


def _fv(e):
    op, a = e.op, e.a
    if op in ("sum", "max", "min", "lse"):
        return (a[2].fv - {a[0]}) | a[1].fvars()
    s = frozenset()
    if op == "cust":
        s = a[0].fv
        for i, l in a[1]:
            s |= i.fv | l.fv
        return s
    for x in a:
        if isinstance(x, E):
            s |= x.fv
        elif isinstance(x, Poly):
            s |= x.fvars()
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, Poly):
                    s |= y.fvars()
    return s


def num(c):
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, int):
        c = Fraction(c)
    if isinstance(c, float):
        if c != c or c in (float("inf"), float("-inf")):
            return E("num", c)
        c = Fraction(repr(c)) if abs(c) < 1e300 else Fraction(c)
    return E("num", c)


def _interned():
    global N0, N1, NM1, TRUE, FALSE
    N0, N1, NM1 = num(0), num(1), num(-1)
    TRUE, FALSE = E("c.true"), E("c.false")


_sub_memo = {}
_interned()


def isnum(e):
    return e.op == "num" and isinstance(e.a[0], Fraction)


def ix(p):
    p = topoly(p)
    if p.is_const():
        return num(p.cval())
    return E("ix", p)


def acc(name, idx):
    return E("acc", name, tuple(topoly(i) for i in idx))


def add(*xs):
    out = []
    c = Fraction(0)
    for x in xs:
        for y in (x.a if x.op == "add" else (x,)):
            if isnum(y):
                c += y.a[0]
            else:
                out.append(y)
    # integers
    ps = [y for y in out if y.op == "ix"]
    if ps and (len(ps) > 1 or (c and c.denominator == 1)):
        p = ZERO
        for y in ps:
            p = p + y.a[0]
        if c.denominator == 1:
            p = p + int(c)
            c = Fraction(0)
        out = [y for y in out if y.op != "ix"]
        y = ix(p)
        if isnum(y):
            c += y.a[0]
        else:
            out.append(y)
    if c:
        out.append(num(c))
    if not out:
        return N0
    if len(out) == 1:
        return out[0]
    return E("add", *out)


def mul(*xs):
    out = []
    c = Fraction(1)
    for x in xs:
        for y in (x.a if x.op == "mul" else (x,)):
            if isnum(y):
                c *= y.a[0]
            else:
                out.append(y)
    if c == 0:
        return N0
    ps = [y for y in out if y.op == "ix"]
    if ps and (len(ps) > 1 or (c != 1 and c.denominator == 1)):
        p = ONE
        for y in ps:
            p = p * y.a[0]
        if c.denominator == 1:
            p = p * int(c)
            c = Fraction(1)
        out = [y for y in out if y.op != "ix"]
        y = ix(p)
        if isnum(y):
            c *= y.a[0]
        else:
            out.append(y)
        if c == 0:
            return N0
    if c != 1 or not out:
        out.insert(0, num(c))
    if len(out) == 1:
        return out[0]
    return E("mul", *out)


def neg(x):
    return mul(NM1, x)


def sub(x, y):
    return add(x, neg(y))


def pow_(b, e):
    e = Fraction(e)
    if e == 0:
        return N1
    if e == 1:
        return b
    if isnum(b):
        if e.denominator == 1 and (b.a[0] != 0 or e > 0):
            return num(b.a[0] ** int(e))
    if b.op == "pow" and e.denominator == 1 and b.a[1].denominator == 1:
        return pow_(b.a[0], b.a[1] * e)
    return E("pow", b, e)


def div(x, y):
    return mul(x, pow_(y, -1))


def fn(name, x):
    if isnum(x):
        v = x.a[0]
        if v == 0:
            if name in ("sin", "tanh", "relu", "log1p", "expm1", "abs", "sign"):
                return N0
            if name in ("exp", "cos"):
                return N1
            if name == "sigmoid":
                return num(Fraction(1, 2))
        if name == "log" and v == 1:
            return N0
        if name == "relu":
            return num(max(v, Fraction(0)))
        if name == "abs":
            return num(abs(v))
    return E("fn", name, x)


def sum_(v, size, body):
    size = topoly(size)
    if body is N0 or size == ZERO:
        return N0
    if size == ONE:
        return subst(body, {v: ZERO})
    if v not in body.fv:
        return mul(ix(size), body)
    if body.op == "mul":
        ins = [x for x in body.a if v in x.fv]
        outs = [x for x in body.a if v not in x.fv]
        if outs:
            return mul(*outs, sum_(v, size, mul(*ins)))
    return E("sum", v, size, body)


def red(op, v, size, body):
    size = topoly(size)
    if size == ONE:
        return subst(body, {v: ZERO})
    if op in ("max", "min") and v not in body.fv:
        return body
    return E(op, v, size, body)


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    return E("ite", c, a, b)


def ind(c):
    return ite(c, N1, N0)


def ceq(p):
    p = topoly(p)
    if not p.t:
        return TRUE
    if p.is_const() or nonzero(p):
        return FALSE
    # sign normal form
    if p.key() < (-p).key():
        p = -p
    return E("c.eq", p)


def cge(p):
    p = topoly(p)
    if ge0(p):
        return TRUE
    if ge0(-p - 1):
        return FALSE
    return E("c.ge", p)


def _const(e):
    return e.a[0] if isnum(e) else None


def to_poly(e):
    """integer term -> Poly, or None"""
    if isnum(e) and e.a[0].denominator == 1:
        return Poly.const(int(e.a[0]))
    if e.op == "ix":
        return e.a[0]
    if e.op == "add":
        r = ZERO
        for x in e.a:
            p = to_poly(x)
            if p is None:
                return None
            r = r + p
        return r
    if e.op == "mul":
        r = ONE
        for x in e.a:
            p = to_poly(x)
            if p is None:
                return None
            r = r * p
        return r
    if e.op == "pow" and e.a[1].denominator == 1 and e.a[1] > 0:
        p = to_poly(e.a[0])
        if p is None:
            return None
        r = ONE
        for _ in range(int(e.a[1])):
            r = r * p
        return r
    return None


def cgt(e):
    """e > 0"""
    c = _const(e)
    if c is not None:
        return TRUE if c > 0 else FALSE
    p = to_poly(e)
    if p is not None:
        return cge(p - 1)
    return E("c.gt", e)


def cgev(e):
    c = _const(e)
    if c is not None:
        return TRUE if c >= 0 else FALSE
    p = to_poly(e)
    if p is not None:
        return cge(p)
    return E("c.gev", e)


def ceqv(e):
    c = _const(e)
    if c is not None:
        return TRUE if c == 0 else FALSE
    p = to_poly(e)
    if p is not None:
        return ceq(p)
    if e.op == "ite" and isnum(e.a[1]) and isnum(e.a[2]):
        return cor(cand(e.a[0], ceqv(e.a[1])), cand(cnot(e.a[0]), ceqv(e.a[2])))
    return E("c.eqv", e)


def cnot(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "c.not":
        return c.a[0]
    if c.op == "c.ge":
        return cge(-c.a[0] - 1)
    if c.op == "c.and":
        return cor(*[cnot(x) for x in c.a])
    if c.op == "c.or":
        return cand(*[cnot(x) for x in c.a])
    return E("c.not", c)


def cand(*cs):
    out = []
    for c in cs:
        for d in (c.a if c.op == "c.and" else (c,)):
            if d is FALSE:
                return FALSE
            if d is not TRUE and d not in out:
                out.append(d)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return E("c.and", *out)


def cor(*cs):
    out = []
    for c in cs:
        for d in (c.a if c.op == "c.or" else (c,)):
            if d is TRUE:
                return TRUE
            if d is not FALSE and d not in out:
                out.append(d)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return E("c.or", *out)


def inrange(p, n):
    return cand(cge(p), cge(topoly(n) - 1 - p))


def subst(e, mp):
    if not mp:
        return e
    if not (e.fv & mp.keys()):
        return e
    mp = {k: v for k, v in mp.items() if k in e.fv}
    return _subst(e, mp, tuple(sorted(((k.key, v.key()) for k, v in mp.items()))))


def _subst(e, mp, key):
    if not (e.fv & mp.keys()):
        return e
    k = (e.id, key)
    r = _sub_memo.get(k)
    if r is not None:
        return r
    op, a = e.op, e.a
    S = lambda x: _subst(x, mp, key)
    if op == "ix":
        r = ix(a[0].subst(mp))
    elif op == "acc":
        r = acc(a[0], [p.subst(mp) for p in a[1]])
    elif op == "add":
        r = add(*[S(x) for x in a])
    elif op == "mul":
        r = mul(*[S(x) for x in a])
    elif op == "pow":
        r = pow_(S(a[0]), a[1])
    elif op == "fn":
        r = fn(a[0], S(a[1]))
    elif op == "fn2":
        r = E("fn2", a[0], S(a[1]), S(a[2]))
    elif op in ("sum", "max", "min", "lse"):
        assert a[0] not in mp
        b = S(a[2])
        r = sum_(a[0], a[1].subst(mp), b) if op == "sum" else red(op, a[0], a[1].subst(mp), b)
    elif op == "ite":
        r = ite(S(a[0]), S(a[1]), S(a[2]))
    elif op == "cust":
        r = E("cust", S(a[0]), tuple((S(i), S(l)) for i, l in a[1]))
    elif op == "c.eq":
        r = ceq(a[0].subst(mp))
    elif op == "c.ge":
        r = cge(a[0].subst(mp))
    elif op == "c.gt":
        r = cgt(S(a[0]))
    elif op == "c.gev":
        r = cgev(S(a[0]))
    elif op == "c.eqv":
        r = ceqv(S(a[0]))
    elif op == "c.not":
        r = cnot(S(a[0]))
    elif op == "c.and":
        r = cand(*[S(x) for x in a])
    elif op == "c.or":
        r = cor(*[S(x) for x in a])
    else:
        raise AssertionError(op)
    _sub_memo[k] = r
    return r


def mapacc(e, f, memo=None):
    """rebuild e with every access acc(name, idx) replaced by f(name, idx)"""
    if memo is None:
        memo = {}
    r = memo.get(e.id)
    if r is not None:
        return r
    op, a = e.op, e.a
    M = lambda x: mapacc(x, f, memo)
    if op == "acc":
        r = f(a[0], a[1])
    elif op in ("num", "ix", "c.true", "c.false", "c.eq", "c.ge"):
        r = e
    elif op == "add":
        r = add(*map(M, a))
    elif op == "mul":
        r = mul(*map(M, a))
    elif op == "pow":
        r = pow_(M(a[0]), a[1])
    elif op == "fn":
        r = fn(a[0], M(a[1]))
    elif op == "fn2":
        r = E("fn2", a[0], M(a[1]), M(a[2]))
    elif op == "sum":
        r = sum_(a[0], a[1], M(a[2]))
    elif op in ("max", "min", "lse"):
        r = red(op, a[0], a[1], M(a[2]))
    elif op == "ite":
        r = ite(M(a[0]), M(a[1]), M(a[2]))
    elif op == "cust":
        r = E("cust", M(a[0]), tuple((M(i), M(l)) for i, l in a[1]))
    elif op == "c.gt":
        r = cgt(M(a[0]))
    elif op == "c.gev":
        r = cgev(M(a[0]))
    elif op == "c.eqv":
        r = ceqv(M(a[0]))
    elif op == "c.not":
        r = cnot(M(a[0]))
    elif op == "c.and":
        r = cand(*map(M, a))
    elif op == "c.or":
        r = cor(*map(M, a))
    else:
        raise AssertionError(op)
    memo[e.id] = r
    return r


def accs(e, memo=None):
    """set of (name, idx) accessed in e"""
    out = set()
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "acc":
            out.add((x.a[0], x.a[1]))
        for y in x.a:
            if isinstance(y, E):
                st.append(y)
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, E):
                        st.append(z)
                    elif isinstance(z, tuple):
                        st.extend(w for w in z if isinstance(w, E))
    return out


def polys(e):
    out = set()
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if isinstance(x, Poly):
            out.add(x)
            continue
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, E) or x.id in seen:
            continue
        seen.add(x.id)
        st.extend(x.a)
    return out


class NoDeriv(Exception):
    pass


def diff(e, name, jdx, memo=None):
    """derivative of e w.r.t. access name[jdx] (conventions of torch autograd)"""
    if memo is None:
        memo = {}
    r = memo.get(e.id)
    if r is not None:
        return r
    op, a = e.op, e.a
    D = lambda x: diff(x, name, jdx, memo)
    if op in ("num", "ix"):
        r = N0
    elif op == "acc":
        if a[0] != name:
            r = N0
        else:
            r = ind(cand(*[ceq(p - q) for p, q in zip(a[1], jdx)]))
    elif op == "add":
        r = add(*[D(x) for x in a])
    elif op == "mul":
        r = add(*[mul(*a[:i], D(x), *a[i + 1:]) for i, x in enumerate(a)])
    elif op == "pow":
        r = mul(num(a[1]), pow_(a[0], a[1] - 1), D(a[0]))
    elif op == "fn":
        d = D(a[1])
        r = N0 if d is N0 else mul(dfn(a[0], a[1]), d)
    elif op == "sum":
        r = sum_(a[0], a[1], D(a[2]))
    elif op == "lse":
        d = D(a[2])
        r = sum_(a[0], a[1], mul(fn("exp", sub(a[2], e)), d))
    elif op == "ite":
        if all(n != name for n, _ in accs(a[0])) or True:
            r = ite(a[0], D(a[1]), D(a[2]))
    elif op == "cust":
        r = add(*[mul(l, D(i)) for i, l in a[1]])
    else:
        if all(n != name for n, _ in accs(e)):
            r = N0
        else:
            raise NoDeriv(op)
    memo[e.id] = r
    return r


def dfn(f, x):
    if f == "exp":
        return fn("exp", x)
    if f == "log":
        return pow_(x, -1)
    if f == "log1p":
        return pow_(add(N1, x), -1)
    if f == "expm1":
        return fn("exp", x)
    if f == "sin":
        return fn("cos", x)
    if f == "cos":
        return neg(fn("sin", x))
    if f == "tanh":
        t = fn("tanh", x)
        return sub(N1, mul(t, t))
    if f == "sigmoid":
        s = fn("sigmoid", x)
        return mul(s, sub(N1, s))
    if f == "relu":
        return ind(cgt(x))
    if f == "abs":
        return fn("sign", x)
    if f == "sqrt":
        return mul(num(Fraction(1, 2)), pow_(fn("sqrt", x), -1))
    if f == "norm0":  # sqrt with the subgradient 0 at the origin (torch.norm); x is the sum of squares
        n = fn("norm0", x)
        return ite(cgt(n), mul(num(Fraction(1, 2)), pow_(n, -1)), N0)
    if f in ("sign", "floor", "round", "trunc"):
        return N0
    if f == "erf":
        return mul(num(Fraction(2 / math.pi ** 0.5)), fn("exp", neg(pow_(x, 2))))
    if f == "atan":
        return pow_(add(N1, pow_(x, 2)), -1)
    raise NoDeriv(f)


def show(e, d=0):
    op, a = e.op, e.a
    if op == "num":
        return str(a[0])
    if op == "ix":
        return f"<{a[0]!r}>"
    if op == "acc":
        return f"{a[0]}[{','.join(map(repr, a[1]))}]"
    if op == "add":
        return "(" + " + ".join(map(show, a)) + ")"
    if op == "mul":
        return "*".join(map(show, a))
    if op == "pow":
        return f"({show(a[0])})^{a[1]}"
    if op == "fn":
        return f"{a[0]}({show(a[1])})"
    if op == "fn2":
        return f"{a[0]}({show(a[1])},{show(a[2])})"
    if op in ("sum", "max", "min", "lse"):
        return f"{op}[{a[0]}<{a[1]!r}]({show(a[2])})"
    if op == "ite":
        if a[1] is N1 and a[2] is N0:
            return f"[{show(a[0])}]"
        return f"if({show(a[0])} ? {show(a[1])} : {show(a[2])})"
    if op == "cust":
        return f"custom({show(a[0])})"
    if op == "c.eq":
        return f"{a[0]!r}==0"
    if op == "c.ge":
        return f"{a[0]!r}>=0"
    if op == "c.gt":
        return f"{show(a[0])}>0"
    if op == "c.gev":
        return f"{show(a[0])}>=0"
    if op == "c.eqv":
        return f"{show(a[0])}==0"
    if op == "c.not":
        return f"not({show(a[0])})"
    if op == "c.and":
        return " & ".join(f"({show(x)})" for x in a)
    if op == "c.or":
        return " | ".join(f"({show(x)})" for x in a)
    return op
