"""Compare the interpreter of nnjcheck with CPython on plain Python programs. usage: python3-vt devtools/pyfeat.py [-v]"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(20000)
from nnjcheck.engine import Prog
from nnjcheck.interp import paths, fmt
from modelcheck import prep

PROGS = '''
r = 0
for i in range(10):
    if i % 2: continue
    if i > 6: break
    r += i
else:
    r = -1
return r
---
return [i for i in range(5) if i % 2], {i: i * i for i in range(3)}, {i % 2 for i in range(4)}, tuple(i for i in (1, 2))
---
a, *b = 1, 2, 3
*c, d = [4, 5, 6]
(e, f), g = (1, 2), 3
return a, b, c, d, e, f, g
---
def f(a, b=2, *args, c, d=4, **kw):
    return a, b, args, c, d, sorted(kw.items())
return f(1, c=3), f(1, 2, 3, 4, c=5, z=6), f(*[1, 2], **{"c": 3})
---
def f(a, /, b, *, c=1): return a + b + c
return f(1, b=2), f(1, 2, c=3)
---
def outer():
    n = 0
    def inc():
        nonlocal n
        n += 1
        return n
    inc(); inc()
    return n
return outer()
---
def gen(n):
    for i in range(n):
        yield i
    return 5
g = gen(3)
return list(g), list(gen(2)), sum(gen(4)), next(gen(1))
---
def g():
    yield from [1, 2]
    x = yield from h()
    yield x
def h():
    yield 3
    return 4
return list(g())
---
try:
    raise ValueError("x")
except (KeyError, ValueError) as e:
    r = str(e)
finally:
    q = 1
return r, q
---
try:
    r = {}["a"]
except KeyError:
    r = 1
else:
    r = 2
return r
---
class A:
    k = 3
    def __init__(self, v): self.v = v
    @property
    def double(self): return self.v * 2
    @double.setter
    def double(self, x): self.v = x // 2
    @staticmethod
    def s(x): return x + 1
    @classmethod
    def c(cls, x): return cls(x + cls.k)
    def __call__(self, y): return self.v + y
    def __len__(self): return 7
    def __getitem__(self, i): return i * 2
    def __iter__(self): return iter([1, 2])
    def __eq__(self, o): return self.v == o.v
    def __add__(self, o): return A(self.v + o.v)
    def __radd__(self, o): return self
    def __contains__(self, x): return x == self.v
    def __bool__(self): return False
a = A(1)
a.double = 10
return a.v, a.double, A.s(1), A.c(2).v, a(3), len(a), a[4], list(a), a == A(5), (a + a).v, 5 in a, 1 if a else 2, sum([a, a]).v
---
class B:
    def f(self): return "B"
class M:
    def f(self): return "M" + super().f()
class C(M, B):
    def f(self): return "C" + super().f()
return C().f(), [k.__name__ for k in C.__mro__][:3], isinstance(C(), B), issubclass(C, M)
---
from dataclasses import dataclass, field
@dataclass
class P:
    x: int
    y: int = 2
    z: list = field(default_factory=list)
    def s(self): return self.x + self.y
p = P(1)
p.z.append(3)
return p.x, p.y, p.z, p.s(), P(1, 5) == P(1, 5)
---
from collections import namedtuple, OrderedDict, defaultdict, deque, Counter
Q = namedtuple("Q", ["a", "b"])
q = Q(1, b=2)
d = defaultdict(list)
d["x"].append(1)
e = deque([1, 2])
e.appendleft(0)
e.append(3)
x, y = q
return q.a, q.b, q[0], tuple(q), dict(d), list(e), e.pop(), e.popleft(), list(OrderedDict([("k", 1)]).items()), x, y, q._replace(a=5).a
---
from typing import NamedTuple
class R(NamedTuple):
    a: int
    b: int = 3
r = R(1)
return r.a, r.b, r[1], len(r)
---
from enum import Enum
class E(Enum):
    X = "x"
    Y = "y"
return E.X.value, E("y") is E.Y, E.X == E.X, E["Y"].name, [m.name for m in E]
---
import functools, itertools, operator
return functools.reduce(lambda a, b: a * b, [1, 2, 3], 1), list(itertools.chain([1], [2])), list(itertools.product([1, 2], [3])), list(itertools.accumulate([1, 2, 3])), functools.partial(lambda a, b: a - b, b=1)(3), operator.mul(2, 3), operator.itemgetter(1)([1, 2]), list(itertools.repeat(1, 2)), list(itertools.islice([1, 2, 3], 1, 3)), list(itertools.zip_longest([1], [2, 3])), list(itertools.starmap(pow, [(2, 3)])), list(itertools.chain.from_iterable([[1], [2]])), list(itertools.takewhile(lambda x: x < 2, [1, 2, 1]))
---
from itertools import pairwise, count, groupby, permutations, combinations
return list(pairwise([1, 2, 3])), [i for i, _ in zip(count(2), "ab")], list(combinations([1, 2, 3], 2)), [(k, list(v)) for k, v in groupby([1, 1, 2])]
---
import math
return math.prod([2, 3]), math.floor(2.5), math.ceil(2.5), math.sqrt(4.0), math.pi, math.isclose(1.0, 1.0), math.inf, math.log(1.0), math.gcd(4, 6)
---
return sorted([3, 1, 2], reverse=True), sorted("ab", key=lambda c: -ord(c)), list(reversed([1, 2])), list(enumerate("ab", 1)), list(zip([1, 2], [3, 4])), any([0, 1]), all([]), max([1, 3, 2]), min(2, 1), max([1, 2], key=lambda x: -x), abs(-1), divmod(7, 2), round(2.6), pow(2, 3), sum([[1], [2]], []), list(map(lambda a, b: a + b, [1], [2])), list(filter(None, [0, 1])), max([], default=4)
---
s = "a{}b".format(1) + f"{2}{'x'!r}{3:>4}" + "%d" % 5
return s, s.upper(), s.split("b"), "-".join(["a", "b"]), "abc".startswith("a"), "abc"[::-1], "a,b".split(","), "abc".replace("b", "c"), " a ".strip(), "abc".index("b"), "abc".endswith(("c", "d")), "A".lower(), "ab" in "cab", "a".isdigit()
---
d = {"a": 1, "b": 2}
d.update(c=3)
d |= {"e": 5}
x = d.pop("a")
y = d.setdefault("z", 9)
return x, y, d, list(d), d.get("q"), d.get("q", 1), {**d, "n": 0}, [k for k, v in d.items() if v > 2], "b" in d, len(d), dict(zip("ab", [1, 2])), dict(a=1), list(d.keys())[0], list(d.values())
---
l = [1, 2, 3]
l.append(4); l.extend([5]); l.insert(0, 0); l += [6]
p = l.pop(); q = l.pop(0)
l[1:3] = [9]
del l[0]
l.reverse()
l2 = l[:]
l2.sort()
return l, p, q, l2, l.index(9), l.count(9), l * 2, [1] + [2], l[-1], l[::2], [*l, *l2], l.copy(), l == l2, 9 in l, l < [100]
---
if (n := 5) > 3: r = n
w = [y := 1, y + 1]
return r, w
---
def f(x):
    match x:
        case {"k": v}: return v
        case [a, b, *r]: return a + b
        case "s" | "t": return "str"
        case int(n) if n > 5: return "big"
        case None: return "none"
        case _: return "other"
return f({"k": 1}), f([1, 2, 3]), f("t"), f(9), f(None), f(2)
---
from contextlib import contextmanager, nullcontext, ExitStack, suppress
log = []
@contextmanager
def cm(x):
    log.append("in")
    try:
        yield x
    finally:
        log.append("out")
with cm(1) as a, nullcontext(2) as b:
    log.append(a + b)
with suppress(ValueError):
    raise ValueError
return log
---
class CM:
    def __enter__(self): return 5
    def __exit__(self, *a): return True
with CM() as c:
    raise ValueError
return c
---
def deco(f):
    import functools
    @functools.wraps(f)
    def w(*a, **k):
        return f(*a, **k) + 1
    return w
def deco2(n):
    def d(f):
        return lambda *a: f(*a) * n
    return d
@deco
@deco2(3)
def g(x): return x
return g(2), g.__name__
---
class D:
    reg = {}
    def __init_subclass__(cls, key=None, **k):
        super().__init_subclass__(**k)
        D.reg[key] = cls
class D1(D, key="one"): pass
return list(D.reg), D.reg["one"] is D1
---
class Desc:
    def __get__(self, o, t=None): return 42 if o is not None else self
    def __set_name__(self, o, n): self.n = n
class H:
    d = Desc()
    def __getattr__(self, n):
        if n == "zz": return 1
        raise AttributeError(n)
h = H()
return h.d, h.zz, hasattr(h, "yy"), getattr(h, "yy", 3)
---
class S:
    __slots__ = ("a",)
    def __init__(self): self.a = 1
s = S()
setattr(s, "a", 2)
return s.a, getattr(s, "a"), type(s).__name__, vars(type("T", (), {"q": 1}))["q"]
---
import functools
@functools.lru_cache(maxsize=None)
def fib(n): return n if n < 2 else fib(n - 1) + fib(n - 2)
@functools.singledispatch
def sd(x): return "any"
@sd.register(int)
def _(x): return "int"
return fib(10), sd(1), sd("a")
---
x = [[0] * 2 for _ in range(2)]
x[0][1] = 5
a = b = 3
a, b = b + 1, a
i = 0
while True:
    i += 1
    if i >= 3: break
return x, a, b, i, 1 < 2 < 3, 1 if i else 2, not i, i is None, i // 2, i % 2, i ** 2, -i, ~i, i & 1, i | 4, i ^ 1, i << 1, i >> 1, 7 / 2
---
return (lambda *a, k=1, **kw: (a, k, kw))(1, 2, k=3, z=4), [*range(3)], slice(1, 2, None), [1, 2, 3][slice(0, 2)], (1,) + (2,), (1, 2) * 2, bool([]), int("3"), float("1.5"), str(1), list("ab"), tuple([1]), set([1, 1]), frozenset([1]) == {1}, complex(1, 2).imag, chr(97), hash(1) == hash(1), callable(len), isinstance(1, (int, str)), type(1) is int, id(1) == id(1), repr("a")
---
assert True, "no"
try:
    assert False, "msg"
except AssertionError as e:
    return str(e), e.args
---
class X(Exception):
    def __init__(self, m): super().__init__(m); self.m = m
try:
    try:
        raise X("a")
    except X as e:
        raise RuntimeError("b") from e
except RuntimeError as e:
    return str(e), type(e).__name__, isinstance(e, Exception)
---
global G
G = 3
def f():
    global G
    G += 1
    return G
return f(), G
---
from abc import ABC, abstractmethod
class Z(ABC):
    @abstractmethod
    def f(self): ...
class Z1(Z):
    def f(self): return 1
try:
    Z()
    r = "ok"
except TypeError:
    r = "abstract"
return Z1().f(), r
---
from typing import Protocol, TypeVar, Generic, overload, Optional, cast, TYPE_CHECKING, Callable, Final
T = TypeVar("T")
class Box(Generic[T]):
    v: T
    def __init__(self, v: T) -> None: self.v = v
class Pr(Protocol):
    def f(self) -> int: ...
if TYPE_CHECKING:
    import nothing
y: Final = 3
z: Optional[int] = None
return Box[int](3).v, cast(int, 4), y, z
---
class It:
    def __init__(self, n): self.n, self.i = n, 0
    def __iter__(self): return self
    def __next__(self):
        if self.i >= self.n: raise StopIteration
        self.i += 1
        return self.i
it = iter([1, 2, 3])
a = next(it)
b = next(iter([]), "d")
return list(It(3)), a, list(it), b, sum(It(4)), [x for x in It(2)]
---
import operator as op
table = {"add": op.add, "sub": lambda a, b: a - b}
f = table.get("add")
g = {(True, False): "tf", (False, True): "ft"}[(1 > 2, 1 < 2)]
return f(1, 2), table["sub"](3, 1), g, op.attrgetter("real")(3), op.methodcaller("upper")("a"), op.neg(1), op.getitem([1, 2], 1)
---
out = []
def walk(t):
    if isinstance(t, list):
        for q in t: walk(q)
    else:
        out.append(t)
walk([1, [2, [3]]])
def flat(t):
    for q in t:
        if isinstance(q, (list, tuple)): yield from flat(q)
        else: yield q
return out, list(flat([1, (2, [3])]))
---
class V:
    def __init__(self, *v): self.v = v
    def __repr__(self): return f"V{self.v}"
    def __lt__(self, o): return self.v < o.v
    def __hash__(self): return 1
    def __mul__(self, k): return V(*[a * k for a in self.v])
    __rmul__ = __mul__
    def __neg__(self): return self * -1
    def __matmul__(self, o): return sum(a * b for a, b in zip(self.v, o.v))
    def __iadd__(self, o): self.v = tuple(a + b for a, b in zip(self.v, o.v)); return self
    def __setitem__(self, i, x): self.v = self.v[:i] + (x,) + self.v[i + 1:]
    def __delitem__(self, i): self.v = self.v[:i] + self.v[i + 1:]
v = V(1, 2)
w = v
w += V(1, 1)
w[0] = 9
return repr(v), (3 * V(1)).v, (-V(2)).v, V(1, 2) @ V(3, 4), V(1) < V(2), sorted([V(2), V(1)])[0].v, {V(1): 2}[V(1)] if False else 0
---
from functools import cached_property, partialmethod, total_ordering, wraps, cmp_to_key
class K:
    n = 0
    @cached_property
    def c(self):
        K.n += 1
        return 5
    def _f(self, a, b): return a + b
    g = partialmethod(_f, 1)
k = K()
return k.c, k.c, K.n, k.g(2), sorted([2, 1], key=cmp_to_key(lambda a, b: a - b))
---
r = []
for i, (a, b) in enumerate(zip([1, 2], "xy")):
    for j in range(i + 1):
        r.append((i, j, a, b))
for k in reversed(range(3)): r.append(k)
for k in range(5, 0, -2): r.append(k)
try:
    for a, b in zip([1], [1, 2], strict=True): pass
    r.append("no")
except ValueError:
    r.append("strict")
return r
---
import sys, os, warnings, logging, copy, types
logger = logging.getLogger(__name__)
logger.debug("x")
warnings.warn("w") if False else None
a = [1, [2]]
b = copy.deepcopy(a); c = copy.copy(a)
b[1].append(3)
ns = types.SimpleNamespace(x=1)
return a, b, c[1] is a[1], ns.x, __name__ is not None
---
def f(x, acc=None):
    acc = [] if acc is None else acc
    acc.append(x)
    return acc
def g(*, mode: str = "a"): return mode
x = f(1); y = f(2)
return x, y, g(), g(mode="b"), f.__name__, f.__defaults__, g.__kwdefaults__
---
class Meta(type):
    def __new__(m, n, b, d):
        d["tag"] = n.lower()
        return super().__new__(m, n, b, d)
class Foo(metaclass=Meta): pass
return Foo.tag
---
def add_f(cls):
    cls.f = lambda self: 7
    return cls
@add_f
class Y: pass
Y.h = lambda self, a: a
def make(n):
    def m(self): return n
    return m
for nm in ("p", "q"): setattr(Y, nm, make(nm))
return Y().f(), Y().h(2), Y().p(), Y().q(), getattr(Y(), "p")(), type(Y()).q(Y())
---
return [x for y in [[1, 2], [3]] for x in y], [[i * j for j in range(2)] for i in range(2)], {k: v for k, v in [("a", 1)]}, (lambda: (yield))  is not None, [a if a else b for a, b in [(0, 1)]], *[1, 2]
---
s = {1, 2}
s.add(3); s.discard(1)
return s | {4}, s & {2}, s - {2}, 2 in s, s <= {2, 3}, len(s), sorted(s), s.union({9}), set() == s
---
def f():
    try:
        return 1
    finally:
        l.append(2)
l = []
for i in range(3):
    try:
        if i == 1: continue
        l.append(i)
    finally:
        l.append("f")
return f(), l
---
x = 5
def f():
    return x + y
y = 2
g = [lambda i=i: i for i in range(3)]
h = [lambda: i for i in range(3)]
return f(), [q() for q in g], [q() for q in h]
---
a = "abc"
b, c, d = a
e = (1, 2, 3)
f = e[0:2] + e[-1:]
return b, d, f, e.index(2), 1 in e, e > (1, 2), "%s-%s" % ("a", 1), "{a}{0}".format(1, a=2), "a" "b", "x" * 3, "é".encode() != b"", 0x10, 1_000, 1e-3, ...  is Ellipsis, None is None, True + 1, 3 .bit_length()
---
import inspect
def f(a, b=1): return a
sig = inspect.signature(f)
return list(sig.parameters), "b" in sig.parameters
---
from types import MappingProxyType, MethodType
m = MappingProxyType({"a": 1})
class W:
    pass
w = W()
w.f = MethodType(lambda self, x: x + 1, w)
w.__dict__["k"] = 4
return m["a"], w.f(1), w.k, sorted(vars(w)), "k" in w.__dict__
---
n = 0
for i in range(3):
    for j in range(3):
        if j == 2: break
        n += 1
    else:
        n += 100
while n > 4: n -= 1
else: n = n * 2
del i
return n
---
def gen():
    r = yield 1
    yield r * 2
g = gen()
a = next(g)
b = g.send(5)
g.close()
return a, b
---
from functools import reduce
compose = lambda *fs: reduce(lambda f, g: lambda x: g(f(x)), fs, lambda x: x)
return compose(lambda x: x + 1, lambda x: x * 2)(3), (lambda f: f(f))(lambda f: 3), list(map(int, "12")), [*map(str, [1])], list(zip(*[(1, 2), (3, 4)])), dict(enumerate("ab")), next((i for i in [1, 2] if i > 1), None), bool(iter([])), list(iter(lambda l=[3, 2, 0]: l.pop(0), 0))
'''


def py(src):
    d = {"__name__": "user"}
    exec(src, d)
    return d["f0"]()


def show(v):
    if isinstance(v, (list,)):
        return "[" + ", ".join(map(show, v)) + "]"
    if isinstance(v, tuple):
        return "(" + ", ".join(map(show, v)) + ")"
    if isinstance(v, dict):
        return "{" + ", ".join(f"{show(a)}: {show(b)}" for a, b in v.items()) + "}"
    if isinstance(v, (set, frozenset)):
        return "s{" + ", ".join(sorted(map(show, v))) + "}"
    if hasattr(v, "t") and hasattr(v.t, "m") or type(v).__name__ == "SInt":
        try:
            return repr(int(v))
        except Exception:
            pass
    if isinstance(v, float) and v == int(v) if isinstance(v, float) and v not in (float("inf"), float("-inf")) else False:
        return repr(v)
    return repr(v)


good = bad = uns = 0
for body in PROGS.strip("\n").split("\n---\n"):
    src = "def f0():\n" + "\n".join("    " + l for l in body.split("\n")) + "\n"
    try:
        ref = show(py(src))
    except Exception as e:
        print("reference fails:", e, body[:60]); continue
    for p in paths(lambda c: Prog().user(src), 4, prep):
        break

    def go(c, src=src):
        pr = Prog()
        f = pr.user(src)["f0"]
        return show(pr.I.call(f, [], {}))
    p = next(iter(paths(go, 4, prep)))
    if p.unsupported:
        uns += 1
        print("UNSUPPORTED", body.split("\n")[0][:60], "|", p.unsupported)
    elif p.error is not None:
        bad += 1
        print("RAISES", body.split("\n")[0][:60], "|", p.error, fmt(p.error.where) if p.error.where else "")
    elif p.value != ref:
        bad += 1
        i = next(k for k in range(min(len(ref), len(p.value)) ) if ref[k] != p.value[k]) if ref[:len(p.value)] != p.value and p.value[:len(ref)] != ref else 0
        print("DIFFERS", body.split("\n")[0][:60], "\n   ", ref[max(0, i-30):i+60], "\n   ", p.value[max(0, i-30):i+60])
    else:
        good += 1
print("ok", good, "unsupported", uns, "bad", bad)
