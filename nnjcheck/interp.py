"""Abstract interpreter for the Python subset nnj is written in.

Integers may be polynomials over size symbols, floats may be terms, tensors are abstract
(tensor.T).  A branch whose condition is not decided by the abstract state is partitioned:
the driver (`paths`) replays the call once per outcome and records the assumption.
"""
import ast
import operator
import os
from fractions import Fraction

from . import tensor as tz
from .tensor import T, SReal, Unsupported, PyErr, Ctx, ctx, set_ctx, err, val_expr
from .poly import Poly, V, newvar, topoly, fdiv, fmod, ge0, nonzero, ZERO, ONE, exact_div, SIZE
from .expr import (NoDeriv, E, N0, N1, TRUE, FALSE, num, ix, add, mul, neg, sub, pow_, div, fn, sum_, ite, ceq, cge, cgt, cgev,
                   ceqv, cnot, cand, cor, subst, isnum, to_poly, accs, acc)
from .evalx import ACCSHAPE, KIND


class Size(tuple):
    """torch.Size"""


class ModuleV:
    def __init__(self, name, d=None, file=None):
        self.name, self.d, self.file = name, d if d is not None else {}, file

    def __repr__(self):
        return f"<module {self.name}>"


class Unknown:
    """an external name that is not modelled; using it makes the obligation undecided"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<external {self.name}>"


from .torchapi import MODULE as MODULE_API


class Native:
    def __init__(self, f, name=None, binds=False, interp=False, strict=False):
        self.strict = strict   # the signature is torch's own: a mismatch is a TypeError of the program
        self.f, self.name, self.binds, self.interp = f, name or getattr(f, "__name__", "?"), binds, interp

    def __repr__(self):
        return f"<native {self.name}>"


class ClsV:
    def __init__(self, name, bases, d, native=False, pytype=None, module=None):
        self.name, self.bases, self.d, self.native, self.pytype = name, list(bases), d, native, pytype
        self.module = module
        self.mro = c3(self)

    def __repr__(self):
        return f"<class {self.name}>"

    def lookup(self, n):
        for c in self.mro:
            if n in c.d:
                return c, c.d[n]
        return None, None


def c3(c):
    seqs = [list(b.mro) for b in c.bases] + [list(c.bases)]
    out = [c]
    while any(seqs):
        seqs = [s for s in seqs if s]
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            err(TypeError, "Cannot create a consistent method resolution order")
        out.append(h)
        for s in seqs:
            if s and s[0] is h:
                s.pop(0)
    return out


class NTup(tuple):
    """an instance of a named tuple"""
    cls = None

    def __repr__(self):
        return self.cls.name + tuple.__repr__(self)


class Obj:
    _n = 0

    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        Obj._n += 1
        self.oid = Obj._n

    def __repr__(self):
        return f"<{self.cls.name}>"

    def __str__(self):
        a = self.attrs.get("args")
        return self.cls.name + (str(a) if a else "")


class FuncV:
    def __init__(self, node, env, mod, name, interp, defaults, kwdefaults, qual, gen):
        self.node, self.env, self.mod, self.name, self.interp = node, env, mod, name, interp
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.qual = qual
        self.gen = gen
        self.owner = None   # class for zero-argument super()
        self.attrs = {}

    def __repr__(self):
        return f"<function {self.qual}>"


class Wrapped:
    """function wrapped by a gradient-mode decorator"""

    def __init__(self, f, grad):
        self.f, self.grad = f, grad
        self.attrs = {}


class Bound:
    def __init__(self, f, self_):
        self.f, self.self_ = f, self_

    def __repr__(self):
        return f"<bound {self.f!r}>"


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class PropV:
    def __init__(self, f, setter=None):
        self.f, self.setter = f, setter


class CachedP:
    """functools.cached_property: the instance dictionary comes first"""

    def __init__(self, f, name=None):
        self.f, self.name = f, name


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class GradMode:
    """torch.no_grad() / torch.enable_grad() / set_grad_enabled(b)"""

    def __init__(self, mode):
        self.mode = mode


class NullCtx:
    def __init__(self, value=None):
        self.value = value


class Enough(BaseException):
    """ends a suspended generator"""


class SymIter:
    def __init__(self, size, get):
        self.size, self.get = topoly(size), get


class SymSeg:
    """the items appended by a loop over a symbolic range"""

    def __init__(self, var, size, val):
        self.var, self.size, self.val = var, size, val


class Env:
    def __init__(self, d, parent=None, fn=None):
        self.d, self.parent, self.fn = d, parent, fn
        self.globals_ = set()
        self.nonlocals = set()


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


def is_module_obj(o):
    return isinstance(o, Obj) and any(c.name == "Module" and c.native for c in o.cls.mro)


def norm_int(p):
    if isinstance(p, Poly) and p.is_const():
        return p.cval()
    return p


def is_int(x):
    return isinstance(x, (int, Poly))


class LoopCtx:
    def __init__(self, var):
        self.var = var
        self.written = []


_MISS = object()


_trees = {}


def parse(f):
    src = open(f).read()
    if _trees.get(f, (None,))[0] != src:
        _trees[f] = (src, ast.parse(src, f))
    return _trees[f][1]


class Interp:
    def __init__(self, root="/repo", pkg="nnj"):
        self.root, self.pkg = root, pkg
        self.mods = {}
        self.src = {}
        self.calls = set()      # (file, qualname) of analysed functions
        self.dead = False
        from . import torchmodel
        self.tm = torchmodel.TorchModel(self)
        self.builtins = self.tm.builtins()

    # --- modules ---------------------------------------------------------------
    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name == self.pkg or name.startswith(self.pkg + "."):
            rel = name.replace(".", "/")
            f = os.path.join(self.root, rel, "__init__.py")
            ispkg = True
            if not os.path.exists(f):
                f = os.path.join(self.root, rel + ".py")
                ispkg = False
            if not os.path.exists(f):
                err(ModuleNotFoundError, f"No module named {name!r}")
            tree = parse(f)
            m = ModuleV(name, {"__name__": name, "__file__": f}, f)
            m.pkg = name if ispkg else name.rpartition(".")[0]
            self.mods[name] = m
            if "." in name:
                par, _, leaf = name.rpartition(".")
                self.load(par).d[leaf] = m
            env = Env(m.d)
            m.env = env
            rel = os.path.relpath(f, self.root)
            c = ctx()
            c.stack.append([rel, "<module>", 0])
            try:
                for st in tree.body:
                    self.define(st, env, m)
            finally:
                c.stack.pop()
            return m
        return self.tm.external(name)

    def imp(self, node, env, m):
        if isinstance(node, ast.Import):
            for a in node.names:
                v = self.load(a.name)
                if a.asname:
                    self.store(a.asname, v, env)
                else:
                    top = a.name.split(".")[0]
                    self.store(top, self.load(top), env)
        else:
            base = node.module or ""
            if node.level:
                pk = m.pkg.split(".")
                pk = pk[: len(pk) - (node.level - 1)]
                base = ".".join(pk + ([base] if base else []))
            if base == "__future__":
                return
            mod = self.load(base)
            for a in node.names:
                if a.name == "*":
                    for k, v in mod.d.items():
                        if not k.startswith("_"):
                            self.store(k, v, env)
                    continue
                if isinstance(mod, ModuleV) and a.name in mod.d:
                    v = mod.d[a.name]
                elif isinstance(mod, ModuleV) and mod.file:
                    try:
                        v = self.load(base + "." + a.name)
                    except PyErr:
                        err(ImportError, f"cannot import name {a.name!r} from {base!r}")
                else:
                    v = self.tm.attr_ext(mod, a.name)
                self.store(a.asname or a.name, v, env)

    def define(self, st, env, m):
        """a statement of a module or class body: a definition that is not modelled leaves its names unknown"""
        try:
            self.stmt(st, env, m)
        except Unsupported as e:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                ns = [st.name]
            elif isinstance(st, (ast.Assign, ast.AnnAssign)):
                ts = st.targets if isinstance(st, ast.Assign) else [st.target]
                if not all(isinstance(t, ast.Name) for t in ts):
                    raise
                ns = [t.id for t in ts]
            else:
                raise
            for n in ns:
                self.store(n, Unknown(f"{n} ({str(e)[:120]})"), env)

    # --- names -----------------------------------------------------------------
    def store(self, name, v, env):
        if name in env.globals_:
            g = env
            while g.parent is not None:
                g = g.parent
            g.d[name] = v
            return
        if name in env.nonlocals:
            e = env.parent
            while e is not None and name not in e.d:
                e = e.parent
            if e is None:
                raise Unsupported("nonlocal")
            e.d[name] = v
            return
        env.d[name] = v

    def lookup(self, name, env):
        e = env
        first = True
        while e is not None:
            if name in e.d and not (getattr(e, "is_class", False) and not first):
                v = e.d[name]
                if v is _MISS:
                    break
                return v
            e = e.parent
            first = False
        if name in self.builtins:
            return self.builtins[name]
        err(NameError, f"name {name!r} is not defined")

    # --- statements --------------------------------------------------------------
    def block(self, body, env, m):
        for st in body:
            self.stmt(st, env, m)

    def stmt(self, st, env, m):
        c = ctx()
        c.steps += 1
        if self.dead:
            raise Enough()
        if c.steps > 400000:
            raise Unsupported("analysis budget exceeded")
        if c.stack:
            c.stack[-1][2] = st.lineno
        k = type(st).__name__
        f = getattr(self, "s_" + k, None)
        if f is None:
            raise Unsupported(f"statement {k}")
        f(st, env, m)

    def s_Expr(self, st, env, m):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, env, m)

    def s_Pass(self, st, env, m):
        pass

    def s_Import(self, st, env, m):
        self.imp(st, env, m)

    s_ImportFrom = s_Import

    def s_Return(self, st, env, m):
        raise Ret(self.ev(st.value, env, m) if st.value is not None else None)

    def s_Break(self, st, env, m):
        raise Brk()

    def s_Continue(self, st, env, m):
        raise Cont()

    def s_Global(self, st, env, m):
        env.globals_ |= set(st.names)

    def s_Nonlocal(self, st, env, m):
        env.nonlocals |= set(st.names)

    def s_Assign(self, st, env, m):
        v = self.ev(st.value, env, m)
        for t in st.targets:
            self.assign(t, v, env, m)

    def s_AnnAssign(self, st, env, m):
        if getattr(env, "is_class", False) and isinstance(st.target, ast.Name):
            env.d.setdefault("__annotations__", {})[st.target.id] = ast.unparse(st.annotation)
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env, m), env, m)

    def s_AugAssign(self, st, env, m):
        t = st.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, env)
            new = self.augop(st.op, old, self.ev(st.value, env, m))
            self.store(t.id, new, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, m)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.augop(st.op, old, self.ev(st.value, env, m)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, m)
            k = self.evslice(t.slice, env, m)
            old = self.getitem(o, k)
            new = self.augop(st.op, old, self.ev(st.value, env, m))
            if isinstance(o, T) and isinstance(new, T) and new is old:
                if any(isinstance(x, (T, list)) for x in (k if isinstance(k, tuple) else (k,))):
                    self.setitem(o, k, new)
                return
            self.setitem(o, k, new)
        else:
            raise Unsupported("augmented assignment target")

    def augop(self, op, a, b):
        if isinstance(a, T):
            nm = {"Add": "add_", "Sub": "sub_", "Mult": "mul_", "Div": "div_", "Pow": "pow_", "FloorDiv": "floor_divide_"}.get(type(op).__name__)
            if nm is None:
                raise Unsupported("in-place operator")
            return self.tm.inplace_binary(nm, a, b)
        if isinstance(a, list) and isinstance(op, ast.Add):
            a.extend(self.tolist(b))
            return a
        nm = {"Add": "__iadd__", "Mult": "__imul__", "Sub": "__isub__", "Div": "__itruediv__", "MatMult": "__imatmul__", "BitOr": "__ior__", "BitAnd": "__iand__"}.get(type(op).__name__)
        if isinstance(a, (dict, set)) and isinstance(op, ast.BitOr) and type(b) in (dict, set):
            a.update(b)
            return a
        if isinstance(a, list) and isinstance(op, ast.Mult) and isinstance(b, int):
            a *= b
            return a
        if nm and isinstance(a, Obj) and a.cls.lookup(nm)[1] is not None:
            return self.call(self.getattr(a, nm), [b], {})
        return self.binop(op, a, b)

    def s_Delete(self, st, env, m):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.d.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env, m)
                if isinstance(o, Obj):
                    for d in (o.attrs, o.attrs.get("_modules", {}), o.attrs.get("_parameters", {})):
                        d.pop(t.attr, None)
                else:
                    raise Unsupported("del attribute")
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env, m)
                k = self.evslice(t.slice, env, m)
                if isinstance(o, Obj) and o.cls.lookup("__delitem__")[1] is not None:
                    self.call(self.getattr(o, "__delitem__"), [k], {})
                elif isinstance(o, list) and isinstance(k, slice) and not any(isinstance(x, SymSeg) for x in o):
                    f = lambda x: None if x is None else tz.concrete(x)
                    del o[slice(f(k.start), f(k.stop), f(k.step))]
                elif isinstance(o, (list, dict)) and not isinstance(k, slice):
                    k = tz.concrete(k) if isinstance(o, list) else k
                    if isinstance(o, dict) and k not in o:
                        err(KeyError, k)
                    if isinstance(o, list) and not -len(o) <= k < len(o):
                        err(IndexError, "list assignment index out of range")
                    del o[k]
                else:
                    raise Unsupported("del of items")
            else:
                raise Unsupported("del")

    def s_Assert(self, st, env, m):
        if not self.truth(self.ev(st.test, env, m)):
            msg = self.ev(st.msg, env, m) if st.msg is not None else ""
            err(AssertionError, msg if isinstance(msg, str) else ast.unparse(st.test))

    def s_Raise(self, st, env, m):
        if st.exc is None:
            raise getattr(self, "_cur_exc", None) or Unsupported("bare raise")
        e = self.ev(st.exc, env, m)
        if isinstance(e, ClsV):
            e = self.call(e, [], {})
        if isinstance(e, Obj) and "exc" in e.attrs:
            raise PyErr(e.attrs["exc"], ctx().loc())
        raise PyErr(e, self.locs())

    def locs(self):
        return tuple(ctx().stack[-1]) if ctx().stack else None

    def s_If(self, st, env, m):
        if self.truth(self.ev(st.test, env, m)):
            self.block(st.body, env, m)
        else:
            self.block(st.orelse, env, m)

    def s_Match(self, st, env, m):
        v = self.ev(st.subject, env, m)
        for case in st.cases:
            binds = {}
            if self.matches(case.pattern, v, binds, env, m):
                for n, x in binds.items():
                    self.store(n, x, env)
                if case.guard is None or self.truth(self.ev(case.guard, env, m)):
                    self.block(case.body, env, m)
                    return

    def matches(self, p, v, binds, env, m):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare(ast.Eq(), v, self.ev(p.value, env, m)))
        if isinstance(p, ast.MatchSingleton):
            return self.is_(v, p.value)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.matches(p.pattern, v, binds, env, m):
                return False
            if p.name is not None:
                binds[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.matches(q, v, binds, env, m) for q in p.patterns)
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (list, tuple)):
                if isinstance(v, (T, Obj)):
                    raise Unsupported("sequence pattern on an object")
                return False
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if not star:
                return len(v) == len(p.patterns) and all(self.matches(q, x, binds, env, m) for q, x in zip(p.patterns, v))
            i = star[0]
            tail = len(p.patterns) - i - 1
            if len(v) < i + tail:
                return False
            if not all(self.matches(q, x, binds, env, m) for q, x in zip(p.patterns[:i], v)):
                return False
            if p.patterns[i].name:
                binds[p.patterns[i].name] = list(v[i:len(v) - tail])
            return all(self.matches(q, x, binds, env, m) for q, x in zip(p.patterns[i + 1:], v[len(v) - tail:]))
        if isinstance(p, ast.MatchMapping):
            if not isinstance(v, dict):
                if isinstance(v, Obj):
                    raise Unsupported("mapping pattern on an object")
                return False
            for kq, q in zip(p.keys, p.patterns):
                kv = self.ev(kq, env, m)
                if kv not in v or not self.matches(q, v[kv], binds, env, m):
                    return False
            if p.rest:
                binds[p.rest] = {a: b for a, b in v.items() if a not in [self.ev(q, env, m) for q in p.keys]}
            return True
        if isinstance(p, ast.MatchClass) and not p.patterns:
            isin = self.builtins["isinstance"]
            if not self.truth(self.call(isin, [v, self.ev(p.cls, env, m)], {})):
                return False
            return all(self.matches(q, self.getattr(v, a), binds, env, m) for a, q in zip(p.kwd_attrs, p.kwd_patterns))
        if isinstance(p, ast.MatchClass) and isinstance(p.cls, (ast.Name, ast.Attribute)):
            c = self.ev(p.cls, env, m)
            if isinstance(c, ClsV) and c.lookup("__match_args__")[1] is not None:
                isin = self.builtins["isinstance"]
                if not self.truth(self.call(isin, [v, c], {})):
                    return False
                names = list(c.lookup("__match_args__")[1])
                if len(p.patterns) > len(names):
                    err(TypeError, "too many positional sub-patterns")
                return all(self.matches(q, self.getattr(v, a), binds, env, m) for a, q in list(zip(names, p.patterns)) + list(zip(p.kwd_attrs, p.kwd_patterns)))
        if isinstance(p, ast.MatchClass) and len(p.patterns) == 1 and not p.kwd_attrs and isinstance(p.cls, ast.Name) \
                and p.cls.id in ("int", "float", "str", "bool", "tuple", "list", "dict"):
            isin = self.builtins["isinstance"]
            return self.truth(self.call(isin, [v, self.ev(p.cls, env, m)], {})) and self.matches(p.patterns[0], v, binds, env, m)
        raise Unsupported("match pattern")

    def s_While(self, st, env, m):
        n = 0
        while self.truth(self.ev(st.test, env, m)):
            n += 1
            if n > 2000:
                raise Unsupported("unbounded while loop")
            try:
                self.block(st.body, env, m)
            except Brk:
                return
            except Cont:
                continue
        self.block(st.orelse, env, m)

    def s_For(self, st, env, m):
        it = self.ev(st.iter, env, m)
        it = self.lazy(it) if self.islazy(it) else self.iterate(it)
        if isinstance(it, SymIter):
            self.symloop(st, it, env, m)
            return
        k = 0
        for v in it:
            k += 1
            if k > 5000:
                raise Unsupported("unbounded for loop")
            self.assign(st.target, v, env, m)
            try:
                self.block(st.body, env, m)
            except Brk:
                return
            except Cont:
                continue
        self.block(st.orelse, env, m)

    # loops over a symbolic range ---------------------------------------------------
    def symloop(self, st, it, env, m):
        c = ctx()
        names = {n.id for b in st.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
        before = {n: env.d[n] for n in names if n in env.d}
        lists = {}
        e = env
        while e is not None:
            for v in e.d.values():
                if isinstance(v, list):
                    lists[id(v)] = (v, len(v))
            e = e.parent if e.parent is not None and e.parent.parent is not None else None

        def run(subs):
            v = newvar(it.size, "L")
            lc = LoopCtx(v)
            c.loops.append(lc)
            try:
                self.assign(st.target, it.get(V(v)), env, m)
                try:
                    self.block(st.body, env, m)
                except Cont:
                    pass
                except (Brk, Ret):
                    raise Unsupported("break/return inside a loop of symbolic length")
            finally:
                c.loops.pop()
            return v, lc

        # probe: which tensors existing before the loop are written, which names rebound
        snap = {}
        mark = T._id

        class Probe:
            pass

        orig_write = T.write
        written = {}

        def hook(t, f):
            r = t.root()
            if r.id <= mark and r.id not in written:
                written[r.id] = (r, r._vars, r._expr, r.ver)
            return orig_write(t, f)

        T.write = hook
        try:
            run(None)
        finally:
            T.write = orig_write
        after = {n: env.d.get(n, _MISS) for n in names}
        for r, vs, ex, ver in written.values():
            r._vars, r._expr = vs, ex
            r.ver += 1
        for l, n in lists.values():
            del l[n:]
        accs_ = {}
        for n, v0 in before.items():
            v1 = after[n]
            if v1 is v0 and not (isinstance(v0, T) and v0.root().id in written):
                env.d[n] = v0
                continue
            if isinstance(v0, T):
                if v0.root().id in written and v1 is v0:
                    env.d[n] = v0
                    continue
                if not isinstance(v1, T):
                    raise Unsupported("loop changes a tensor variable into something else")
                ph = f"$acc{T._id}"
                tz_sym = tz.sym(ph, v0.shape, dtype=v0.dtype, device=v0.device, plain=True)
                accs_[n] = (v0, ph, tz_sym)
                env.d[n] = tz_sym
            elif isinstance(v0, (int, float, Poly, SReal)) and isinstance(v1, (int, float, Poly, SReal)):
                if self.same_scalar(v0, v1):
                    env.d[n] = v0
                else:
                    raise Unsupported("scalar accumulated in a loop of symbolic length")
            elif isinstance(v0, (int, float)) and isinstance(v1, T) and v0 == 0:
                ph = f"$acc{T._id}"
                z = T(v1.shape, lambda i: N0, v1.dtype, v1.device)
                accs_[n] = (z, ph, tz.sym(ph, v1.shape, dtype=v1.dtype, device=v1.device, plain=True))
                env.d[n] = accs_[n][2]
            elif v0 is None or isinstance(v0, (str, list, dict, tuple)) or isinstance(v0, bool):
                if isinstance(v0, list) and v1 is v0:
                    env.d[n] = v0
                    continue
                # loop-local scratch names are fine unless they are read before being written
                env.d[n] = _MISS
            else:
                env.d[n] = _MISS
        phs = {}
        for r, vs, ex, ver in written.values():
            ph = f"$mem{r.id}.{T._id}"
            ACCSHAPE[ph] = r.shape
            KIND[ph] = "real"
            phs[r.id] = (ph, r, vs, ex)
            r._expr = acc(ph, [V(x) for x in r._vars])
            r.ver += 1
        v, lc = run(None)
        size = it.size

        def close(expr, ph, k, old):
            """content after all iterations; expr is the content after iteration v"""
            def has(e):
                return any(nm == ph for nm, _ in accs(e))

            def own(e):
                return all(i == tuple(k) for nm, i in accs(e) if nm == ph)

            def plug(e):
                from .expr import mapacc
                return mapacc(e, lambda nm, i: old(i) if nm == ph else acc(nm, i))

            if expr.op == "acc" and expr.a[0] == ph:
                if not own(expr):
                    raise Unsupported("loop-carried tensor dependence")
                return old(k)
            if not has(expr):
                if v in expr.fv:
                    return subst(expr, {v: size - 1})
                return expr
            if expr.op == "ite":
                # a position is written by one iteration only, the one that solves the equation of the condition
                parts, sol0 = [], None
                R = expr
                while R.op == "ite":
                    cnd, A, R = R.a
                    cs = cnd.a if cnd.op == "c.and" else (cnd,)
                    sol = None
                    for q in cs:
                        if q.op == "c.eq":
                            cb = q.a[0].coeff(v)
                            if cb is None:
                                continue
                            a_, b_ = cb
                            if a_ == ONE or a_ == Poly.const(-1):
                                s_ = -b_ if a_ == ONE else b_
                                if v not in s_.fvars() and (sol0 is None or s_ == sol0):
                                    sol = s_
                                    break
                    if sol is None:
                        raise Unsupported("loop writes positions that the analysis cannot separate")
                    sol0 = sol
                    A = subst(A, {v: sol})
                    if not own(A):
                        raise Unsupported("loop-carried tensor dependence")
                    parts.append((cand(subst(cnd, {v: sol}), tz.inrange(sol, size)), plug(A)))
                if not (R.op == "acc" and R.a[0] == ph and tuple(R.a[1]) == tuple(k)):
                    raise Unsupported("loop writes positions that the analysis cannot separate")
                out = old(k)
                for c_, A in reversed(parts):
                    out = ite(c_, A, out)
                return out
            if expr.op == "add":
                base = [x for x in expr.a if x.op == "acc" and x.a[0] == ph and x.a[1] == tuple(k)]
                rest = [x for x in expr.a if not has(x)]
                if len(base) == 1 and len(rest) == len(expr.a) - 1:
                    return add(old(k), sum_(v, size, add(*rest)))
            raise Unsupported("loop-carried tensor dependence")

        for rid, (ph, r, vs, ex) in phs.items():
            k = [V(x) for x in r._vars]
            old = lambda i, vs=vs, ex=ex: subst(ex, dict(zip(vs, i)))
            r._expr = close(r._expr, ph, k, old)
            r.ver += 1
        for n, (t0, ph, pt) in accs_.items():
            t1 = env.d[n]
            if not isinstance(t1, T) or len(t1.shape) != len(t0.shape):
                raise Unsupported("accumulator changes shape")
            vs2 = [newvar(s) for s in t0.shape]
            k = [V(x) for x in vs2]
            final = close(t1.at(k), ph, k, lambda i: t0.at(i))
            ff = lambda i: subst(final, dict(zip(vs2, i)))
            if t1 is pt:
                snapT = T(t0.shape, lambda i: t0.at(i), t0.dtype)
                t0.write(ff)
                env.d[n] = t0
            else:
                env.d[n] = T(t0.shape, ff, t1.dtype, t1.device, t1.rg)
        for l, n in lists.values():
            new = l[n:]
            if new:
                if len(new) != 1:
                    raise Unsupported("several appends per iteration")
                l[n:] = [SymSeg(v, size, new[0])]

    def same_scalar(self, a, b):
        try:
            return val_expr(a) is val_expr(b)
        except Unsupported:
            return False

    def s_With(self, st, env, m):
        self.with_items(list(st.items), st, env, m)

    def with_items(self, items, st, env, m):
        if not items:
            self.block(st.body, env, m)
            return
        item, rest = items[0], items[1:]
        mgr = self.ev(item.context_expr, env, m)
        c = ctx()
        if isinstance(mgr, GradMode):
            saved = c.grad
            c.grad = mgr.mode
            try:
                if item.optional_vars is not None:
                    self.assign(item.optional_vars, mgr, env, m)
                self.with_items(rest, st, env, m)
            finally:
                c.grad = saved
            return
        if isinstance(mgr, NullCtx):
            if item.optional_vars is not None:
                self.assign(item.optional_vars, mgr.value, env, m)
            self.with_items(rest, st, env, m)
            return
        if not (isinstance(mgr, Obj) and mgr.cls.lookup("__enter__")[1] is not None):
            raise Unsupported("with statement")
        val = self.call(self.getattr(mgr, "__enter__"), [], {})
        depth, nl = len(c.stack), len(c.loops)
        leave = self.getattr(mgr, "__exit__")
        try:
            if item.optional_vars is not None:
                self.assign(item.optional_vars, val, env, m)
            self.with_items(rest, st, env, m)
        except PyErr as ex:
            del c.stack[depth:]
            del c.loops[nl:]
            t = ex.exc.cls if isinstance(ex.exc, Obj) else self.tm.type_(ex.exc)
            if not self.truth(self.call(leave, [t, ex.exc, None], {})):
                raise
        except (Ret, Brk, Cont):
            self.call(leave, [None, None, None], {})
            raise
        else:
            self.call(leave, [None, None, None], {})

    def s_Try(self, st, env, m):
        depth = len(ctx().stack)
        grad = ctx().grad
        nl = len(ctx().loops)
        try:
            try:
                self.block(st.body, env, m)
            except PyErr as ex:
                del ctx().stack[depth:]
                del ctx().loops[nl:]
                ctx().grad = grad
                for h in st.handlers:
                    if h.type is None or self.exc_match(ex.exc, self.ev(h.type, env, m)):
                        if h.name:
                            self.store(h.name, ex.exc, env)
                        old = getattr(self, "_cur_exc", None)
                        self._cur_exc = ex
                        try:
                            self.block(h.body, env, m)
                        finally:
                            self._cur_exc = old
                        break
                else:
                    raise
            else:
                self.block(st.orelse, env, m)
        except (PyErr, Ret, Brk, Cont):
            if st.finalbody:
                st_ = list(ctx().stack)
                self.block(st.finalbody, env, m)
                ctx().stack[:] = st_
            raise
        else:
            self.block(st.finalbody, env, m)

    def exc_match(self, exc, t):
        if isinstance(t, tuple):
            return any(self.exc_match(exc, x) for x in t)
        if isinstance(t, ClsV):
            if isinstance(exc, Obj):
                return t in exc.cls.mro
            return t.pytype is not None and isinstance(exc, t.pytype)
        return False

    def s_FunctionDef(self, st, env, m):
        self.store(st.name, self.mkfunc(st, env, m), env)

    def mkfunc(self, st, env, m, name=None):
        a = st.args
        defaults = [self.ev(d, env, m) for d in a.defaults]
        kwd = [self.ev(d, env, m) if d is not None else _MISS for d in a.kw_defaults]
        nm = name or st.name
        q = ((env.qual + ".") if getattr(env, "qual", None) else "") + nm
        body = st.body if isinstance(st.body, list) else [st.body]
        gen = getattr(st, "_gen", None)
        if gen is None:
            gen = st._gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for b in body for n in _walk_own(b))
        f = FuncV(st, env, m, nm, self, defaults, kwd, q, gen)
        if getattr(env, "is_class", False):
            f.pending_owner = True
        r = f
        for d in reversed(getattr(st, "decorator_list", [])):
            r = self.call(self.ev(d, env, m), [r], {})
        return r

    def s_ClassDef(self, st, env, m):
        bases = []
        ntuple = False
        kws = {}
        for k in st.keywords:
            if k.arg is None:
                raise Unsupported("class keywords")
            v = self.ev(k.value, env, m)
            if k.arg == "metaclass":
                if not (isinstance(v, Unknown) and v.name.endswith("ABCMeta") or isinstance(v, ClsV) and v.name == "ABCMeta"):
                    raise Unsupported("metaclass")
                bases.append(self.load("abc").d["ABC"])
            else:
                kws[k.arg] = v
        for b in st.bases:
            v = self.ev(b, env, m)
            if isinstance(v, ClsV):
                bases.append(v)
            elif isinstance(v, Unknown):
                if v.name == "typing.NamedTuple":
                    ntuple = True
                    continue
                if v.name.startswith("typing") or v.name.endswith(("ABC", "Generic", "Protocol")):
                    continue
                raise Unsupported(f"base class {v.name}")
            else:
                raise Unsupported("base class")
        d = {}
        ce = Env(d, env)
        ce.is_class = True
        ce.qual = st.name
        c = ClsV.__new__(ClsV)
        for b in st.body:
            self.define(b, ce, m)
        if not bases:
            bases = [self.builtins["object"]]
        if ntuple:
            r = self.tm.ntuple(st.name, list(d.get("__annotations__", {})), {k: v for k, v in d.items() if k in d.get("__annotations__", {})}, d)
            for v in d.values():
                setowner(v, r)
            self.store(st.name, r, env)
            return
        c.__init__(st.name, bases, d, module=m)
        for k, v in list(d.items()):
            setowner(v, c)
            if isinstance(v, CachedP):
                v.name = k
            elif isinstance(v, Obj) and v.cls.lookup("__set_name__")[1] is not None:
                self.call(self.getattr(v, "__set_name__"), [c, k], {})
        d.setdefault("__module__", m.name)
        isub = next((x.d["__init_subclass__"] for x in c.mro[1:] if "__init_subclass__" in x.d), None)
        if isub is not None:
            self.call(isub.f if isinstance(isub, ClassM) else isub, [c], kws)
        elif kws:
            err(TypeError, f"{st.name}.__init_subclass__() takes no keyword arguments")
        if any(x.name == "Enum" and x.native for x in c.mro):
            self.tm.enumerate_members(c)
        r = c
        for dd in reversed(st.decorator_list):
            dec = self.ev(dd, env, m)
            if isinstance(dec, Unknown):
                raise Unsupported("class decorator")
            r = self.call(dec, [r], {})
        self.store(st.name, r, env)

    # --- assignment ----------------------------------------------------------------
    def assign(self, t, v, env, m):
        if isinstance(t, ast.Name):
            self.store(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env, m), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env, m), self.evslice(t.slice, env, m), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.tolist(v)
            st = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if st:
                i = st[0]
                k = len(t.elts) - i - 1
                if len(vs) < len(t.elts) - 1:
                    err(ValueError, "not enough values to unpack")
                for x, y in zip(t.elts[:i], vs[:i]):
                    self.assign(x, y, env, m)
                self.assign(t.elts[i].value, list(vs[i:len(vs) - k]), env, m)
                for x, y in zip(t.elts[i + 1:], vs[len(vs) - k:]):
                    self.assign(x, y, env, m)
            else:
                if len(vs) != len(t.elts):
                    err(ValueError, f"unpack: expected {len(t.elts)} values, got {len(vs)}")
                for x, y in zip(t.elts, vs):
                    self.assign(x, y, env, m)
        else:
            raise Unsupported("assignment target")

    # --- iteration -------------------------------------------------------------------
    def iterate(self, v):
        if isinstance(v, (list, tuple, set, frozenset, str)):
            if any(isinstance(x, SymSeg) for x in v):
                if len(v) == 1:
                    s = v[0]
                    return SymIter(s.size, lambda i: subst_value(s.val, s.var, i))
                raise Unsupported("mixed symbolic list")
            return list(v)
        if isinstance(v, dict):
            return list(v.keys())
        if isinstance(v, SymIter):
            return v
        if isinstance(v, T):
            if not v.shape:
                err(TypeError, "iteration over a 0-d tensor")
            n = v.shape[0]
            if n.is_const():
                return [tz.getitem(v, k) for k in range(n.cval())]
            return SymIter(n, lambda i: tz.getitem(v, i))
        if isinstance(v, range):
            return list(v)
        if isinstance(v, GenV):
            r = v.items
            v.items = []
            if len(r) == 1 and isinstance(r[0], SymSeg):
                return self.iterate(r)
            return r
        if isinstance(v, Obj):
            if v.cls.lookup("__next__")[1] is not None:
                return drain(self.lazy(v))
            mth = v.cls.lookup("__iter__")[1]
            if mth is not None:
                return self.iterate(self.call(self.getattr(v, "__iter__"), [], {}))
            if v.cls.lookup("__getitem__")[1] is not None:
                raise Unsupported("sequence protocol iteration")
        if isinstance(v, (type({}.keys()), type({}.values()), type({}.items()))):
            return list(v)
        if isinstance(v, ClsV):
            it = getattr(v, "iter_cls", None)
            if it is not None:
                return list(it())
        if v is None or isinstance(v, (int, float, Poly, SReal)):
            err(TypeError, f"{type(v).__name__} object is not iterable")
        raise Unsupported(f"iteration over {type(v).__name__}")

    def islazy(self, v):
        """a value whose items are produced while they are consumed"""
        if isinstance(v, GenV):
            return not (v._items and isinstance(v._items[0], SymSeg))
        if isinstance(v, Obj):
            if v.cls.lookup("__next__")[1] is not None:
                return True
            mth = v.cls.lookup("__iter__")[1]
            return isinstance(mth, FuncV) and mth.gen
        return False

    def lazy(self, v):
        if isinstance(v, GenV):
            return v
        if isinstance(v, Obj):
            nx = v.cls.lookup("__next__")[1]
            if v.cls.lookup("__iter__")[1] is not None:
                w = self.call(self.getattr(v, "__iter__"), [], {})
                if w is not v:
                    return self.lazy(w)
            if nx is not None:
                def walk():
                    while True:
                        c = ctx()
                        depth, nl = len(c.stack), len(c.loops)
                        try:
                            x = self.call(self.getattr(v, "__next__"), [], {})
                        except PyErr as ex:
                            if isinstance(ex.exc, StopIteration):
                                del c.stack[depth:]
                                del c.loops[nl:]
                                return
                            raise
                        yield x
                return walk()
        it = self.iterate(v)
        if isinstance(it, SymIter):
            raise Unsupported("generator over a symbolic range")
        return iter(it)

    def tolist(self, v):
        it = self.iterate(v)
        if isinstance(it, SymIter):
            raise Unsupported("list of symbolic length")
        return it

    # --- expressions --------------------------------------------------------------------
    def ev(self, n, env, m):
        f = getattr(self, "e_" + type(n).__name__, None)
        if f is None:
            raise Unsupported(f"expression {type(n).__name__}")
        return f(n, env, m)

    def e_Constant(self, n, env, m):
        return n.value

    def e_Name(self, n, env, m):
        return self.lookup(n.id, env)

    def e_Attribute(self, n, env, m):
        return self.getattr(self.ev(n.value, env, m), n.attr)

    def e_Tuple(self, n, env, m):
        return tuple(self.elts(n.elts, env, m))

    def e_List(self, n, env, m):
        return self.elts(n.elts, env, m)

    def e_Set(self, n, env, m):
        return set(self.elts(n.elts, env, m))

    def elts(self, es, env, m):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                out += self.tolist(self.ev(e.value, env, m))
            else:
                out.append(self.ev(e, env, m))
        return out

    def e_Dict(self, n, env, m):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(self.ev(v, env, m))
            else:
                d[self.ev(k, env, m)] = self.ev(v, env, m)
        return d

    def e_JoinedStr(self, n, env, m):
        return "".join(str(v.value) if isinstance(v, ast.Constant) else self.e_FormattedValue(v, env, m) for v in n.values)

    def e_FormattedValue(self, n, env, m):
        x = self.ev(n.value, env, m)
        if n.conversion == 114:
            x = self.repr_(x)
        elif n.conversion in (115, 97):
            x = self.str_(x)
        spec = self.e_JoinedStr(n.format_spec, env, m) if n.format_spec is not None else ""
        return self.format_(x, spec)

    def format_(self, x, spec=""):
        if spec and isinstance(x, (str, int, float)):
            try:
                return format(x, spec)
            except (ValueError, TypeError) as ex:
                raise PyErr(ex, self.locs())
        if isinstance(x, Obj) and x.cls.lookup("__format__")[1] is not None:
            return self.call(self.getattr(x, "__format__"), [spec], {})
        return self.str_(x)

    def str_(self, x):
        if isinstance(x, str):
            return x
        if isinstance(x, Obj):
            f = x.cls.lookup("__str__")[1]
            if f is not None:
                return self.call(self.getattr(x, "__str__"), [], {})
            a = x.attrs.get("args")
            if a is not None and any(c.pytype is not None for c in x.cls.mro if c.native):
                return "" if not a else (self.str_(a[0]) if len(a) == 1 else self.repr_(tuple(a)))
            return self.repr_(x)
        if isinstance(x, BaseException):
            a = x.args
            return "" if not a else ((self.repr_(a[0]) if isinstance(x, KeyError) else self.str_(a[0])) if len(a) == 1 else self.repr_(tuple(a)))
        return self.repr_(x)

    def repr_(self, x):
        if isinstance(x, Obj):
            f = x.cls.lookup("__repr__")[1]
            if f is not None:
                return self.call(self.getattr(x, "__repr__"), [], {})
            return f"<{x.cls.name} object>"
        if isinstance(x, NTup):
            return f"{x.cls.name}(" + ", ".join(f"{k}={self.repr_(v)}" for k, v in zip(x.cls.fields, x)) + ")"
        if type(x) is list:
            return "[" + ", ".join(map(self.repr_, x)) + "]"
        if type(x) is tuple:
            return "(" + ", ".join(map(self.repr_, x)) + ("," if len(x) == 1 else "") + ")"
        if type(x) is dict:
            return "{" + ", ".join(f"{self.repr_(k)}: {self.repr_(v)}" for k, v in x.items()) + "}"
        return repr(x)

    def e_IfExp(self, n, env, m):
        return self.ev(n.body if self.truth(self.ev(n.test, env, m)) else n.orelse, env, m)

    def e_BoolOp(self, n, env, m):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, x in enumerate(n.values):
            v = self.ev(x, env, m)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t or (not isand and t):
                return v
        return v

    def e_UnaryOp(self, n, env, m):
        v = self.ev(n.operand, env, m)
        o = type(n.op).__name__
        if o == "Not":
            return not self.truth(v)
        if isinstance(v, tz.MaskSel) and o == "USub":
            return tz.mask_map(lambda x: tz.elementwise(neg, x), v)
        if isinstance(v, T):
            if o == "USub":
                return tz.elementwise(neg, v)
            if o == "Invert":
                return tz.mk(v.shape, lambda i: tz.ind(cnot(tz.as_cond(v.at(i)))), ins=[v], dtype="bool") if v.dtype == "bool" else _uns("~")
            return v
        if isinstance(v, SReal):
            return SReal(neg(v.e)) if o == "USub" else v
        if isinstance(v, (int, float, Poly)):
            return norm_int(-v) if o == "USub" else (v if o == "UAdd" else (~v if isinstance(v, int) else _uns("~")))
        if isinstance(v, Obj):
            nm = {"USub": "__neg__", "Invert": "__invert__", "UAdd": "__pos__"}[o]
            return self.call(self.getattr(v, nm), [], {})
        err(TypeError, f"bad operand type for unary {o}")

    def e_BinOp(self, n, env, m):
        return self.binop(n.op, self.ev(n.left, env, m), self.ev(n.right, env, m))

    def binop(self, op, a, b):
        o = type(op).__name__ if not isinstance(op, str) else op
        if isinstance(a, tz.MaskSel) or isinstance(b, tz.MaskSel):
            return tz.mask_map(lambda x, y: self.tm.tensor_binop(o, x, y), a, b)
        if isinstance(a, T) or isinstance(b, T):
            return self.tm.tensor_binop(o, a, b)
        if isinstance(a, Obj) or isinstance(b, Obj):
            nm = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "MatMult": "matmul", "Pow": "pow", "FloorDiv": "floordiv", "Mod": "mod", "BitOr": "or", "BitAnd": "and", "BitXor": "xor", "LShift": "lshift", "RShift": "rshift"}.get(o)
            for x, y, q in ((a, b, f"__{nm}__"), (b, a, f"__r{nm}__")):
                if isinstance(x, Obj) and x.cls.lookup(q)[1] is not None:
                    r = self.call(self.getattr(x, q), [y], {})
                    if not (isinstance(r, Unknown) and r.name == "NotImplemented"):
                        return r
            err(TypeError, f"unsupported operand {o}")
        if isinstance(a, bool) and isinstance(b, bool) and o in ("BitAnd", "BitOr", "BitXor"):
            return {"BitAnd": a and b, "BitOr": a or b, "BitXor": a != b}[o]
        sym = isinstance(a, (Poly, SReal)) or isinstance(b, (Poly, SReal))
        if sym and isinstance(a, (int, float, Poly, SReal)) and isinstance(b, (int, float, Poly, SReal)):
            return self.scal(o, a, b)
        if sym and (isinstance(a, (list, tuple, str)) or isinstance(b, (list, tuple, str))):
            if o == "Mult":
                raise Unsupported("list repeated a symbolic number of times")
            if o == "Mod" and isinstance(a, str):
                return a
        try:
            if o == "Add":
                if isinstance(a, tuple) and isinstance(b, tuple):
                    return (Size if isinstance(a, Size) else tuple)(tuple(a) + tuple(b))
                return a + b
            if o == "Sub":
                return a - b
            if o == "Mult":
                return a * b
            if o == "Div":
                return a / b
            if o == "FloorDiv":
                return a // b
            if o == "Mod":
                return a % b
            if o == "Pow":
                return a ** b
            if o in ("BitOr", "BitAnd", "BitXor", "LShift", "RShift"):
                if isinstance(a, (ClsV, type(None), Unknown)) or isinstance(b, (ClsV, Unknown)):
                    return Unknown("union")
                return {"BitOr": operator.or_, "BitAnd": operator.and_, "BitXor": operator.xor, "LShift": operator.lshift, "RShift": operator.rshift}[o](a, b)
        except (TypeError, ValueError, ZeroDivisionError) as ex:
            raise PyErr(ex, self.locs())
        raise Unsupported(f"operator {o}")

    def scal(self, o, a, b):
        ints = is_int(a) and is_int(b)
        if ints:
            if o == "Add":
                return norm_int(topoly(a) + topoly(b))
            if o == "Sub":
                return norm_int(topoly(a) - topoly(b))
            if o == "Mult":
                return norm_int(topoly(a) * topoly(b))
            if o == "FloorDiv":
                return norm_int(fdiv(topoly(a), topoly(b)))
            if o == "Mod":
                return norm_int(fmod(topoly(a), topoly(b)))
            if o == "Pow" and isinstance(b, int) and b >= 0:
                r = ONE
                for _ in range(b):
                    r = r * topoly(a)
                return norm_int(r)
            if o == "Div":
                q = exact_div(topoly(a), topoly(b))
                if q is not None:
                    return SReal(ix(q))
        x, y = val_expr(a), val_expr(b)
        if o == "Add":
            return SReal(add(x, y))
        if o == "Sub":
            return SReal(sub(x, y))
        if o == "Mult":
            return SReal(mul(x, y))
        if o == "Div":
            return SReal(div(x, y))
        if o == "Pow" and isinstance(b, (int, float)):
            return SReal(pow_(x, Fraction(b) if isinstance(b, int) else Fraction(repr(b))))
        raise Unsupported(f"scalar operator {o}")

    def e_Compare(self, n, env, m):
        left = self.ev(n.left, env, m)
        res = True
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, env, m)
            res = self.compare(op, left, right)
            if len(n.ops) > 1:
                if not self.truth(res):
                    return False
                res = True
            left = right
        return res

    def compare(self, op, a, b):
        o = type(op).__name__ if not isinstance(op, str) else op
        if o == "Is":
            return self.is_(a, b)
        if o == "IsNot":
            return not self.is_(a, b)
        if o == "In":
            return self.contains(b, a)
        if o == "NotIn":
            return not self.contains(b, a)
        if isinstance(a, T) or isinstance(b, T):
            if a is None or b is None or isinstance(a, (str, Obj, list, tuple)) or isinstance(b, (str, Obj, list, tuple)):
                if o in ("Eq", "NotEq"):
                    return o == "NotEq"
                err(TypeError, "comparison with a tensor")
            return self.tm.tensor_compare(o, a, b)
        if o in ("Eq", "NotEq"):
            r = self.eq(a, b)
            if o == "NotEq" and isinstance(a, Obj) and a.cls.lookup("__ne__")[1] is not None:
                return self.call(self.getattr(a, "__ne__"), [b], {})
            return r if o == "Eq" else not r
        if isinstance(a, (int, float, Poly, SReal)) and isinstance(b, (int, float, Poly, SReal)):
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[o]
            x, y = val_expr(a), val_expr(b)
            c = {"Lt": lambda: cgt(sub(y, x)), "Gt": lambda: cgt(sub(x, y)), "LtE": lambda: cgev(sub(y, x)), "GtE": lambda: cgev(sub(x, y))}[o]()
            return ctx().decide(c, "dim" if is_int(a) and is_int(b) else "cfg")
        if isinstance(a, (str, tuple, list)) and type(a) is type(b):
            try:
                return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[o]
            except TypeError as ex:
                raise PyErr(ex, self.locs())
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[o]
        for x, y, q in ((a, b, o), (b, a, {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}[o])):
            nm = {"Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}[q]
            if isinstance(x, Obj) and x.cls.lookup(nm)[1] is not None:
                r = self.call(self.getattr(x, nm), [y], {})
                if not (isinstance(r, Unknown) and r.name == "NotImplemented"):
                    return r
        err(TypeError, f"comparison {o} not supported")

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
            return False
        if isinstance(a, (int, str)) and isinstance(b, (int, str)):
            return a == b
        if isinstance(a, Poly) and isinstance(b, Poly):
            raise Unsupported("identity of integers")
        if isinstance(a, tz_dtype()) and isinstance(b, tz_dtype()):
            return a.name == b.name
        return False

    def eq(self, a, b):
        if isinstance(a, (int, float, Poly, SReal)) and isinstance(b, (int, float, Poly, SReal)):
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return a == b
            d = sub(val_expr(a), val_expr(b))
            return ctx().decide(ceqv(d), "dim" if is_int(a) and is_int(b) else "cfg")
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if isinstance(a, list) != isinstance(b, list):
                return False
            if len(a) != len(b):
                return False
            return all(self.truth(self.eq2(x, y)) for x, y in zip(a, b))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Obj) and x.cls.lookup("__eq__")[1] is not None:
                r = self.call(self.getattr(x, "__eq__"), [y], {})
                if not (isinstance(r, Unknown) and r.name == "NotImplemented"):
                    return self.truth(r)
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            raise Unsupported("comparison with an external value")
        if isinstance(a, dict) and isinstance(b, dict):
            return a.keys() == b.keys() and all(self.truth(self.eq2(a[k], b[k])) for k in a)
        if type(a) in (Obj, ClsV, FuncV) or type(b) in (Obj, ClsV, FuncV):
            return a is b
        if isinstance(a, (Poly, SReal)) or isinstance(b, (Poly, SReal)):
            return False
        return a == b

    def eq2(self, a, b):
        if isinstance(a, T) or isinstance(b, T):
            return a is b or self.compare("Eq", a, b)
        return self.eq(a, b)

    def contains(self, c, x):
        if isinstance(c, GenV):
            return any(y is x or self.truth(self.eq2(x, y)) for y in c)
        if isinstance(c, str):
            if not isinstance(x, str):
                err(TypeError, "'in <string>' requires string")
            return x in c
        if isinstance(c, dict):
            return x in c
        if isinstance(c, Obj):
            if c.cls.lookup("__contains__")[1] is not None:
                return self.truth(self.call(self.getattr(c, "__contains__"), [x], {}))
        for y in self.tolist(c):
            if y is x or self.truth(self.eq2(x, y)):
                return True
        return False

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, float, str)):
            return bool(v)
        if isinstance(v, (list, tuple, dict, set, frozenset)):
            if any(isinstance(x, SymSeg) for x in v):
                return True
            return len(v) > 0
        if isinstance(v, Poly):
            return not ctx().decide(ceq(v), "dim")
        if isinstance(v, SReal):
            return not ctx().decide(ceqv(v.e), "cfg")
        if isinstance(v, T):
            for s in v.shape:
                if s != ONE and not tz.dim_eq(s, 1):
                    err(RuntimeError, "Boolean value of Tensor with more than one value is ambiguous")
            e = v.at([ZERO] * len(v.shape))
            return ctx().decide(tz.as_cond(e), "data")
        if isinstance(v, Obj):
            if v.cls.lookup("__bool__")[1] is not None:
                return self.truth(self.call(self.getattr(v, "__bool__"), [], {}))
            if v.cls.lookup("__len__")[1] is not None:
                return self.truth(self.call(self.getattr(v, "__len__"), [], {}))
            return True
        if isinstance(v, Unknown):
            raise Unsupported(f"truth of {v.name}")
        return True

    def e_NamedExpr(self, n, env, m):
        v = self.ev(n.value, env, m)
        self.assign(n.target, v, env, m)
        return v

    def e_Lambda(self, n, env, m):
        return self.mkfunc(n, env, m, "<lambda>")

    def e_Starred(self, n, env, m):
        raise Unsupported("starred")

    def e_Subscript(self, n, env, m):
        o = self.ev(n.value, env, m)
        if isinstance(o, (Unknown,)):
            return Unknown(f"{o.name}[]")
        if isinstance(o, ClsV):
            mem = getattr(o, "members", None)
            if mem is not None:
                k = self.evslice(n.slice, env, m)
                if k not in mem:
                    err(KeyError, k)
                return mem[k]
            return o
        return self.getitem(o, self.evslice(n.slice, env, m))

    def evslice(self, s, env, m):
        if isinstance(s, ast.Slice):
            return self.e_Slice(s, env, m)
        if isinstance(s, ast.Tuple):
            return tuple(self.elts(s.elts, env, m))
        return self.ev(s, env, m)

    def e_Slice(self, s, env, m):
        g = lambda x: self.ev(x, env, m) if x is not None else None
        return slice(g(s.lower), g(s.upper), g(s.step))

    def e_Yield(self, n, env, m):
        e = env
        while e.fn is None or not e.fn.gen:
            e = e.parent
        return e.gen.give(self.ev(n.value, env, m) if n.value is not None else None)

    def e_YieldFrom(self, n, env, m):
        e = env
        while e.fn is None or not e.fn.gen:
            e = e.parent
        v = self.ev(n.value, env, m)
        it = self.lazy(v)
        sent = None
        while True:
            try:
                x = it.send(sent) if isinstance(it, (GenV, Coro)) and sent is not None else next(it)
            except StopIteration as ex:
                return ex.value
            sent = e.gen.give(x)

    def comp(self, n, env, m, leaf, first=None):
        e = Env({}, env, None)
        e.qual = getattr(env, "qual", None)
        out = []

        def rec(gi):
            if gi == len(n.generators):
                out.append(leaf(e))
                return
            g = n.generators[gi]
            if first is not None and gi == 0:
                it = first
            else:
                it = self.ev(g.iter, e if gi else env, m)
                it = self.lazy(it) if self.islazy(it) else self.iterate(it)
            if isinstance(it, SymIter):
                if len(n.generators) != 1 or g.ifs:
                    raise Unsupported("nested comprehension over a symbolic range")
                v = newvar(it.size, "L")
                ctx().loops.append(LoopCtx(v))
                try:
                    self.assign(g.target, it.get(V(v)), e, m)
                    r = leaf(e)
                finally:
                    ctx().loops.pop()
                out.append(SymSeg(v, it.size, r))
                return
            for x in it:
                self.assign(g.target, x, e, m)
                if all(self.truth(self.ev(c, e, m)) for c in g.ifs):
                    rec(gi + 1)

        rec(0)
        return out

    def e_ListComp(self, n, env, m):
        return self.comp(n, env, m, lambda e: self.ev(n.elt, e, m))

    def e_GeneratorExp(self, n, env, m):
        first = self.ev(n.generators[0].iter, env, m)
        it = self.lazy(first) if self.islazy(first) else self.iterate(first)
        if isinstance(it, SymIter):
            return GenV(self.comp(n, env, m, lambda e: self.ev(n.elt, e, m), it))
        e = Env({}, env, None)
        e.qual = getattr(env, "qual", None)

        def rec(gi, it):
            g = n.generators[gi]
            for x in it:
                self.assign(g.target, x, e, m)
                if all(self.truth(self.ev(c, e, m)) for c in g.ifs):
                    if gi + 1 == len(n.generators):
                        yield self.ev(n.elt, e, m)
                    else:
                        v = self.ev(n.generators[gi + 1].iter, e, m)
                        v = self.lazy(v) if self.islazy(v) else self.iterate(v)
                        if isinstance(v, SymIter):
                            raise Unsupported("nested comprehension over a symbolic range")
                        yield from rec(gi + 1, v)
        return GenV(it=rec(0, it))

    def e_SetComp(self, n, env, m):
        return set(self.comp(n, env, m, lambda e: self.ev(n.elt, e, m)))

    def e_DictComp(self, n, env, m):
        return dict(self.comp(n, env, m, lambda e: (self.ev(n.key, e, m), self.ev(n.value, e, m))))

    def e_Call(self, n, env, m):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            try:
                self.lookup("super", env)
            except PyErr:
                pass
            e = env
            while e is not None and (e.fn is None or e.fn.owner is None):
                e = e.parent
            if e is None:
                raise Unsupported("super() outside a method")
            node = e.fn.node
            first = (node.args.posonlyargs + node.args.args)[0].arg
            return SuperV(e.fn.owner, e.d[first])
        f = self.ev(n.func, env, m)
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                args += self.tolist(self.ev(a.value, env, m))
            else:
                args.append(self.ev(a, env, m))
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, env, m)
                kw.update(d)
            else:
                kw[k.arg] = self.ev(k.value, env, m)
        c = ctx()
        if c.stack:
            c.stack[-1][2] = n.lineno
        return self.call(f, args, kw)

    # --- calls ------------------------------------------------------------------------
    def call(self, f, args, kw):
        if isinstance(f, Bound):
            return self.call(f.f, [f.self_] + list(args), kw)
        if isinstance(f, Wrapped):
            c = ctx()
            old = c.grad
            c.grad = f.grad
            try:
                r = self.call(f.f, args, kw)
            finally:
                c.grad = old
            if isinstance(r, GenV) and isinstance(r.it, Coro) and r.it.state == "new":
                r.it.grad = f.grad
            return r
        if isinstance(f, FuncV):
            return self.callfunc(f, args, kw)
        if isinstance(f, Native):
            try:
                return f.f(*args, **kw)
            except (TypeError, ValueError, KeyError, IndexError, AttributeError, ZeroDivisionError) as ex:
                if isinstance(ex, TypeError) and "argument" in str(ex) and f.strict:
                    raise PyErr(ex, self.locs())
                raise Unsupported(f"{f.name}: {type(ex).__name__}: {ex}")
        if isinstance(f, ClsV):
            return self.instantiate(f, args, kw)
        if isinstance(f, GradMode):
            if len(args) == 1 and isinstance(args[0], (FuncV, Wrapped, Native)):
                return Wrapped(args[0], f.mode)
            raise Unsupported("grad mode call")
        if isinstance(f, StaticM):
            return self.call(f.f, args, kw)
        if isinstance(f, Obj):
            mth = f.cls.lookup("__call__")[1]
            if mth is not None:
                return self.call(self.getattr(f, "__call__"), args, kw)
            err(TypeError, f"{f.cls.name} object is not callable")
        if isinstance(f, Unknown):
            raise Unsupported(f"call of external {f.name}")
        if isinstance(f, PropV):
            raise Unsupported("property call")
        if f is None or isinstance(f, (int, float, str, T, list, tuple, dict)):
            err(TypeError, f"{type(f).__name__} object is not callable")
        raise Unsupported(f"call of {type(f).__name__}")

    def callfunc(self, f, args, kw):
        c = ctx()
        if len(c.stack) > 80:
            err(RecursionError, "maximum recursion depth exceeded")
        a = f.node.args
        d = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kw = dict(kw)
        for i, nme in enumerate(pos):
            if i < len(args):
                if nme in kw and nme not in [x.arg for x in a.posonlyargs]:
                    err(TypeError, f"{f.name}() got multiple values for argument {nme!r}")
                d[nme] = args[i]
            elif nme in kw:
                d[nme] = kw.pop(nme)
            else:
                j = i - (len(pos) - len(f.defaults))
                if j < 0:
                    err(TypeError, f"{f.name}() missing required argument {nme!r}")
                d[nme] = f.defaults[j]
        if len(args) > len(pos):
            if a.vararg is None:
                err(TypeError, f"{f.name}() takes {len(pos)} positional arguments but {len(args)} were given")
            d[a.vararg.arg] = tuple(args[len(pos):])
        elif a.vararg is not None:
            d[a.vararg.arg] = ()
        for x, df in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg in kw:
                d[x.arg] = kw.pop(x.arg)
            elif df is _MISS:
                err(TypeError, f"{f.name}() missing keyword argument {x.arg!r}")
            else:
                d[x.arg] = df
        if a.kwarg is not None:
            d[a.kwarg.arg] = kw
        elif kw:
            err(TypeError, f"{f.name}() got an unexpected keyword argument {next(iter(kw))!r}")
        env = Env(d, f.env if not getattr(f.env, "is_class", False) else f.env.parent, f)
        env.qual = f.qual
        rel = os.path.relpath(f.mod.file, self.root) if f.mod.file else f.mod.name
        self.calls.add((rel, f.qual))
        c.stack.append([rel, f.qual, f.node.lineno])
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env, f.mod)
            if f.gen:
                env.gen = Coro(self, f, env, rel)
                return GenV(it=env.gen)
            try:
                self.block(f.node.body, env, f.mod)
            except Ret as r:
                return r.v
            return None
        finally:
            if len(c.stack) and c.stack[-1][1] == f.qual:
                c.stack.pop()

    def instantiate(self, c, args, kw):
        if c.native and "__new_native__" in c.d:
            return c.d["__new_native__"](*args, **kw)
        for k in c.mro:
            if k.native and "__new_native__" in k.d and k.pytype is not None and issubclass(k.pytype, BaseException):
                o = Obj(c)
                o.attrs["args"] = tuple(args)
                init = c.lookup("__init__")[1]
                if init is not None:
                    self.call(init, [o] + list(args), kw)
                return o
        if getattr(c, "members", None) is not None:
            for o in c.members.values():
                if self.truth(self.eq2(o.attrs["value"], args[0])):
                    return o
            err(ValueError, f"{self.repr_(args[0])} is not a valid {c.name}")
        if c.lookup("__new__")[1] is not None:
            raise Unsupported("custom __new__")
        if any(x.name == "ABC" and x.native for x in c.mro):
            for x in reversed(c.mro):
                for k, v in x.d.items():
                    if self.abstract(v) and c.lookup(k)[1] is v:
                        err(TypeError, f"Can't instantiate abstract class {c.name} with abstract method {k}")
        o = Obj(c)
        init = c.lookup("__init__")[1]
        if init is not None:
            self.call(init, [o] + list(args), kw)
        elif args or kw:
            err(TypeError, f"{c.name}() takes no arguments")
        return o

    def abstract(self, v):
        while isinstance(v, (Wrapped, StaticM, ClassM, PropV, CachedP)):
            v = v.f
        return isinstance(v, FuncV) and v.attrs.get("__isabstractmethod__", False)

    # --- attributes ---------------------------------------------------------------------
    def bind(self, v, obj, cls):
        if isinstance(v, (FuncV, Wrapped)):
            return Bound(v, obj)
        if isinstance(v, Native):
            return Bound(v, obj) if v.binds else v
        if isinstance(v, StaticM):
            return v.f
        if isinstance(v, ClassM):
            return Bound(v.f, cls)
        if isinstance(v, PropV):
            return self.call(v.f, [obj], {})
        if isinstance(v, CachedP):
            r = obj.attrs[v.name] = self.call(v.f, [obj], {})
            return r
        if isinstance(v, Obj) and v.cls.lookup("__get__")[1] is not None:
            return self.call(self.getattr(v, "__get__"), [obj, cls], {})
        return v

    def guarded(self, f, o, n, default):
        """f(), where an AttributeError means that the attribute is missing"""
        depth, grad, nl = len(ctx().stack), ctx().grad, len(ctx().loops)
        try:
            return f()
        except PyErr as ex:
            if not isinstance(ex.exc, AttributeError):
                raise
            g = o.cls.lookup("__getattr__")[1]
            if g is None and default is _MISS:
                raise
            del ctx().stack[depth:]
            del ctx().loops[nl:]
            ctx().grad = grad
            return self.call(g, [o, n], {}) if g is not None else default

    def getattr(self, o, n, default=_MISS):
        if isinstance(o, T):
            return self.tm.tensor_attr(o, n, default)
        if isinstance(o, tz.MaskSel):
            return self.tm.mask_attr(o, n)
        if isinstance(o, Obj):
            _, v = o.cls.lookup(n)
            if isinstance(v, PropV):
                return self.guarded(lambda: self.call(v.f, [o], {}), o, n, default)
            if isinstance(v, Obj) and v.cls.lookup("__set__")[1] is not None:
                return self.guarded(lambda: self.bind(v, o, o.cls), o, n, default)
            if n in o.attrs:
                return o.attrs[n]
            if isinstance(v, CachedP):
                return self.guarded(lambda: self.bind(v, o, o.cls), o, n, default)
            for reg in ("_parameters", "_modules", "_buffers"):
                d = o.attrs.get(reg)
                if d is not None and n in d:
                    return d[n]
            if v is not None or n in [k for c in o.cls.mro for k in c.d]:
                return self.bind(v, o, o.cls)
            if n == "__class__":
                return o.cls
            if n == "__dict__":
                return o.attrs
            g = o.cls.lookup("__getattr__")[1]
            if g is not None:
                return self.call(g, [o, n], {})
            if n in MODULE_API and any(c.native and c.name == "Module" for c in o.cls.mro):
                raise Unsupported(f"Module.{n}")
            if default is not _MISS:
                return default
            err(AttributeError, f"{o.cls.name!r} object has no attribute {n!r}")
        if isinstance(o, ClsV):
            _, v = o.lookup(n)
            if v is not None or any(n in c.d for c in o.mro):
                if isinstance(v, ClassM):
                    return Bound(v.f, o)
                if isinstance(v, StaticM):
                    return v.f
                if isinstance(v, Native) and getattr(v, "clsmethod", False):
                    return Bound(v, o)
                return v
            if n in ("__name__", "__qualname__"):
                return o.name
            if n == "__members__" and getattr(o, "members", None) is not None:
                return dict(o.members)
            if n == "__dict__":
                return o.d
            if n == "mro":
                return Native(lambda: list(o.mro), "mro")
            if n == "__mro__":
                return tuple(o.mro)
            if n == "__bases__":
                return tuple(o.bases)
            if default is not _MISS:
                return default
            if o.native and (o.pytype in (list, tuple, dict, set, frozenset, str, int, float, bool) and callable(getattr(o.pytype, n, None))
                             and n not in ("fromkeys", "from_bytes", "fromhex", "maketrans") and not n.startswith("__")
                             or o.pytype is T and not n.startswith("_")):
                return Native(lambda x, *a, **k: self.call(self.getattr(x, n), list(a), k), f"{o.name}.{n}", binds=True)
            if o.native:
                raise Unsupported(f"{o.name}.{n}")
            err(AttributeError, f"type object {o.name!r} has no attribute {n!r}")
        if isinstance(o, SuperV):
            mro = (o.obj.cls if isinstance(o.obj, Obj) else o.obj).mro
            k = mro.index(o.cls)
            for c in mro[k + 1:]:
                if n in c.d:
                    return self.bind(c.d[n], o.obj, c)
            if n in ("__init__", "__init_subclass__"):
                return Native(lambda *a, **k: None, "object.__init__")
            if n == "__setattr__":
                return Native(lambda k, v: self.setattr(o.obj, k, v, raw=True))
            if n in MODULE_API and any(c.native and c.name == "Module" for c in mro):
                raise Unsupported(f"Module.{n}")
            err(AttributeError, f"'super' object has no attribute {n!r}")
        if isinstance(o, ModuleV):
            if n in o.d:
                return o.d[n]
            if o.file is None:
                v = self.tm.attr_ext(o, n)
                return v
            if default is not _MISS:
                return default
            err(AttributeError, f"module {o.name!r} has no attribute {n!r}")
        if isinstance(o, Unknown):
            return Unknown(f"{o.name}.{n}")
        if isinstance(o, Bound):
            if n == "__self__":
                return o.self_
            return self.getattr(o.f, n, default)
        if isinstance(o, (FuncV, Wrapped)):
            f = o.f if isinstance(o, Wrapped) else o
            if n in o.attrs:
                return o.attrs[n]
            if n == "__wrapped__" and isinstance(o, Wrapped):
                return f
            if isinstance(f, FuncV) and n in f.attrs:
                return f.attrs[n]
            if n in ("__name__", "__qualname__"):
                return getattr(f, "name", "?")
            if n == "__get__":
                return Native(lambda obj, cls=None: Bound(o, obj) if obj is not None else o, "__get__")
            if n == "__call__":
                return o
            if n == "__doc__":
                return None
            if default is not _MISS:
                return default
            raise Unsupported(f"function attribute {n}")
        if isinstance(o, PropV) and n == "setter":
            return Native(lambda f: PropV(o.f, f))
        if isinstance(o, PropV) and n in ("getter", "fget"):
            return o.f if n == "fget" else Native(lambda f: PropV(f, o.setter))
        if isinstance(o, GradMode) and n in ("__enter__", "__exit__"):
            def enter():
                o.__dict__.setdefault("saved", []).append(ctx().grad)
                ctx().grad = o.mode
                return o

            def leave(*a):
                ctx().grad = o.saved.pop()
                return False
            return Native(enter if n == "__enter__" else leave, n)
        if isinstance(o, NullCtx) and n in ("__enter__", "__exit__"):
            return Native((lambda: o.value) if n == "__enter__" else (lambda *a: False), n)
        if isinstance(o, NTup):
            fs = o.cls.fields
            if n in fs:
                return tuple.__getitem__(o, fs.index(n))
            if n == "_fields":
                return tuple(fs)
            if n == "_asdict":
                return Native(lambda: dict(zip(fs, o)), n)
            if n == "_replace":
                return Native(lambda **k: self.call(o.cls, [], {**dict(zip(fs, o)), **k}), n)
            _, v = o.cls.lookup(n)
            if v is not None:
                return self.bind(v, o, o.cls)
        if isinstance(o, GenV):
            if n == "__iter__":
                return Native(lambda: o, n)
            if n in ("__next__", "send"):
                return Native(lambda v=None: self.tm.next_(o, sent=v), n)
            if n == "throw":
                return Native(lambda e, *a: self.tm.next_(o, throw=e), n)
            if n == "close":
                def close():
                    if isinstance(o.it, Coro) and o.it.state == "suspended":
                        try:
                            o.it.resume("throw", GeneratorExit())
                        except StopIteration:
                            return
                        except PyErr as ex:
                            if not isinstance(ex.exc, GeneratorExit):
                                raise
                            return
                        err(RuntimeError, "generator ignored GeneratorExit")
                    o.items = []
                return Native(close, n)
        return self.tm.native_attr(o, n, default)

    def setattr(self, o, n, v, raw=False):
        if isinstance(o, Obj):
            _, p = o.cls.lookup(n)
            if isinstance(p, PropV):
                if p.setter is None:
                    err(AttributeError, "can't set attribute")
                self.call(p.setter, [o, v], {})
                return
            if isinstance(p, Obj) and p.cls.lookup("__set__")[1] is not None:
                self.call(self.getattr(p, "__set__"), [o, v], {})
                return
            if not raw:
                c, s = o.cls.lookup("__setattr__")
                if s is not None:
                    self.call(s, [o, n, v], {})
                    return
            if is_module_obj(o) and "_parameters" in o.attrs:
                P, M, B = o.attrs["_parameters"], o.attrs["_modules"], o.attrs["_buffers"]
                if isinstance(v, T) and v.is_param:
                    M.pop(n, None)
                    B.pop(n, None)
                    o.attrs.pop(n, None)
                    P[n] = v
                    return
                if n in P:
                    if v is not None:
                        err(TypeError, f"cannot assign as parameter {n!r} (torch.nn.Parameter or None expected)")
                    P[n] = None
                    return
                if is_module_obj(v):
                    B.pop(n, None)
                    o.attrs.pop(n, None)
                    M[n] = v
                    return
                if n in M:
                    if v is not None:
                        err(TypeError, f"cannot assign as child module {n!r}")
                    M[n] = None
                    return
                if n in B:
                    B[n] = v
                    return
            elif is_module_obj(o) and (is_module_obj(v) or isinstance(v, T) and v.is_param):
                err(AttributeError, "cannot assign module before Module.__init__() call")
            o.attrs[n] = v
        elif isinstance(o, T):
            self.tm.tensor_setattr(o, n, v)
        elif isinstance(o, ClsV):
            o.d[n] = v
        elif isinstance(o, ModuleV):
            o.d[n] = v
        elif isinstance(o, (FuncV, Wrapped)):
            o.attrs[n] = v
        else:
            raise Unsupported(f"attribute assignment on {type(o).__name__}")

    # --- items ----------------------------------------------------------------------------
    def getitem(self, o, k):
        if isinstance(o, T):
            return tz.getitem(o, self.normkey(k))
        if isinstance(o, (list, tuple, str)):
            if any(isinstance(x, SymSeg) for x in o):
                raise Unsupported("item of a symbolic list")
            if isinstance(k, slice):
                f = lambda x: None if x is None else tz.concrete(x)
                r = o[slice(f(k.start), f(k.stop), f(k.step))]
                return Size(r) if isinstance(o, Size) else r
            if isinstance(k, T):
                k = to_poly(val_expr(k))
                if k is None:
                    raise Unsupported("list indexed by a tensor")
            if not is_int(k):
                err(TypeError, "indices must be integers")
            k = tz.concrete(k)
            if not -len(o) <= k < len(o):
                err(IndexError, f"{type(o).__name__} index out of range")
            return o[k]
        if isinstance(o, dict):
            if k not in o and not hasattr(type(o), "__missing__"):
                err(KeyError, k)
            return o[k]
        if isinstance(o, Obj):
            if o.cls.lookup("__getitem__")[1] is not None:
                return self.call(self.getattr(o, "__getitem__"), [k], {})
            err(TypeError, f"{o.cls.name!r} object is not subscriptable")
        if isinstance(o, Unknown):
            return Unknown(o.name + "[]")
        if isinstance(o, SymIter) and is_int(k):
            p = topoly(k)
            if ge0(-p - 1):
                p = p + o.size
            inr = cand(cge(p), cge(o.size - 1 - p))
            if not (ge0(p) and ge0(o.size - 1 - p)) and not ctx().decide(inr, "dim"):
                err(IndexError, "tuple index out of range")
            return o.get(p)
        if o is None or isinstance(o, (int, float)):
            err(TypeError, f"{type(o).__name__} object is not subscriptable")
        raise Unsupported(f"subscript of {type(o).__name__}")

    def normkey(self, k):
        if isinstance(k, tuple):
            return tuple(self.normkey(x) for x in k)
        if isinstance(k, slice):
            f = lambda x: None if x is None else (self.int_of(x))
            return slice(f(k.start), f(k.stop), f(k.step))
        if isinstance(k, range):
            return list(k)
        return k

    def int_of(self, x):
        if isinstance(x, T):
            p = to_poly(val_expr(x))
            if p is None:
                raise Unsupported("tensor used as an integer")
            return p
        if isinstance(x, (float, SReal)):
            err(TypeError, "slice indices must be integers")
        return x

    def setitem(self, o, k, v):
        if isinstance(o, T):
            tz.setitem(o, self.normkey(k), v)
        elif isinstance(o, (list, dict)):
            if isinstance(o, list):
                if isinstance(k, slice):
                    f = lambda x: None if x is None else tz.concrete(x)
                    o[slice(f(k.start), f(k.stop), f(k.step))] = self.tolist(v)
                    return
                if ctx().loops and not isinstance(k, int):
                    raise Unsupported("list item assignment in a symbolic loop")
                k = tz.concrete(k)
                if not -len(o) <= k < len(o):
                    err(IndexError, "list assignment index out of range")
            o[k] = v
        elif isinstance(o, Obj) and o.cls.lookup("__setitem__")[1] is not None:
            self.call(self.getattr(o, "__setitem__"), [k, v], {})
        else:
            raise Unsupported("item assignment")


def drain(it):
    out = []
    for x in it:
        out.append(x)
        if len(out) > 5000:
            raise Unsupported("unbounded iteration")
    return out


class GenV:
    """a generator or iterator; items are produced on demand"""

    def __init__(self, items=None, it=None):
        self._items = items if items is not None else []
        self.it = it

    @property
    def items(self):
        if self.it is not None:
            it, self.it = self.it, None
            self._items = self._items + drain(it)
        return self._items

    @items.setter
    def items(self, v):
        self._items, self.it = v, None

    def __iter__(self):
        return self

    def __next__(self):
        if self._items:
            if isinstance(self._items[0], SymSeg):
                raise Unsupported("next of a symbolic generator")
            return self._items.pop(0)
        if self.it is None:
            raise StopIteration
        return next(self.it)

    def send(self, v):
        if isinstance(self.it, Coro):
            return self.it.resume("send", v)
        raise Unsupported("send")


class Coro:
    """the suspended body of a generator function"""
    live = []

    def __init__(self, I, f, env, rel):
        self.I, self.f, self.env, self.rel = I, f, env, rel
        self.state = "new"
        self.seg = [[rel, f.qual, f.node.lineno]]
        self.grad = None

    def __iter__(self):
        return self

    def __next__(self):
        return self.resume("send", None)

    def resume(self, kind, val):
        import threading
        if self.state == "done":
            if kind == "throw":
                raise PyErr(val, ctx().loc())
            raise StopIteration
        if self.state == "running":
            raise Unsupported("generator already executing")
        if self.state == "new":
            if kind == "throw":
                self.state = "done"
                raise PyErr(val, ctx().loc())
            if kind == "kill":
                self.state = "done"
                return None
            self.wake, self.back = threading.Semaphore(0), threading.Semaphore(0)
            threading.stack_size(256 << 20)
            t = threading.Thread(target=self.body, daemon=True)
            Coro.live.append(self)
        c = ctx()
        base, nl = len(c.stack), len(c.loops)
        c.stack.extend(self.seg)
        self.base, self.nl = base, nl
        saved = c.grad
        if self.grad is not None:
            c.grad = self.grad
        self.msg = (kind, val)
        if self.state == "new":
            self.state = "running"
            t.start()
        else:
            self.state = "running"
            self.wake.release()
        try:
            self.back.acquire()
        except BaseException:
            # the time of the scenario is over
            self.I.dead = True
            self.back.acquire(timeout=20)
            self.state = "done"
            raise
        self.seg = c.stack[base:]
        del c.stack[base:]
        if self.grad is not None:
            c.grad = saved
        kind, val = self.out
        if kind == "yield":
            self.state = "suspended"
            if len(c.loops) > nl:
                raise Unsupported("yield inside a symbolic loop")
            return val
        self.state = "done"
        if self in Coro.live:
            Coro.live.remove(self)
        del c.loops[nl:]
        if kind == "return":
            raise StopIteration(val)
        if isinstance(val, PyErr) and isinstance(val.exc, StopIteration):
            raise PyErr(RuntimeError("generator raised StopIteration"), val.where)
        raise val

    def body(self):
        try:
            try:
                self.I.block(self.f.node.body, self.env, self.f.mod)
                self.out = ("return", None)
            except Ret as r:
                self.out = ("return", r.v)
            except BaseException as ex:
                self.out = ("exc", ex)
        finally:
            self.back.release()

    def give(self, v):
        self.out = ("yield", v)
        self.back.release()
        self.wake.acquire()
        kind, val = self.msg
        if kind == "kill" or self.I.dead:
            raise Enough()
        if kind == "throw":
            raise PyErr(val, ctx().loc())
        return val

    @classmethod
    def clear(cls):
        for c in cls.live:
            if c.state == "suspended":
                c.msg = ("kill", None)
                c.state = "done"
                c.wake.release()
                c.back.acquire(timeout=20)
        cls.live = []


def _uns(x):
    raise Unsupported(x)


def _walk_own(n):
    """walk without entering nested function definitions"""
    st = [n] if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) else []
    while st:
        x = st.pop()
        yield x
        for c in ast.iter_child_nodes(x):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                st.append(c)


def setowner(v, c):
    if isinstance(v, FuncV):
        if v.owner is None:
            v.owner = c
    elif isinstance(v, (Wrapped, StaticM, ClassM, PropV, CachedP)):
        setowner(v.f, c)
        if isinstance(v, PropV) and v.setter is not None:
            setowner(v.setter, c)


def tz_dtype():
    from .torchmodel import DT
    return DT


def subst_value(v, var, p):
    """substitute an index variable in an abstract value"""
    if isinstance(v, T):
        return T(v.shape, lambda i: subst(v.at(i), {var: p}), v.dtype, v.device, v.rg)
    if isinstance(v, (list, tuple)):
        return type(v)(subst_value(x, var, p) for x in v)
    if isinstance(v, Poly):
        return norm_int(v.subst({var: p}))
    if isinstance(v, SReal):
        return SReal(subst(v.e, {var: p}))
    return v


DEBUG = bool(os.environ.get("NNJCHECK_DEBUG"))


class Path:
    """outcome of one abstract execution"""

    def __init__(self, taken, value=None, error=None, unsupported=None, extra=None):
        self.taken, self.value, self.error, self.unsupported = taken, value, error, unsupported
        self.extra = extra


def paths(run, limit=48, prepare=None):
    """run() under every combination of undecided branch outcomes; yields Path"""
    work = [[]]
    n = 0
    while work:
        dec = work.pop()
        n += 1
        if n > limit:
            yield Path([], unsupported="too many paths")
            return
        Coro.clear()
        c = set_ctx(Ctx())
        c.decisions = dec
        if prepare:
            prepare(c)
        try:
            r = run(c)
            p = Path(c.taken, value=r)
        except PyErr as ex:
            p = Path(c.taken, error=ex)
        except Unsupported as ex:
            p = Path(c.taken, unsupported=f"{ex} at {fmt(c.loc())}")
        except NoDeriv as ex:
            p = Path(c.taken, unsupported=f"no derivative for {ex}")
        except RecursionError:
            p = Path(c.taken, unsupported="recursion")
        except Exception as ex:
            if DEBUG:
                raise
            p = Path(c.taken, unsupported=f"outside the modelled subset ({type(ex).__name__}: {str(ex)[:120]}) at {fmt(c.loc())}")
        p.ctx = c
        for k in range(len(dec), len(c.taken)):
            work.append([t[2] for t in c.taken[:k]] + [not c.taken[k][2]])
        yield p


def fmt(loc):
    return f"{loc[0]}:{loc[2]} ({loc[1]})" if loc else "?"
