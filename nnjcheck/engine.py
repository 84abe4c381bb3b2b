"""Obligations over extracted terms: path enumeration, comparison at sample points, verdicts and evidence."""
import itertools
import os
import random
import time

import numpy as np

from . import poly as P
from . import tensor as tz
from . import evalx
from .expr import polys, show, clear_tables
from .evalx import Ev, TooBig
from .interp import Interp, paths, fmt, Obj, DEBUG
from .poly import LB, reset_facts, topoly
from .tensor import T, PyErr, Unsupported, SReal

REPO = os.environ.get("NNJ_REPO", "/repo")


class Timeout(BaseException):
    """one scenario takes too long"""


class Missing(BaseException):
    """an anchor of the property does not exist any more"""


def now(v):
    """the value as it is at this moment (later writes do not reach it)"""
    if isinstance(v, (list, tuple)):
        return [now(q) for q in v]
    if isinstance(v, T):
        return T(v.shape, lambda i: v.at(i), v.dtype, v.device)
    return v


class Ob:
    """one equation actual == expected (both values of the abstract domain) on the current path"""

    def __init__(self, label, actual, expected, where=None, tol=1e-7):
        self.label, self.actual, self.expected, self.where, self.tol = label, now(actual), now(expected), where, tol


class Fact:
    """one fact decided directly on the abstract value"""

    def __init__(self, label, ok, msg="", where=None):
        self.label, self.ok, self.msg, self.where = label, ok, msg, where


_us = {}


def _user(src):
    import ast
    if src not in _us:
        _us[src] = ast.parse(src)
    return _us[src]


class Finite:
    """every entry of value is a finite number"""

    def __init__(self, label, value, where):
        self.label, self.value, self.where = label, value, where

    def check(self, ev):
        def walk(v):
            if isinstance(v, (list, tuple)):
                for q in v:
                    walk(q)
            elif isinstance(v, T):
                d = ev.array(v)
                if not np.all(np.isfinite(d)):
                    i = tuple(int(k) for k in np.argwhere(~np.isfinite(d))[0])
                    raise Mismatch(f"entry {i} is {float(d[i])}")
            else:
                raise Mismatch(f"result is {describe(v)}")
        walk(self.value)


class Sizes(Finite):
    """every created tensor has at most C * batch * kernel * max(parts) entries"""
    C = 8

    def __init__(self, label, log, batch, parts, kern, where):
        self.label, self.log, self.batch, self.parts, self.kern, self.where = label, log, batch, parts, kern, where

    def check(self, ev):
        n = max(ev.const(p) for p in self.parts)
        bound = self.C * ev.const(self.batch) * ev.const(self.kern) * n
        for t, loc, vs in self.log:
            k = 1
            for s in t.shape:
                k *= ev.const(s)
            for s in vs:
                k *= ev.const(s)
            Sizes.worst = max(Sizes.worst, k / bound)
            if k > bound:
                raise Mismatch(f"{fmt(loc)} creates a tensor of shape {tuple(ev.const(s) for s in t.shape)}{' per mapped slice' if vs else ''}: {k} entries, more than linear in {n}")

    worst = 0.0


class Skip(Exception):
    """scenario does not apply on this path"""


class Prog:
    def __init__(self):
        self.I = Interp(REPO)
        self.M = self.I.load("nnj")

    def user(self, src):
        """a module of user code that imports the package"""
        import ast
        from .interp import ModuleV, Env
        m = ModuleV("user", {"__name__": "user"}, None)
        m.pkg = "user"
        m.env = Env(m.d)
        c = tz.ctx()
        c.stack.append(["<user>", "<module>", 0])
        for st in _user(src).body:
            self.I.stmt(st, m.env, m)
        c.stack.pop()
        return m.d

    def cls(self, name):
        if name not in self.M.d:
            raise Missing(f"nnj.{name} is not exported any more")
        return self.M.d[name]

    def new(self, name, *a, **k):
        return self.I.call(self.cls(name), list(a), k)

    def get(self, o, name):
        return self.I.getattr(o, name)

    def __call__(self, o, name, *a, **k):
        return self.I.call(self.I.getattr(o, name), list(a), k)

    def run(self, f, *a, **k):
        return self.I.call(f, list(a), k)

    def where(self, o, name):
        """file and function that defines method name of o"""
        cls = o.cls
        c, f = cls.lookup(name)
        f = getattr(f, "f", f)
        for _ in range(6):
            if hasattr(f, "mod") and hasattr(f, "node"):
                fl = os.path.relpath(f.mod.file, REPO) if getattr(f.mod, "file", None) else "?"
                return f"{fl}:{f.qual}"
            nx = getattr(f, "func", None) or getattr(f, "fn", None) or getattr(f, "inner", None)
            if nx is None:
                break
            f = nx
        return f"{cls.name}.{name}"


def atoms_of_terms(es):
    out = set()
    for e in es:
        for p in polys(e):
            out |= datoms(p)
    return out


def datoms(p):
    out = set()
    for a in p.atoms():
        if a.kind == "d":
            out.add(a)
        else:
            for q in a.args:
                if hasattr(q, "atoms"):
                    out |= datoms(q)
            if a in P.SIZE:
                out |= {b for b in P.SIZE[a].atoms() if b.kind == "d"}
    return out


SMALL = [2, 3, 1, 4, 5]


def consts(e):
    cs = set()
    for p in polys(e):
        for m, c in p.t.items():
            cs.add(abs(int(c)))
    return {c for c in cs if 0 < c <= 4096}


def constants(values):
    """numbers written in the terms of the values, and what elementary functions map to them"""
    from .expr import E
    seen, out = set(), set()
    stack = []

    def push(v):
        if isinstance(v, (list, tuple)):
            for q in v:
                push(q)
        elif isinstance(v, T):
            stack.append(v.expr)
        elif isinstance(v, SReal):
            stack.append(v.e)
        elif isinstance(v, E):
            stack.append(v)
    push(values)
    done = set()
    while stack:
        e = stack.pop()
        if e.id in seen:
            continue
        seen.add(e.id)
        if e.op == "num":
            try:
                out.add(abs(float(e.a[0])))
            except (TypeError, ValueError, OverflowError):
                pass
        for nm in names_of(e):
            if nm not in done:
                done.add(nm)
                f = OPQV.get(nm)
                if f is not None:
                    push(f)
        for x in e.a:
            push(x)
    base = sorted(c for c in out if np.isfinite(c) and 1e-9 < c < 1e12 and c not in TRIVIAL)[:12]
    cand = set()
    for c in base:
        for z in (c, np.log(c), np.sqrt(c), np.exp(c) if c < 10 else c, np.log(np.expm1(c)) if c < 30 else c, np.log(c / (1 - c)) if c < 1 else c, np.arctanh(c) if c < 1 else c, 1 / c):
            if 1e-6 < abs(z) < 200:
                cand |= {float(z), -float(z)}
    return sorted(cand)


TRIVIAL = {0.0, 1.0, 2.0, 0.5, 4.0, 0.25, 3.0}
OPQV = evalx.OPQV


def names_of(e):
    if e.op == "acc":
        yield e.a[0]


class Points:
    """sample points (sizes and values) that satisfy the conditions of one path"""

    def __init__(self, taken, seed, declared, near=()):
        self.near = near
        self.sweep = "b0" if "b0" in P.IRANGE else None
        self.taken = taken
        self.dimc = [(c, v) for c, k, v, _ in taken if k == "dim"]
        self.datc = [(c, v) for c, k, v, _ in taken if k != "dim"]
        self.rng = random.Random(seed)
        self.seed = seed
        self.declared = declared   # name -> candidate list or None

    def names(self):
        return [a for a in LB if a.kind == "d"]

    def dims(self, n):
        """n different size assignments meeting the size conditions, best effort"""
        atoms = self.names()
        extra = set()
        for c, _ in self.dimc:
            for k in consts(c):
                extra |= {k - 1, k, k + 1, k + 2}
        extra = sorted(x for x in extra if x > 0)
        out = []
        seen = set()
        tries = 0
        while len(out) < n and tries < 400:
            tries += 1
            d = {}
            ks = list(range(len(SMALL)))
            for i, a in enumerate(atoms):
                if a.key in evalx.DIMDEF:
                    continue
                lb = LB[a]
                cand = self.declared.get(a.key)
                if cand is None:
                    if tries == 1:
                        cand = [max(lb, 2) + (i % 3)]
                    elif tries == 2:
                        cand = [lb + (2 - i % 3)]
                    elif tries == 3:
                        cand = [lb + (i + 1) % 3]
                    else:
                        cand = [x for x in SMALL[:4] if x >= lb] or [lb, lb + 1]
                        cand = cand + [lb, lb + 1, lb + 2]
                        if extra and tries > 8 and self.rng.random() < (0.25 if tries < 100 else 0.5):
                            cand = [x for x in extra if x >= lb] or cand
                d[a.key] = self.rng.choice(cand)
            key = tuple(sorted(d.items()))
            if key in seen:
                continue
            seen.add(key)
            ev = Ev(dict(d), self.seed)
            try:
                if not all(bool(np.all(ev.ev(c)[1])) == v for c, v in self.dimc):
                    continue
                if not self.opaque_ok(ev):
                    continue
            except Exception:
                if DEBUG:
                    raise
                continue
            out.append(d)
        return out

    def opaque_ok(self, ev):
        for a in self.names():
            if a.key in evalx.DIMDEF:
                if ev.const(P.Poly.atom(a)) < LB[a]:
                    return False
        return True

    def points(self, ndims, modes, per=1, tables=None, more=lambda: False, cap=None, budget=0):
        """ndims size assignments (up to cap as long as the evaluated terms stay within budget entries)"""
        if self.near and "near" not in modes and "huge" not in modes:
            modes = (*modes, "near")
        if self.datc and "huge" not in modes:
            modes = tuple(dict.fromkeys((*modes, "normal", "ints", "big", "zeros", "near" if self.near else "normal")))
        work = 0
        for k, d in enumerate(self.dims(max(ndims + 6, cap or 0))):
            if k >= ndims and not more() and not (cap and k < cap and work * (k + 1) < budget * k):
                break
            for mode in modes:
                got = 0
                for s in range(per if not self.datc else 12 * per):
                    ev = Ev(dict(d), self.seed * 131 + s, mode, dict(tables) if tables else None, near=self.near)
                    try:
                        if not all(bool(np.all(ev.ev(c)[1])) == v for c, v in self.datc):
                            continue
                    except Exception:
                        continue
                    got += 1
                    yield ev
                    work += ev.work
                    if self.sweep and self.sweep in ev.tables:
                        first = int(ev.tables[self.sweep])
                        for b in range(ev.const(P.IRANGE[self.sweep])):
                            if b != first:
                                yield Ev(dict(d), ev.seed, mode, {self.sweep: np.asarray(b)}, near=self.near)
                    if got >= per:
                        break


class Mismatch(Exception):
    def __init__(self, msg):
        self.msg = msg


def is_tensorish(x):
    return isinstance(x, T)


def agree(x, y, tol):
    with np.errstate(all="ignore"):
        scale = np.maximum(1.0, np.max(np.abs(y[np.isfinite(y)])) if np.isfinite(y).any() else 1.0)
        return (np.abs(x - y) <= tol * np.maximum(np.abs(y), min(scale, 1e3))) | (x == y) | (np.isnan(x) & np.isnan(y))


def compare(ev, a, b, tol, where="result"):
    """raise Mismatch when value a differs from value b at the point"""
    if isinstance(b, T):
        if not isinstance(a, T):
            raise Mismatch(f"{where} is {describe(a)}, expected a tensor")
        sa = tuple(ev.const(s) for s in a.shape)
        sb = tuple(ev.const(s) for s in b.shape)
        if sa != sb:
            raise Mismatch(f"{where} has shape {sa}, expected {sb}")
        if 0 in sa:
            return
        x, y = ev.array(a), ev.array(b)
        ok = agree(x, y, tol)
        if not ok.all():
            # rounding of the evaluation itself is not a difference: again with more digits
            hp = ev.precise()
            x2, y2 = hp.array(a), hp.array(b)
            ok = agree(x2, y2, tol)
            with np.errstate(all="ignore"):
                noise = np.abs(x2 - x) + np.abs(y2 - y)
                ok = ok | (np.isfinite(noise) & (np.abs(x2 - y2) <= 0.01 * noise))
                if ev.mode == "near":
                    ok = ok | ~(np.isfinite(x2) & np.isfinite(y2))
            x, y = x2, y2
        if not ok.all():
            i = tuple(int(k) for k in np.argwhere(~ok)[0])
            raise Mismatch(f"{where} of shape {sa}: entry {i} is {float(x[i]):.6g}, expected {float(y[i]):.6g}")
        return
    if isinstance(b, (list, tuple)):
        if not isinstance(a, (list, tuple)):
            raise Mismatch(f"{where} is {describe(a)}, expected a list of {len(b)}")
        if len(a) != len(b):
            raise Mismatch(f"{where} has {len(a)} entries, expected {len(b)}")
        for k, (x, y) in enumerate(zip(a, b)):
            compare(ev, x, y, tol, f"{where}[{k}]")
        return
    if b is None:
        if a is not None:
            raise Mismatch(f"{where} is {describe(a)}, expected None")
        return
    if a is None:
        raise Mismatch(f"{where} is None, expected {describe(b)}")
    try:
        x, y = scalar(ev, a), scalar(ev, b)
    except TypeError:
        raise Unsupported(f"comparison of {describe(a)}")
    if not (x == y or abs(x - y) <= tol * max(1, abs(y))):
        raise Mismatch(f"{where} is {x}, expected {y}")


def scalar(ev, x):
    if isinstance(x, SReal):
        v, d = ev.ev(x.e)
        return float(d)
    return float(ev.poly(topoly(x))[1])


def describe(x):
    if isinstance(x, T):
        return f"a tensor of shape {x.shape}"
    if isinstance(x, list):
        return f"a list of {len(x)}"
    if isinstance(x, Obj):
        return repr(x)
    return repr(x)


class Report:
    """collects the outcome of every obligation of one property"""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.viol = {}
        self.rows = []         # per scenario
        self.decided = 0
        self.undecided = []
        self.paths = 0
        self.points = 0
        self.funcs = set()
        self.proved = 0
        self.jobs = []
        self.missing = None
        self.t0 = time.time()

    def violation(self, rule, construct, detail):
        self.viol.setdefault((rule, construct), []).append(detail)


DIMS = {}
FIX = [None]     # sizes are numbers in this pass: function(name, lb) -> int


def D(name, lb=1, cand=None):
    if FIX[0] is not None:
        return topoly(FIX[0](name, lb, cand))
    if cand is not None:
        DIMS[name] = cand
    return P.dim(name, lb)


def on_raise_default(err):
    return "violation"


def scenario(rep, name, run, *a, **k):
    rep.jobs.append((name, run, a, k))


def _alarm(*_):
    raise Timeout()


def _work(i):
    import signal
    rep = _REP[0]
    sub = Report(rep.prop, rep.tier, rep.seed)
    name, run, a, k = rep.jobs[i]
    left = _REP[1] - time.time()
    why = None
    if left <= 0:
        why = "time budget of the check used up"
    else:
        signal.signal(signal.SIGALRM, _alarm)
        if not _REP[2]:
            # a scenario that needs more memory stays undecided; a killed worker would stall the check
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (7 << 29, 7 << 29))
            _REP[2] = True
        signal.setitimer(signal.ITIMER_REAL, min(left + 1, 60 if rep.tier == "quick" else 600))
        try:
            analyse(sub, name, run, *a, **k)
        except Missing as m:
            sub.missing = str(m)
        except RecursionError:
            why = "recursion limit"
        except Timeout:
            why = "scenario too expensive"
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    if why:
        sub = Report(rep.prop, rep.tier, rep.seed)
        sub.rows.append({"scenario": name, "paths": 0, "obligations": 0, "agreed": 0, "undecided": [why], "violations": 0, "wall": 0})
        sub.undecided.append(sub.rows[-1])
    sub.jobs = []
    return i, sub


_REP = [None, 0, False]


def run_jobs(rep, workers=None, deadline=None):
    """decide all collected scenarios, in parallel processes"""
    import multiprocessing as mp
    _REP[:] = [rep, deadline or time.time() + 1e6, len(rep.jobs) < 4]
    n = workers or min(8, len(os.sched_getaffinity(0)) or 1)
    idx = list(range(len(rep.jobs)))
    random.Random(7).shuffle(idx)
    if n == 1 or len(idx) < 4:
        subs = [_work(i) for i in idx]
    else:
        with mp.get_context("fork").Pool(n, maxtasksperchild=100) as pool:
            subs = list(pool.imap_unordered(_work, idx, chunksize=1))
    for _, s in sorted(subs, key=lambda t: t[0]):
        rep.rows += s.rows
        rep.paths += s.paths
        rep.points += s.points
        rep.funcs |= s.funcs
        rep.decided += s.decided
        rep.undecided += s.undecided
        rep.missing = rep.missing or s.missing
        for k, v in s.viol.items():
            rep.viol.setdefault(k, []).extend(v)


def literals(funcs):
    """integer literals of the analysed functions: loops and case distinctions may depend on them"""
    out = set()
    for rel, qual in funcs:
        key = (rel, qual)
        if key not in _lits:
            import ast
            _lits[key] = set()
            try:
                src = open(os.path.join(REPO, rel)).read()
            except OSError:
                continue
            tree = ast.parse(src)
            consts_ = [n for b in [tree, *[c for c in tree.body if isinstance(c, ast.ClassDef)]] for n in b.body if isinstance(n, (ast.Assign, ast.AnnAssign))]
            for n in [*ast.walk(tree), *consts_]:
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and n in consts_ or isinstance(n, ast.FunctionDef) and n.name == qual.split(".")[-1]:
                    _lits[key] |= {q.value for q in ast.walk(n) if isinstance(q, ast.Constant) and type(q.value) is int and 3 < q.value <= 64}
        out |= _lits[key]
    return sorted(out)


_lits = {}


def assignments(lbs, lits):
    """functions that give every size a number, see FIX"""
    def make(k, special):
        rng = random.Random(k)
        d = {}

        def f(name, lb, cand):
            if name not in d:
                low = max(lb, lbs.get(name, 1))
                if name in special:
                    d[name] = max(low, special[name])
                elif cand:
                    d[name] = cand[k % len(cand)]
                else:
                    d[name] = low + (rng.choice([1, 2, 0]) if low == 1 else rng.choice([0, 1, 2]))
            return d[name]
        f.sizes = d
        return f
    out = [make(k, {"B": b}) for k, b in enumerate((2, 5, 1))]
    for k, n in enumerate(lits[:3]):
        out += [make(7 + k, {"B": n + 1}), make(17 + k, {"B": 2 * n + 1 if n <= 16 else n + 2}), make(27 + k, {"B": 2, "K": 2 * n + 1})]
    return out


def analyse(rep, name, run, modes=("normal",), ndims=None, per=1, on_raise=None, limit=40, maxpaths=None, tables=None):
    """analyse run(prog) on every path and decide its obligations; where arbitrary sizes leave something open, again for given sizes"""
    lbs = {}
    funcs = set(rep.funcs)
    row = one_pass(rep, name, run, modes, ndims, per, on_raise, limit, tables, lbs)
    if row["undecided"] and not row["violations"]:
        row["sized"] = 0
        rest = []
        try:
            for f in assignments(lbs, literals(rep.funcs - funcs)):
                FIX[0] = f
                r = one_pass(rep, name, run, modes, 1, per, on_raise, limit, tables, {})
                rest += r["undecided"]
                for k in ("paths", "agreed", "violations"):
                    row[k] += r[k]
                row["sized"] += 1
                if rest or r["violations"] or not r["paths"]:
                    break
            else:
                row["undecided"] = []
        except Timeout:
            pass
        finally:
            FIX[0] = None
        if row["violations"]:
            row["undecided"] = []
        row["obligations"] = row["agreed"] + row["violations"] + len(row["undecided"])
    rep.rows.append(row)
    rep.decided += row["agreed"] + row["violations"]
    if row["undecided"]:
        rep.undecided.append(row)
    return row


def one_pass(rep, name, run, modes, ndims, per, on_raise, limit, tables, lbs):
    quick = rep.tier == "quick"
    cap = None if ndims else (5 if quick else 12)
    ndims = ndims or (2 if quick else 6)
    row = {"scenario": name, "paths": 0, "obligations": 0, "agreed": 0, "undecided": [], "violations": 0}
    progs = []
    t0 = time.time()

    def go(c):
        pr = Prog()
        progs.append(pr)
        return run(pr)

    def prep(c):
        reset_facts()
        clear_tables()
        tz.reset()
        for tab in (LB, P.SIZE, P.IRANGE, evalx.ACCSHAPE, evalx.KIND, evalx.OPQ, evalx.OPQV, evalx.DIMDEF):
            tab.clear()
        DIMS.clear()
        c.nparam = 0

    for p in paths(go, limit, prep):
        row["paths"] += 1
        rep.paths += 1
        rep.funcs |= progs[-1].I.calls if progs else set()
        for a, n in LB.items():
            if a.kind == "d":
                lbs[a.key] = max(n, lbs.get(a.key, 1))
        pts = Points(p.taken, rep.seed, dict(DIMS), constants([c for c, k, _, _ in p.taken if k != "dim"]))
        cond = "; ".join(f"{'' if v else 'not '}{show(c)}" for c, _, v, _ in p.taken) or "always"
        if p.unsupported:
            row["undecided"].append(f"[{cond[:200]}] {p.unsupported}")
            continue
        if p.error is not None:
            verdict = on_raise(p.error) if on_raise else "violation"
            row["obligations"] += 1
            if verdict == "ok":
                row["agreed"] += 1
                continue
            if verdict == "skip":
                row["obligations"] -= 1
                continue
            ev = next(iter(pts.points(1, ("normal", "ints", "zeros", "big"))), None)
            if ev is None:
                row["undecided"].append(f"[{cond[:200]}] raises {p.error} but no sample point reaches it")
                continue
            row["violations"] += 1
            rep.violation("raises", f"{name}", f"{fmt(p.error.where)} raises {p.error} when {cond[:300]}; e.g. sizes {show_dims(ev)}")
            continue
        obs = p.value or []
        eqs = []
        for o in obs:
            row["obligations"] += 1
            if isinstance(o, Fact):
                if o.ok is None:
                    row["undecided"].append(f"{o.label}: {o.msg}")
                elif o.ok:
                    row["agreed"] += 1
                else:
                    ev = next(iter(pts.points(1, ("normal", "ints", "zeros", "big"))), None)
                    if ev is None:
                        row["undecided"].append(f"{o.label}: {o.msg}: no sample point reaches the path")
                        continue
                    row["violations"] += 1
                    rep.violation(o.label, o.where or name, f"{name}: {o.msg}" + ("" if cond == "always" else f" when {cond[:300]}"))
            else:
                eqs.append(o)
        if not eqs:
            continue
        pts.near = sorted({*pts.near, *constants([[o.actual, o.expected] for o in eqs if isinstance(o, Ob)])})
        state = {id(o): 0 for o in eqs}
        bad = {}
        notes = {}
        for ev in pts.points(ndims, modes, per, tables, more=lambda: any(not n and id_ not in bad for id_, n in state.items()), cap=cap, budget=400_000 if quick else 20_000_000):
            rep.points += 1
            for o in eqs:
                if id(o) in bad:
                    continue
                try:
                    with np.errstate(all="ignore"):
                        if isinstance(o, Finite):
                            o.check(ev)
                        else:
                            compare(ev, o.actual, o.expected, o.tol)
                    state[id(o)] += 1
                except Mismatch as m:
                    bad[id(o)] = (m.msg, show_dims(ev), ev.mode)
                except TooBig:
                    notes[id(o)] = "sample too large"
                except Unsupported as u:
                    notes[id(o)] = str(u)
                except Exception as ex:
                    if DEBUG:
                        raise
                    notes[id(o)] = f"evaluation failed ({type(ex).__name__}: {str(ex)[:120]})"
        for o in eqs:
            if id(o) in bad:
                m, d, mode = bad[id(o)]
                row["violations"] += 1
                rep.violation(o.label, o.where or name, f"{name}: {m}; sizes {d}, values {mode}" + ("" if cond == "always" else f"; path {cond[:300]}"))
            elif state[id(o)]:
                row["agreed"] += 1
            else:
                row["undecided"].append(f"{o.label} [{cond[:200]}]: {notes.get(id(o), 'no sample point satisfies the path condition')}")
    row["wall"] = round(time.time() - t0, 2)
    return row


def show_dims(ev):
    return "{" + ", ".join(f"{k}={v}" for k, v in sorted({**ev.dims, **(FIX[0].sizes if FIX[0] else {})}.items()) if not k.startswith("pool(")) + "}"
