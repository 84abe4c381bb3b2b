"""The properties as obligations."""
import itertools
from . import tensor as tz
from .engine import Ob, Fact, Finite, Skip, scenario, D, Missing
from .evalx import DIMDEF
from .poly import LB
from .spec import *
from .nets import Node, nets, blocks, flatlist, leaves, build, seq, skip, leaf, lin, act, Net, v1, v3
from .tensor import T, sym, einsum, PyErr, Unsupported

RULES = {}


def rule(pid):
    def dec(f):
        RULES[pid] = f
        return f
    return dec


WRT = ("input", "weight")
MODES4 = [(False, False), (True, False), (False, True), (True, True)]


def notimpl(ok):
    def f(e):
        if e.name() == "NotImplementedError":
            return "skip" if ok else "violation"
        return "violation"
    return f


@rule("C01")
def c01(rep):
    for lay in layers(rep.tier):
        for given in (False, True):
            for diag in ([False, True] if lay.diag else [None]):
                def run(pr, lay=lay, given=given, diag=diag):
                    w = World(pr, lay)
                    kw = {"wrt": "input"}
                    if diag is not None:
                        kw["diag"] = diag
                    v = w.val() if given else None
                    r = w.call("jacobian", w.x, v, **kw)
                    J = w.J("input")
                    if diag:
                        J = einsum("bii->bi", [J])
                    return [Ob("jacobian wrt input", r, J, pr.where(w.m, "jacobian"))]
                scenario(rep, f"{lay.label}.jacobian(input{', val' if given else ''}{', diag=%s' % diag if diag is not None else ''})", run, lay.modes)


@rule("C02")
def c02(rep):
    for lay in layers(rep.tier):
        if not lay.param:
            continue
        for given in (False, True):
            def run(pr, lay=lay, given=given):
                w = World(pr, lay)
                v = w.val() if given else None
                r = w.call("jacobian", w.x, v, wrt="weight")
                return [Ob("jacobian wrt weight", r, w.J("weight"), pr.where(w.m, "jacobian")),
                        Ob("get_weight length", w.call("get_weight"), T((w.nin("weight"),), lambda i: flat_weight(w, i[0])), pr.where(w.m, "get_weight"))]
            scenario(rep, f"{lay.label}.jacobian(weight{', val' if given else ''})", run, lay.modes)
        for name in ("jvp", "jmp", "vjp", "mjp"):
            products(rep, lay, name, "weight")


def flat_weight(w, p):
    e = N0
    off = topoly(0)
    parts = []
    for _, t, an in w.ws:
        parts.append((off, prod(t.shape), t, an))
        off = off + prod(t.shape)
    for k in range(len(parts) - 1, -1, -1):
        off, m, t, an = parts[k]
        d = acc(an, unflat(p - off, t.shape))
        e = d if k == len(parts) - 1 else ite(cge(off + m - 1 - p), d, e)
    return e


def operand(w, name, wrt, K="K"):
    B = w.B()
    if name == "jvp":
        return sym("v", (B, w.nin(wrt)))
    if name == "jmp":
        return sym("v", (B, w.nin(wrt), D(K)))
    if name == "vjp":
        return sym("v", (B, w.nout()))
    if name == "mjp":
        return sym("v", (B, D(K), w.nout()))


PEQ = {"jvp": "bij,bj->bi", "jmp": "bij,bjk->bik", "vjp": "bij,bi->bj", "mjp": "bij,bki->bkj"}


def products(rep, lay, name, wrt, givens=(False, True)):
    for given in givens:
        def run(pr, given=given):
            w = World(pr, lay)
            if not given and name in ("jvp", "jmp"):
                v = operand(w, name, wrt)
                r = w.call(name, w.x, None, v, wrt=wrt)
            else:
                # size of the output from another object, the module itself has not been called
                o = World(pr, lay)
                sv = o.val().shape
                B = w.B()
                n = prod(sv[1:])
                v = {"jvp": lambda: operand(w, name, wrt), "jmp": lambda: operand(w, name, wrt), "vjp": lambda: sym("v", (B, n)), "mjp": lambda: sym("v", (B, D("K"), n))}[name]()
                r = w.call(name, w.x, w.val() if given else None, v, wrt=wrt)
            J = w.J(wrt)
            exp = None if J is None else einsum(PEQ[name], [J, v])
            return [Ob(f"{name} wrt {wrt}", r, exp, pr.where(w.m, name))]
        scenario(rep, f"{lay.label}.{name}({wrt}{', val' if given else ''})", run, lay.modes, on_raise=notimpl(True))


@rule("C03")
def c03(rep):
    for lay in layers(rep.tier):
        for name in ("jvp", "jmp", "vjp", "mjp"):
            for wrt in WRT:
                if wrt == "weight" and not lay.param:
                    continue
                products(rep, lay, name, wrt)


@rule("C04")
def c04(rep):
    for lay in layers(rep.tier):
        for name in ("jmjTp", "jTmjp"):
            for wrt in WRT:
                if wrt == "weight" and not lay.param:
                    continue
                for fd, td in MODES4:
                    metric(rep, lay, name, wrt, fd, td)


def metric(rep, lay, name, wrt, fd, td, givens=(False, True)):
    for given in givens:
        def run(pr, given=given):
            w = World(pr, lay)
            o = World(pr, lay)
            n = w.nin(wrt) if name == "jmjTp" else prod(o.val().shape[1:])
            B = w.B()
            M = sym("M", (B, n) if fd else (B, n, n))
            r = w.call(name, w.x, w.val() if given else None, M, wrt=wrt, from_diag=fd, to_diag=td)
            J = w.J(wrt)
            exp = None if J is None else (metric_forward if name == "jmjTp" else metric_backward)(J, M, fd, td)
            return [Ob(f"{name} wrt {wrt}", r, exp, pr.where(w.m, name))]
        scenario(rep, f"{lay.label}.{name}({wrt}, {'diag' if fd else 'full'}->{'diag' if td else 'full'}{', val' if given else ''})", run, lay.modes, on_raise=notimpl(True))


# --- user-defined layers -------------------------------------------------------------------------------------
USER = '''
import torch
import nnj
from torch import nn

class Custom(nnj.AbstractJacobian, nn.Module):
    def __init__(self, out, jx, jw, n_params):
        super().__init__()
        self.out = out
        self.jx = jx
        self.jw = jw
        self._n_params = n_params

    def forward(self, x):
        return self.out

    @torch.no_grad()
    def jacobian(self, x, val=None, wrt="input"):
        if wrt == "input":
            return self.jx
        return self.jw

class CustomDiag(nnj.AbstractDiagonalJacobian, nn.Module):
    def __init__(self, d):
        super().__init__()
        self.d = d
        self._n_params = 0

    def forward(self, x):
        return torch.sin(x)

    @torch.no_grad()
    def jacobian(self, x, val=None, wrt="input", diag=False):
        if wrt == "weight":
            return None
        return self.d if diag else torch.diag_embed(self.d)

class Model(nnj.AbstractJacobian, nn.Module):
    """any network: an output and Jacobians that are arbitrary"""
    def __init__(self, out, jx, jw, n_params):
        super().__init__()
        self.out = out
        self.jx = jx
        self.jw = jw
        self._n_params = n_params

    def forward(self, x):
        return self.out

    @torch.no_grad()
    def jacobian(self, x, val=None, wrt="input"):
        if wrt == "input":
            return self.jx
        return self.jw

    def vjp(self, x, val, vector, wrt="input"):
        return torch.einsum("bi,bij->bj", vector, self.jacobian(x, val, wrt=wrt))

    def jTmjp(self, x, val, matrix, wrt="input", from_diag=False, to_diag=False, diag_backprop=False):
        J = self.jacobian(x, val, wrt=wrt)
        if matrix is None:
            matrix = torch.ones_like(J[:, :, 0])
            from_diag = True
        if diag_backprop:
            assert from_diag and to_diag
        M = torch.diag_embed(matrix) if from_diag else matrix
        R = torch.einsum("bji,bjk,bkl->bil", J, M, J)
        return torch.diagonal(R, 0, 1, 2) if to_diag else R
'''


def custom(pr, ndim, wnone=False):
    u = pr.user(USER)
    B = D("B")
    xs = (D("N"),) if ndim == 1 else (D("Ci"), D("H"))
    os_ = (D("O"),) if ndim == 1 else (D("Co"), D("W"))
    x, out = sym("x", (B, *xs)), sym("out", (B, *os_))
    n, o, p = prod(xs), prod(os_), D("P")
    J = {"input": sym("JX", (B, o, n)), "weight": None if wnone else sym("JW", (B, o, p))}
    m = pr.run(u["Custom"], out, J["input"], J["weight"], 0 if wnone else p)
    return m, x, out, J, n, o, p, B


@rule("C05")
def c05(rep):
    nds = (1, 2) if rep.tier == "thorough" else (1, 2)
    for nd in nds:
        for wrt in WRT:
            for wnone in ((False, True) if wrt == "weight" else (False,)):
                tag = f"Custom/{nd + 1}d({wrt}{', no parameters' if wnone else ''})"
                for name in ("jvp", "jmp", "vjp", "mjp"):
                    for none in ((False, True) if name in ("jmp", "mjp") else (False,)):
                        def run(pr, nd=nd, wrt=wrt, wnone=wnone, name=name, none=none):
                            m, x, out, J, n, o, p, B = custom(pr, nd, wnone)
                            c = n if wrt == "input" else p
                            v = {"jvp": (B, c), "jmp": (B, c, D("K")), "vjp": (B, o), "mjp": (B, D("K"), o)}[name]
                            v = sym("v", v)
                            r = pr(m, name, x, None, None if none else v, wrt=wrt)
                            e = None if J[wrt] is None else J[wrt] if none else einsum(PEQ[name], [J[wrt], v])
                            return [Ob(f"default {name}", r, e, pr.where(m, name))]
                        scenario(rep, f"{tag}.{name}{'(None)' if none else ''}", run)
                for name in ("jmjTp", "jTmjp"):
                    for fd, td in MODES4:
                        for none in (False, True):
                            def run(pr, nd=nd, wrt=wrt, wnone=wnone, name=name, none=none, fd=fd, td=td):
                                m, x, out, J, n, o, p, B = custom(pr, nd, wnone)
                                k = (n if wrt == "input" else p) if name == "jmjTp" else o
                                M = sym("M", (B, k) if fd else (B, k, k))
                                r = pr(m, name, x, None, None if none else M, wrt=wrt, from_diag=fd, to_diag=td)
                                Mx = const((B, k), 1) if none else M
                                e = None if J[wrt] is None else (metric_forward if name == "jmjTp" else metric_backward)(J[wrt], Mx, fd or none, td)
                                return [Ob(f"default {name}", r, e, pr.where(m, name))]
                            scenario(rep, f"{tag}.{name}({mode(fd, td)}{', None' if none else ''})", run)
    for nd in nds:
        for name in ("jvp", "jmp", "vjp", "mjp", "jmjTp", "jTmjp"):
            for fd, td in (MODES4 if name in ("jmjTp", "jTmjp") else [(False, False)]):
                for none in ((False, True) if name not in ("jvp", "vjp") else (False,)):
                    for wrt in WRT:
                        def run(pr, nd=nd, name=name, fd=fd, td=td, none=none, wrt=wrt):
                            u = pr.user(USER)
                            B = D("B")
                            xs = (D("N"),) if nd == 1 else (D("Ci"), D("H"))
                            n = prod(xs)
                            x, d = sym("x", (B, *xs)), sym("d", (B, n))
                            m = pr.run(u["CustomDiag"], d)
                            J = T((B, n, n), lambda i: mul(ind(ceq(i[1] - i[2])), d.at([i[0], i[1]])))
                            kw = {}
                            if name in ("jmjTp", "jTmjp"):
                                kw = dict(from_diag=fd, to_diag=td)
                                v = sym("M", (B, n) if fd else (B, n, n))
                                e = (metric_forward if name == "jmjTp" else metric_backward)(J, const((B, n), 1) if none else v, fd or none, td)
                            else:
                                v = sym("v", {"jvp": (B, n), "jmp": (B, n, D("K")), "vjp": (B, n), "mjp": (B, D("K"), n)}[name])
                                e = J if none else einsum(PEQ[name], [J, v])
                            r = pr(m, name, x, None, None if none else v, wrt=wrt, **kw)
                            return [Ob(f"default {name} (diagonal Jacobian)", r, e if wrt == "input" else None, pr.where(m, name))]
                        scenario(rep, f"CustomDiag/{nd + 1}d.{name}({wrt}{', ' + mode(fd, td) if 'm' in name and 'T' in name else ''}{', None' if none else ''})", run)


def mode(fd, td):
    return f"{'diag' if fd else 'full'}->{'diag' if td else 'full'}"


# --- containers ----------------------------------------------------------------------------------------------
def netsize(pr, lay):
    """shape of the output, from an object of its own"""
    o = World(pr, lay)
    return o.val().shape


def wmetric(w, bl, M, fd):
    """metric on the weights restricted to the blocks of the parametric layers"""
    if fd:
        return M

    def f(i):
        e = N0
        for off, n in bl:
            inb = lambda p: cand(cge(p - off), cge(off + n - 1 - p))
            e = add(e, ite(cand(inb(i[1]), inb(i[2])), M.at(i), N0))
        return e
    return T(M.shape, f)


def container(rep, lay):
    names = [(n, None, None) for n in ("jacobian", "jvp", "jmp", "vjp", "mjp")] + [(n, fd, td) for n in ("jmjTp", "jTmjp") for fd, td in MODES4]
    for name, fd, td in names:
        for wrt in WRT:
            if wrt == "weight" and not lay.param:
                continue
            if not lay.fwd and name in ("jvp", "jmp", "jmjTp"):
                continue
            for given in (False, True):
                def run(pr, name=name, fd=fd, td=td, wrt=wrt, given=given):
                    so = netsize(pr, lay)
                    w = World(pr, lay)
                    tree, objs, _ = pr.last
                    B, n, o = w.B(), w.nin(wrt), prod(so[1:])
                    v = None
                    val = w.val() if given else None
                    kw = {"wrt": wrt}
                    if name == "jacobian":
                        r = w.call(name, w.x, val, **kw)
                        e = w.J(wrt)
                    elif name in PEQ:
                        v = sym("v", {"jvp": (B, n), "jmp": (B, n, D("K")), "vjp": (B, o), "mjp": (B, D("K"), o)}[name])
                        r = w.call(name, w.x, val, v, **kw)
                        e = einsum(PEQ[name], [w.J(wrt), v])
                    else:
                        k = n if name == "jmjTp" else o
                        M = sym("M", (B, k) if fd else (B, k, k))
                        r = w.call(name, w.x, val, M, from_diag=fd, to_diag=td, **kw)
                        J = w.J(wrt)
                        bl = blocks(pr, tree, objs, w.ws) if wrt == "weight" else None
                        if name == "jmjTp":
                            e = metric_forward(J, wmetric(w, bl, M, fd) if bl else M, fd, td)
                        elif bl and not td:
                            r = flatlist(r) if r is not None else r
                            e = [metric_backward(sub(J, off, m), M, fd, td) for off, m in bl]
                        else:
                            e = metric_backward(J, M, fd, td)
                    return [Ob(f"{name} wrt {wrt}", r, e, pr.where(w.m, name))]
                scenario(rep, f"{lay.label}.{name}({wrt}{', ' + mode(fd, td) if fd is not None else ''}{', val' if given else ''})", run, lay.modes, on_raise=notimpl(True))


def sub(J, off, m):
    return T((J.shape[0], J.shape[1], m), lambda i: J.at([i[0], i[1], i[2] + off]))


@rule("C06")
def c06(rep):
    for lay in nets(rep.tier):
        container(rep, lay)
    # metric on the weights given as a list of blocks
    for lay in nets(rep.tier):
        if not lay.param or not lay.fwd or lay.nested:
            continue
        for fd, td in MODES4:
            def run(pr, lay=lay, fd=fd, td=td):
                w = World(pr, lay)
                tree, objs, _ = pr.last
                bl = blocks(pr, tree, objs, w.ws)
                B = w.B()
                Ms = [sym(f"M{k}", (B, n) if fd else (B, n, n)) for k, (_, n) in enumerate(bl)]
                r = w.call("jmjTp", w.x, None, list(Ms), wrt="weight", from_diag=fd, to_diag=td)
                J = w.J("weight")
                parts = [metric_forward(sub(J, off, n), M, fd, td) for (off, n), M in zip(bl, Ms)]
                e = T(parts[0].shape, lambda i: add(*[q.at(i) for q in parts]))
                return [Ob("jmjTp wrt weight, list of blocks", r, e, pr.where(w.m, "jmjTp"))]
            scenario(rep, f"{lay.label}.jmjTp(weight, blocks, {mode(fd, td)})", run, lay.modes)


@rule("C07")
def c07(rep):
    for lay in nets(rep.tier, skip_only=True):
        def run(pr, lay=lay):
            w = World(pr, lay)
            tree, objs, allo = pr.last
            val = w.val()
            x = w.x
            for n in tree.kids:
                x = pr.run(objs[id(n)], x)
            c = w.x.shape[1]
            e = T((x.shape[0], c + x.shape[1], *x.shape[2:]), lambda i: ite(cge(c - 1 - i[1]), w.x.at(i), x.at([i[0], i[1] - c, *i[2:]])))
            return [Ob("forward", val, e, pr.where(w.m, "forward"))]
        scenario(rep, f"{lay.label}.forward", run, lay.modes)
        container(rep, lay)


# --- None with respect to the weights -----------------------------------------------------------------------------
ALLM = [("jacobian", None, None), ("jvp", None, None), ("jmp", None, None), ("vjp", None, None), ("mjp", None, None)] + [
    (n, fd, td) for n in ("jmjTp", "jTmjp") for fd, td in MODES4]


def call_any(w, name, fd, td, wrt, so, val=None, none=False, extra=None):
    """call method name with arbitrary operands of the documented shape; returns (result, operand)"""
    B, n, o = w.B(), w.nin(wrt), prod(so[1:])
    kw = {"wrt": wrt, **(extra or {})}
    if name == "jacobian":
        return w.call(name, w.x, val, **kw), None
    # a second call on the same world gets the same operand objects
    key = (name, fd, wrt, none)
    if name in PEQ:
        v = None if none else w.operands.get(key) or sym("v", {"jvp": (B, n), "jmp": (B, n, D("K")), "vjp": (B, o), "mjp": (B, D("K"), o)}[name])
        w.operands[key] = v
        return w.call(name, w.x, val, v, **kw), v
    k = n if name == "jmjTp" else o
    M = None if none else w.operands.get(key) or sym("M", (B, k) if fd else (B, k, k))
    w.operands[key] = M
    return w.call(name, w.x, val, M, from_diag=fd, to_diag=td, **kw), M


def everything(tier):
    if tier == "quick":
        return layers(tier) + [n for n in nets(tier, rand=False) if not n.heavy] + nets(tier, skip_only=True)
    return layers(tier) + nets(tier) + nets(tier, skip_only=True)


def tagof(name, fd, td):
    return name + (f"({mode(fd, td)})" if fd is not None else "")


@rule("C08")
def c08(rep):
    for lay in everything(rep.tier):
        for name, fd, td in ALLM:
            for none in ((False, True) if name not in ("jacobian", "jvp", "vjp") else (False,)):
                def run(pr, lay=lay, name=name, fd=fd, td=td, none=none):
                    w = World(pr, lay)
                    so = netsize(pr, lay)
                    r, _ = call_any(w, name, fd, td, "weight", so, none=none)
                    if w.ws:
                        return [Fact("weight results exist", r is not None, f"{name} wrt weight of {lay.label} returns None", pr.where(w.m, name))]
                    return [Fact("None without parameters", r is None, f"{name} wrt weight of {lay.label} returns {r!r} instead of None", pr.where(w.m, name))]
                scenario(rep, f"{lay.label}.{tagof(name, fd, td)}(weight{', None' if none else ''})", run, on_raise=notimpl(lay.param and name in ("jvp", "jmp", "jmjTp")))
        if lay.diag:
            def run(pr, lay=lay):
                w = World(pr, lay)
                r = w.call("jacobian", w.x, None, wrt="weight", diag=True)
                return [Fact("None without parameters", r is None, f"jacobian wrt weight of {lay.label} returns {r!r} instead of None", pr.where(w.m, "jacobian"))]
            scenario(rep, f"{lay.label}.jacobian(weight, diag=True)", run)


# --- None as identity ------------------------------------------------------------------------------------------------
def attempt(f):
    try:
        return f(), None
    except PyErr as e:
        return None, e


@rule("C09")
def c09(rep):
    for lay in everything(rep.tier):
        for name, fd, td in [m for m in ALLM if m[0] not in ("jacobian", "jvp", "vjp")]:
            for wrt in WRT:
                if wrt == "weight" and not lay.param:
                    continue
                for dbp in ((False, True) if fd and td else (False,)):
                    def run(pr, lay=lay, name=name, fd=fd, td=td, wrt=wrt, dbp=dbp):
                        so = netsize(pr, lay)
                        w, w2 = World(pr, lay), World(pr, lay)
                        B, n, o = w.B(), w.nin(wrt), prod(so[1:])
                        k = n if name in ("jmp", "jmjTp") else o
                        kw = {"wrt": wrt}
                        if fd is not None:
                            kw.update(from_diag=fd, to_diag=td)
                        if dbp:
                            kw["diag_backprop"] = True
                        one = const((B, k), 1) if fd else eye(B, k)
                        r1, e1 = attempt(lambda: w.call(name, w.x, None, None, **kw))
                        r2, e2 = attempt(lambda: w2.call(name, w2.x, None, one, **kw))
                        if e1 is not None or e2 is not None:
                            if e1 is not None and e2 is not None and e1.name() == e2.name():
                                return []
                            if e2 is not None and e2.name() == "NotImplementedError" and name == "jmp":
                                return [Ob(f"{name}(None) is the Jacobian", r1, w.J(wrt), pr.where(w.m, name))]
                            if e2 is not None:
                                raise Unsupported(f"the identity itself is refused: {e2}")
                            raise e1
                        return [Ob(f"{name}(None) is {name}(identity)", r1, r2, pr.where(w.m, name))]
                    scenario(rep, f"{lay.label}.{tagof(name, fd, td)}({wrt}, None{', diag_backprop' if dbp else ''})", run, lay.modes)


# --- history ------------------------------------------------------------------------------------------------------------
def snap(t):
    """copy of the current content"""
    return T(t.shape, lambda i: t.at(i), t.dtype, t.device)


def histories(tier):
    """name -> function(pr, w, lay, again) that uses the module before the call of interest, which again() makes"""
    def fwd_other(pr, w, lay, again):
        pr.run(w.m, lay.x("y"))

    def fwd_other_batch(pr, w, lay, again):
        pr.run(w.m, lay.x("y", B=D("B2")))

    def prod_other(pr, w, lay, again):
        y = lay.x("y")
        so = netsize(pr, lay)
        pr(w.m, "vjp", y, None, sym("vy", (y.shape[0], prod(so[1:]))), wrt="input")
        pr(w.m, "jTmjp", y, None, None, wrt="input", from_diag=True, to_diag=True)
        pr(w.m, "jacobian", y, wrt="weight")

    def weights_undone(pr, w, lay, again):
        old = [(p, snap(p)) for _, p, _ in w.ws]
        w0 = pr(w.m, "get_weight") if w.ws else None
        for k, (_, p, _) in enumerate(w.ws):
            q = sym(f"other{k}", p.shape)
            p.write(lambda i, q=q: q.at(i))
        pr.run(w.m, w.x)
        again()
        for p, s in old:
            p.write(lambda i, s=s: s.at(i))

    def inplace_input(pr, w, lay, again):
        x = w.x
        true = snap(x)
        y = sym("y", x.shape)
        x.write(lambda i: y.at(i))
        pr.run(w.m, x)
        again()
        x.write(lambda i: true.at(i))

    def same_input(pr, w, lay, again):
        pr.run(w.m, w.x)
        pr(w.m, "jacobian", w.x, wrt="input")
        pr(w.m, "jTmjp", w.x, None, None, wrt="weight", from_diag=True, to_diag=True)
        again()

    hs = {"forward on another input": fwd_other, "products on another input": prod_other, "weights changed and restored": weights_undone,
          "input buffer reused": inplace_input, "same input before": same_input, "forward on another batch size": fwd_other_batch}
    return hs


@rule("C10")
def c10(rep):
    hs = histories(rep.tier)
    meths = [("jacobian", None, None), ("vjp", None, None), ("jvp", None, None), ("jmp", None, None), ("mjp", None, None), ("jTmjp", False, False), ("jTmjp", True, True), ("jTmjp", True, False), ("jTmjp", False, True),
             ("jmjTp", False, False), ("jmjTp", True, True), ("jmjTp", True, False), ("jmjTp", False, True)]
    if rep.tier == "quick":
        meths = [m for m in meths if m[1] == m[2]]
    for lay in everything(rep.tier):
        for name, fd, td in meths:
            for wrt in WRT:
                if wrt == "weight" and not lay.param:
                    continue
                for hname, h in hs.items():
                    if hname.startswith("weights") and not lay.param:
                        continue
                    for val in (False, True):
                        if rep.tier == "quick" and val and hname not in ("forward on another input", "input buffer reused"):
                            continue

                        def run(pr, lay=lay, name=name, fd=fd, td=td, wrt=wrt, h=h, val=val):
                            so = netsize(pr, lay)
                            w, w2 = World(pr, lay), World(pr, lay)
                            r1, e1 = attempt(lambda: call_any(w, name, fd, td, wrt, so)[0])
                            if e1 is not None and e1.name() == "NotImplementedError":
                                return []
                            if e1 is not None:
                                raise Unsupported(f"{name} itself fails: {e1}")
                            v = World(pr, lay).val() if val else None
                            h(pr, w2, lay, lambda: call_any(w2, name, fd, td, wrt, so))
                            r2, _ = call_any(w2, name, fd, td, wrt, so, val=v)
                            return [Ob(f"{name} depends on history", r2, r1, pr.where(w.m, name))]
                        scenario(rep, f"{lay.label}.{tagof(name, fd, td)}({wrt}) after {hname}{', val given' if val else ''}", run, lay.modes, ndims=1 if rep.tier == "quick" else 3, on_raise=notimpl(True))
        # val given, no history
        for name, fd, td in meths:
            for wrt in WRT:
                if wrt == "weight" and not lay.param:
                    continue

                def run(pr, lay=lay, name=name, fd=fd, td=td, wrt=wrt):
                    so = netsize(pr, lay)
                    w, w2 = World(pr, lay), World(pr, lay)
                    v = World(pr, lay).val()
                    r1, e1 = attempt(lambda: call_any(w, name, fd, td, wrt, so)[0])
                    if e1 is not None:
                        if e1.name() == "NotImplementedError":
                            return []
                        raise Unsupported(f"{name} itself fails: {e1}")
                    r2, _ = call_any(w2, name, fd, td, wrt, so, val=v)
                    return [Ob(f"{name} with val given", r2, r1, pr.where(w.m, name))]
                scenario(rep, f"{lay.label}.{tagof(name, fd, td)}({wrt}, val)", run, lay.modes)
        # forward itself

        for hname, h in hs.items():
            if hname.startswith("weights") and not lay.param:
                continue

            def run(pr, lay=lay, h=h):
                w, w2 = World(pr, lay), World(pr, lay)
                r1 = w.forward()
                h(pr, w2, lay, lambda: w2.forward())
                return [Ob("forward depends on history", w2.forward(), r1, pr.where(w.m, "forward"))]
            scenario(rep, f"{lay.label}.forward after {hname}", run, lay.modes)
    shared(rep)
    for cls in LIKES:
        for what in ("forward", "gradient", "ggn"):
            def run(pr, cls=cls, what=what):
                net = nets("quick")[1]
                w, w2 = World(pr, net), World(pr, net)
                so = w.val().shape
                t = sym("t", so, kind="unit")
                l1, l2 = pr.new(cls), pr.new(cls)
                r1 = pr(l1, what, w.x, w.m, t)
                y = net.x("y")
                for k in ("forward", "gradient", "ggn"):
                    pr(l2, k, y, w2.m, sym("ty", so, kind="unit"))
                r2 = pr(l2, what, w2.x, w2.m, t)
                return [Ob(f"{cls}.{what} depends on history", r2, r1, pr.where(l1, what))]
            scenario(rep, f"{cls}.{what} after calls on another input", run)


LIKES = ("LogGaussian", "LogBinaryBernoulli", "LogBernoulli")


def shared(rep):
    """a layer object that is used on its own, or in another container, between two calls"""
    for name, fd, td in [("vjp", None, None), ("jTmjp", True, True), ("jTmjp", False, False), ("jacobian", None, None), ("jmp", None, None), ("jmjTp", False, False)]:
        for wrt in WRT:
            for lay in [n for n in everything(rep.tier) if isinstance(n, Net)][1:]:
                if (wrt == "weight" and not lay.param) or (not lay.fwd and name in ("jmp", "jmjTp")):
                    continue

                def run(pr, name=name, fd=fd, td=td, wrt=wrt, lay=lay):
                    so = netsize(pr, lay)
                    w, w2 = World(pr, lay), World(pr, lay)
                    r1 = call_any(w, name, fd, td, wrt, so)[0]
                    tree, objs, _ = pr.last
                    val = w2.forward()
                    # every inner module sees other inputs
                    y = lay.x("y")
                    kids = tree.kids
                    for n in kids:
                        m = objs[id(n)]
                        y2 = pr.run(m, y)
                        pr(m, "vjp", y, None, sym(fresh("q"), (y.shape[0], per_sample(y2))), wrt="input")
                        y = y2
                    r2 = call_any(w2, name, fd, td, wrt, so, val=val)[0]
                    return [Ob(f"{name} depends on use of inner layers", r2, r1, pr.where(w.m, name))]
                scenario(rep, f"{lay.label}.{tagof(name, fd, td)}({wrt}) after use of its layers on another input", run, lay.modes)


# --- purity and autograd ----------------------------------------------------------------------------------------------------
def strip(e, memo=None):
    """the term without gradient stops"""
    from .expr import E as EE
    if memo is None:
        memo = {}
    if e.id in memo:
        return memo[e.id]
    if e.op == "cust" and not e.a[1]:
        r = strip(e.a[0], memo)
    else:
        args = []
        for x in e.a:
            if isinstance(x, EE):
                args.append(strip(x, memo))
            elif e.op == "cust" and isinstance(x, tuple):
                args.append(tuple((strip(i, memo), strip(l, memo)) for i, l in x))
            else:
                args.append(x)
        r = EE(e.op, *args)
    memo[e.id] = r
    return r


@rule("C11")
def c11(rep):
    for lay in everything(rep.tier):
        for name, fd, td in [("forward", None, None)] + ALLM:
            for wrt in WRT:
                if (wrt == "weight" and not lay.param) or (name == "forward" and wrt == "weight"):
                    continue
                for none, given in ((False, False), (False, True), (True, False)):
                    if none and name in ("forward", "jacobian", "jvp", "vjp"):
                        continue
                    if name == "forward" and given:
                        continue

                    def run(pr, lay=lay, name=name, fd=fd, td=td, wrt=wrt, none=none, given=given):
                        so = netsize(pr, lay)
                        w = World(pr, lay)
                        w.x.rg = True
                        for _, p, _ in w.ws:
                            p.rg = True
                        val = World(pr, lay).val() if given else None
                        if val is not None:
                            val = snap(val)
                            val.rg = True
                        x0 = snap(w.x)
                        ps = [(n, p, snap(p), p.dtype, p.rg) for n, p, _ in w.ws]
                        val0 = snap(val) if val is not None else None
                        where = pr.where(w.m, name)
                        if name == "forward":
                            r, op = w.forward(), None
                            obs = [Fact("forward is differentiable", r.rg, f"forward of {lay.label} is detached from the graph", where)]
                            if w.x.rg:
                                pass
                        else:
                            r, op = call_any(w, name, fd, td, wrt, so, val=val, none=none)
                            obs = [Fact("no autograd graph", not any(isinstance(t, T) and t.rg for t in flatlist(r)), f"{name} of {lay.label} returns a tensor that requires grad", where)]
                        obs.append(Ob("input untouched", w.x, x0, where))
                        if op is not None:
                            nm = "v" if name in PEQ else "M"
                            obs.append(Ob("operand untouched", op, T(op.shape, lambda i: acc(nm, i)), where))
                        if val is not None:
                            obs.append(Ob("val untouched", val, val0, where))
                        for n, p, s, dt_, rg in ps:
                            obs.append(Ob(f"parameter {n} untouched", p, s, where))
                            obs.append(Fact(f"parameter {n} keeps requires_grad", p.rg == rg and p.dtype == dt_, f"{name} changes requires_grad or type of {n}", where))
                        return obs
                    scenario(rep, f"{lay.label}.{tagof(name, fd, td)}({wrt}{', None' if none else ''}{', val' if given else ''})", run, lay.modes[:1], ndims=1, on_raise=notimpl(True))
        # operands that require grad
        for name, fd, td in ALLM[1:]:
            for wrt in WRT:
                if (wrt == "weight" and not lay.param) or lay.cls in ("Flatten", "Reshape"):
                    continue
                if isinstance(lay, Net) and any(True for _ in ()) :
                    continue

                def run(pr, lay=lay, name=name, fd=fd, td=td, wrt=wrt):
                    so = netsize(pr, lay)
                    w = World(pr, lay)
                    B, n, o = w.B(), w.nin(wrt), prod(so[1:])
                    if name in PEQ:
                        v = sym("v", {"jvp": (B, n), "jmp": (B, n, D("K")), "vjp": (B, o), "mjp": (B, D("K"), o)}[name], rg=True)
                        r = w.call(name, w.x, None, v, wrt=wrt)
                    else:
                        k = n if name == "jmjTp" else o
                        v = sym("M", (B, k) if fd else (B, k, k), rg=True)
                        r = w.call(name, w.x, None, v, wrt=wrt, from_diag=fd, to_diag=td)
                    return [Fact("no autograd graph", not any(isinstance(t, T) and t.rg and t is not v for t in flatlist(r)), f"{name} of {lay.label} returns a tensor that requires grad when the operand does", pr.where(w.m, name))]
                scenario(rep, f"{lay.label}.{tagof(name, fd, td)}({wrt}), operand requires grad", run, ndims=1, on_raise=notimpl(True))

        # the gradient autograd would compute equals the derivative
        def run(pr, lay=lay):
            tz.ctx().stops = True
            w = World(pr, lay)
            w.x.rg = True
            for _, p, _ in w.ws:
                p.rg = True
            val = w.forward()
            tz.ctx().stops = False
            plain = T(val.shape, lambda i: strip(val.at(i)))
            obs = [Ob("gradient of forward wrt input", freeze(jac_input(w.x, "x", val)), freeze(jac_input(w.x, "x", plain)), pr.where(w.m, "forward"))]
            if w.ws:
                obs.append(Ob("gradient of forward wrt weight", freeze(jac_weight(w.x, val, w.ws)), freeze(jac_weight(w.x, plain, w.ws)), pr.where(w.m, "forward")))
            return obs
        scenario(rep, f"{lay.label}.forward differentiable", run, lay.modes[:1])
    for cls in LIKES:
        for what in ("forward", "gradient", "ggn"):
            for agg in ("return all", "sum", "average"):
                for shape_, net, wrt in itertools.product(("diag", "full") if what == "ggn" else ("diag",), [nets("quick")[1], *passing()], WRT):
                    if wrt == "weight" and not net.param or what == "forward" and wrt == "input" and net.param:
                        continue

                    def run(pr, cls=cls, what=what, agg=agg, shape_=shape_, net=net, wrt=wrt):
                        w = World(pr, net)
                        so = World(pr, net).val().shape
                        t = sym("t", so, kind="unit", rg=True)
                        w.x.rg = True
                        x0 = snap(w.x)
                        l = pr.new(cls, aggregate_batch=agg, metric_shape=shape_)
                        r = pr(l, what, w.x, w.m, t, **({} if what == "forward" else {"wrt": wrt}))
                        wh = pr.where(l, what)
                        obs = [Fact("no autograd graph", not any(isinstance(q, T) and q.rg for q in flatlist(r)), f"{cls}.{what} returns a tensor that requires grad", wh),
                               Ob("input untouched", w.x, x0, wh), Ob("target untouched", t, T(t.shape, lambda i: acc("t", i)), wh)]
                        for k, (n, p, an) in enumerate(w.ws):
                            obs.append(Ob(f"parameter {n} untouched", p, T(p.shape, lambda i, an=an: acc(an, i)), wh))
                        return obs
                    scenario(rep, f"{cls}({agg}, {shape_}).{what}({wrt}) of {net.label} is pure", run, ndims=1)


def passing():
    """models whose output can be their input itself"""
    return [Net("Sequential()", lambda: seq(), v1, param=False), Net("Sequential(Flatten)", lambda: seq(leaf("Flatten")), v3, param=False),
            Net("Sequential(Reshape)", lambda: seq(leaf("Reshape", lambda: D("N"))), v1, param=False)]


# --- batch ---------------------------------------------------------------------------------------------------------------------
def pick(t, b0):
    """the batch of one that consists of sample b0"""
    return T((1, *t.shape[1:]), lambda i: t.at([b0, *i[1:]]), t.dtype, t.device)


def b0_of(B):
    from .poly import iacc, IRANGE
    ACCSHAPE["b0"] = ()
    IRANGE["b0"] = topoly(B)
    return iacc("b0", ())


def one_row(r, b0):
    if isinstance(r, (list, tuple)):
        return [one_row(q, b0) for q in r]
    return r if r is None else pick(r, b0)


@rule("C12")
def c12(rep):
    for lay in everything(rep.tier):
        for name, fd, td in [("forward", None, None)] + ALLM:
            for wrt in WRT:
                if (wrt == "weight" and not lay.param) or (name == "forward" and wrt == "weight"):
                    continue
                for none in ((False, True) if name not in ("forward", "jacobian", "jvp", "vjp") else (False,)):
                    def run(pr, lay=lay, name=name, fd=fd, td=td, wrt=wrt, none=none):
                        so = netsize(pr, lay)
                        w, w1 = World(pr, lay), World(pr, lay)
                        b0 = b0_of(w.B())
                        w1.x = pick(w.x, b0)
                        if name == "forward":
                            r, r1 = w.forward(), pr.run(w1.m, w1.x)
                        else:
                            r, op = call_any(w, name, fd, td, wrt, so, none=none)
                            kw = {"wrt": wrt}
                            if fd is not None:
                                kw.update(from_diag=fd, to_diag=td)
                            args = [] if name == "jacobian" else [None if op is None else pick(op, b0)]
                            r1 = w1.call(name, w1.x, None, *args, **kw)
                        return [Ob(f"{name} of one sample", one_row(r, b0), r1, pr.where(w.m, name))]
                    scenario(rep, f"{lay.label}.{tagof(name, fd, td)}({wrt}{', None' if none else ''}) sample by sample", run, (lay.modes[0], "spread"), on_raise=notimpl(True))
    for cls in LIKES:
        for what in ("forward", "gradient", "ggn"):
            for shape_ in (("diag", "full") if what == "ggn" else ("diag",)):
                for wrt in WRT if what != "forward" else ("weight",):
                    def run(pr, cls=cls, what=what, shape_=shape_, wrt=wrt):
                        net = nets("quick")[1]
                        w = World(pr, net)
                        so = World(pr, net).val().shape
                        b0 = b0_of(w.B())
                        t = sym("t", so, kind="unit")
                        l = pr.new(cls, metric_shape=shape_)
                        kw = {} if what == "forward" else {"wrt": wrt}
                        r = pr(l, what, w.x, w.m, t, **kw)
                        r1 = pr(l, what, pick(w.x, b0), w.m, pick(t, b0), **kw)
                        return [Ob(f"{cls}.{what} of one sample", one_row(r, b0), r1, pr.where(l, what))]
                    scenario(rep, f"{cls}({shape_}).{what}({wrt}) sample by sample", run, ("normal", "spread"))


# --- diagonal backpropagation --------------------------------------------------------------------------------------------------
class Walk:
    """layerwise specification of a container: Jacobians of every leaf at its feature map"""

    def __init__(self, pr, node, objs, x):
        self.pr, self.objs = pr, dict(objs)
        self.J = {}
        self.size = {}
        self.tree = self.clone(node)
        self.out = self.fwd(self.tree, x)

    def clone(self, node):
        """a layer that occurs twice becomes two nodes"""
        c = Node(node.kind, [self.clone(k) for k in node.kids], node.new)
        if id(node) in self.objs:
            self.objs[id(c)] = self.objs[id(node)]
        return c

    def fwd(self, node, x):
        self.size[id(node)] = per_sample(x)
        if node.kind == "leaf":
            zn = fresh("z")
            ACCSHAPE[zn] = x.shape
            KIND[zn] = "real"
            OPQ[zn] = lambda ev, x=x: ev.array(x)
            z = T(x.shape, lambda i: acc(zn, i))
            m = self.objs[id(node)]
            val = self.pr.run(m, z)
            ws = []
            for k, (n, p) in enumerate(self.pr.I.tm.named_params(m)):
                an = fresh("pw")
                ACCSHAPE[an] = p.shape
                KIND[an] = "real"
                q = snap(p)
                OPQ[an] = lambda ev, q=q: ev.array(q)
                ws.append((n, p, an))
            if ws:
                old = [(p, snap(p)) for _, p, _ in ws]
                for _, p, an in ws:
                    p.write(lambda i, an=an: acc(an, i))
                val = self.pr.run(m, z)
                for p, s in old:
                    p.write(lambda i, s=s: s.at(i))
            self.J[id(node)] = (freeze(jac_input(z, zn, val)), freeze(jac_weight(z, val, ws)) if ws else None)
            return freeze(val)
        y = x
        for k in node.kids:
            y = self.fwd(k, y)
        if node.kind == "seq":
            return y
        c = x.shape[1]
        return freeze(T((x.shape[0], c + y.shape[1], *x.shape[2:]), lambda i: ite(cge(c - 1 - i[1]), x.at(i), y.at([i[0], i[1] - c, *i[2:]]))))

    def back(self, node, m):
        """(diagonal at the input, diagonals of the weights in order)"""
        if node.kind == "leaf":
            J, Jw = self.J[id(node)]
            return freeze(metric_backward(J, m, True, True)), [] if Jw is None else [metric_backward(Jw, m, True, True)]
        if node.kind == "skip":
            l = self.size[id(node)]
            top = T((m.shape[0], m.shape[1] - l), lambda i: m.at([i[0], i[1] + l]))
            r, ws = self.chain(node.kids, top)
            return freeze(T((m.shape[0], l), lambda i: add(m.at(i), r.at(i)))), ws
        return self.chain(node.kids, m)

    def chain(self, kids, m):
        ws = []
        for k in reversed(kids):
            m, w = self.back(k, m)
            ws = w + ws
        return m, ws

    def push(self, node, m):
        """diagonal at the output from a diagonal at the input"""
        if node.kind == "leaf":
            return freeze(metric_forward(self.J[id(node)][0], m, True, True))
        y = m
        for k in node.kids:
            y = self.push(k, y)
        if node.kind == "seq":
            return y
        l = m.shape[1]
        return freeze(T((m.shape[0], l + y.shape[1]), lambda i: ite(cge(l - 1 - i[1]), m.at(i), y.at([i[0], i[1] - l]))))

    def pushw(self, node, ms):
        """diagonal at the output from the diagonals of the weights (list, consumed in order)"""
        if node.kind == "leaf":
            Jw = self.J[id(node)][1]
            return None if Jw is None else freeze(metric_forward(Jw, ms.pop(0), True, True))
        a = None
        for k in node.kids:
            if a is not None:
                a = self.push(k, a)
            c = self.pushw(k, ms)
            if c is not None:
                a = c if a is None else freeze(T(c.shape, lambda i, a=a, c=c: add(a.at(i), c.at(i))))
        if node.kind == "skip" and a is not None:
            l = self.size[id(node)]
            y = a
            a = freeze(T((y.shape[0], l + y.shape[1]), lambda i: ite(cge(l - 1 - i[1]), N0, y.at([i[0], i[1] - l]))))
        return a


def catd(ts):
    """concatenation along the last axis of (batch, n) tensors"""
    off = topoly(0)
    parts = []
    for t in ts:
        parts.append((off, t))
        off = off + t.shape[1]

    def f(i):
        e = N0
        for k in range(len(parts) - 1, -1, -1):
            o, t = parts[k]
            d = t.at([i[0], i[1] - o])
            e = d if k == len(parts) - 1 else ite(cge(o + t.shape[1] - 1 - i[1]), d, e)
        return e
    return T((ts[0].shape[0], off), f)


def diagbp(rep, lay):
    for name in ("jmjTp", "jTmjp"):
        if name == "jmjTp" and not lay.fwd:
            continue
        for wrt in WRT:
            if wrt == "weight" and not lay.param:
                continue
            for none in (False, True):
                for given in (False, True):
                    def run(pr, lay=lay, name=name, wrt=wrt, none=none, given=given):
                        so = netsize(pr, lay)
                        w = World(pr, lay)
                        tree, objs, _ = pr.last
                        B, n = w.B(), w.nin(wrt) if name == "jmjTp" else prod(so[1:])
                        M = sym("M", (B, n))
                        val = World(pr, lay).val() if given else None
                        r = w.call(name, w.x, val, None if none else M, wrt=wrt, from_diag=True, to_diag=True, diag_backprop=True)
                        if none:
                            M = const((B, n), 1)
                        k = Walk(pr, tree, objs, w.x)
                        if name == "jTmjp":
                            mi, ws = k.back(k.tree, M)
                            e = mi if wrt == "input" else catd(ws)
                        elif wrt == "input":
                            e = k.push(k.tree, M)
                        else:
                            bl = blocks(pr, tree, objs, w.ws)
                            e = k.pushw(k.tree, [T((B, m), lambda i, off=off: M.at([i[0], i[1] + off])) for off, m in bl])
                        return [Ob(f"{name} with diag_backprop", r, e, pr.where(w.m, name))]
                    scenario(rep, f"{lay.label}.{name}({wrt}, diag_backprop{', None' if none else ''}{', val' if given else ''})", run, lay.modes)


@rule("C13")
def c13(rep):
    for lay in layers(rep.tier):
        for name in ("jmjTp", "jTmjp"):
            for wrt in WRT:
                if wrt == "weight" and not lay.param:
                    continue

                def run(pr, lay=lay, name=name, wrt=wrt):
                    so = netsize(pr, lay)
                    w = World(pr, lay)
                    B, n = w.B(), w.nin(wrt) if name == "jmjTp" else prod(so[1:])
                    M = sym("M", (B, n))
                    r = w.call(name, w.x, None, M, wrt=wrt, from_diag=True, to_diag=True, diag_backprop=True)
                    return [Ob(f"{name} with diag_backprop", r, (metric_forward if name == "jmjTp" else metric_backward)(w.J(wrt), M, True, True), pr.where(w.m, name))]
                scenario(rep, f"{lay.label}.{name}({wrt}, diag_backprop)", run, lay.modes, on_raise=notimpl(True))
    for lay in nets(rep.tier) + nets(rep.tier, skip_only=True) + diagnets():
        diagbp(rep, lay)
    for lay in diagnets():
        for name in ("jmjTp", "jTmjp"):
            def run(pr, lay=lay, name=name):
                w = World(pr, lay)
                B, n = w.B(), w.nin("input")
                M = sym("M", (B, n))
                r = w.call(name, w.x, None, M, wrt="input", from_diag=True, to_diag=True, diag_backprop=True)
                return [Ob(f"{name} with diag_backprop on diagonal layers", r, (metric_forward if name == "jmjTp" else metric_backward)(w.J("input"), M, True, True), pr.where(w.m, name))]
            scenario(rep, f"{lay.label}.{name}(diag_backprop is exact)", run, lay.modes)


def diagnets():
    return [Net("Sequential(Tanh,Sigmoid,Sinusoidal)", lambda: seq(act("Tanh"), act("Sigmoid"), act("Sinusoidal")), v1, param=False),
            Net("Sequential(Softplus,ReLU,Flatten,TruncExp)", lambda: seq(act("Softplus"), act("ReLU"), leaf("Flatten"), act("TruncExp")), v3, param=False)]


# --- likelihoods --------------------------------------------------------------------------------------------------------------------
def like_model(pr, nd):
    u = pr.user(USER)
    B = D("B")
    xs = (D("N"),)
    os_ = (D("O"),) if nd == 1 else (D("Co"), D("O")) if nd == 2 else (D("Ci"), D("Co"), D("O"))
    x, out = sym("x", (B, *xs)), sym("f", (B, *os_))
    o = prod(os_)
    J = {"input": sym("JX", (B, o, D("N"))), "weight": sym("JW", (B, o, D("P")))}
    m = pr.run(u["Model"], out, J["input"], J["weight"], D("P"))
    return m, x, out, J, o


def d_out(ll, out, b, i):
    return diff(ll, "f", [b, *unflat(i, out.shape[1:])])


TK = {"LogGaussian": "real", "LogBinaryBernoulli": "unit", "LogBernoulli": "prob"}


def agg_of(t, agg):
    if agg == "return all" or agg is None:
        return t
    if isinstance(t, list):
        return [agg_of(q, agg) for q in t]
    from .expr import sum_, div, ix
    from .poly import newvar, V
    B = t.shape[0]

    def f(i):
        v = newvar(B, "s")
        e = sum_(v, B, t.at([V(v), *i]))
        return e if agg == "sum" else div(e, ix(B))
    return T(t.shape[1:], f)


@rule("C14")
def c14(rep):
    nds = (1, 2) if rep.tier == "quick" else (1, 2, 3)
    for cls in LIKES:
        for nd in nds:
            for wrt in WRT:
                for agg in ("return all", "sum", "average", None):
                    if agg is None and (nd > 1 or wrt == "input"):
                        continue

                    def grad(pr, cls=cls, nd=nd, wrt=wrt, agg=agg):
                        m, x, out, J, o = like_model(pr, nd)
                        t = sym("t", out.shape, kind=TK[cls])
                        l = pr.new(cls, aggregate_batch=agg)
                        base = pr.new(cls)
                        ll = pr(base, "forward", x, m, t)
                        B = x.shape[0]
                        g = freeze(T((B, o), lambda i: d_out(ll.at([i[0]]), out, i[0], i[1])))
                        e = freeze(einsum("bi,bij->bj", [g, J[wrt]]))
                        r = pr(l, "gradient", x, m, t, wrt=wrt)
                        return [Ob("gradient is the derivative of the log-likelihood", r, agg_of(e, agg), pr.where(l, "gradient"))]
                    scenario(rep, f"{cls}({agg}).gradient({wrt})/{nd + 1}d", grad, ("normal", "ints"), limit=64)
                    for ms, mb in (("diag", "exact"), ("full", "exact"), ("diag", "approx")):
                        if mb == "approx" and cls == "LogBernoulli":
                            continue

                        def ggn(pr, cls=cls, nd=nd, wrt=wrt, agg=agg, ms=ms, mb=mb):
                            m, x, out, J, o = like_model(pr, nd)
                            t = sym("t", out.shape, kind=TK[cls])
                            l = pr.new(cls, aggregate_batch=agg, metric_shape=ms, metric_backprop=mb)
                            base = pr.new(cls)
                            ll = pr(base, "forward", x, m, t)
                            B = x.shape[0]
                            H = freeze(T((B, o, o), lambda i: d_out(d_out(ll.at([i[0]]), out, i[0], i[1]), out, i[0], i[2])))
                            e = freeze(metric_backward(J[wrt], H, False, ms == "diag"))
                            r = pr(l, "ggn", x, m, wrt=wrt) if nd == 1 else pr(l, "ggn", x, m, t, wrt=wrt)
                            return [Ob("ggn is J^T H J", r, agg_of(e, agg), pr.where(l, "ggn"))]
                        scenario(rep, f"{cls}({agg}, {ms}, {mb}).ggn({wrt})/{nd + 1}d", ggn, ("normal", "ints"), limit=64)
            for agg in ("sum", "average", None):
                def fwd(pr, cls=cls, nd=nd, agg=agg):
                    m, x, out, J, o = like_model(pr, nd)
                    t = sym("t", out.shape, kind=TK[cls])
                    l, base = pr.new(cls, aggregate_batch=agg), pr.new(cls)
                    return [Ob("aggregated log-likelihood", pr(l, "forward", x, m, t), agg_of(pr(base, "forward", x, m, t), agg), pr.where(l, "forward"))]
                scenario(rep, f"{cls}({agg}).forward/{nd + 1}d", fwd, ("normal", "ints"))

            def value(pr, cls=cls, nd=nd):
                """the log-likelihood is the documented one up to its normalisation"""
                m, x, out, J, o = like_model(pr, nd)
                t = sym("t", out.shape, kind=TK[cls])
                l = pr.new(cls)
                r = pr(l, "forward", x, m, t)
                return [Ob("log-likelihood", r, loglik(cls, out, t), pr.where(l, "forward"))]
            scenario(rep, f"{cls}.forward/{nd + 1}d is the log density", value, ("normal", "ints"))
    # real networks: blocks and aggregation of lists
    for cls in LIKES:
        for lay in (nets("quick")[1], nets("quick")[4], nets("quick", skip_only=True)[0]):
            for agg in ("return all", "sum", "average"):
                for ms in ("diag", "full"):
                    for wrt in WRT:
                        def real(pr, cls=cls, lay=lay, agg=agg, ms=ms, wrt=wrt):
                            so = netsize(pr, lay)
                            w = World(pr, lay)
                            tree, objs, _ = pr.last
                            t = sym("t", so, kind=TK[cls])
                            l = pr.new(cls, aggregate_batch=agg, metric_shape=ms)
                            r = pr(l, "ggn", w.x, w.m, t, wrt=wrt)
                            g = pr(l, "gradient", w.x, w.m, t, wrt=wrt)
                            # H in an output of its own
                            fm, fx, out, FJ, o = like_model(pr, 1)
                            f = T(w.val().shape, lambda i: w.val().at(i))
                            nm = fresh("f")
                            y = sym(nm, f.shape)
                            OPQ[nm] = lambda ev: ev.array(f)
                            fm.attrs["out"] = y
                            ll = pr(pr.new(cls), "forward", w.x, fm, t)
                            n = per_sample(f)
                            B = w.B()
                            dd = lambda e, b, i: diff(e, nm, [b, *unflat(i, f.shape[1:])])
                            G = freeze(T((B, n), lambda i: dd(ll.at([i[0]]), i[0], i[1])))
                            H = freeze(T((B, n, n), lambda i: dd(dd(ll.at([i[0]]), i[0], i[1]), i[0], i[2])))
                            Jm = w.J(wrt)
                            if wrt == "weight" and ms == "full":
                                e = [freeze(metric_backward(sub(Jm, off, k), H, False, False)) for off, k in blocks(pr, tree, objs, w.ws)]
                                r = flatlist(r)
                            else:
                                e = freeze(metric_backward(Jm, H, False, ms == "diag"))
                            return [Ob("ggn of a network", r, agg_of(e, agg), pr.where(l, "ggn")),
                                    Ob("gradient of a network", g, agg_of(freeze(einsum("bij,bi->bj", [Jm, G])), agg), pr.where(l, "gradient"))]
                        scenario(rep, f"{cls}({agg}, {ms}) of {lay.label} wrt {wrt}", real)


def loglik(cls, f, t):
    from .expr import sum_, fn, red, sub as esub, neg
    from .poly import newvar, V
    from fractions import Fraction
    n = per_sample(f)

    def el(idx):
        a, b = f.at(idx), t.at(idx)
        if cls == "LogGaussian":
            d = esub(a, b)
            return mul(num(Fraction(-1, 2)), d, d)
        if cls == "LogBinaryBernoulli":
            return esub(mul(b, a), add(fn("log1p", fn("exp", neg(fn("abs", a)))), fn("relu", a)))
        c = f.shape[-1]
        v = newvar(c, "c")
        return mul(b, esub(a, red("lse", v, c, f.at([*idx[:-1], V(v)]))))

    def g(i):
        v = newvar(n, "o")
        return sum_(v, n, el([i[0], *unflat(V(v), f.shape[1:])]))
    return T((f.shape[0],), g)


# --- finiteness -------------------------------------------------------------------------------------------------------------------------
@rule("C15")
def c15(rep):
    from .expr import ite as _i
    for cls in ("LogBinaryBernoulli", "LogBernoulli"):
        for nd in (1, 2):
            for what in ("forward", "gradient", "ggn"):
                for agg in ("return all", "average"):
                    for ms in (("diag", "full") if what == "ggn" else ("diag",)):
                        def run(pr, cls=cls, nd=nd, what=what, ms=ms, agg=agg):
                            m, x, out, J, o = like_model(pr, nd)
                            # the operands handed to the network are the residual and the Hessian themselves
                            m.attrs["jw"] = T((x.shape[0], o, o), lambda i: ind(ceq(i[1] - i[2])))
                            t = sym("t", out.shape, kind="onehot" if cls == "LogBernoulli" else "unit")
                            l = pr.new(cls, metric_shape=ms, aggregate_batch=agg)
                            r = pr(l, what, x, m, t)
                            return [Finite(f"{what} stays finite", r, pr.where(l, what))]
                        scenario(rep, f"{cls}({agg}, {ms}).{what}/{nd + 1}d at extreme logits", run, ("huge", "mixed"), ndims=3, per=4)


# --- conversion ------------------------------------------------------------------------------------------------------------------------
TORCHNETS = '''
from torch import nn

def net(layers):
    return nn.Sequential(*layers)
'''


def tlayer(pr, name, *a, **k):
    return pr.run(pr.I.load("torch").d["nn"].d[name], *a, **k)


def convs(tier):
    P = lambda *l: l
    Ci, Co, O = (lambda: D("Ci")), (lambda: D("Co")), (lambda: D("O"))
    img = lambda: (D("Ci"), D("H", 5), D("W", 5))
    vec = lambda: (D("N"),)
    c = []

    def one(label, shape, *ls):
        c.append((label, shape, ls))
    one("Linear", vec, ("Linear", (lambda: D("N"), O), {}))
    one("Linear(bias=False)", vec, ("Linear", (lambda: D("N"), O), {"bias": False}))
    one("Linear,Tanh,Linear", vec, ("Linear", (lambda: D("N"), O), {}), ("Tanh", (), {}), ("Linear", (O, lambda: D("Q")), {"bias": False}))
    for n in ("Tanh", "ReLU", "Sigmoid", "Softplus", "Identity", "SiLU", "LogSigmoid", "LeakyReLU", "ELU"):
        one(n, vec, (n, (), {}))
    one("Softplus(beta=2,threshold=1)", vec, ("Softplus", (), {"beta": 2, "threshold": 1}))
    one("Softplus(beta=0.5)", vec, ("Softplus", (), {"beta": 0.5}))
    one("Softplus(threshold=0.1)", vec, ("Softplus", (), {"threshold": 0.1}))
    one("LeakyReLU(0.3)", vec, ("LeakyReLU", (0.3,), {}))
    one("ReLU(inplace)", vec, ("Linear", (lambda: D("N"), O), {}), ("ReLU", (), {"inplace": True}))
    one("ELU(2.)", vec, ("ELU", (2.0,), {}))
    one("Softmax", vec, ("Softmax", (), {"dim": 1}))
    for n in ("Dropout", "BatchNorm1d", "GELU", "LayerNorm", "Hardtanh", "Tanhshrink", "AlphaDropout", "Mish", "Hardswish", "Hardsigmoid", "ReLU6", "CELU", "SELU", "LogSoftmax", "GroupNorm", "Softsign", "Bilinear", "Embedding"):
        one(n, vec, (n, (), {}))
    # layers for images that the package does not have
    seqs = lambda: (D("Ci"), D("H", 5))
    one("MaxPool1d", seqs, ("MaxPool1d", (), {"kernel_size": 2, "stride": 1}))
    one("MaxPool1d(3,padding=1)", seqs, ("MaxPool1d", (), {"kernel_size": 3, "stride": 1, "padding": 1}))
    one("Conv1d", seqs, ("Conv1d", (Ci, Co, 3), {}))
    one("AvgPool1d", seqs, ("AvgPool1d", (2,), {}))
    one("LPPool1d", seqs, ("LPPool1d", (2, 2), {}))
    for n, a, kw in (("MaxPool3d", (2,), {"stride": 1}), ("Conv3d", (Ci, Co, 3), {}), ("AvgPool3d", (2,), {})):
        one(n, lambda: (D("Ci"), D("H", 5), D("W", 5), D("Z", 3)), (n, a, kw))
    for n, a, kw in (("ConvTranspose2d", (Ci, Ci, 1), {}), ("ConvTranspose2d", (Ci, Co, 3), {"bias": False}), ("LPPool2d", (2, 2), {}), ("BatchNorm2d", (), {}), ("Dropout2d", (), {}), ("AdaptiveAvgPool2d", (), {}), ("AdaptiveMaxPool2d", (), {}),
                     ("InstanceNorm2d", (), {}), ("PixelShuffle", (), {}), ("ZeroPad2d", (), {}), ("FractionalMaxPool2d", (), {}), ("UpsamplingBilinear2d", (), {"scale_factor": 2})):
        one(f"{n}{a if not callable(a) and all(isinstance(q, int) for q in a) else ''}{kw or ''}", img, (n, a, kw))
    one("Linear,Dropout,Linear", vec, ("Linear", (lambda: D("N"), O), {}), ("Dropout", (), {}), ("Linear", (O, lambda: D("Q")), {}))
    one("Conv2d,BatchNorm2d", img, ("Conv2d", (Ci, Co, 3), {}), ("BatchNorm2d", (), {}))
    for k, kw in (("3", {}), ("(2,3)", {}), ("3", {"padding": 1}), ("3", {"padding": (1, 2)}), ("3", {"bias": False}), ("3", {"stride": 2}), ("3", {"stride": (1, 2)}), ("2", {"dilation": 2}), ("3", {"groups": "Ci"}), ("3", {"padding": 1, "padding_mode": "reflect"}),
                  ("3", {"padding": 1, "padding_mode": "circular"}), ("3", {"padding": 1, "padding_mode": "replicate"}), ("3", {"padding": "same"}), ("3", {"padding": "valid"}), ("3", {"padding": 2, "dilation": 2, "bias": False})):
        kk = eval(k)
        kw2 = dict(kw)
        if kw2.get("groups") == "Ci":
            kw2["groups"] = Ci
            one(f"Conv2d({k},{kw})", img, ("Conv2d", (Ci, Ci, kk), kw2))
        else:
            one(f"Conv2d({k},{kw})", img, ("Conv2d", (Ci, Co, kk), kw2))
    for kw in ({"kernel_size": 2}, {"kernel_size": 3, "stride": 1}, {"kernel_size": (2, 3), "stride": (2, 1)}, {"kernel_size": 3, "padding": 1}, {"kernel_size": 2, "dilation": 2}, {"kernel_size": 2, "stride": 3, "ceil_mode": True}, {"kernel_size": 2, "return_indices": True},
               {"kernel_size": 3, "stride": 2, "padding": 1, "ceil_mode": True}, {"kernel_size": 2, "stride": 1, "dilation": (1, 2)}):
        one(f"MaxPool2d({kw})", img, ("MaxPool2d", (), kw))
    one("AvgPool2d", img, ("AvgPool2d", (2,), {}))
    for kw in ({"scale_factor": 2}, {"scale_factor": 3, "mode": "nearest"}, {"scale_factor": 2, "mode": "bilinear"}, {"scale_factor": (2, 3)}, {"scale_factor": 1.5}, {"size": (10, 12)}, {"scale_factor": 2, "mode": "bilinear", "align_corners": True}, {"scale_factor": (2, 2)}, {"scale_factor": 2, "mode": "nearest-exact"}):
        one(f"Upsample({kw})", img, ("Upsample", (), kw))
    one("UpsamplingNearest2d", img, ("UpsamplingNearest2d", (), {"scale_factor": 2}))
    for kw in ({}, {"start_dim": 2}, {"start_dim": 1, "end_dim": 2}, {"start_dim": 1, "end_dim": -1}, {"start_dim": 0}, {"start_dim": 1, "end_dim": 3}):
        one(f"Flatten({kw})", img, ("Flatten", (), kw))
    one("Unflatten", vec, ("Unflatten", (1, (1, lambda: D("N"))), {}))
    one("nested", vec, ("Sequential", (("Linear", (lambda: D("N"), O), {}), ("Tanh", (), {})), {}), ("Sequential", (("Softplus", (), {"beta": 2, "threshold": 1}), ("Sequential", (("Linear", (O, lambda: D("Q")), {"bias": False}),), {})), {}))
    one("cnn", img, ("Conv2d", (Ci, Co, 3), {"padding": 1}), ("ReLU", (), {}), ("MaxPool2d", (), {"kernel_size": 2, "stride": 1}), ("Flatten", (), {}))
    one("decoder", img, ("Upsample", (), {"scale_factor": 2}), ("Conv2d", (Ci, Co, 2), {"bias": False}), ("Sigmoid", (), {}))
    one("nested with strided convolution", img, ("Sequential", (("Conv2d", (Ci, Co, 3), {"stride": 2}),), {}), ("Tanh", (), {}))
    one("empty", vec)
    c += stacks(tier)
    return c


STEPS = {  # name -> (needs image, function(state, random) -> (torch layer, next state) or None)
    "Conv2d": (True, lambda s, r: (("Conv2d", (s[0], _new(r), 3), {"padding": 1, "bias": r.random() < 0.6}), (_last(r), s[1], s[2], s[3]))),
    "Conv2d1": (True, lambda s, r: (("Conv2d", (s[0], _new(r), (1, 1)), {"bias": r.random() < 0.6}), (_last(r), s[1], s[2], s[3]))),
    "MaxPool2d": (True, lambda s, r: (("MaxPool2d", (2,), {}), (s[0], s[1], s[2], s[3] // 2)) if s[3] % 2 == 0 else None),
    "MaxPool2d1": (True, lambda s, r: (("MaxPool2d", (), {"kernel_size": 3, "stride": 1, "padding": 1}), s)),
    "Upsample": (True, lambda s, r: (("Upsample", (), {"scale_factor": 2}), (s[0], s[1], s[2], s[3] * 2))),
    "Flatten": (True, lambda s, r: (("Flatten", (), {}), (lambda: s[0]() * s[1]() * s[2]() * s[3] * s[3],))),
    "LinearImg": (True, lambda s, r: (("Linear", (lambda: s[2]() * s[3], _new(r)), {"bias": r.random() < 0.6}), None)),
    "Linear": (False, lambda s, r: (("Linear", (s[0], _new(r)), {"bias": r.random() < 0.6}), (_last(r),))),
    "Tanh": (None, lambda s, r: (("Tanh", (), {}), s)),
    "ReLU": (None, lambda s, r: (("ReLU", (), {}), s)),
    "Sigmoid": (None, lambda s, r: (("Sigmoid", (), {}), s)),
    "Softplus": (None, lambda s, r: (("Softplus", (), {"beta": 2, "threshold": 1}), s)),
}


def _new(r):
    r.pick = r.choice(["O", "Q", "Z", "Co"])
    n = r.pick
    return lambda: D(n)


def _last(r):
    n = r.pick
    return lambda: D(n)


def stacks(tier):
    """torch networks: every pair of neighbouring layers, and random nested stacks"""
    import random
    out = []
    img0 = (lambda: D("Ci"), lambda: D("H"), lambda: D("W"), 2)

    def make(names, r, label, groups=False):
        img = STEPS[names[0]][0] is not False
        s = img0 if img else (lambda: D("N"),)
        ls = []
        for n in names:
            need, f = STEPS[n]
            if s is None or (need is not None and need != (len(s) == 4)):
                return None
            q = f(s, r)
            if q is None:
                return None
            ls.append(q[0])
            s = q[1]
        if groups and len(ls) > 2:
            i = r.randrange(len(ls) - 1)
            j = r.randrange(i + 1, len(ls) + 1)
            inner = tuple(ls[i:j])
            if r.random() < 0.4:
                inner = (("Sequential", inner, {}),)
            ls = ls[:i] + [("Sequential", inner, {})] + ls[j:]
            label += f" nested [{i}:{j}]"
        return (label, (lambda: (D("Ci"), D("H") * 2, D("W") * 2)) if img else (lambda: (D("N"),)), tuple(ls))

    for a in STEPS:
        for b in STEPS:
            q = make([a, b], random.Random(3), f"{a},{b}")
            if q:
                out.append(q)
    r = random.Random(11)
    n = 40 if tier == "quick" else 300
    while n:
        names = [r.choice(list(STEPS)) for _ in range(r.randint(3, 6))]
        q = make(names, r, ",".join(names), groups=r.random() < 0.5)
        if q and q[0] not in [o[0] for o in out]:
            out.append(q)
            n -= 1
    return out


def mk_torch(pr, spec):
    n, a, k = spec
    if n == "Sequential":
        return tlayer(pr, n, *[mk_torch(pr, s) for s in a])
    f = lambda v: v() if callable(v) else tuple(f(q) for q in v) if isinstance(v, tuple) else v
    return tlayer(pr, n, *[f(x) for x in a], **{q: f(v) for q, v in k.items()})


@rule("C16")
def c16(rep):
    for label, shape, ls in convs(rep.tier):
        def run(pr, label=label, shape=shape, ls=ls):
            net, e = attempt(lambda: tlayer(pr, "Sequential", *[mk_torch(pr, s) for s in ls]))
            if e is not None:
                return []
            ws = arb_weights(pr, net)
            x = sym("x", (D("B"), *shape()))
            wh = "nnj/utils.py:convert_to_nnj"
            r, e = attempt(lambda: pr.run(pr.cls("convert_to_nnj"), net))
            if e is not None:
                ok = label not in MUSTCONV and not any(label == q[0] for q in stacks(rep.tier))
                return [Fact("refused", ok, f"convert_to_nnj refuses {label}: {e}", wh)]
            want, e = attempt(lambda: pr.run(net, snap(x)))
            if e is not None:
                return []
            got, e = attempt(lambda: pr.run(r, snap(x)))
            if e is not None:
                return [Fact("converted network runs", False, f"the converted {label} fails: {e}", wh)]
            obs = [Ob("converted network computes the same function", got, want, wh)]
            ps, qs = [p for _, p in pr.I.tm.named_params(net)], [p for _, p in pr.I.tm.named_params(r)]
            obs.append(Fact("same parameters", len(ps) == len(qs), f"{label}: {len(qs)} parameters instead of {len(ps)}", wh))
            for k, (p, q) in enumerate(zip(ps, qs)):
                obs.append(Ob(f"parameter {k}", q, p, wh))
            obs.append(Fact("result is a nnj.Sequential", pr.I.tm.isinstance_(r, pr.cls("Sequential")), f"{label} is converted to {r!r}", wh))
            return obs
        scenario(rep, f"convert_to_nnj({label})", run, ("normal", "ints"), limit=64)


MUSTCONV = ("Linear", "Linear(bias=False)", "Linear,Tanh,Linear", "Tanh", "ReLU", "Sigmoid", "Softplus", "Softplus(beta=2,threshold=1)", "Conv2d(3,{})", "Conv2d((2,3),{})", "Conv2d(3,{'padding': 1})", "Conv2d(3,{'bias': False})",
            "MaxPool2d({'kernel_size': 2})", "MaxPool2d({'kernel_size': 3, 'stride': 1})", "Upsample({'scale_factor': 2})", "Flatten({})", "nested", "cnn", "decoder")


# --- types and devices ---------------------------------------------------------------------------------------------------------------------
def typed(pr, lay, dtype, device):
    """a module, input and weights of the given type on the given device"""
    w = World.__new__(World)
    w.pr, w.lay, w._val, w._J, w.operands = pr, lay, None, {}, {}
    w.m = lay.build(pr)
    pr.I.tm.convert(w.m, dtype, device)
    w.ws = arb_weights(pr, w.m)
    w.x = lay.x(dtype=dtype, device=device)
    return w


def typefacts(r, dtype, device, what, where):
    out = []
    for t in flatlist(r):
        if t is None:
            continue
        ok = isinstance(t, T) and t.dtype == dtype and t.device == device
        out.append(Fact("type and device kept", ok, f"{what} returns {t.dtype + ' on ' + t.device if isinstance(t, T) else t!r} for {dtype} on {device}", where))
    return out


TYPES = [("f64", "cpu"), ("f16", "cpu"), ("bf16", "dev"), ("f32", "dev")]


@rule("C17")
def c17(rep):
    for dtype, device in TYPES if rep.tier != "quick" else TYPES[:1] + TYPES[2:3]:
        tag = f"{dtype}/{device}"
        for lay in everything(rep.tier):
            for name, fd, td in [("forward", None, None)] + ALLM:
                for wrt in WRT:
                    if (wrt == "weight" and not lay.param) or (name == "forward" and wrt == "weight"):
                        continue
                    for none in ((False, True) if name not in ("forward", "jacobian", "jvp", "vjp") else (False,)):
                        for extra in (({}, {"diag_backprop": True}) if fd and td else ({}, {"diag": True}) if name == "jacobian" and lay.diag else ({},)):
                            def run(pr, lay=lay, name=name, fd=fd, td=td, wrt=wrt, none=none, dtype=dtype, device=device, extra=extra):
                                so = netsize(pr, lay)
                                w = typed(pr, lay, dtype, device)
                                where = pr.where(w.m, name)
                                if name == "forward":
                                    r = w.forward()
                                else:
                                    B, n, o = w.B(), w.nin(wrt), prod(so[1:])
                                    k = n if name in ("jmjTp", "jvp", "jmp") else o
                                    sh = {"jvp": (B, n), "jmp": (B, n, D("K")), "vjp": (B, o), "mjp": (B, D("K"), o)}.get(name, (B, k) if fd else (B, k, k))
                                    args = [] if name == "jacobian" else [None if none else sym("v", sh, dtype=dtype, device=device)]
                                    kw = {"wrt": wrt, **extra}
                                    if fd is not None:
                                        kw.update(from_diag=fd, to_diag=td)
                                    r = w.call(name, w.x, None, *args, **kw)
                                return typefacts(r, dtype, device, f"{name} of {lay.label}", where)
                            ex = "".join(f", {k}" for k in extra)
                            scenario(rep, f"{lay.label}.{tagof(name, fd, td)}({wrt}{', None' if none else ''}{ex}) in {tag}", run, on_raise=notimpl(True))
        for cls in LIKES:
            for what in ("forward", "gradient", "ggn"):
                for agg in ("return all", "sum", "average"):
                    for ms, mb in ((("diag", "exact"), ("full", "exact"), ("diag", "approx")) if what == "ggn" else (("diag", "exact"),)):
                        if mb == "approx" and cls == "LogBernoulli":
                            continue
                        for wrt in WRT if what != "forward" else ("weight",):
                            def run(pr, cls=cls, what=what, agg=agg, ms=ms, mb=mb, wrt=wrt, dtype=dtype, device=device):
                                net = nets("quick")[1]
                                so = netsize(pr, net)
                                w = typed(pr, net, dtype, device)
                                t = sym("t", so, kind="unit", dtype=dtype, device=device)
                                l = pr.new(cls, aggregate_batch=agg, metric_shape=ms, metric_backprop=mb)
                                kw = {} if what == "forward" else {"wrt": wrt}
                                r = pr(l, what, w.x, w.m, t, **kw)
                                return typefacts(r, dtype, device, f"{cls}.{what}", pr.where(l, what))
                            scenario(rep, f"{cls}({agg}, {ms}, {mb}).{what}({wrt}) in {tag}", run)
        for blk in (2, 3):
            def run(pr, blk=blk, dtype=dtype, device=device):
                n = D("N")
                A = sym("A", (n, n) if blk == 2 else (D("B"), n, n), kind="spd", dtype=dtype, device=device)
                f = pr.I.getattr(pr.M, "utils")
                r = pr.run(pr.I.getattr(f, "invert_block_diagonal"), [A, [A]])
                return typefacts(r, dtype, device, "invert_block_diagonal", "nnj/utils.py:invert_block_diagonal")
            scenario(rep, f"invert_block_diagonal/{blk}d in {tag}", run)


# --- unsupported configurations -----------------------------------------------------------------------------------------------------------------
def configs(tier):
    """(label, class, args, kwargs, input shape)"""
    ci, co = lambda: D("Ci"), lambda: D("Co")
    img = lambda: (D("Ci"), D("H", 5), D("W", 5))
    four = lambda: (4, D("H", 5), D("W", 5))
    out = []

    def c(*a, sh=img, **k):
        out.append(("Conv2d", (ci, co) + a, k, sh))
    for s in (2, 3, (2, 1), (1, 2), (2, 2)):
        c(3, stride=s)
        c(2, dilation=s)
        c((3, 2), stride=s, padding=1)
    c(3, 2)
    c(3, (1, 2), 1)
    c(3, 1, 1, 2)
    c(2, 1, 0, (2, 1))
    c(2, stride=2, dilation=2)
    c(3, stride=2, use_vmap_for_backprop=False)
    c(3, dilation=2, use_vmap_for_backprop=False)
    for pm in ("reflect", "replicate", "circular"):
        c(3, padding=1, padding_mode=pm)
        c(3, padding=(1, 0), padding_mode=pm)
        c(3, padding=(0, 1), padding_mode=pm, bias=False)
        c(3, padding=0, padding_mode=pm)
        c(3, padding=1, padding_mode=pm, use_vmap_for_backprop=False)
    for g in (2, 4):
        out.append(("Conv2d", (4, 4, 3), {"groups": g}, four))
        out.append(("Conv2d", (4, 8, 2), {"groups": g, "bias": False, "padding": 1}, four))
    out.append(("Conv2d", (4, 4, 3, 1, 1, 1, 2), {}, four))
    for p in ("same", "valid"):
        c(3, padding=p)
        c((3, 2), padding=p)
    # accepted ones
    c(3, stride=1, dilation=1, groups=1, padding_mode="zeros")
    c(3, stride=(1, 1), dilation=(1, 1), padding=(1, 0))
    c((2, 3), (1, 1), 1, (1, 1), 1, False, "zeros")
    c(1)

    def u(*a, sh=lambda: (D("Ci"), D("H"), D("W")), **k):
        out.append(("Upsample", a, k, sh))
    for m in ("bilinear", "nearest-exact", "bicubic"):
        u(scale_factor=2, mode=m)
        u(None, 2, m)
    for s in (1.5, 0.5, 2.5, (2, 3), (2.0, 2.0), (1.5, 2), (2, 1), (1, 2)):
        u(scale_factor=s)
        u(None, s)
    u(size=4)
    u(size=(3, 4))
    u((3, 3))
    u(6)
    u(scale_factor=2, mode="bilinear", align_corners=True)
    u(scale_factor=2, mode="bilinear", align_corners=False)
    u(scale_factor=1.5, mode="bilinear")
    u(scale_factor=1.5, recompute_scale_factor=True)
    u(scale_factor=0.5, recompute_scale_factor=True)
    u(scale_factor=2, recompute_scale_factor=True)
    u(scale_factor=2.0)
    u(scale_factor=3, mode="nearest")
    u(None, 2, "nearest")

    def p(*a, **k):
        out.append(("MaxPool2d", a, k, img))
    p(2)
    p(2, return_indices=True)
    p((2, 3))
    p(2, 1)
    p(3, 2, 1)
    p(2, (1, 2), (1, 0))
    p(2, 1, 0, 2)
    p(2, 1, 0, (1, 2))
    p((3, 2), ceil_mode=True)
    p(3, 2, 1, 1, False, True)
    p(2, 3, ceil_mode=True)

    def e(cls, *a, sh=v1, **k):
        out.append((cls, a, k, sh))
    e("Softplus", 2)
    e("Softplus", 0.5, 3)
    e("Softplus", beta=3, threshold=1)
    e("Softplus", beta=1, threshold=0)
    e("Linear", lambda: D("N"), lambda: D("O"), False)
    e("Linear", lambda: D("N"), lambda: D("O"), bias=True)
    e("Flatten", sh=lambda: (D("Ci"), D("H"), D("W")))
    e("Flatten", 1, sh=lambda: (D("Ci"), D("H"), D("W")))
    e("Flatten", 1, -1, sh=lambda: (D("Ci"), D("H"), D("W")))
    e("Reshape", lambda: D("Ci") * D("H"), lambda: D("W"), sh=lambda: (D("Ci"), D("H"), D("W")))
    e("ReLU", False)
    return out


REFUSED = ("ValueError", "NotImplementedError", "AssertionError", "TypeError", "RuntimeError")


@rule("C18")
def c18(rep):
    for cls, a, k, sh in configs(rep.tier):
        label = f"{cls}({', '.join([('size' if callable(x) else repr(x)) for x in a] + [f'{q}={x!r}' for q, x in k.items()])})"

        def mk_(pr, cls=cls, a=a, k=k):
            pr.cls(cls)
            return pr.new(cls, *[x() if callable(x) else x for x in a], **{q: (x() if callable(x) else x) for q, x in k.items()})
        kinds = [("jacobian", None, None), ("vjp", None, None), ("mjp", None, None), ("jvp", None, None), ("jmp", None, None)] + [
            ("jTmjp", fd, td) for fd, td in MODES4] + ([("jmjTp", fd, td) for fd, td in MODES4] if rep.tier != "quick" else [("jmjTp", True, True), ("jmjTp", False, False)])
        lay = L(label, cls, mk_, sh, param=cls in ("Conv2d", "Linear"))
        for name, fd, td in kinds:
            for wrt in WRT:
                if wrt == "weight" and not lay.param:
                    continue

                def run(pr, lay=lay, name=name, fd=fd, td=td, wrt=wrt):
                    m, e = attempt(lambda: lay.build(pr))
                    if e is not None:
                        if e.name() in REFUSED:
                            return [Fact("refused at construction", True)]
                        raise e
                    # a configuration torch itself cannot run is not accepted by anybody
                    so, e = attempt(lambda: netsize(pr, lay))
                    if e is not None:
                        return []
                    w = World(pr, lay)
                    r, v = call_any(w, name, fd, td, wrt, so)
                    J = w.J(wrt)
                    if name == "jacobian":
                        ex = J
                    elif name in PEQ:
                        ex = einsum(PEQ[name], [J, v])
                    else:
                        ex = (metric_forward if name == "jmjTp" else metric_backward)(J, v, fd, td)
                    return [Ob("accepted configuration is handled", r, ex, pr.where(w.m, "__init__"))]
                scenario(rep, f"{label}.{tagof(name, fd, td)}({wrt})", run, ("normal", "ints") if cls == "MaxPool2d" else ("normal",), on_raise=notimpl(name in ("jvp", "jmp", "jmjTp")))


# --- weights ---------------------------------------------------------------------------------------------------------------------------------------
def weight_of(w, vec):
    """parameters of the module read from a flat vector"""
    out, off = [], topoly(0)
    for n, p, _ in w.ws:
        out.append(T(p.shape, lambda i, off=off, p=p: vec.at([off + flat(i, p.shape)])))
        off = off + prod(p.shape)
    return out


@rule("C19")
def c19(rep):
    for lay in everything(rep.tier):
        if not lay.param:
            def run(pr, lay=lay):
                w = World(pr, lay)
                return [Fact("no parameters", not w.ws, f"{lay.label} has parameters", pr.where(w.m, "__init__"))]
            scenario(rep, f"{lay.label} has no parameters", run)
            continue

        def read(pr, lay=lay):
            w = World(pr, lay)
            r = w.call("get_weight")
            wh = pr.where(w.m, "get_weight")
            old = [(n, p, snap(p)) for n, p, _ in w.ws]
            obs = [Ob("get_weight is the flattened parameters", r, T((w.nin("weight"),), lambda i: flat_weight(w, i[0])), wh),
                   Fact("the read vector is detached", not r.rg, f"get_weight of {lay.label} returns a tensor that requires grad", wh)]
            jw, e = attempt(lambda: w.call("jacobian", w.x, None, wrt="weight"))
            if e is None:
                obs.append(Ob("one column of the Jacobian per weight", r.shape[0], jw.shape[2], wh))
            r2 = snap(r)
            q = sym("q", r.shape)
            r.write(lambda i: q.at(i))
            obs += [Ob(f"the read vector is a copy ({n})", snap(p), s, wh) for n, p, s in old]
            # and later changes of the module do not reach it
            r = w.call("get_weight")
            for n, p, s in old:
                z = sym(fresh("z"), p.shape)
                p.write(lambda i, z=z: z.at(i))
            obs.append(Ob("the read vector is a copy", r, r2, wh))
            return obs
        scenario(rep, f"{lay.label}.get_weight", read, ndims=3)

        def write(pr, lay=lay):
            w, w2 = World(pr, lay), World(pr, lay)
            wh = pr.where(w.m, "set_weight")
            n = w.nin("weight")
            ACCSHAPE["nw"] = (n,)
            vec = sym("nw", (n,))
            before = [(nm, p, p.shape, p.dtype, p.device, p.rg, p.is_param) for nm, p in pr.I.tm.named_params(w.m)]
            w.call("set_weight", vec)
            after = pr.I.tm.named_params(w.m)
            obs = [Fact("parameters kept", len(after) == len(before) and all(a[0] == b[0] and a[1] is b[1] for a, b in zip(after, before)), "set_weight replaces the parameter objects", wh)]
            for nm, p, s, d, dv, rg, isp in before:
                obs.append(Fact(f"{nm} keeps shape, type and trainability", [str(q) for q in p.shape] == [str(q) for q in s] and (p.dtype, p.device, p.rg, p.is_param) == (d, dv, rg, isp), f"set_weight changes shape, type or requires_grad of {nm}", wh))
            obs.append(Ob("get_weight after set_weight", w.call("get_weight"), vec, pr.where(w.m, "get_weight")))
            # the second module gets the same values one by one
            for (nm, p, _), e in zip(w2.ws, weight_of(w, vec)):
                p.write(lambda i, e=e: e.at(i))
            so = netsize(pr, lay)
            obs.append(Ob("forward uses the new weights", w.forward(), pr.run(w2.m, w2.x), wh))
            for name, fd, td, wrt in (("jacobian", None, None, "input"), ("vjp", None, None, "weight"), ("jTmjp", True, True, "weight"), ("jTmjp", True, True, "input")):
                obs.append(Ob(f"{name} uses the new weights", call_any(w, name, fd, td, wrt, so)[0], call_any(w2, name, fd, td, wrt, so)[0], wh))
            return obs
        scenario(rep, f"{lay.label}.set_weight", write, ndims=2)

        def alias(pr, lay=lay):
            w = World(pr, lay)
            wh = pr.where(w.m, "set_weight")
            n = w.nin("weight")
            vec = sym("nw", (n,))
            orig = snap(vec)
            w.call("set_weight", vec)
            obs = [Ob("set_weight leaves the vector alone", vec, orig, wh)]
            z = sym("z", (n,))
            vec.write(lambda i: z.at(i))
            obs.append(Ob("set_weight copies the vector", w.call("get_weight"), orig, wh))
            # and training the module does not write into the vector
            w.call("set_weight", vec)
            for k, (nm, p, _) in enumerate(w.ws):
                q = sym(f"q{k}", p.shape)
                p.write(lambda i, q=q: q.at(i))
            obs.append(Ob("the module does not write into the vector", vec, z, wh))
            return obs
        scenario(rep, f"{lay.label}.set_weight copies", alias, ndims=2)

        def roundtrip(pr, lay=lay):
            """read, change, write back on the same and on another module; after products and in other types"""
            w, w2 = World(pr, lay), World(pr, lay)
            wh = pr.where(w.m, "set_weight")
            so = netsize(pr, lay)
            call_any(w, "vjp", None, None, "weight", so)
            w0 = w.call("get_weight")
            keep = snap(w0)
            n = w.nin("weight")
            w.call("set_weight", sym("nw", (n,)))
            call_any(w, "jTmjp", True, True, "weight", so)
            w.call("set_weight", w0)
            obs = [Ob("writing back the read vector restores it", w.call("get_weight"), keep, wh)]
            for (nm, p, an) in w.ws:
                obs.append(Ob(f"{nm} is restored", p, T(p.shape, lambda i, an=an: acc(an, i)), wh))
            return obs
        scenario(rep, f"{lay.label}.set_weight(get_weight())", roundtrip, ndims=2)

        def frozen(pr, lay=lay):
            w = World(pr, lay)
            wh = pr.where(w.m, "set_weight")
            for k, (nm, p, _) in enumerate(w.ws):
                p.rg = k % 2 == 0
            fl = [p.rg for _, p, _ in w.ws]
            n = w.nin("weight")
            vec = sym("nw", (n,), rg=True)
            w.call("set_weight", vec)
            r = w.call("get_weight")
            return [Fact("trainability kept", [p.rg for _, p, _ in w.ws] == fl, "set_weight changes requires_grad", wh),
                    Ob("all parameters are written, frozen or not", r, vec, wh)]
        scenario(rep, f"{lay.label}.set_weight with frozen parameters", frozen, ndims=1)
        for dtype in ("f64", "f16"):
            def dtyped(pr, lay=lay, dtype=dtype):
                w = typed(pr, lay, dtype, "cpu")
                r = w.call("get_weight")
                n = w.nin("weight")
                obs = typefacts(r, dtype, "cpu", "get_weight", pr.where(w.m, "get_weight"))
                w.call("set_weight", sym("nw", (n,), dtype=dtype))
                for nm, p, _ in w.ws:
                    obs.append(Fact(f"{nm} keeps its type", p.dtype == dtype, f"set_weight changes the type of {nm} to {p.dtype}", pr.where(w.m, "set_weight")))
                return obs
            scenario(rep, f"{lay.label} weights in {dtype}", dtyped, ndims=1)


# --- completeness ----------------------------------------------------------------------------------------------------------------------------------
PARTIAL = ("Conv2d", "MaxPool2d", "Upsample")


def partial(lay):
    if isinstance(lay, Net):
        return any(l.new[0] in PARTIAL for l in leaves(lay.tree()))
    return lay.cls in PARTIAL


@rule("C20")
def c20(rep):
    for lay in everything(rep.tier):
        for name, fd, td in ALLM:
            for wrt in WRT:
                if wrt == "weight" and not lay.param:
                    continue
                for given in (False, True):
                    for none in ((False, True) if name not in ("jacobian", "jvp", "vjp") else (False,)):
                        for extra in (({}, {"diag_backprop": True}) if fd and td else ({}, {"diag": True}, {"diag": False}) if name == "jacobian" and lay.diag else ({},)):
                            def run(pr, lay=lay, name=name, fd=fd, td=td, wrt=wrt, given=given, none=none, extra=extra):
                                so = netsize(pr, lay)
                                w = World(pr, lay)
                                val = World(pr, lay).val() if given else None
                                r, _ = call_any(w, name, fd, td, wrt, so, val=val, none=none, extra=extra)
                                fl = flatlist(r)
                                return [Fact("a value is returned", bool(fl) and all(isinstance(t, T) for t in fl), f"{name} wrt {wrt} of {lay.label} returns {r!r}", pr.where(w.m, name))]
                            fw = name in ("jvp", "jmp", "jmjTp")
                            scenario(rep, f"{lay.label}.{tagof(name, fd, td)}({wrt}{', val' if given else ''}{', None' if none else ''}{''.join(', ' + k for k in extra)}) is implemented", run, ndims=1, on_raise=notimpl2(fw and partial(lay)))
    for lay in layers(rep.tier):
        if lay.cls in PARTIAL:
            for name in ("jvp", "jmp"):
                for wrt in WRT if lay.param else ("input",):
                    products(rep, lay, name, wrt, givens=(False,))
            for wrt in WRT if lay.param else ("input",):
                for fd, td in MODES4:
                    metric(rep, lay, "jmjTp", wrt, fd, td, givens=(False,))


def notimpl2(ok):
    def f(e):
        if ok and e.name() == "NotImplementedError":
            return "ok"
        return "violation"
    return f


# --- block inverse -----------------------------------------------------------------------------------------------------------------------------------
@rule("C21")
def c21(rep):
    WH = "nnj/utils.py:invert_block_diagonal"

    def blk(name, nd):
        n = D("n" + name)
        return sym(name, (n, n) if nd == 2 else (D("B"), n, n), kind="spd")

    def inv(A):
        eq = "ij,jk->ik" if len(A.shape) == 2 else "bij,bjk->bik"
        idn = T(A.shape, lambda i: ind(ceq(i[-1] - i[-2])))
        return eq, idn

    def struct(s, env):
        return [struct(q, env) for q in s] if isinstance(s, (list, tuple)) else env[s]

    shapes = {"matrix": "a", "list of one": ["a"], "list": ["a", "b", "c"], "nested list": ["a", ["b", "c"], [["d"]]], "empty list": [], "nested first": [["a", "b"], "c"], "same block twice": ["a", "b", "a"],
              "empty list between blocks": ["a", [], ["b", []]]}
    for sname, s in shapes.items():
        for nds in ((2, 2, 2, 2), (3, 3, 3, 3), (2, 3, 3, 2)):
            if len(set(nds)) > 1 and not isinstance(s, list):
                continue

            def run(pr, s=s, nds=nds):
                f = pr.I.getattr(pr.I.getattr(pr.M, "utils"), "invert_block_diagonal")
                env = {k: blk(k, nd) for k, nd in zip("abcd", nds)}
                arg = struct(s, env)
                r = pr.run(f, arg)
                obs = []

                def go(r, s, path):
                    if isinstance(s, list):
                        ok = isinstance(r, (list, tuple)) and len(r) == len(s)
                        obs.append(Fact("one inverse per block", ok, f"{path}: {len(s)} blocks give {len(r) if isinstance(r, (list, tuple)) else r!r}", WH))
                        if ok:
                            for k, (q, t) in enumerate(zip(r, s)):
                                go(q, t, f"{path}[{k}]")
                        return
                    if not isinstance(r, T):
                        obs.append(Fact("one inverse per block", False, f"{path} is {r!r}", WH))
                        return
                    A = env[s]
                    eq, idn = inv(A)
                    if len(r.shape) != len(A.shape):
                        obs.append(Ob("inverse of the block", r, A, WH))
                        return
                    obs.append(Ob("inverse of the block", einsum(eq, [T(A.shape, lambda i: acc(s, i)), r]), idn, WH, tol=1e-6))
                go(r, s, "result")
                for k, A in env.items():
                    obs.append(Ob("block not modified", A, T(A.shape, lambda i, k=k: acc(k, i)), WH))
                if isinstance(arg, list):
                    obs.append(Fact("list not modified", _same(arg, struct(s, env)), "the given list is changed", WH))
                return obs
            scenario(rep, f"invert_block_diagonal({sname}, {'/'.join(map(str, sorted(set(nds))))}d)", run, ndims=3)

    # blocks that come from a network
    def real(pr):
        net = nets("quick")[1]
        so = netsize(pr, net)
        w = World(pr, net)
        r, _ = call_any(w, "jTmjp", True, False, "weight", so)
        shapes_ = [t.shape for t in flatlist(r)]
        reg = [sym(f"g{k}", s, kind="spd") for k, s in enumerate(shapes_)]
        f = pr.I.getattr(pr.I.getattr(pr.M, "utils"), "invert_block_diagonal")
        z = flatlist(pr.run(f, reg))
        return [Fact("one inverse per block", len(z) == len(reg), f"{len(reg)} blocks give {len(z)}", WH)] + [
            Ob("inverse of the block", einsum("bij,bjk->bik", [a, b]), T(a.shape, lambda i: ind(ceq(i[1] - i[2]))), WH, tol=1e-6) for a, b in zip(reg, z)]
    scenario(rep, "invert_block_diagonal(blocks of a network)", real)


def _same(a, b):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    return a is b


# --- size of intermediate results -----------------------------------------------------------------------------------------------------------------------
@rule("C22")
def c22(rep):
    for lay in layers(rep.tier):
        if lay.cls == "L2Norm":
            continue
        for wrt in WRT if lay.param else ("input",):
            for given in (False, True):
                for none in (False, True):
                    def run(pr, lay=lay, wrt=wrt, given=given, none=none):
                        from .engine import DIMS, Sizes
                        so = netsize(pr, lay)
                        w = World(pr, lay)
                        val = World(pr, lay).val() if given else None
                        c = tz.ctx()
                        n, o = w.nin(wrt), prod(so[1:])
                        M = None if none else sym("M", (w.B(), o))
                        c.log = []
                        w.call("jTmjp", w.x, val, M, wrt=wrt, from_diag=True, to_diag=True)
                        log, c.log = c.log, None
                        for k, v in BIG.items():
                            DIMS[k] = v
                        for a in list(LB):
                            if a.kind == "d" and a.key not in DIMS and a.key not in DIMDEF:
                                DIMS[a.key] = [37]
                        kern = 1
                        for _, p, _ in w.ws:
                            if len(p.shape) == 4:
                                kern = p.shape[2] * p.shape[3]
                        for k in ("kernel_size",):
                            kk = w.m.attrs.get(k)
                            if kk is not None:
                                kk = kk if isinstance(kk, tuple) else (kk, kk)
                                kern = topoly(kk[0]) * topoly(kk[1])
                        return [Sizes("no quadratic intermediate", log, w.B(), [per_sample(w.x), o, nparams(w.ws)], kern, pr.where(w.m, "jTmjp"))]
                    scenario(rep, f"{lay.label}.jTmjp({wrt}, diag->diag{', val' if given else ''}{', None' if none else ''}) memory", run, ndims=8)


BIG = {"B": [2], "N": [3, 700], "O": [3, 700], "Ci": [2, 30], "Co": [2, 30], "H": [40], "W": [40], "K": [3]}


# --- memory layout of the arguments ---------------------------------------------------------------------------------------------------------------------
@rule("C25")
def c25(rep):
    from .engine import Prog, Report
    for pid in ("C01", "C03", "C04", "C05", "C06", "C07", "C14", "C21"):
        if pid == "C06" and rep.tier == "quick":
            r = Report(pid, rep.tier, rep.seed)
            for lay in nets("quick", rand=False):
                if not lay.heavy:
                    container(r, lay)
        else:
            r = Report(pid, rep.tier, rep.seed)
            RULES[pid](r)
        for name, run, a, k in r.jobs:
            if rep.tier == "quick" and pid in ("C06", "C07") and ", val" in name:
                continue

            def both(pr, run=run):
                c = tz.ctx()
                try:
                    plain = run(pr)
                except PyErr:
                    return []          # refused whatever the layout
                n0 = c.nparam
                c.nparam, c.strided = 0, True
                try:
                    other = run(Prog())
                finally:
                    c.strided = False
                    c.nparam = n0
                out = []
                for p, q in zip(plain, other):
                    if isinstance(p, Ob) and isinstance(q, Ob):
                        out.append(Ob(f"{q.label}: strided arguments", q.actual, p.actual, q.where))
                return out
            k = {key: v for key, v in k.items() if key in ("limit", "tables")}
            scenario(rep, f"{name}, strided arguments", both, (a[0][:1] if a else ("normal",)), ndims=1 if rep.tier == "quick" else 2, **k)


# --- forward pass ------------------------------------------------------------------------------------------------------------------------------------
class Args:
    """stands for the package, remembers what is constructed"""

    def new(self, cls, *a, **k):
        return cls, a, k


def counterpart(pr, cls, a, k, m, x):
    """output of the torch layer of that name (or of the documented formula), with the parameters of m"""
    from .expr import fn, div, num as n_
    if cls == "Reshape":
        return tz.reshape(x, (x.shape[0], *a))
    if cls in ("Sinusoidal", "TruncExp"):
        return T(x.shape, lambda i: fn("sin" if cls == "Sinusoidal" else "exp", x.at(i)), x.dtype)
    if cls == "L2Norm":
        eps = a[0] if a else k.get("eps", 1e-6)
        from fractions import Fraction
        from .expr import sum_
        from .poly import newvar, V
        n = per_sample(x)

        def f(i):
            v = newvar(n, "j")
            e = x.at([i[0], *unflat(V(v), x.shape[1:])])
            return div(x.at(i), add(fn("sqrt", sum_(v, n, mul(e, e))), num(Fraction(eps))))
        return T(x.shape, f, x.dtype)
    nn = pr.I.getattr(pr.I.tm.mods["torch"], "nn")
    k = {q: v for q, v in k.items() if q != "use_vmap_for_backprop"}
    t = pr.run(pr.I.getattr(nn, cls), *a, **k)
    for q, p in t.attrs["_parameters"].items():
        if p is not None:
            t.attrs["_parameters"][q] = m.attrs["_parameters"][q]
    return pr.run(t, x)


def by_torch(pr, node, objs, x):
    if node.kind == "leaf":
        cls, a, k = node.new
        ev = lambda q: q() if callable(q) else q
        return counterpart(pr, cls, [ev(q) for q in a], {n: ev(q) for n, q in k.items()}, objs[id(node)], x)
    y = x
    for n in node.kids:
        y = by_torch(pr, n, objs, y)
    if node.kind == "seq":
        return y
    c = x.shape[1]
    return T((x.shape[0], c + y.shape[1], *y.shape[2:]), lambda i: ite(cge(c - 1 - i[1]), x.at(i), y.at([i[0], i[1] - c, *i[2:]])))


@rule("C26")
def c26(rep):
    cf = [L(f"{cls}({', '.join([('size' if callable(x) else repr(x)) for x in a] + [f'{q}={x!r}' for q, x in k.items()])})", cls,
            lambda pr, cls=cls, a=a, k=k: pr.new(cls, *[x() if callable(x) else x for x in a], **k), sh) for cls, a, k, sh in configs(rep.tier)]
    cf += [L("L2Norm(0.25)", "L2Norm", lambda pr: pr.new("L2Norm", 0.25), v1), L("L2Norm(eps=2.0)/4d", "L2Norm", lambda pr: pr.new("L2Norm", eps=2.0), v3),
           L("ReLU()/3d", "ReLU", lambda pr: pr.new("ReLU"), lambda: (D("Ci"), D("H")), modes=("normal", "ints"))]
    for lay in layers(rep.tier) + cf:
        for grad in (True, False):
            def run(pr, lay=lay, grad=grad):
                c = tz.ctx()
                m, e = attempt(lambda: lay.build(pr))
                if e is not None:
                    return []                      # refused: another property
                arb_weights(pr, m)
                x = lay.x()
                cls, a, k = lay.build(Args())
                exp, e = attempt(lambda: counterpart(pr, cls, a, k, m, x))
                if e is not None:
                    return []                      # torch refuses the input too
                c.grad = grad
                r = pr.run(m, x)
                c.grad = True
                return [Ob("forward pass", r, exp, pr.where(m, "forward"))]
            scenario(rep, f"{lay.label}.forward{'' if grad else ' without grad'}", run, ("normal", "ints", "big") if lay.cls in ("MaxPool2d", "ReLU", "TruncExp") else ("normal", "big"))
    for lay in nets(rep.tier) + nets(rep.tier, skip_only=True):
        def run(pr, lay=lay):
            m = lay.build(pr)
            tree, objs, _ = pr.last
            arb_weights(pr, m)
            x = lay.x()
            exp = by_torch(pr, tree, objs, x)
            r = pr.run(m, x)
            return [Ob("forward pass", r, exp, pr.where(m, "forward"))]
        scenario(rep, f"{lay.label}.forward", run)


# --- containers edited in place -------------------------------------------------------------------------------------------------------------------------
def edits():
    """(label, container kind, first layers, edit)"""
    N, Q, O = (lambda: D("N")), (lambda: D("Q")), (lambda: D("O"))
    new = lambda pr, cls, *a, **k: pr.new(cls, *a, **k)
    base = lambda pr: [new(pr, "Linear", N(), Q()), new(pr, "Tanh"), new(pr, "Linear", Q(), Q(), bias=False)]
    lin_ = lambda pr, a, b, **k: new(pr, "Linear", a, b, **k)

    def setitem(k, f):
        def g(pr, m):
            pr(m, "__setitem__", k, f(pr))
        return g
    out = [
        ("append(Linear)", lambda pr, m: pr(m, "append", lin_(pr, Q(), O()))),
        ("append(Tanh)", lambda pr, m: pr(m, "append", new(pr, "Sigmoid"))),
        ("append(SkipConnection)", lambda pr, m: pr(m, "append", new(pr, "SkipConnection", lin_(pr, Q(), O())))),
        ("insert(1, Linear)", lambda pr, m: pr(m, "insert", 1, lin_(pr, Q(), Q()))),
        ("insert(0, Sigmoid)", lambda pr, m: pr(m, "insert", 0, new(pr, "Sigmoid"))),
        ("insert(3, Sinusoidal)", lambda pr, m: pr(m, "insert", 3, new(pr, "Sinusoidal"))),
        ("extend", lambda pr, m: pr(m, "extend", [lin_(pr, Q(), O()), new(pr, "Tanh")])),
        ("+=", lambda pr, m: pr(m, "__iadd__", new(pr, "Sequential", lin_(pr, Q(), O()), new(pr, "Tanh")))),
        ("m[0] = Linear", setitem(0, lambda pr: lin_(pr, N(), Q(), bias=False))),
        ("m[1] = Sigmoid", setitem(1, lambda pr: new(pr, "Sigmoid"))),
        ("m[1] = Linear", setitem(1, lambda pr: lin_(pr, Q(), Q()))),
        ("m[-1] = Linear", setitem(-1, lambda pr: lin_(pr, Q(), O()))),
        ("del m[2]", lambda pr, m: pr(m, "__delitem__", 2)),
        ("del m[1]", lambda pr, m: pr(m, "__delitem__", 1)),
        ("del m[1:]", lambda pr, m: pr(m, "__delitem__", slice(1, None))),
        ("pop(-1)", lambda pr, m: pr(m, "pop", -1)),
        ("add_module", lambda pr, m: pr(m, "add_module", "head", lin_(pr, Q(), O()))),
        ("m[:2]", lambda pr, m: pr.I.getitem(m, slice(0, 2))),
        ("m[1:]", lambda pr, m: pr.I.getitem(m, slice(1, None))),
        ("m[:2].append(Linear)", lambda pr, m: pr(pr.I.getitem(m, slice(0, 2)), "append", lin_(pr, Q(), O()))),
    ]
    return base, out


def rebuilt(pr, m):
    """a container made anew of the current layers of m"""
    seqc, skc = pr.cls("Sequential"), pr.cls("SkipConnection")
    if m.cls is seqc:
        return pr.new("Sequential", *[rebuilt(pr, q) for q in m.attrs["_modules"].values()])
    if m.cls is skc:
        inner = [q for q in m.attrs["_modules"].values()]
        if len(inner) == 1 and inner[0].cls is seqc:
            return pr.new("SkipConnection", *[rebuilt(pr, q) for q in inner[0].attrs["_modules"].values()])
        raise Unsupported("structure of SkipConnection")
    return m


@rule("C27")
def c27(rep):
    base, eds = edits()
    # wrap(pr, inner): the container around the edited one
    wraps = {"": lambda pr, m: m, " inside Sequential": lambda pr, m: pr.new("Sequential", pr.new("Tanh"), m, pr.new("Sigmoid")),
             " inside SkipConnection": lambda pr, m: pr.new("SkipConnection", m)}
    for en, ed in eds:
        for wn, wrap in wraps.items():
            if wn and en.startswith("m[") and "=" not in en:
                continue
            for used in (False, True):
                for name, fd, td in [("forward", None, None), ("get_weight", None, None)] + ALLM:
                    for wrt in WRT if name not in ("forward", "get_weight") else ("input",):
                        if rep.tier == "quick" and (wn or used) and name in ("jmjTp", "jTmjp") and fd != td:
                            continue

                        def run(pr, en=en, ed=ed, wrap=wrap, used=used, name=name, fd=fd, td=td, wrt=wrt):
                            inner = pr.new("Sequential", *base(pr))
                            m = wrap(pr, inner)
                            sz = D("Q") if en in ("m[1:]",) else D("N")
                            x = sym("x", (D("B"), sz))
                            if used:
                                y = sym("y", (D("B"), D("N")))
                                o = pr.run(m, y)
                                pr(m, "vjp", y, None, sym("v0", (D("B"), per_sample(o))), wrt="weight")
                                pr(m, "jTmjp", y, None, None, wrt="weight", from_diag=True, to_diag=True)
                            r = ed(pr, inner)
                            if en.startswith("m[") and "=" not in en:
                                m = r
                            arb_weights(pr, m)
                            new = rebuilt(pr, m)
                            wh = pr.where(m, "forward" if name == "forward" else name)
                            if name == "forward":
                                return [Ob("forward of the edited container", pr.run(m, x), pr.run(new, x), wh)]
                            if name == "get_weight":
                                return [Ob("weights of the edited container", pr(m, name), pr(new, name), wh)]
                            out = pr.run(rebuilt(pr, m), x)
                            B, o, n = x.shape[0], per_sample(out), per_sample(x) if wrt == "input" else nparams([(0, p, 0) for _, p in pr.I.tm.named_params(m)])
                            kw = {"wrt": wrt}
                            if name == "jacobian":
                                args = [x, None]
                            elif name in PEQ:
                                args = [x, None, sym("v", {"jvp": (B, n), "jmp": (B, n, D("K")), "vjp": (B, o), "mjp": (B, D("K"), o)}[name])]
                            else:
                                kk = n if name == "jmjTp" else o
                                args = [x, None, sym("M", (B, kk) if fd else (B, kk, kk))]
                                kw.update(from_diag=fd, to_diag=td)
                            want, e0 = attempt(lambda: pr(new, name, *args, **kw))
                            if e0 is not None:
                                return []          # refused by a new container as well
                            return [Ob(f"{name} of the edited container", pr(m, name, *args, **kw), want, wh)]
                        scenario(rep, f"{en}{wn}{' after use' if used else ''}: {tagof(name, fd, td)}({wrt})", run, ndims=1)


# --- copies --------------------------------------------------------------------------------------------------------------------------------------------
def uncopyable(o, path, seen):
    """values that cannot be copied reachable from o"""
    from .interp import GenV, Obj
    if id(o) in seen:
        return None
    seen[id(o)] = o
    if isinstance(o, GenV):
        return f"{path} is a generator"
    if isinstance(o, Obj):
        kids = o.attrs.items()
    elif isinstance(o, dict):
        kids = o.items()
    elif isinstance(o, (list, tuple)):
        kids = enumerate(o)
    else:
        return None
    for k, v in kids:
        r = uncopyable(v, f"{path}.{k}", seen)
        if r:
            return r


@rule("C28")
def c28(rep):
    ms = [("jacobian", None, None), ("vjp", None, None), ("mjp", None, None), ("jTmjp", True, True), ("jTmjp", False, False), ("jTmjp", True, False)]
    ms2 = ms if rep.tier != "quick" else [("jacobian", None, None), ("vjp", None, None), ("jTmjp", True, True)]
    lays = [l for l in everything(rep.tier)]
    for lay in lays:
        def used(pr, w, lay=lay):
            """a module in the middle of training: its last input has a history"""
            z = lay.x("z", rg=True)
            y = T(z.shape, lambda i: add(z.at(i), z.at(i)), z.dtype)
            y.rg = True
            pr.run(w.m, y)
            return y

        for name, fd, td in ms2:
            for wrt in WRT:
                if wrt == "weight" and not lay.param:
                    continue
                for when in ("new", "used"):
                    def run(pr, lay=lay, name=name, fd=fd, td=td, wrt=wrt, when=when, used=used):
                        so = netsize(pr, lay)
                        w = World(pr, lay)
                        if when == "used":
                            call_any(w, name, fd, td, wrt, so)
                            used(pr, w)
                        cp = World(pr, lay)
                        cp.m = pr.I.tm.deepcopy_(w.m, {})
                        a, e1 = attempt(lambda: call_any(World(pr, lay), name, fd, td, wrt, so)[0])
                        b, e2 = attempt(lambda: call_any(cp, name, fd, td, wrt, so)[0])
                        if e1 is not None:
                            return []
                        if e2 is not None:
                            raise e2
                        obs = [Ob("a copy gives the same results", b, a, pr.where(w.m, name))]
                        if lay.param:
                            # new weights in the copy are those of the copy only, and the other way round
                            u, u2 = sym("u", (nparams(w.ws),)), sym("u2", (nparams(w.ws),))
                            pr(cp.m, "set_weight", u)
                            obs.append(Ob("the original does not follow the copy", call_any(w, name, fd, td, wrt, so)[0], a, pr.where(w.m, name)))
                            ref = World(pr, lay)
                            pr(ref.m, "set_weight", u)
                            pr(w.m, "set_weight", u2)
                            w.forward()
                            obs.append(Ob("the copy does not follow the original", call_any(cp, name, fd, td, wrt, so)[0], call_any(ref, name, fd, td, wrt, so)[0], pr.where(w.m, name)))
                        return obs
                    scenario(rep, f"copy of {'a used ' if when == 'used' else ''}{lay.label}.{tagof(name, fd, td)}({wrt})", run, ndims=1)

        def state(pr, lay=lay, used=used):
            w = World(pr, lay)
            used(pr, w)
            sd = pr(w.m, "state_dict")
            names = [n for n, _ in pr.I.tm.named_params(w.m)]
            tail = set(sd) - set(names)
            w2 = World(pr, lay)
            obs = [Fact("the state is the parameters", not tail and len(sd) == len(names), f"state_dict of {lay.label} has {sorted(sd)}, parameters are {names}", pr.where(w.m, "__init__")),
                   Fact("modules hold nothing that cannot be copied", *(lambda r: (r is None, f"{lay.label}: {r}"))(uncopyable(w.m, "self", {})), pr.where(w.m, "__init__"))]
            if lay.param:
                pr(w2.m, "set_weight", sym("u", (nparams(w.ws),)))
                pr(w2.m, "forward", w2.x)
                pr(w2.m, "load_state_dict", sd)
                obs.append(Ob("a module with loaded state is the same function", pr.run(w2.m, w2.x), w.forward(), pr.where(w.m, "forward")))
            return obs
        scenario(rep, f"state of {lay.label}", state, ndims=1)

        def tied(pr, lay=lay):
            """state names are those of the torch layers"""
            w = World(pr, lay)
            tree = getattr(pr, "last", (None, None, None))[0]
            def expected(node, pre):
                if node.kind == "leaf":
                    return [pre + q for q, p in objs[id(node)].attrs["_parameters"].items() if p is not None]
                out = []
                for k, n in enumerate(node.kids):
                    out += expected(n, f"{pre}{k}." if node.kind == "seq" else f"{pre}_F.{k}.")
                return out
            tree, objs, _ = pr.last
            e = expected(tree, "")
            sd = pr(w.m, "state_dict")
            return [Fact("state names of the torch container", list(sd) == e, f"{list(sd)} instead of {e}", pr.where(w.m, "__init__"))]
        if isinstance(lay, Net) and not lay.label.count("Skip") and lay.param:
            scenario(rep, f"state names of {lay.label}", tied, ndims=1)


# --- ambient state ------------------------------------------------------------------------------------------------------------------------------------------
@rule("C29")
def c29(rep):
    """grad mode, training flag, default type, random numbers"""
    amb = {"without grad": dict(grad=False), "eval mode": dict(train=False), "other default type": dict(default="f64"), "frozen parameters": dict(frozen=True)}

    def under(pr, m, o, f):
        c = tz.ctx()
        g, d = c.grad, c.default_dtype
        c.grad = o.get("grad", True)
        c.default_dtype = o.get("default", d)
        if "train" in o and m is not None:
            pr(m, "eval")
        if "frozen" in o and m is not None:
            pr(m, "requires_grad_", False)
        n0 = getattr(c, "rng", 0)
        try:
            r = f()
            facts = [("grad mode is restored", c.grad == o.get("grad", True), "the call leaves another grad mode behind"),
                     ("default type is kept", c.default_dtype == o.get("default", d), "the call changes the default type"),
                     ("no random numbers", getattr(c, "rng", 0) == n0, "the call draws random numbers")]
            if m is not None and "train" in o:
                facts.append(("training flag is kept", all(q.attrs.get("training") is False for _, q in pr.I.tm.named_modules(m)), "the call changes the training flag"))
        finally:
            c.grad, c.default_dtype = g, d
        return r, facts

    def dts(r):
        return [dts(q) for q in r] if isinstance(r, (list, tuple)) else getattr(r, "dtype", None)

    for an, o in amb.items():
        for lay in everything(rep.tier):
            for name, fd, td in [("forward", None, None)] + ALLM:
                for wrt in WRT if name != "forward" else ("input",):
                    if wrt == "weight" and not lay.param:
                        continue

                    def run(pr, o=o, lay=lay, name=name, fd=fd, td=td, wrt=wrt):
                        so = netsize(pr, lay)
                        w, w2 = World(pr, lay), World(pr, lay)
                        f = lambda w: w.forward() if name == "forward" else call_any(w, name, fd, td, wrt, so)[0]
                        a, e = attempt(lambda: f(w))
                        if e is not None:
                            return []
                        b, facts = under(pr, w2.m, o, lambda: f(w2))
                        wh = pr.where(w2.m, name)
                        return [Ob(f"{name} does not depend on the ambient state", b, a, wh), Fact("type of the result", dts(a) == dts(b), f"{dts(b)} instead of {dts(a)}", wh)] + [
                            Fact(l, ok, f"{name} of {lay.label}: {msg}", wh) for l, ok, msg in facts]
                    scenario(rep, f"{lay.label}.{tagof(name, fd, td)}({wrt}) {an}", run, ndims=1)
        for cls in LIKES:
            for what in ("forward", "gradient", "ggn"):
                for wrt in WRT if what != "forward" else ("weight",):
                    for agg in ("return all", "average"):
                        for ms in (("diag", "full") if what == "ggn" else ("diag",)):
                            def run(pr, o=o, cls=cls, what=what, wrt=wrt, agg=agg, ms=ms):
                                def f():
                                    m, x, out, J, _ = like_model(pr, 1)
                                    t = sym("t", out.shape, kind=TK[cls])
                                    l = pr.new(cls, aggregate_batch=agg, metric_shape=ms)
                                    return lambda: pr(l, what, x, m, t, **({} if what == "forward" else {"wrt": wrt}))
                                a = f()()
                                g = f()
                                b, facts = under(pr, None, o, g)
                                wh = f"nnj/log_likelihoods.py:{cls}.{what}"
                                return [Ob(f"{what} does not depend on the ambient state", b, a, wh), Fact("type of the result", dts(a) == dts(b), f"{dts(b)} instead of {dts(a)}", wh)] + [
                                    Fact(l_, ok, f"{cls}.{what}: {msg}", wh) for l_, ok, msg in facts]
                            scenario(rep, f"{cls}({agg}, {ms}).{what}({wrt}) {an}", run, ndims=1, limit=64)


# --- results are values -------------------------------------------------------------------------------------------------------------------------------------
def overlapping(t):
    """an expanded view, which torch refuses to write to"""
    while t.parent is not None:
        if t._wr is tz.overlap or t._wr is None:
            return True
        t = t.parent
    return False


@rule("C30")
def c30(rep):
    """later weight changes and calls leave earlier results alone, and writing into a result leaves the module alone"""
    for lay in everything(rep.tier):
        for name, fd, td in [("forward", None, None)] + ALLM:
            for wrt in WRT if name != "forward" else ("input",):
                if wrt == "weight" and not lay.param:
                    continue
                for none in ((False, True) if name not in ("forward", "jacobian", "jvp", "vjp") else (False,)):
                    def f(w, so, name=name, fd=fd, td=td, wrt=wrt, none=none):
                        return (w.forward(), None) if name == "forward" else call_any(w, name, fd, td, wrt, so, none=none)

                    def later(pr, lay=lay, f=f, name=name):
                        so = netsize(pr, lay)
                        w = World(pr, lay)
                        r, op = f(w, so)
                        rs = [t for t in flatlist(r) if isinstance(t, T)]
                        before = [snap(t) for t in rs]
                        wh = pr.where(w.m, name)
                        # an optimiser step, then the module is used with other inputs and operands
                        for k, (_, p, _) in enumerate(w.ws):
                            q = sym(f"step{k}", p.shape)
                            p.write(lambda i, q=q, s=snap(p): add(s.at(i), q.at(i)))
                        if w.ws:
                            pr(w.m, "set_weight", sym("u", (nparams(w.ws),)))
                        w2 = World(pr, lay)
                        w2.m, w2.ws, w2.x = w.m, w.ws, lay.x("y")
                        attempt(lambda: f(w2, so))
                        return [Ob("an earlier result does not change", snap(t), b, wh) for t, b in zip(rs, before)]
                    scenario(rep, f"{lay.label}.{tagof(name, fd, td)}({wrt}{', None' if none else ''}), then other weights and inputs", later, ndims=1, on_raise=notimpl(True))

                    def written(pr, lay=lay, f=f, name=name):
                        so = netsize(pr, lay)
                        w = World(pr, lay)
                        r, op = f(w, so)
                        wh = pr.where(w.m, name)
                        mine = [w.x] + ([op] if isinstance(op, T) else [])
                        rs = [t for t in flatlist(r) if isinstance(t, T) and not any(t.root().storage == a.root().storage for a in mine)]
                        ps = [(n, p, snap(p)) for n, p, _ in w.ws]
                        for k, t in enumerate(rs):
                            q = sym(f"junk{k}", t.shape)
                            if not overlapping(t):
                                t.write(lambda i, q=q: q.at(i))
                        obs = [Ob(f"parameter {n} is not part of the result", snap(p), s, wh) for n, p, s in ps]
                        again, _ = f(w, so)
                        ref, _ = f(World(pr, lay), so)
                        return obs + [Ob("the next result does not see what was written into the last", again, ref, wh)]
                    scenario(rep, f"{lay.label}.{tagof(name, fd, td)}({wrt}{', None' if none else ''}), then the result is overwritten", written, ndims=1, on_raise=notimpl(True))
    for cls in LIKES:
        for what in ("forward", "gradient", "ggn"):
            for agg in ("return all", "sum"):
                for ms in (("diag", "full") if what == "ggn" else ("diag",)):
                    def run(pr, cls=cls, what=what, agg=agg, ms=ms):
                        net = nets("quick")[1]
                        w = World(pr, net)
                        so = World(pr, net).val().shape
                        l = pr.new(cls, aggregate_batch=agg, metric_shape=ms)
                        r = pr(l, what, w.x, w.m, sym("t", so, kind="unit"))
                        rs = [t for t in flatlist(r) if isinstance(t, T)]
                        before = [snap(t) for t in rs]
                        pr(w.m, "set_weight", sym("u", (nparams(w.ws),)))
                        pr(l, what, net.x("y"), w.m, sym("t2", so, kind="unit"))
                        return [Ob("an earlier result does not change", snap(t), b, pr.where(l, what)) for t, b in zip(rs, before)]
                    scenario(rep, f"{cls}({agg}, {ms}).{what}, then other weights and inputs", run, ndims=1)


# --- layers of the user in containers -------------------------------------------------------------------------------------------------------------------------
USERLAYERS = '''
import torch
from torch import nn
import nnj
from nnj import AbstractJacobian, AbstractDiagonalJacobian


class Square(AbstractJacobian, nn.Module):
    def forward(self, x):
        return x * x

    def jacobian(self, x, val=None, wrt="input"):
        if wrt == "input":
            return torch.diag_embed(2 * x.reshape(x.shape[0], -1))
        return None


class Swap(AbstractJacobian, nn.Module):
    """symmetrises a square image, keeps only the products of neighbours"""
    def forward(self, x):
        return torch.cat([x * x.flip(1), x.flip(1)], dim=1)

    def jacobian(self, x, val=None, wrt="input"):
        if val is None:
            val = self.forward(x)
        if wrt == "input":
            f = torch.eye(x.shape[1], dtype=x.dtype, device=x.device).flip(1)
            a = torch.diag_embed(x.flip(1)) + torch.einsum("bi,ij->bij", x, f)
            return torch.cat([a, f.unsqueeze(0).expand(x.shape[0], -1, -1)], dim=1)


class Scale(AbstractJacobian, nn.Module):
    def __init__(self, n):
        super().__init__()
        self.a = nn.Parameter(torch.ones(n))
        self.c = nn.Parameter(torch.zeros(n))

    def forward(self, x):
        return self.a * x + torch.sin(self.c)

    def jacobian(self, x, val=None, wrt="input"):
        if wrt == "input":
            return torch.diag_embed(self.a.expand(x.shape[0], -1))
        return torch.cat([torch.diag_embed(x), torch.diag_embed(torch.cos(self.c).expand(x.shape[0], -1))], dim=2)


class PartlyFrozen(Scale):
    def __init__(self, n):
        super().__init__(n)
        self.c.requires_grad_(False)


class Residual(AbstractJacobian, nn.Module):
    def __init__(self, n):
        super().__init__()
        self.register_buffer("shift", torch.ones(n))
        self.lin = nnj.Linear(n, n)
        for p in self.lin.parameters():
            p.requires_grad = False

    def forward(self, x):
        return x + self.lin(x) + self.shift

    def jacobian(self, x, val=None, wrt="input"):
        j = self.lin.jacobian(x, None, wrt=wrt)
        if wrt == "input":
            return torch.eye(x.shape[1], dtype=x.dtype, device=x.device) + j
        return j


class MyExp(AbstractJacobian, nn.Module):
    def __init__(self, n):
        super().__init__()
        self._n_params = n
        self.g = nn.Parameter(torch.ones(n))

    def forward(self, x):
        return torch.exp(self.g * x)

    def jacobian(self, x, val=None, wrt="input"):
        if val is None:
            val = self.forward(x)
        return torch.diag_embed(val * (self.g if wrt == "input" else x))


class MyLinear(AbstractJacobian, nn.Linear):
    def jacobian(self, x, val=None, wrt="input"):
        if wrt == "input":
            return self.weight.detach().clone().expand(x.shape[0], -1, -1)
        eye = torch.eye(self.out_features, dtype=x.dtype, device=x.device)
        return torch.einsum("bk,ij->bijk", x, eye).reshape(x.shape[0], self.out_features, -1)


class Cube(AbstractDiagonalJacobian, nn.Module):
    def forward(self, x):
        return x * x * x

    def jacobian(self, x, val=None, wrt="input", diag=False):
        if wrt == "input":
            d = (3 * x * x).reshape(x.shape[0], -1)
            return d if diag else torch.diag_embed(d)
        return None
'''


def mine(name, *a, **k):
    n = leaf(name, *a, **k)
    n.user = USERLAYERS
    return n


def usernets():
    N2 = lambda: D("N") * 2
    ml = lambda i, o: mine("MyLinear", lambda: i() if callable(i) else D(i), lambda: o() if callable(o) else D(o), bias=False)
    return [
        Net("Sequential(Square)", lambda: seq(mine("Square")), v1, param=False),
        Net("Sequential(Square,Linear,Tanh)", lambda: seq(mine("Square"), lin("N", "O"), act()), v1),
        Net("Sequential(Linear,Scale,Sigmoid,Linear)", lambda: seq(lin("N", "Q"), mine("Scale", lambda: D("Q")), act("Sigmoid"), lin("Q", "O", bias=False)), v1),
        Net("Sequential(Scale,Swap,Linear,Cube)", lambda: seq(mine("Scale", lambda: D("N")), mine("Swap"), lin(N2, "O"), mine("Cube")), v1),
        Net("Sequential(MyLinear,Sequential(Scale,Cube),MyLinear)", lambda: seq(ml("N", "Q"), seq(mine("Scale", lambda: D("Q")), mine("Cube")), ml("Q", "O")), v1, nested=True),
        Net("Sequential(PartlyFrozen,Linear,Residual)", lambda: seq(mine("PartlyFrozen", lambda: D("N")), lin("N", "O"), mine("Residual", lambda: D("O"))), v1),
        Net("Sequential(Linear,MyExp,SkipConnection(PartlyFrozen),MyExp)", lambda: seq(lin("N", "O"), mine("MyExp", lambda: D("O")), skip(mine("PartlyFrozen", lambda: D("O"))), mine("MyExp", lambda: D("O") * 2)), v1, nested=True),
        Net("SkipConnection(Scale,Swap)", lambda: skip(mine("Scale", lambda: D("N")), mine("Swap")), v1),
        Net("Sequential(SkipConnection(Square),Scale)", lambda: seq(skip(mine("Square")), mine("Scale", N2)), v1, nested=True),
        Net("Sequential(Cube,Conv2d,Cube,Flatten,Square)", lambda: seq(mine("Cube"), leaf("Conv2d", lambda: D("Ci"), lambda: D("Co"), 3, padding=1), mine("Cube"), leaf("Flatten"), mine("Square")), v3, fwd=False),
    ]


@rule("C31")
def c31(rep):
    for lay in usernets():
        container(rep, lay)
        diagbp(rep, lay)

        def run(pr, lay=lay):
            w = World(pr, lay)
            n = pr.I.getattr(w.m, "_n_params")
            return [Fact("number of parameters", topoly(n) == nparams(w.ws), f"{lay.label} counts {n} parameters, not {nparams(w.ws)}", pr.where(w.m, "__init__"))]
        scenario(rep, f"{lay.label} counts its parameters", run, ndims=1)


# --- derivatives at extreme inputs -------------------------------------------------------------------------------------------------------
class Within(Finite):
    """every entry of value lies in [lo, hi] (up to rounding)"""

    def __init__(self, label, value, where, lo, hi):
        super().__init__(label, value, where)
        self.lo, self.hi = lo, hi

    def check(self, ev):
        from .engine import Mismatch
        import numpy as np
        super().check(ev)
        d = ev.array(self.value)
        eps = 1e-6 * max(1, abs(self.lo), abs(self.hi))
        out = (d < self.lo - eps) | (d > self.hi + eps)
        if np.any(out):
            i = tuple(int(k) for k in np.argwhere(out)[0])
            raise Mismatch(f"entry {i} is {float(d[i]):.6g}, outside [{self.lo:.4g}, {self.hi:.4g}]")


E15 = 3269017.3724721107
ACTS = [("Tanh", {}, 0, 1), ("ReLU", {}, 0, 1), ("Sigmoid", {}, 0, 0.25), ("Sinusoidal", {}, -1, 1), ("Softplus", {}, 0, 1), ("Softplus", {"beta": 2, "threshold": 1}, 0, 1), ("Softplus", {"beta": 0.5, "threshold": 60}, 0, 1), ("TruncExp", {}, 1 / E15, E15)]
EXTREME = ("huge", "mixed")


def junk(name, *shape):
    return sym(name, shape, kind="junk")


def operands(B, i, o):
    return {"jvp": junk("v1", B, i), "jmp": junk("v2", B, i, D("K")), "vjp": junk("v3", B, o), "mjp": junk("v4", B, D("K"), o)}


def fixweights(m_ws):
    """moderate weights: only the input is extreme"""
    from .evalx import KIND
    for _, t, an in m_ws:
        KIND[an] = "junk"


@rule("C32")
def c32(rep):
    for cls, kw, lo, hi in ACTS:
        opt = ",".join(f"{k}={v}" for k, v in kw.items())
        for shape, sfx in ((v1, ""), (v3, "/4d")):
            for given in (False, True):
                lay = L(f"{cls}({opt}){sfx}", cls, lambda pr, cls=cls, kw=kw: pr.new(cls, **kw), shape, diag=True)

                def jac(pr, lay=lay, given=given, lo=lo, hi=hi):
                    w = World(pr, lay)
                    v = w.val() if given else None
                    d = w.call("jacobian", w.x, v, diag=True)
                    f = w.call("jacobian", w.x, v)
                    wh = pr.where(w.m, "jacobian")
                    return [Within("slope", d, wh, lo, hi), Within("Jacobian", f, wh, min(lo, 0), hi)] + ([] if lay.cls == "TruncExp" else [Finite("forward", w.forward(), pr.where(w.m, "forward"))])
                scenario(rep, f"{lay.label}.jacobian({'val' if given else ''}) at extreme inputs", jac, EXTREME, ndims=2, per=6)
                for name in ("jvp", "jmp", "vjp", "mjp"):
                    def prodrun(pr, lay=lay, given=given, name=name):
                        w = World(pr, lay)
                        n = per_sample(w.x)
                        v = w.val() if given else None
                        return [Finite(name, w.call(name, w.x, v, operands(w.B(), n, n)[name]), pr.where(w.m, name))]
                    scenario(rep, f"{lay.label}.{name}({'val' if given else ''}) at extreme inputs", prodrun, EXTREME, ndims=2, per=4)
                for name in ("jmjTp", "jTmjp"):
                    for fd, td in MODES4:
                        def metric(pr, lay=lay, given=given, name=name, fd=fd, td=td):
                            w = World(pr, lay)
                            n = per_sample(w.x)
                            M = junk("m", w.B(), n) if fd else junk("m", w.B(), n, n)
                            v = w.val() if given else None
                            return [Finite(name, w.call(name, w.x, v, M, from_diag=fd, to_diag=td), pr.where(w.m, name))]
                        scenario(rep, f"{lay.label}.{name}({fd}->{td}{', val' if given else ''}) at extreme inputs", metric, EXTREME, ndims=2, per=3)
    for lay in layers(rep.tier):
        if lay.cls not in ("L2Norm", "MaxPool2d"):
            continue
        modes = ("zeros",) if lay.cls == "L2Norm" else EXTREME

        for name in ("jacobian", "jvp", "jmp", "vjp", "mjp", "jmjTp", "jTmjp"):
            def other(pr, lay=lay, name=name):
                w = World(pr, lay)
                i, o = w.nin("input"), w.nout()
                if name == "jacobian":
                    return [Finite("Jacobian", w.call("jacobian", w.x, None), pr.where(w.m, "jacobian")), Finite("forward", w.forward(), pr.where(w.m, "forward"))]
                n = i if name == "jmjTp" else o
                M = junk("m", w.B(), n, n) if name in ("jmjTp", "jTmjp") else operands(w.B(), i, o)[name]
                return [Finite(name, w.call(name, w.x, w.val(), M), pr.where(w.m, name))]
            scenario(rep, f"{lay.label}.{name} {'at zero samples' if lay.cls == 'L2Norm' else 'at extreme inputs'}", other, modes, ndims=2, per=3, on_raise=notimpl(True))
    deep = []
    for cls, kw, lo, hi in ACTS:
        lab = f"{cls}({','.join(f'{k}={v}' for k, v in kw.items())})"
        a = lambda cls=cls, kw=kw: leaf(cls, **kw)
        deep += [(f"Sequential(Linear,{lab})", lambda a=a: seq(lin("N", "O"), a())),
                 (f"SkipConnection({lab})", lambda a=a: skip(a()))]
        if cls != "TruncExp":
            deep += [(f"Sequential({lab},Linear,{lab},Linear)", lambda a=a: seq(a(), lin("N", "Q"), a(), lin("Q", "O"))),
                     (f"Sequential(SkipConnection(Linear,{lab}),Linear)", lambda a=a: seq(skip(lin("N", "N"), a()), lin(lambda: D("N") * 2, "O"))),
                     (f"Sequential(Sequential({lab},Linear),{lab})", lambda a=a: seq(seq(a(), lin("N", "O")), a()))]
    deep += [("Sequential(ReLU,L2Norm,Linear)", lambda: seq(act("ReLU"), leaf("L2Norm"), lin("N", "O")))]
    for lab, tree in deep:
        lay = Net(lab, tree, v1, nested="SkipC" in lab)
        for wrt in WRT:
            if wrt == "weight" and "Linear" not in lab:
                continue
            for what in ("jacobian", "products", "metrics"):
                def net(pr, lay=lay, wrt=wrt, what=what):
                    w = World(pr, lay)
                    fixweights(w.ws)
                    i, o = w.nin(wrt), w.nout()
                    wh = lambda n: pr.where(w.m, n)
                    if what == "jacobian":
                        return [Finite("Jacobian", w.call("jacobian", w.x, None, wrt=wrt), wh("jacobian"))] + ([] if "TruncExp" in lay.label else [Finite("forward", w.forward(), wh("forward"))])
                    if what == "products":
                        return [Finite(n, w.call(n, w.x, None, v, wrt=wrt), wh(n)) for n, v in operands(w.B(), i, o).items()]
                    r = []
                    for td in (False, True):
                        r.append(Finite("jTmjp", w.call("jTmjp", w.x, None, junk("m", w.B(), o, o), wrt=wrt, to_diag=td), wh("jTmjp")))
                        r.append(Finite("jTmjp of the identity", w.call("jTmjp", w.x, None, None, wrt=wrt, to_diag=td), wh("jTmjp")))
                    r.append(Finite("jTmjp with diag_backprop", w.call("jTmjp", w.x, None, junk("d", w.B(), o), wrt=wrt, from_diag=True, to_diag=True, diag_backprop=True), wh("jTmjp")))
                    return r
                scenario(rep, f"{lab} {what} wrt {wrt} at extreme inputs", net, EXTREME if "L2" not in lab else ("normal", "mixed"), ndims=2, per=3, on_raise=notimpl(True))
