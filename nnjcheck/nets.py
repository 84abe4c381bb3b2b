"""Containers: stacks of layers with their structure, and the layerwise specification."""
import random

from .engine import D
from .evalx import ACCSHAPE, KIND, OPQ
from .poly import topoly, prod
from .spec import L, arb_weights, freeze, fresh, jac_input, jac_weight, per_sample, nparams, unflat, einsum
from .tensor import T, sym
from .expr import acc


class Node:
    def __init__(self, kind, kids=(), new=None):
        self.kind, self.kids, self.new = kind, list(kids), new
        self.user = None      # source of the class, if it is not one of the package


def leaf(cls, *a, **k):
    return Node("leaf", new=(cls, a, k))


def seq(*kids):
    return Node("seq", kids)


def skip(*kids):
    return Node("skip", kids)


def build(pr, node, objs):
    """construct the module of node; objs collects (node, module) in order (a node used twice is a shared layer)"""
    for n, m in objs:
        if n is node:
            return m
    if node.kind == "leaf":
        cls, a, k = node.new
        a, k = [x() if callable(x) else x for x in a], {q: (x() if callable(x) else x) for q, x in k.items()}
        m = pr.run(pr.user(node.user)[cls], *a, **k) if node.user else pr.new(cls, *a, **k)
    else:
        ms = [build(pr, n, objs) for n in node.kids]
        m = pr.new("Sequential" if node.kind == "seq" else "SkipConnection", *ms)
    objs.append((node, m))
    return m


class Net(L):
    def __init__(self, label, tree, shape, quick=True, modes=("normal",), param=True, fwd=True, nested=False, heavy=False):
        super().__init__(label, "Sequential", None, shape, param=param, modes=modes, quick=quick)
        self.tree = tree
        self.fwd = fwd
        self.nested = nested
        self.heavy = heavy
        self.build = self._build

    def _build(self, pr):
        objs = []
        t = self.tree()
        m = build(pr, t, objs)
        pr.last = (t, {id(n): o for n, o in objs}, objs)
        return m


def N():
    return D("N")


def v1():
    return (D("N"),)


def v3():
    return (D("Ci"), D("H"), D("W"))


def lin(i, o, **k):
    return leaf("Linear", lambda: i() if callable(i) else D(i), lambda: o() if callable(o) else D(o), **k)


def act(n="Tanh", **k):
    return leaf(n, **k)


class _Gen:
    """a random stack of layers on vectors"""

    def __init__(self, seed):
        self.r = random.Random(seed)
        self.left = 5

    def one(self, depth, d):
        """(node maker, output size maker, label, has parameters)"""
        k = self.r.random()
        self.left -= 1
        if depth > 0 and k < 0.45:
            kind = self.r.choice(["seq", "skip", "seq"])
            fs, o, ls, p = self.many(depth - 1, d, self.r.randint(1, 3))
            if kind == "skip":
                return (lambda: skip(*[f() for f in fs])), (lambda: d() + o()), f"Skip({','.join(ls)})", p
            return (lambda: seq(*[f() for f in fs])), o, f"Seq({','.join(ls)})", p
        if k < 0.72:
            n, b = self.r.choice("QOZ"), self.r.random() < 0.7
            return (lambda: lin(d, n, bias=b)), (lambda: D(n)), f"Linear({n}{'' if b else ',bias=False'})", True
        a = self.r.choice(["Tanh", "Sigmoid", "ReLU", "Softplus", "Sinusoidal", "TruncExp", "L2Norm"])
        return (lambda: act(a)), d, a, False

    def many(self, depth, d, n):
        fs, ls, p = [], [], False
        for _ in range(n):
            if fs and self.left <= 0:
                break
            f, d, l, q = self.one(depth, d)
            fs.append(f)
            ls.append(l)
            p = p or q
        return fs, d, ls, p


def randoms(n):
    out, seed = [], 0
    while len(out) < n:
        seed += 1
        g = _Gen(seed)
        fs, o, ls, p = g.many(2, N, 3)
        lab = f"Seq({','.join(ls)})"
        if p and ("Seq(" in lab[4:] or "Skip(" in lab) and lab not in [q.label for q in out] and lab.count("Linear") > 1:
            out.append(Net(lab, lambda fs=fs: seq(*[f() for f in fs]), v1, nested=True))
    return out


def nets(tier="quick", skip_only=False, rand=True):
    chw = lambda: D("Co") * D("H") * D("W")
    out = [
        Net("Sequential(Linear)", lambda: seq(lin("N", "O")), v1),
        Net("Sequential(Linear,Tanh,Linear(bias=False))", lambda: seq(lin("N", "Q"), act(), lin("Q", "O", bias=False)), v1),
        Net("Sequential(Tanh,Linear,Sigmoid,L2Norm)", lambda: seq(act(), lin("N", "O"), act("Sigmoid"), act("L2Norm")), v1),
        Net("Sequential(Tanh,Sinusoidal)", lambda: seq(act("Tanh"), act("Sinusoidal")), v1, param=False),
        Net("Sequential(Sequential(Linear,Tanh),Sequential(Softplus),Linear)", lambda: seq(seq(lin("N", "Q"), act()), seq(act("Softplus")), lin("Q", "O")), v1, nested=True),
        Net("Sequential(Linear,Sequential(Tanh,Linear,Linear(bias=False)),TruncExp)", lambda: seq(lin("N", "Q"), seq(act(), lin("Q", "O"), lin("O", "Z", bias=False)), act("TruncExp")), v1, nested=True),
        Net("Sequential(Conv2d,ReLU,Flatten,Linear)", lambda: seq(leaf("Conv2d", lambda: D("Ci"), lambda: D("Co"), 3, padding=1), act("ReLU"), leaf("Flatten"), lin(chw, "O")), v3, fwd=False),
        Net("Sequential(Linear,Reshape,Upsample,Conv2d)", lambda: seq(lin("N", lambda: D("Ci") * D("H") * D("W")), leaf("Reshape", lambda: D("Ci"), lambda: D("H"), lambda: D("W")), leaf("Upsample", scale_factor=2), leaf("Conv2d", lambda: D("Ci"), lambda: D("Co"), (2, 1), padding=(0, 0), bias=False)), v1, fwd=False),
        Net("Sequential(Conv2d,MaxPool2d,Tanh)", lambda: seq(leaf("Conv2d", lambda: D("Ci"), lambda: D("Co"), 3, padding=1), leaf("MaxPool2d", 2, stride=1), act()), lambda: (D("Ci"), D("H", 2), D("W", 2)), fwd=False),
        Net("Sequential(Linear,SkipConnection(Tanh,Linear),Linear)", lambda: seq(lin("N", "Q"), skip(act(), lin("Q", "O")), lin(lambda: D("Q") + D("O"), "Z")), v1, nested=True),
        Net("Sequential(Linear,ReLU,Linear,Tanh,Linear)", lambda: seq(lin("N", "Q"), act("ReLU"), lin("Q", "O"), act("Tanh"), lin("O", "Z")), v1),
        Net("Sequential(Reshape,Tanh,Flatten,Linear)", lambda: seq(leaf("Reshape", lambda: D("H"), lambda: D("Ci")), act(), leaf("Flatten"), lin(lambda: D("H") * D("Ci"), "O")), lambda: (D("H") * D("Ci"),)),
        Net("Sequential(Sequential(Linear,Tanh,Linear),Tanh)", lambda: seq(seq(lin("N", "Q"), act(), lin("Q", "O")), act()), v1, nested=True),
        Net("Sequential(Sequential(Sequential(Linear,Linear)),Linear)", lambda: seq(seq(seq(lin("N", "Q"), lin("Q", "O"))), lin("O", "Z", bias=False)), v1, nested=True),
        Net("Sequential(Sequential(Tanh),SkipConnection(Sigmoid),Linear)", lambda: seq(seq(act()), skip(act("Sigmoid")), lin(lambda: D("N") * 2, "O")), v1, nested=True),
        Net("Sequential(SkipConnection(Conv2d,ReLU),Conv2d,Flatten)", lambda: seq(skip(leaf("Conv2d", lambda: D("Ci"), lambda: D("Co"), 3, padding=1), act("ReLU")), leaf("Conv2d", lambda: D("Ci") + D("Co"), lambda: D("O"), 1), leaf("Flatten")), v3, fwd=False, nested=True, heavy=True),
        Net("Sequential(Sequential(Conv2d,Tanh),MaxPool2d,Sequential(Flatten,Linear))", lambda: seq(seq(leaf("Conv2d", lambda: D("Ci"), lambda: D("Co"), 3, padding=1, bias=False), act()), leaf("MaxPool2d", 2), seq(leaf("Flatten"), lin(lambda: D("Co") * D("H") * D("W"), "O"))), lambda: (D("Ci"), D("H") * 2, D("W") * 2), fwd=False, nested=True, heavy=True),
        Net("Sequential(Upsample,Upsample,Tanh)", lambda: seq(leaf("Upsample", scale_factor=2), leaf("Upsample", scale_factor=3), act()), v3, fwd=False, param=False, heavy=True),
        Net("Sequential()", lambda: seq(), v1, param=False),
        Net("Sequential(Linear,Sequential(),Tanh)", lambda: seq(lin("N", "O"), seq(), act()), v1, nested=True),
        Net("Sequential(Tanh,Sigmoid,Sinusoidal,Tanh,Softplus)", lambda: seq(act(), act("Sigmoid"), act("Sinusoidal"), act(), act("Softplus")), v1, param=False),
        Net("Sequential(Linear,Tanh,Linear,ReLU,Linear,Sigmoid,Linear(bias=False),Sinusoidal,Linear)", lambda: seq(lin("N", "Q"), act(), lin("Q", "O"), act("ReLU"), lin("O", "Q"), act("Sigmoid"), lin("Q", "Z", bias=False), act("Sinusoidal"), lin("Z", "O")), v1, heavy=True, nested=True),
        Net("Sequential(Tanh shared,Linear,Tanh shared)", lambda: (lambda t: seq(t, lin("N", "O"), t))(act()), v1),
        Net("Sequential(MaxPool2d shared,Tanh,MaxPool2d shared)", lambda: (lambda t: seq(t, act(), t))(leaf("MaxPool2d", 2)), lambda: (D("Ci"), D("H") * 4, D("W") * 4), param=False, fwd=False, heavy=True),
        Net("Sequential(Sequential(),ReLU(inplace=True),Sequential())", lambda: seq(seq(), act("ReLU", inplace=True), seq()), v1, param=False, nested=True),
    ]
    sk = [
        Net("SkipConnection(Linear,Tanh)", lambda: skip(lin("N", "Q"), act()), v1),
        Net("SkipConnection(Tanh,Linear,Linear(bias=False))", lambda: skip(act(), lin("N", "Q"), lin("Q", "O", bias=False)), v1),
        Net("SkipConnection(Sigmoid,Tanh)", lambda: skip(act("Sigmoid"), act()), v1, param=False),
        Net("SkipConnection(Conv2d,Tanh)", lambda: skip(leaf("Conv2d", lambda: D("Ci"), lambda: D("Co"), 3, padding=1), act()), v3, fwd=False),
        Net("SkipConnection(Tanh)/4d", lambda: skip(act()), v3, param=False),
        Net("SkipConnection(SkipConnection(Linear),Linear)", lambda: skip(skip(lin("N", "Q")), lin(lambda: D("N") + D("Q"), "O")), v1, nested=True),
        Net("SkipConnection()", lambda: skip(), v1, param=False),
        Net("SkipConnection(ReLU(inplace=True),Linear)", lambda: skip(act("ReLU", inplace=True), lin("N", "O")), v1),
    ]
    r = sk if skip_only else out + (randoms(8 if tier == "quick" else 40) if rand else [])
    return [n for n in r if n.quick or tier != "quick"]


def leaves(node):
    if node.kind == "leaf":
        return [node]
    return [l for k in node.kids for l in leaves(k)]


def blocks(pr, node, objs, ws):
    """(offset, size) of the parameter block of every parametric leaf"""
    out = []
    off = topoly(0)
    for l in leaves(node):
        ps = pr.I.tm.named_params(objs[id(l)])
        n = topoly(0)
        for _, p in ps:
            n = n + prod(p.shape)
        if ps:
            out.append((off, n))
        off = off + n
    return out


def flatlist(x):
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flatlist(y)]
    return [x]
