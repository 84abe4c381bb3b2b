"""Layer registry and the mathematical side of the obligations."""
from . import tensor as tz
from .engine import D, Prog, Missing, Skip
from .evalx import ACCSHAPE, KIND, OPQ, OPQV
from .expr import acc, diff, ite, cge, num, N0, N1, ind, ceq, cand, add, mul
from .poly import topoly, prod
from .tensor import T, sym, unflat, flat, einsum, ctx

_n = [0]


def fresh(prefix):
    _n[0] += 1
    return f"{prefix}%{_n[0]}"


def freeze(t):
    """the same values as a table of their own (keeps spec terms small)"""
    nm = fresh("tab")
    ACCSHAPE[nm] = t.shape
    KIND[nm] = "real"
    OPQ[nm] = lambda ev, t=t: ev.array(t)
    OPQV[nm] = t
    return T(t.shape, lambda i: acc(nm, i), t.dtype, t.device)


def const(shape, c, like=None):
    return T(shape, lambda i: num(c), like.dtype if like else "f32", like.device if like else "cpu")


def eye(b, n):
    return T((b, n, n), lambda i: ind(ceq(i[1] - i[2])))


def arb_weights(pr, layer, tag="th"):
    """give every parameter arbitrary current values; returns [(name, tensor, access name)]"""
    out = []
    for k, (nm, p) in enumerate(pr.I.tm.named_params(layer)):
        an = f"{tag}{k}"
        ACCSHAPE[an] = p.shape
        KIND[an] = "real"
        p.write(lambda i, an=an: acc(an, i))
        out.append((nm, p, an))
    return out


def nparams(ws):
    n = topoly(0)
    for _, p, _ in ws:
        n = n + prod(p.shape)
    return n


def per_sample(t):
    return prod(t.shape[1:])


def at_flat(t, b, i):
    return t.at([b, *unflat(i, t.shape[1:])])


def jac_input(x, xname, val):
    """derivative of the flattened output of a sample w.r.t. its flattened input"""
    no, ni = per_sample(val), per_sample(x)
    return T((val.shape[0], no, ni), lambda i: diff(at_flat(val, i[0], i[1]), xname, [i[0], *unflat(i[2], x.shape[1:])]), x.dtype, x.device)


def jac_weight(x, val, ws):
    no, n = per_sample(val), nparams(ws)

    def f(i):
        o = at_flat(val, i[0], i[1])
        off = topoly(0)
        parts = []
        for _, p, an in ws:
            parts.append((off, prod(p.shape), p, an))
            off = off + prod(p.shape)
        e = N0
        for k in range(len(parts) - 1, -1, -1):
            off, m, p, an = parts[k]
            d = diff(o, an, unflat(i[2] - off, p.shape))
            e = d if k == len(parts) - 1 else ite(cge(off + m - 1 - i[2]), d, e)
        return e
    return T((val.shape[0], no, n), f, x.dtype, x.device)


class L:
    """a layer configuration"""

    def __init__(self, label, cls, build, shape, diag=False, param=False, nofwd=(), kind="real", modes=("normal",), quick=True):
        self.label, self.cls, self.build, self.shape = label, cls, build, shape
        self.diag, self.param, self.nofwd, self.kind, self.modes, self.quick = diag, param, nofwd, kind, modes, quick

    def x(self, name="x", B=None, **k):
        return sym(name, (B if B is not None else D("B"), *self.shape()), kind=self.kind, **k)


def conv(label, k, pad, quick=True, **kw):
    def build(pr):
        kk = k() if callable(k) else k
        pp = pad() if callable(pad) else pad
        return pr.new("Conv2d", D("Ci"), D("Co"), kk, padding=pp, **kw)

    def shape():
        # the input is at least as large as the kernel
        kk = k() if callable(k) else k
        kh, kw_ = kk if isinstance(kk, tuple) else (kk, kk)
        pp = pad() if callable(pad) else pad
        ph, pw = pp if isinstance(pp, tuple) else (pp, pp)
        h = D("H", max(1, kh - 2 * ph) if isinstance(kh, int) else 1)
        w = D("W", max(1, kw_ - 2 * pw) if isinstance(kw_, int) else 1)
        return (D("Ci"), h, w)
    return L(label, "Conv2d", build, shape, param=True, quick=quick)


def pool(label, quick=True, **kw):
    def build(pr):
        return pr.new("MaxPool2d", **kw)
    k = kw["kernel_size"]
    kh, kw_ = k if isinstance(k, tuple) else (k, k)
    return L(label, "MaxPool2d", build, lambda: (D("Ci"), D("H", kh * (kw["dilation"] if "dilation" in kw else 1)), D("W", kw_ * (kw["dilation"] if "dilation" in kw else 1))), quick=quick, modes=("normal", "ints"))


def layers(tier="quick"):
    v1 = lambda: (D("N"),)
    v3 = lambda: (D("Ci"), D("H"), D("W"))
    out = [
        L("Linear", "Linear", lambda pr: pr.new("Linear", D("N"), D("O")), v1, param=True),
        L("Linear(bias=False)", "Linear", lambda pr: pr.new("Linear", D("N"), D("O"), bias=False), v1, param=True),
        conv("Conv2d(3,padding=1)", 3, 1),
        conv("Conv2d((3,2),padding=(1,0),bias=False)", (3, 2), (1, 0), bias=False),
        conv("Conv2d(2,padding=1,use_vmap=False)", 2, 1, use_vmap_for_backprop=False),
        conv("Conv2d((1,3),bias=False,use_vmap=False)", (1, 3), 0, bias=False, use_vmap_for_backprop=False),
        conv("Conv2d(1)", 1, 0),
        conv("Conv2d((2,3),padding=(0,2))", (2, 3), (0, 2)),
        pool("MaxPool2d(2)", kernel_size=2),
        pool("MaxPool2d(3,stride=1,padding=1)", kernel_size=3, stride=1, padding=1),
        pool("MaxPool2d((2,3),stride=(1,2),ceil_mode=True)", kernel_size=(2, 3), stride=(1, 2), ceil_mode=True),
        pool("MaxPool2d(2,stride=1,dilation=2)", kernel_size=2, stride=1, dilation=2),
        pool("MaxPool2d(2,stride=3)", kernel_size=2, stride=3),
        pool("MaxPool2d(2,dilation=2)", kernel_size=2, dilation=2),
        L("Upsample(scale_factor=2)", "Upsample", lambda pr: pr.new("Upsample", scale_factor=2), v3),
        L("Upsample(scale_factor=3)", "Upsample", lambda pr: pr.new("Upsample", scale_factor=3), v3),
        L("Upsample(scale_factor=1)", "Upsample", lambda pr: pr.new("Upsample", scale_factor=1), v3),
        L("Flatten", "Flatten", lambda pr: pr.new("Flatten"), v3, diag=True),
        L("Flatten/3d", "Flatten", lambda pr: pr.new("Flatten"), lambda: (D("Ci"), D("H")), diag=True),
        L("Reshape(H,Ci,W)", "Reshape", lambda pr: pr.new("Reshape", D("H"), D("Ci"), D("W")), v3, diag=True),
        L("Reshape(Ci*H,W)", "Reshape", lambda pr: pr.new("Reshape", D("Ci") * D("H"), D("W")), v3, diag=True),
        L("Reshape(Ci,H)/2d", "Reshape", lambda pr: pr.new("Reshape", D("Ci"), D("H")), lambda: (D("Ci") * D("H"),), diag=True),
        L("L2Norm", "L2Norm", lambda pr: pr.new("L2Norm"), v1, modes=("normal", "zeros")),
        L("L2Norm(eps=0.5)", "L2Norm", lambda pr: pr.new("L2Norm", eps=0.5), v1, modes=("normal", "zeros")),
        L("L2Norm/4d", "L2Norm", lambda pr: pr.new("L2Norm"), v3),
        L("Softplus(beta=2,threshold=1)", "Softplus", lambda pr: pr.new("Softplus", beta=2, threshold=1), v1, diag=True, modes=("normal", "zeros")),
        L("Softplus(beta=0.5,threshold=3)/4d", "Softplus", lambda pr: pr.new("Softplus", beta=0.5, threshold=3), v3, diag=True, modes=("big",)),
    ]
    out.append(L("ReLU(inplace=True)", "ReLU", lambda pr: pr.new("ReLU", inplace=True), v1, diag=True, modes=("normal", "ints")))
    for n in ("Tanh", "ReLU", "Sigmoid", "Sinusoidal", "Softplus", "TruncExp"):
        out.append(L(n, n, lambda pr, n=n: pr.new(n), v1, diag=True, modes=("normal", "ints", "big")))
        out.append(L(n + "/4d", n, lambda pr, n=n: pr.new(n), v3, diag=True, modes=("normal", "ints")))
    return [l for l in out if l.quick or tier != "quick"]


class World:
    """a built layer with arbitrary weights and input, and its specified Jacobian"""

    def __init__(self, pr, lay, rg=False):
        self.pr, self.lay = pr, lay
        self.m = lay.build(pr)
        self.ws = arb_weights(pr, self.m)
        self.x = lay.x()
        self._val = None
        self._J = {}
        self.operands = {}

    def call(self, name, *a, **k):
        return self.pr(self.m, name, *a, **k)

    def forward(self):
        return self.pr.run(self.m, self.x)

    def val(self):
        """forward term of the specification (of a copy of the module that was never called)"""
        if self._val is None:
            self._val = self.forward()
        return self._val

    def J(self, wrt):
        if wrt not in self._J:
            if wrt == "weight" and not self.ws:
                self._J[wrt] = None
            else:
                j = jac_input(self.x, "x", self.val()) if wrt == "input" else jac_weight(self.x, self.val(), self.ws)
                self._J[wrt] = freeze(j)
        return self._J[wrt]

    def B(self):
        return self.x.shape[0]

    def nin(self, wrt):
        return per_sample(self.x) if wrt == "input" else nparams(self.ws)

    def nout(self):
        return per_sample(self.val())


def metric_forward(J, M, fd, td):
    eq = {(0, 0): "bij,bjk,blk->bil", (1, 0): "bij,bj,blj->bil", (0, 1): "bij,bjk,bik->bi", (1, 1): "bij,bj,bij->bi"}[(int(fd), int(td))]
    return einsum(eq, [J, M, J])


def metric_backward(J, M, fd, td):
    eq = {(0, 0): "bji,bjk,bkl->bil", (1, 0): "bji,bj,bjl->bil", (0, 1): "bji,bjk,bki->bi", (1, 1): "bji,bj,bji->bi"}[(int(fd), int(td))]
    return einsum(eq, [J, M, J])
