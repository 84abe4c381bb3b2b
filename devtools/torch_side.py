import json, random, sys, torch
from torch import nn
import torch.nn.functional as F
sys.path.insert(0, sys.argv[1])
import ops
torch.manual_seed(0)


def val(sh):
    return [eval(str(s), dict(ops.DIMS)) for s in sh]


rng = random.Random(5)
vals = {}
for n, sh in ops.INPUTS.items():
    sz = val(sh)
    k = 1
    for q in sz:
        k *= q
    vals[n] = (sz, [round(rng.uniform(-1.5, 1.5), 3) for _ in range(k)])


def src(body):
    if "return" not in body and "raise" not in body:
        body = "return " + body
    args = ", ".join(ops.INPUTS)
    return f"def f({args}):\n    " + body.replace("\n", "\n    ") + "\n"


def enc(r):
    if isinstance(r, torch.Tensor):
        return {"dtype": str(r.dtype).split(".")[-1], "shape": list(r.shape), "v": [float(q) for q in r.detach().double().reshape(-1).tolist()]}
    if isinstance(r, (list, tuple)):
        return {"list": [enc(q) for q in r]}
    return {"py": repr(r)}


out = []
progs = [src(q) for q in ops.P + ops.S]
progs += [src(q).replace("def f(", "def f0(") + f"def f({', '.join(ops.INPUTS)}):\n    r = f0({', '.join(ops.INPUTS)})\n    r.fill_(7.0)\n    return x.sum() + 2 * y.sum() + 3 * m.sum() + 5 * q.sum() + 7 * s.sum() + 11 * im.sum() + 13 * z.sum() + 17 * one.sum() + 19 * flat.sum()\n" for q in ops.P]
for s in progs:
    ns = {"torch": torch, "nn": nn, "F": F}
    try:
        exec(s, ns)
        r = enc(ns["f"](**{n: torch.tensor(v, dtype=torch.float64).reshape(sz) for n, (sz, v) in vals.items()}))
    except Exception as e:
        r = {"error": type(e).__name__, "msg": str(e)[:100]}
    out.append((s, r))
json.dump({"vals": vals, "out": out}, open(sys.argv[2], "w"))
