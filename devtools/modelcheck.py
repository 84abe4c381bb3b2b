"""Compare nnjcheck's transfer functions with torch on the programs of ops.py. usage: python3-vt devtools/modelcheck.py"""
import json, os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import numpy as np
import ops
from nnjcheck import engine, tensor as tz, evalx, poly as P
from nnjcheck.engine import Prog, Points, D, LB, reset_facts, clear_tables, DIMS
from nnjcheck.evalx import Ev
from nnjcheck.interp import paths
from nnjcheck.tensor import T, sym, SReal

DT = {"f64": "float64", "f32": "float32", "i64": "int64", "bool": "bool", "f16": "float16", "i32": "int32", "bf16": "bfloat16"}


def prep(c):
    reset_facts(); clear_tables(); tz.reset()
    for tab in (LB, P.SIZE, P.IRANGE, evalx.ACCSHAPE, evalx.KIND, evalx.OPQ, evalx.OPQV, evalx.DIMDEF):
        tab.clear()
    DIMS.clear()
    c.nparam = 0


def compare(ev, a, r):
    if "list" in r:
        if not isinstance(a, (list, tuple)) or len(a) != len(r["list"]):
            return f"got {a!r}"
        return next((m for m in (compare(ev, x, y) for x, y in zip(a, r["list"])) if m), None)
    if "py" in r:
        if isinstance(a, SReal):
            v = float(ev.ev(a.e)[1])
        elif hasattr(a, "t"):
            v = ev.const(a)
        else:
            v = a
        try:
            return None if repr(v) == r["py"] or float(v) == float(eval(r["py"])) else f"{v!r} instead of {r['py']}"
        except Exception:
            return f"{v!r} instead of {r['py']}"
    if not isinstance(a, T):
        return f"{a!r} instead of a tensor"
    sh = [ev.const(s) for s in a.shape]
    if sh != r["shape"]:
        return f"shape {sh} instead of {r['shape']}"
    if DT.get(a.dtype, a.dtype) != r["dtype"]:
        return f"type {a.dtype} instead of {r['dtype']}"
    v = np.asarray(ev.array(a), float).reshape(-1)
    w = np.array(r["v"], float)
    bad = ~((np.abs(v - w) <= 1e-5 * np.maximum(1, np.abs(w))) | (np.isnan(v) & np.isnan(w)) | (v == w))
    if bad.any():
        return f"values {v[:6]} instead of {w[:6]}"


def main():
    f = tempfile.mktemp()
    subprocess.run(["/opt/venv/bin/python", "-W", "ignore", os.path.join(HERE, "torch_side.py"), HERE, f], check=True)
    d = json.load(open(f))
    os.remove(f)
    tabs = {n: np.array(v).reshape(sz) for n, (sz, v) in d["vals"].items()}
    stat = dict(ok=0, unsup=0, bad=0)
    for src, r in d["out"]:
        def go(c):
            pr = Prog()
            u = pr.user("import torch\nfrom torch import nn\nimport torch.nn.functional as F\n" + src)
            ins = {}
            for n, sh in ops.INPUTS.items():
                s = []
                for q in sh:
                    z = P.topoly(1)
                    for w in str(q).split("*"):
                        z = z * (int(w) if w.isdigit() else D(w))
                    s.append(z)
                ins[n] = sym(n, tuple(s), dtype="f64")
            return pr.run(u["f"], **ins)
        body = src.split("\n", 1)[1].replace("\n", "; ")[:150]
        hit = 0
        try:
            for p in paths(go, 40, prep):
                pts = Points(p.taken, 1, {})
                ev = Ev(dict(ops.DIMS), 0, "normal", dict(tabs))
                if not all(bool(np.all(ev.ev(c)[1])) == v for c, k, v, _ in p.taken):
                    continue
                hit = 1
                if p.unsupported:
                    stat["unsup"] += 1
                    if "fill_(7" not in src:
                        print("unsupported:", body, "|", p.unsupported)
                elif p.error is not None:
                    if "error" in r and (p.error.name() == r["error"]):
                        stat["ok"] += 1
                    else:
                        stat["bad"] += 1
                        print("BAD:", body, "| model raises", p.error, "| torch", str(r)[:150])
                elif "error" in r:
                    if "fill_(7" in src:
                        continue
                    stat["bad"] += 1
                    print("BAD:", body, "| torch raises", r, "| model", p.value)
                else:
                    m = compare(ev, p.value, r)
                    if m:
                        stat["bad"] += 1
                        print("BAD:", body, "|", m)
                    else:
                        stat["ok"] += 1
                break
        except Exception as e:
            if os.environ.get("NNJCHECK_DEBUG"):
                raise
            stat["bad"] += 1
            print("CRASH:", body, "|", type(e).__name__, e)
            continue
        if not hit:
            print("NOPATH:", body)
    print(stat)


if __name__ == "__main__":
    main()
