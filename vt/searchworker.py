"""Runs the parameter search (select_params.py) with a stand-in for the lattice estimator.
argv: directory of the scripts; stdin: JSON list of runs; stdout: JSON list of results."""
import builtins
import contextlib
import io
import json
import math
import re
import sys
import types
import warnings
from fractions import Fraction

sys.dont_write_bytecode = True
warnings.simplefilter("ignore")


class Anything(types.ModuleType):
    """a library the search does not need for what is observed here"""
    __all__ = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: None


class Estimator:
    """Stands for the leaky-LWE estimator: answers with the block size of the run."""
    beta, asked = {}, []

    def __init__(self, n, q, m, D_e, D_s):
        self.p = round(math.log2(q / (2 * max(abs(x) for x, w in D_e.items() if w))))
        Estimator.asked.append((n, q, m, D_e, D_s))

    def integrate_q_vectors(self, *a, **k):
        return None

    def estimate_attack(self, *a, **k):
        return Estimator.beta(self.p), 1.0


def load(d):
    for m in ("numpy", "matplotlib", "matplotlib.pyplot", "sage", "sage.all"):
        sys.modules[m] = Anything(m)
    builtins.load = lambda *a: None
    builtins.DBDD_predict = object()
    builtins.initialize_from_LWE_instance = lambda cls, n, q, m, D_e, D_s, **k: (None, None, Estimator(n, q, m, D_e, D_s))
    sys.path.insert(0, d)
    import select_params
    return select_params


NUM = r"\s*(-?inf|-?[0-9.]+(?:e-?\d+)?)"


def rows(text):
    """the parameter sets a run printed"""
    out = []
    for blk in text.split("-- parameters --")[1:]:
        def get(what, n=1, scale=1):
            v = [float(x) for x in re.findall(r"(?<![A-Za-z_])" + re.escape(what) + NUM, blk)]
            if len(v) != n:
                raise ValueError("%r printed %d times" % (what, len(v)))
            if what == "failure probability:":
                return v[0]
            w = [round(x * scale) for x in v]
            if any(abs(x * scale - y) > 1e-6 for x, y in zip(v, w)):
                raise ValueError("%s%s" % (what, v))
            return w if n > 1 else w[0]
        ds = {int(a): float(b) for a, b in re.findall(r"(-?\d+):\s*([0-9.e-]+)", re.search(r"D_s:\s*\{(.*?)\}", blk).group(1))}
        r = dict(lq=get("q:"), p=get("p:"), T=get("T:"), l=get("l:"), n=get("n:"), b8=get("bandwidth b", 1, 8), c8=get("bandwidth c", 1, 8),
                 total8=get("bandwidth total", 1, 8), pk8=get("pk:", 2, 8), send8=get("send:", 2, 8),
                 quantum=get("quantum:", 1, 1000), classical=get("classical:", 1, 1000))
        out.append((r, ds, get("failure probability:")))
    return out


def main():
    s = load(sys.argv[1])
    out = []
    for c in json.load(sys.stdin):
        Estimator.asked = []
        o = io.StringIO()
        try:
            if c["op"] == "published":
                Estimator.beta = lambda p: 1000 if p == 10 else 1
                with contextlib.redirect_stdout(o):
                    s.main()
                rr = []
                for r, ds, f in rows(o.getvalue()):
                    e = 2 * max(ds)
                    rr.append(dict(r, fail=math.trunc(f), ds={"e": e, "w": [[x, round(w * 2 ** e)] for x, w in sorted(ds.items())]}))
                out.append({"op": "published", "rows": rr})
                continue
            D_s = {x: w / 2. ** c["e"] for x, w in c["w"]}
            keep = dict(D_s)
            Estimator.beta = lambda p: c["beta"][p - 10]
            with contextlib.redirect_stdout(o):
                s.search_params(D_s, q=2 ** c["lq"], k=c["k"], n=c["n"], minsec=c["minsec"] / 1000., maxerror=c["err"])
            rr = []
            for r, ds, f in rows(o.getvalue()):
                den = c["den"][str(r["p"])][r["T"] - 1]
                num = Fraction(0) if f == -math.inf else Fraction(2.0 ** f) * den / 256
                n = round(num)
                if abs(num - n) * 10 ** 9 > max(1, n):
                    raise ValueError("failure probability 2^%r is not a multiple of 256/%d" % (f, den))
                rr.append(dict(r, ds=ds == keep, num=n, den=den))
            ev = {k: v for k, v in c.items() if k != "den"}
            ev["rows"] = rr
            ev["asked"] = [dict(n=n, lq=round(math.log2(q)), ds=ds == keep) for n, q, m, D_e, ds in Estimator.asked]
            if D_s != keep:
                raise ValueError("the search changed the law of the secret")
            out.append(ev)
        except Exception as x:
            out.append({"op": "crash", "i": "scripts", "what": "search: %r" % x})
            break
    json.dump(out, sys.stdout)


main()
