"""The published known-answer files as traces: the specification itself is right only if it accepts them."""
import glob
import os
from . import repo, tla


def records(path):
    rec = {}
    with open(path) as f:
        for line in f:
            k, eq, v = line.partition(" = ")
            if eq:
                rec[k] = v.strip().lower()
                if k == "ss":
                    yield rec
                    rec = {}


def events(name, path, n):
    """the file as calls of a generator and a KEM"""
    par, ok = name.replace("-", "_"), {"canary": True, "inputs": True, "rc": 0}
    out = [dict(op="init", i="seeds", p=par, seed=bytes(range(48)).hex(), pers="", **ok)]
    for k, r in enumerate(records(path)):
        if k == n:
            break
        assert int(r["count"]) == k
        b = dict(i="kem", p=par, **ok)
        out += [dict(op="draw", i="seeds", p=par, n=48, out=r["seed"], **ok),
                dict(b, op="init", seed=r["seed"], pers=""),
                dict(b, op="keygen", pk=[r["pk"]], sk=[r["sk"]], src="drbg"),
                dict(b, op="enc", pk=[r["pk"]], ct=[r["ct"]], k=[r["ss"]], src="drbg"),
                dict(b, op="dec", ct=[r["ct"]], sk=[r["sk"]], k=[r["ss"]])]
    return out


def accepted(n):
    """numbers of records accepted, by parameter set; AssertionError if the specification rejects one"""
    got = {}
    for path in sorted(glob.glob(os.path.join(repo.REPO, "KAT", "*", "*.rsp"))):
        name = os.path.basename(os.path.dirname(path))
        evs = events(name, path, n)
        v = tla.validate(evs, "Conform")
        if not v.accepted:
            raise AssertionError("the specification rejects the published vectors: %s, event %s" % (path, str(evs[v.index])[:300]))
        got[name] = len(evs) // 5
    return got
