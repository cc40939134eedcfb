"""S29: the lattice sanity check (a Sage script, run on a stand-in for Sage)."""
import json
import os
import re
import subprocess
import sys
import tempfile

from .. import repo
from ..core import Stop

SCRIPT = "Scripts/Sage_Scripts/sanity_check.sage"
STAND = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sagestand.py")
UNKNOWN = re.compile(r"^(NameError|AttributeError|ModuleNotFoundError|ImportError|SyntaxError)\b", re.M)


def run_script(n, q, num, plan, seed, strategy):
    """output of the script, what was reduced, and its error"""
    with tempfile.TemporaryDirectory() as d:
        out = os.path.join(d, "out")
        cfg = {"plan": plan, "seed": seed, "strategy": strategy, "bytes": seed % 2}
        try:
            r = subprocess.run([sys.executable, "-B", "-W", "ignore", STAND, os.path.join(repo.REPO, SCRIPT), out, json.dumps(cfg), str(n), str(q), str(num)],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300, cwd=d, text=True)
            err = r.stderr[-600:] if r.returncode else ""
            text = r.stdout
        except subprocess.TimeoutExpired:
            err, text = "no result within 300 s", ""
        rec = [json.loads(x) for x in open(out)] if os.path.exists(out) else []
    for x in rec:
        if x.get("status", "ok") != "ok":
            err = x["what"]
            break
    return text, rec, err


def parse(text, n, q, num):
    """the report as one event; None if it has no such form"""
    inst, groups, stats, order = [], {}, [], {}
    lists = ("a1", "a2", "e1", "e2", "G11", "G12", "G21", "G22", "A1", "A2")
    for l in text.splitlines():
        w = l.split()
        if len(w) % 2:
            return None
        f = dict(zip(w[::2], w[1::2]))
        if (int(f["n"]), int(f["q"])) != (n, q):
            return None
        if "percentage" in f:
            share = re.fullmatch(r"(\d)\.(\d{9})", f["percentage"])
            v = int(share.group(1) + share.group(2)) * num if share else 1
            stats.append(dict(m=int(f["m"]), d=int(f["d"]), beta=int(f["beta"]), rounding=f["rounding"] == "True", num=int(f["numinputs"]),
                              hits=v // 10**9 if v % 10**9 == 0 else -1))
            continue
        x = {k: json.loads(f[k]) for k in lists}
        x["rounding"] = {"True": True, "False": False}[f["rounding"]]
        key = json.dumps(x, sort_keys=True)
        if key not in order:
            order[key] = len(inst) + 1
            inst.append(x)
        t = float(f["time"]) * 64
        groups.setdefault((order[key], int(f["m"])), []).append(
            dict(beta=int(f["beta"]), d=int(f["d"]), success={"True": True, "False": False}[f["success"]], time=int(t) if t == int(t) else -1))
    return dict(inst=inst, stats=stats, groups=[dict(inst=i, m=m, lines=sorted(v, key=lambda y: y["beta"])) for (i, m), v in groups.items()])


def chains(rec):
    r = []
    for c in rec:
        for x in c.get("reductions", []):
            x = dict(x)
            if x["how"] == "LLL":
                x["how"] = 0
                r.append([])
            elif not r:
                r.append([])
            r[-1].append(x)
    return r


def scenario(c, name, n, q, num, plans, strategy):
    def run(t):
        for k, plan in enumerate(plans):
            text, rec, err = run_script(n, q, num, plan, k, strategy)
            if err:
                if UNKNOWN.search(err):
                    c.skipped.append("the script uses what the stand-in for Sage does not have: " + err.strip().splitlines()[-1])
                    return
                t.add(op="crash", i=name, what="n %d, q %d, %d inputs: %s" % (n, q, num, err.strip().splitlines()[-1]))
                raise Stop()
            try:
                ev = parse(text, n, q, num)
            except (KeyError, ValueError):
                ev = None
            if ev is None:
                t.add(op="crash", i=name, what="a line of the report has another form")
                raise Stop()
            if num >= 64:     # the distribution of instances
                t.add(1, op="spread", i=name, n=n, q=q, num=num, inst=ev["inst"])
                continue
            t.add(len(ev["groups"]), op="run", i=name, n=n, q=q, num=num, chains=chains(rec),
                  loaded=next((x["loaded"] for x in rec if "loaded" in x), ""), strategy=strategy if strategy[0] == "/" else "/nowhere/" + strategy, **ev)
    return (name, run)


def s29(c):
    c.model("Sanity", workers=4, fast=False)
    for b in ("sign", "first", "forget", "again", "clock"):
        c.mutant("Sanity", "SanityMutant_%s.cfg" % b, fast=False)
    hs = c.behaviours("Sanity", "SanitySim.cfg", num=c.pick(60, 600), depth=12)
    r = c.rng("sanity")

    def plans(k, size):
        return [r.sample(hs, size) for _ in range(k)]
    scen = []
    for n, q, num in c.pick([(1, 64, 4), (2, 8192, 4), (2, 16, 4), (3, 1024, 2), (4, 8192, 2), (4, 32, 2), (5, 256, 1), (2, 1021, 2)],
                            [(1, 64, 8), (1, 8, 4), (2, 8192, 4), (2, 16, 8), (2, 8, 4), (3, 1024, 4), (3, 40, 4), (4, 8192, 4), (4, 32, 4), (4, 3329, 2),
                             (5, 256, 2), (6, 512, 2)]):
        for s in range(c.pick(1, 4)):
            scen.append(scenario(c, "n %d q %d (%d)" % (n, q, s), n, q, num, plans(2, min(len(hs), 7)), r.choice(["default.json", "/usr/share/strategies.json"])))
    scen.append(scenario(c, "many instances", 4, 512, 64, [[[]]], "default.json"))
    tr = c.run(scen, module="SanityConform")
    c.extra["reductions"] = sum(len(x) for t in tr for e in t if e["op"] == "run" for x in e["chains"])
    c.assumptions += ["Sage, its lattice reductions and its timer are a stand-in: exact arithmetic, reductions as the model Sanity chooses them",
                      "dimensions n <= 5 (quick), 6 (thorough)"]


TABLE = {"S29": s29}
