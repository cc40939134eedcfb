"""S23: the scripts' probability utilities; S25: the parameter search built on them."""
import json
import math
import os
import subprocess
import sys

from .. import repo
from ..core import Stop

DIR = "Scripts/Python_Scripts/select_params"
GIVEN = [(1, {-1: 1, 0: 1}), (2, {-3: 1, 0: 1, 2: 2}), (2, {-2: 1, 1: 3}), (3, {0: 5, 1: 2, -4: 1})]


def laws(*commands, worker="lawworker.py", cost=0.1):
    """run the commands, append the results to the trace"""
    def f(t):
        cmds = [dict(x) for x in commands]
        try:
            r = subprocess.run([sys.executable, os.path.join(repo.VERIF, "vt", worker), os.path.join(repo.REPO, DIR)],
                               input=json.dumps(cmds).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
            out = json.loads(r.stdout) if r.returncode == 0 else None
            why = r.stderr.decode(errors="replace")[-300:]
        except subprocess.TimeoutExpired:
            out, why = None, "no result within 300 s"
        if out is None:
            t.add(op="crash", i="scripts", what="scripts: " + why)
            raise Stop()
        for ev in out:
            t.add(cost, **ev)
    return f


def law(f, r, **kw):
    return dict(op="law", f=f, r=r, **kw)


def given(r, e, w, q=1):
    return law("given", r, q=q, e=e, w=sorted([x, n] for x, n in w.items()))


def s23(c):
    c.model("LawModel", workers=4, fast=False)
    c.mutant("LawModelMutant", "LawModelMutant.cfg", fast=False)
    hs = c.behaviours("LawModel", "LawSim.cfg", num=c.pick(120, 3000), depth=12)
    r = c.rng("laws")
    cmds = []
    for h in hs:
        cmds.append(dict(op="fresh"))
        for e in h:
            o = e["op"]
            if o == "binom":
                cmds.append(law("binom", e["r"], k=e["k"]))
            elif o == "given":
                cmds.append(given(e["r"], *GIVEN[e["i"] - 1]))
            elif o == "errlaw":
                cmds.append(law("errlaw", e["r"], m=e["q"], n=e["p"]))
            elif o in ("conv", "prod"):
                cmds.append(law(o, e["r"], s=e["s"], t=e["t"]))
            elif o == "iter":
                cmds.append(law("iter", e["r"], s=e["s"], k=e["i"]))
            elif o == "diff":
                cmds.append(law("diff", "", s=e["s"], k=e["m"]))
            elif o == "tail":
                cmds.append(dict(op="tail", s=e["s"], t2=e["t2"], float=r.random() < 0.5))
            else:
                cmds.append(dict(op="stat", s=e["s"]))
    scen = []
    n = 8
    starts = [i for i, x in enumerate(cmds) if x["op"] == "fresh"] + [len(cmds)]
    step = max(1, len(starts) // n)
    for j in range(0, len(starts) - 1, step):
        scen.append(("histories %d" % j, laws(*cmds[starts[j]:starts[min(j + step, len(starts) - 1)]])))

    # every tail of random laws, of any symmetry and support
    q = []
    for _ in range(c.pick(60, 1500)):
        span = r.choice([1, 2, 4, 9, 30])
        vals = r.sample(range(-span, span + 1), r.randrange(1, min(2 * span + 1, 12) + 1))
        if r.random() < .3:
            vals = [abs(x) for x in vals] if r.random() < .5 else [-abs(x) for x in vals]
        w = {x: r.randrange(1, 64) for x in vals}
        q += [dict(op="fresh"), given("a", r.choice([6, 10, 40, 200]), w)]
        q += [dict(op="tail", s="a", t2=t2, float=t2 % 3 == 0) for t2 in range(0, 2 * span + 4)]
    scen.append(("tails", laws(*q)))

    # weights of every size: sums and products of tiny weights, cleaning on both sides of its bound
    q = []
    for _ in range(c.pick(60, 1000)):
        pa, pb = ({x: r.randrange(1, 200) for x in r.sample(range(-9, 10), r.randrange(1, 7))} for _ in range(2))
        q += [dict(op="fresh"), given("a", r.randrange(0, 140), pa), given("b", r.randrange(0, 140), pb),
              law("conv", "c", s="a", t="b"), law("prod", "d", s="a", t="b"), law("clean", "c", s="c"), law("clean", "d", s="d")]
        e = r.randrange(285, 330)
        q += [given("a", e, {x: r.choice([1, 2, 3, 1 << r.randrange(25), (1 << max(0, min(28, e - 300))) + 1, r.randrange(1, 1 << 29)])
                             for x in r.sample(range(-20, 21), 9)}), law("clean", "b", s="a")]
    for k in list(range(0, c.pick(12, 20))):
        m = max(1, k)
        q += [dict(op="fresh"), given("a", min(280 // m, 30), {-1: 1, 2: 1}), law("iter", "b", s="a", k=k)]
    # repeated sums of degenerate laws, any number of times
    for k in [15, 16, 31, 33, 64, 100, 255, 256, 257] + [r.randrange(500) for _ in range(c.pick(6, 60))]:
        q += [dict(op="fresh"), given("a", 0, {r.randrange(-5, 6): 1}), law("iter", "b", s="a", k=k)]
    scen.append(("tiny weights", laws(*q)))

    # rounding laws: powers of two and others, in both directions
    q = []
    pairs = [(2 ** a, 2 ** b) for a in range(1, 9) for b in range(0, a)] + [(8192, 1024), (1024, 8), (1024, 16), (1024, 64)] * (not c.quick)
    pairs += [(r.randrange(3, c.pick(120, 400)), r.randrange(2, 60)) for _ in range(c.pick(30, 200))]
    for a, b in pairs:
        q += [dict(op="fresh"), law("errlaw", "a", m=a, n=b)]
    rows = [[r.randrange(-3 * m, 3 * m), m] for m in range(1, 60) for _ in range(4)]
    q += [dict(op="table", f="centred", args=rows + [[x, 8192] for x in (0, 1, 4095, 4096, 4097, 8191, -1, -4096)])]
    rows = [[x, a, b] for a, b in [(8192, 1024), (1024, 8), (1024, 16), (1024, 64), (3329, 1024), (13, 5), (7, 7)]
            for x in list(range(0, min(a, 70))) + [a - 1, a - 2, a // 2] + [r.randrange(a) for _ in range(40)]]
    q += [dict(op="table", f="switch", args=rows)]
    q += [dict(op="table", f="binomial", args=[[n, k] for n in range(0, 26) for k in range(0, n + 3)]),
          dict(op="table", f="pdf", args=[[k, x] for k in range(0, 13) for x in range(-k - 2, k + 3)])]
    for k in range(0, 13):
        q += [dict(op="fresh"), law("binom", "a", k=k)] + [dict(op="tail", s="a", t2=t2) for t2 in range(0, 2 * k + 3)] + \
             ([dict(op="stat", s="a")] if k <= 5 else [])
    scen.append(("tables", laws(*q)))
    c.run(scen, module="LawConform")
    c.assumptions += ["weights are compared as multiples of their common denominator (relative tolerance 1e-7), laws with up to 81 values",
                      "weights below 2^-300 may be dropped by repeated sums, as documented",
                      "at a rounding tie either neighbour is accepted"]


def tails(lq, p, kn, e, w):
    """[(weight beyond q/4, common denominator)] for every T, or None if too large for TLC's integers"""
    def err(a, b):
        h = 1 << (a - b - 1)
        return {d: 1 if abs(d) == h else 2 for d in range(-h, h + 1)}
    one, A, m = {}, {0: 1}, 1 << (lq - p)
    for x, u in w:
        for d, v in err(lq, p).items():
            one[x * d] = one.get(x * d, 0) + u * v
    for _ in range(kn):
        B = {}
        for x, u in A.items():
            for y, v in one.items():
                B[x + y] = B.get(x + y, 0) + u * v
        A = B
    cl = {}
    for x, u in A.items():
        cl[x % m] = cl.get(x % m, 0) + u
    N = math.lcm(*cl.values())
    D = {}
    for x, u in A.items():
        for y, v in A.items():
            if (x - y) % m == 0:
                D[x - y] = D.get(x - y, 0) + u * v * (N // cl[x % m])
    den0 = N << (kn * (e + lq - p + 1))
    if den0 << (lq + 1) >= 1 << 31 or len(A) > 250:
        return None
    out = []
    for T in range(1, 2 * p - lq + 1):
        h, t = 1 << (lq - T - 1), 1 << (lq - 2)
        f = lambda x: 0 if x >= h else 4 * h if x < -h else 2 * (h - x) - 1    # noqa: E731
        out.append((sum(u * (f(t - s) + f(t + s)) for s, u in D.items()), den0 << (lq - T + 1)))
    return out


def s25(c):
    c.model("Search", workers=4, fast=False)
    for i in (1, 2, 3, 4):
        c.mutant("Search", "SearchMutant%d.cfg" % i)
    wanted = [(b["safe"], tuple(b["good"]), tuple(b["zero"])) for b in c.behaviours("Search", "SearchEmit.cfg")]
    r = c.rng("search")
    # laws of secrets and bounds that realise the behaviours of the model
    pool = []
    for _ in range(c.pick(1500, 8000)):
        lq = r.choice([11, 12, 12, 12, 13, 13, 14])
        k, n = r.choice([(1, 1), (1, 1), (1, 1), (1, 2), (2, 1)])
        top = r.choice([3, 40, 300, 1200, 1 << (lq - 2)])
        vals = r.sample(range(-top, top + 1), r.choice([1, 1, 1, 2, 2, 3]))
        w = {1: [1], 2: r.choice([[1, 1], [1, 3], [1, 63]]), 3: r.choice([[1, 2, 1], [1, 6, 1]])}[len(vals)]
        e = sum(w).bit_length() - 1
        law_ = sorted(zip(vals, w))
        tt = {p: tails(lq, p, k * n, e, law_) for p in range(10, lq)}
        if None not in tt.values():
            pool.append((lq, k, n, e, law_, tt))
    r.shuffle(pool)
    runs, seen = [], {}
    for lq, k, n, e, law_, tt in pool:
        errs = {-1, -30, 0} | {8 + math.floor(math.log2(x / d)) + j for v in tt.values() for x, d in v if x for j in (0, 1)}
        for err in sorted(x for x in errs if -23 <= x <= 0 or x == -30):
            if err == -30 and all(d >> 38 == 0 for v in tt.values() for x, d in v):
                err = -22      # 2^(8 - err) has to stay below 2^31
            pat = tuple(next((T + 1 for T, (x, d) in enumerate(tt[p]) if x * (256 << -err) <= d), 2 * p - lq + 1) for p in sorted(tt))
            zer = tuple(next((T + 1 for T, (x, d) in enumerate(tt[p]) if not x), 2 * p - lq + 1) for p in sorted(tt))
            for safe in range(10, lq + 1):
                key = (lq, safe, pat, zer)
                if seen.get(key, 0) >= c.pick(1, 3):
                    continue
                seen[key] = seen.get(key, 0) + 1
                lo = r.randrange(1, 1000)
                beta = [lo + r.randrange(1, 400) if p < safe else r.randrange(1, lo + 1) for p in range(10, lq)]
                beta.sort(reverse=True)
                first = next((b for p, b in zip(range(10, lq), beta) if p >= safe), lo)
                last = min([b for p, b in zip(range(10, lq), beta) if p < safe] or [first + 1])
                minsec = 292 * first + 146 if last > first else 292 * last - 146
                if last == 250 * (last // 250) and r.random() < .8:
                    minsec = 292 * last
                runs.append(dict(op="search", lq=lq, k=k, n=n, e=e, w=[list(x) for x in law_], err=err, beta=beta, minsec=minsec,
                                 den={p: [d for x, d in v] for p, v in tt.items()}))
    hit = sum((12,) + w in seen for w in wanted)
    c.log("%d runs; %d of the model's %d answers of estimator and failure computation realised" % (len(runs), hit, len(wanted)))
    r.shuffle(runs)
    runs = runs[:c.pick(320, 6000)]
    step = 40
    scen = [("runs %d" % i, laws(*runs[i:i + step], worker="searchworker.py", cost=1)) for i in range(0, len(runs), step)]
    scen.append(("published", laws(dict(op="published"), worker="searchworker.py", cost=40)))
    c.run(scen, module="SearchConform")
    c.assumptions += ["the lattice estimator is a stand-in that answers with the run's block sizes (not increasing with p)",
                      "laws of secrets small enough for exact integer weights, k n <= 2; the published parameter sets besides",
                      "moduli are powers of two"]


TABLE = {"S23": s23, "S25": s25}
