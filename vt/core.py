"""A check: runs scenarios against the real code, has TLC judge the recorded traces and the
models, writes the evidence file and reports."""
import hashlib
import json
import os
import random
import re
import shutil
import sys
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

from . import repo, tla, arm, gen
from .host import Crash, Impl
from .repo import VERIF, CACHE, CheckError, JOBS

KNOWN = os.path.join(VERIF, "known_findings.json")


class Stop(Exception):
    """the scenario cannot go on (its last event is a rejected one)"""


class Trace(list):
    """events of one scenario; each call of the real code appends one"""

    def __init__(self, name):
        super().__init__()
        self.name = name
        self.cost = 0.0
        self.error = None

    def add(self, cost=1.0, **ev):
        self.append(ev)
        self.cost += cost
        return ev


def lanes(hexstr, n):
    m = len(hexstr) // n
    return [hexstr[i * m:(i + 1) * m] for i in range(n)]


class HostSys:
    """The KEM of one configuration, recording into a trace."""

    def __init__(self, trace, ident, name=None, so=None):
        self.t = trace
        self.impl = self.make(ident, so)
        self.name = name or ident
        self.n = 4 if self.impl.x4 else 1
        self.p = self.impl.param
        self.dim = self.impl.dim
        self.feeds = None
        self.k = {}
        if not self.impl.sizes_ok:
            self.t.add(op="crash", i=self.name, what="the API's size constants are not those of the scheme: %s" % self.impl.info)
            raise Stop()

    def make(self, ident, so):
        return Impl(ident, so)

    def close(self):
        self.impl.close()

    def guard(self, f, *a, **kw):
        try:
            return f(*a, **kw)
        except Crash as c:
            self.t.add(op="crash", i=self.name, what=c.what)
            raise Stop()

    def can_feed(self):
        """is the KEM's randomness drawn through randombytes() calls we can script?"""
        if self.feeds is None:
            r = self.guard(self.impl.keygen, bytes(96 * self.n))
            self.feeds = bool(r["reqs"])
        return self.feeds

    def base(self, r, **kw):
        d = dict(i=self.name, p=self.p, canary=r["canary"], inputs=r["inputs"])
        if "rc" in r:
            d["rc"] = r["rc"]
        d.update(kw)
        return d

    def draws(self, r, fed):
        if not fed:
            return dict(src="drbg")
        d, rec = [], r["rec"]
        for n in r["reqs"]:
            d.append(rec[:2 * n])
            rec = rec[2 * n:]
        return dict(src="feed", draws=d)

    def reboot(self):
        self.impl.restart()
        self.t.add(op="reboot", i=self.name)

    def init(self, seed, pers=b""):
        r = self.guard(self.impl.init, seed, pers or None)
        self.t.add(**self.base(r, op="init", seed=seed.hex(), pers=pers.hex()))

    def draw(self, n):
        r = self.guard(self.impl.call, "shim_randombytes", [{"out": n}, {"i": n}])
        self.t.add(**self.base(r, op="draw", n=n, out=r["outs"][0]))

    def keygen(self, feed=None, sym=None, **kw):
        fed = feed is not None and self.can_feed()
        r = self.guard(self.impl.keygen, feed if fed else None, **kw)
        ev = self.base(r, op="keygen", pk=lanes(r["pk"], self.n), sk=lanes(r["sk"], self.n), **self.draws(r, fed))
        self.t.add(1.2 * self.n, **ev)
        return r["pk"], r["sk"]

    def enc(self, pk, feed=None, sym=None, **kw):
        fed = feed is not None and self.can_feed()
        r = self.guard(self.impl.enc, pk, feed if fed else None, **kw)
        ev = self.base(r, op="enc", pk=lanes(pk, self.n), ct=lanes(r["ct"], self.n), k=lanes(r["k"], self.n),
                       **self.draws(r, fed))
        if sym:
            ev["sym"] = sym
        self.t.add(1.2 * self.n, **ev)
        return r["ct"], r["k"]

    def dec(self, ct, sk, sym=None, **kw):
        r = self.guard(self.impl.dec, ct, sk, **kw)
        ev = self.base(r, op="dec", ct=lanes(ct, self.n), sk=lanes(sk, self.n), k=lanes(r["k"], self.n))
        if sym:
            ev["sym"] = sym
        self.t.add(1.6 * self.n, **ev)
        return r["k"]

    def flips(self, ct, sk, variants):
        """variants: list of lists of (lane, pos, mask)"""
        size = self.dim["ct"]
        q = [[[(l - 1) * size + p, m] for l, p, m in v] for v in variants]
        r = self.guard(self.impl.ask, op="decflip", ct=ct, sk=sk, flips=q)
        self.t.add(2.0 * self.n + 0.06 * len(variants) * self.n, op="flips", i=self.name, p=self.p,
                   ct=lanes(ct, self.n), sk=lanes(sk, self.n), flips=[[list(f) for f in v] for v in variants],
                   rcs=r["rcs"], k=[lanes(k, self.n) for k in r["ks"]], canary=r["canary"], inputs=r["inputs"])

    def call(self, fn, args, **kw):
        return self.guard(self.impl.call, fn, args, **kw)


class ArmSys(HostSys):
    """A Cortex-M implementation in the interpreter. Its generator belongs to the platform: a seed
    stands for a stream of bytes of our choice."""

    def make(self, ident, so):
        return {"checked": arm.Checked, "observed": arm.Observed, None: arm.Arm}[so](ident)

    def can_feed(self):
        return True

    def reboot(self):
        super().reboot()
        self.seed = None

    def init(self, seed, pers=b""):
        self.seed, self.pos = seed.hex() + pers.hex(), 0

    def some(self, n):
        self.pos += n
        return gen.stream(self.seed, self.pos)[-n:] if n else b""

    def draw(self, n):
        self.some(n)

    def keygen(self, feed=None, sym=None, **kw):
        return super().keygen(feed if feed is not None else self.some(96), sym, **kw)

    def enc(self, pk, feed=None, sym=None, **kw):
        return super().enc(pk, feed if feed is not None else self.some(32), sym, **kw)


def Sys(trace, ident, name=None, so=None):
    return (ArmSys if ident in arm.CONFIGS else HostSys)(trace, ident, name, so)


def slim(ev, n=400):
    """an event with long strings cut, for evidence and messages"""
    def cut(x):
        if isinstance(x, str):
            return x if len(x) <= 80 else x[:64] + "...(%d)" % len(x)
        if isinstance(x, list):
            return [cut(y) for y in x[:4]] + (["...(%d)" % len(x)] if len(x) > 4 else [])
        if isinstance(x, dict):
            return {k: cut(v) for k, v in x.items()}
        return x
    return cut(ev)


class Check:
    def __init__(self, ident):
        self.id = ident
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.quick = self.tier == "quick"
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.models = []
        self.traces = 0
        self.events = 0
        self.samples = []
        self.extra = {}
        self.skipped = []
        self.assumptions = []
        self.problems = []    # (what, replay data)

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def rng(self, *label):
        return random.Random(hashlib.sha256(repr((self.seed, self.id) + label).encode()).digest())

    def log(self, *a):
        print("[%s %6.1f]" % (self.id, time.time() - self.t0), *a, flush=True)

    # ---- models
    def model(self, module, cfg=None, **kw):
        r = tla.model(module, cfg, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({"module": module, "config": cfg or module + ".cfg", "distinct_states": r.distinct,
                            "transitions": r.generated})
        self.log("model %s: %d states" % (cfg or module, r.distinct))
        return r

    def mutant(self, module, cfg, **kw):
        """a deliberately broken variant of a model, in which TLC must find an error: shows that the
        model's invariants can fail"""
        r = tla.tlc(module, cfg, **kw)
        if "is violated" not in r.out:
            raise CheckError("model %s (%s): the planted error was not found\n%s" % (module, cfg, r.out[-1500:]))
        self.models.append({"module": module, "config": cfg, "planted_error_found": True})
        self.log("model %s: planted error found" % cfg)

    def behaviours(self, module, cfg=None, num=None, depth=60, workers=1, cap=None, **kw):
        """the behaviours a model emits: of a simulation (num) or of the exhaustive run"""
        ex = ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed)] if num else []
        r = tla.tlc(module, cfg, fast=False, extra=ex, workers=workers, **kw)
        if "Error" in r.out or (not num and not r.ok):
            raise CheckError("model %s (%s): %s" % (module, cfg, "\n".join(x for x in r.out.splitlines() if not x.startswith('"BEH'))[-2000:]))
        out, seen = [], set()
        for l in r.out.splitlines():
            if l.startswith('"BEHAVIOUR ') and l not in seen:
                seen.add(l)
                out.append(json.loads(json.loads(l)[len("BEHAVIOUR "):]))
        if not out:
            raise CheckError("model %s (%s) gave no behaviour" % (module, cfg))
        if num:   # a simulation also emits the neighbours of its last states
            self.rng("behaviours", module, cfg).shuffle(out)
            out = out[:cap or num]
        m = re.search(r"number of states generated: (\d+)", r.out)
        self.states += r.distinct
        self.transitions += r.generated or (int(m.group(1)) if m else 0)
        self.models.append({"module": module, "config": cfg or module + ".cfg", "distinct_states": r.distinct,
                            "transitions": r.generated or (int(m.group(1)) if m else 0), "behaviours_emitted": len(out)})
        self.log("model %s: %d states, %d behaviours" % (cfg or module, r.distinct, len(out)))
        return out

    # ---- conformance
    def run(self, scenarios, module="Conform", cfg=None, jobs=None):
        """scenarios: list of (name, function(trace)). Executes all, has TLC judge the traces."""
        scenarios = list(scenarios)

        def one(s):
            name, fn = s
            t = Trace(name)
            try:
                fn(t)
            except Stop:
                pass
            except Exception as e:   # judged first: what was recorded so far may explain it
                t.error = e
            return t
        with ThreadPoolExecutor(jobs or JOBS) as ex:
            traces = list(ex.map(one, scenarios))
        self.log("executed %d scenarios, %d events" % (len(traces), sum(map(len, traces))))
        bad = self.judge(traces, module, cfg)
        table = dict(scenarios)
        for t, idx in bad:
            ev = t[idx]
            if ev["op"] == "crash":  # confirm by executing again
                for _ in range(3):
                    again = Trace(t.name)
                    try:
                        table[t.name](again)
                    except Stop:
                        pass
                    if any(e["op"] == "crash" for e in again):
                        break
                else:
                    raise CheckError("crash not reproduced: " + ev["what"])
                self.fail(t.name, ev, t[max(0, idx - 3):idx + 1])
            else:  # confirm with a second TLC run on the shortest rejected prefix
                v = tla.validate(list(t[:idx + 1]), module, cfg)
                if v.accepted:
                    raise CheckError("rejection not reproduced in " + t.name)
                self.fail(t.name, ev, t[:idx + 1])
        for t in traces:
            if t.error and not self.problems:
                raise t.error
        return traces

    def judge(self, traces, module="Conform", cfg=None):
        """returns [(trace, index)] of rejected traces"""
        traces = [t for t in traces if len(t)]
        self.traces += len(traces)
        self.events += sum(map(len, traces))
        for t in traces[:2]:
            if len(self.samples) < 4:
                self.samples.append({"trace": t.name, "event": slim(t[len(t) // 2])})
        # crashes are never steps of the specification; TLC sees them as well, but first
        # group traces into one bin per processor
        bins = [[] for _ in range(min(JOBS, len(traces)))]
        load = [0.0] * len(bins)
        for t in sorted(traces, key=lambda t: -t.cost):
            b = load.index(min(load))
            bins[b].append(t)
            load[b] += t.cost
        def work(b):
            evs = []
            for t in b:
                evs += t
            bad, todo = [], list(b)
            while todo:
                evs = [e for t in todo for e in t]
                v = tla.validate(evs, module, cfg)
                self.states += v.result.distinct
                self.transitions += v.result.generated
                if v.accepted:
                    break
                pos = v.index
                for n, t in enumerate(todo):
                    if pos < len(t):
                        bad.append((t, pos))
                        todo = todo[n + 1:]
                        break
                    pos -= len(t)
                if len(bad) >= 2:
                    break
            return bad
        with ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(work, bins))
        self.log("TLC judged %d traces" % len(traces))
        return [x for r in res for x in r]

    def fail(self, where, ev, data):
        self.problems.append((where, ev, data))
        self.log("REJECTED %s: %s" % (where, json.dumps(slim(ev))[:300]))

    # ---- end
    def finish(self):
        known = []
        if os.path.exists(KNOWN):
            with open(KNOWN) as f:
                known = [k for k in json.load(f)["findings"] if k["property"] == self.id and k["status"] == "known"]
        fresh = []
        for where, ev, data in self.problems:
            for k in known:
                if where == k.get("scenario"):
                    print("KNOWN-FINDING: property=%s %s" % (self.id, k["what"]))
                    break
            else:
                fresh.append((where, ev, data))
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_judged": self.events, "models": self.models, "samples": self.samples or ["(none)"]}
        if self.skipped:
            cov["skipped"] = self.skipped
        cov.update(self.extra)
        evd = {"property": self.id, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
               "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.id + ".json"), "w") as f:
            json.dump(evd, f, indent=1)
        if fresh:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, self.id + ".ndjson")
            with open(path, "w") as f:
                for where, ev, data in fresh[:1]:
                    f.write("".join(json.dumps(e) + "\n" for e in data))
            for where, ev, data in fresh[:5]:
                print("violation in %s: event %s" % (where, json.dumps(slim(ev))[:700]))
            print("VIOLATION property=%s replay=%s" % (self.id, path))
            return 1
        self.log("held: %d states, %d traces, %d events" % (self.states, self.traces, self.events))
        return 0


def main(ident, table):
    c = Check(ident)
    try:
        if not c.quick:
            c.model("FastCheck")
        table[ident](c)
        rc = c.finish()
    except CheckError as e:
        if c.problems:
            rc = c.finish()
        else:
            print("ERROR " + str(e))
            rc = 2
    except Exception:
        if c.problems:
            rc = c.finish()
        else:
            traceback.print_exc()
            rc = 2
    sys.stdout.flush()
    sys.exit(rc)
