"""S18: decapsulations in several threads."""
import hashlib
import os
import shutil
import subprocess
import tempfile

from .. import gen, repo
from ..core import Stop, lanes
from .kem import ALL, draws_of, scenario, small_change

HARNESS = os.path.join(repo.VERIF, "harness", "threads.c")


def harness():
    with open(HARNESS, "rb") as f:
        h = hashlib.sha256(f.read()).hexdigest()[:16]
    os.makedirs(repo.CACHE, exist_ok=True)
    exe = os.path.join(repo.CACHE, "threads-" + h)
    if not os.path.exists(exe):
        fd, tmp = tempfile.mkstemp(dir=repo.CACHE)
        os.close(fd)
        repo.sh(["gcc", "-O1", "-g", "-w", HARNESS, "-o", tmp, "-ldl", "-lpthread"])
        os.rename(tmp, exe)
    return exe


def s18(c):
    repo.build_all(ALL)
    exe = harness()
    c.model("Threads", workers=4, fast=False)
    c.mutant("Threads", "ThreadsMutant.cfg", fast=False)
    scheds = c.behaviours("Threads", "ThreadsSched.cfg", workers=4)
    c.rng("scheds").shuffle(scheds)
    names = {(1, "honest"): 0, (1, "tampered"): 1, (2, "honest"): 2}

    def run(s):
        r = c.rng("threads", s.impl.ident)
        # the jobs, each run alone and judged by the definition
        jobs, sym = [], ["1h", "1t", "2h"]
        tag = "threads " + s.impl.ident
        keys = [s.keygen(draws_of(r, 3 * s.n)) for _ in range(2)]
        first = None
        for n, (key, how) in enumerate([(0, "honest"), (0, "tampered"), (1, "honest")]):
            pk, sk = keys[key]
            if how == "honest":
                ct, _ = s.enc(pk, draws_of(r, s.n))
                first = first or ct
            else:
                x = bytearray.fromhex(first)
                for ln in range(s.n):
                    p, m = small_change(r, s.dim)
                    x[ln * s.dim["ct"] + p] ^= m
                ct = bytes(x).hex()
            k = s.dec(ct, sk, sym=sym[n])
            s.t[-1]["g"] = tag
            jobs.append((ct, sk, k))
        d = tempfile.mkdtemp()
        try:
            with open(os.path.join(d, "jobs"), "wb") as f:
                for ct, sk, _ in jobs:
                    f.write(bytes.fromhex(ct) + bytes.fromhex(sk))
            z = s.impl.size

            def ask(cmds, timeout):
                p = subprocess.Popen([exe, s.impl.so, str(z["ct"]), str(z["sk"]), str(z["ss"]), os.path.join(d, "jobs")],
                                     stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                     env=dict(os.environ, LD_BIND_NOW="1"))
                try:
                    out, err = p.communicate("".join(x + "\n" for x in cmds).encode(), timeout=timeout)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.communicate()
                    return None, "no result within %d s" % timeout
                out = out.decode().splitlines()
                if len(out) != len(cmds):
                    i = len(out)
                    return None, "the process ended (status %d) during '%s'" % (p.returncode, cmds[i])
                return out, None

            def note(res, **kw):
                s.t.add(0.05, op="threads", i=s.name, g=tag, res=[dict(job=sym[j], k=lanes(k, s.n)) for j, k in res], **kw)

            def crash(what):
                s.t.add(op="crash", i=s.name, what="threads: " + what)
                raise Stop()
            out, why = ask(["alone %d" % j for j in range(3)] * 2, 120)
            if out is None:
                crash(why)
            w = [int(x.split()[0]) for x in out]
            note([(j % 3, x.split()[1]) for j, x in enumerate(out)], kind="alone", writes=w)
            # the first calls of a process: each schedule in a process of its own
            n = w[0]
            ks = sorted(set(r.sample(range(1, n + 1), min(n, c.pick(10, 150))) + ([n] if n else [])))
            for i in ks:
                q = ["sched %d %d %d %d" % (i, r.choice([0, 0, r.randrange(1, n + 1)]), 0, 2)]
                out, why = ask(q, 60)
                if out is None:
                    crash(why)
                ka, kb, _ = out[0].split()
                note([(0, ka), (2, kb)], kind="first calls", commands=q)
            for _ in range(c.pick(2, 40)):
                out, why = ask(["stress 8 3"], 60)
                if out is None:
                    crash(why)
                p = out[0].split()
                note([(int(p[i]), p[i + 1]) for i in range(0, len(p), 3)], kind="first calls, free running")
            w = w[3:]
            cmds, meta = [], []

            def sched(i, j, a, b):
                cmds.append("sched %d %d %d %d" % (i, j, a, b))
                meta.append((a, b))
            # schedules of the model, its five stages spread over the writes
            for b in scheds[:c.pick(60, 594)]:
                first_t = b["sched"][0]
                other = 3 - first_t
                na = 0
                while na < len(b["sched"]) and b["sched"][na] == first_t:
                    na += 1
                nb = 0
                while na + nb < len(b["sched"]) and b["sched"][na + nb] == other:
                    nb += 1
                ja, jb = (names[tuple(b["jobs"][x - 1])] for x in (first_t, other))

                def place(k, n):
                    return n + 1 if k >= 5 else max(1, min(n, (n * k) // 5 + r.randrange(n // 5 + 1))) if n else 1
                sched(place(na, w[ja]), place(nb, w[jb]), ja, jb)
            # every write as the only preemption, all the other thread's work in between
            for a, b in [(0, 1), (1, 0), (0, 2), (1, 2)]:
                n = w[a]
                ks = range(1, n + 1)
                lim = c.pick(60, 400)
                if n > lim:
                    ks = sorted(set(list(range(1, lim // 6)) + list(range(n - lim // 3, n + 1)) + r.sample(range(1, n + 1), lim // 2)))
                for k in ks:
                    sched(k, 0, a, b)
            # two preemptions
            for _ in range(c.pick(60, 1500)):
                a, b = r.choice([(0, 1), (1, 0), (0, 2), (2, 1), (1, 1)])
                if w[a] and w[b]:
                    sched(r.randrange(1, w[a] + 1), r.randrange(1, w[b] + 1), a, b)
            out, why = ask(cmds, 240)
            if out is None:
                crash(why)
            for at in range(0, len(out), 50):
                res = []
                for line, (a, b) in zip(out[at:at + 50], meta[at:at + 50]):
                    ka, kb, _ = line.split()
                    res += [(a, ka), (b, kb)]
                note(res, kind="schedules", commands=cmds[at:at + 50])
            feasible = sum(x.endswith("1") for x in out)
            # free-running threads
            out, why = ask(["stress 8 %d" % c.pick(150, 4000), "stress 3 %d" % c.pick(100, 2000)], 240)
            if out is None:
                crash(why)
            for line in out:
                p = line.split()
                note([(int(p[i]), p[i + 1]) for i in range(0, len(p), 3)], kind="free running")
            totals.append((s.impl.ident, w, len(cmds), feasible))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    totals = []
    c.run([scenario("threads", i, run) for i in ALL], jobs=4)
    c.extra["schedules"] = {i: {"static_writes": w, "schedules": n, "as_planned": f} for i, w, n, f in totals}
    c.assumptions += ["preemption points of controlled schedules: writes to the library's static storage (other memory of a call is its own); "
                      "free-running threads on all processors otherwise"]


TABLE = {"S18": s18}
