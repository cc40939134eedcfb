"""S19: branches and addresses are independent of secrets."""
import hashlib
import os
import re
import subprocess
import tempfile

from .. import arm, gen, repo
from ..core import Stop
from . import kem
from .kem import ALL, scenario, small_change

HARNESS = os.path.join(repo.VERIF, "harness", "ct.c")
VALGRIND = ["valgrind", "--error-limit=no", "--vex-guest-max-insns=20", "--vex-guest-chase=no", "--leak-check=no"]


def harness():
    with open(HARNESS, "rb") as f:
        h = hashlib.sha256(f.read()).hexdigest()[:16]
    os.makedirs(repo.CACHE, exist_ok=True)
    exe = os.path.join(repo.CACHE, "ct-" + h)
    if not os.path.exists(exe):
        fd, tmp = tempfile.mkstemp(dir=repo.CACHE)
        os.close(fd)
        repo.sh(["gcc", "-O1", "-g", "-w", HARNESS, "-o", tmp, "-ldl"])
        os.rename(tmp, exe)
    return exe


def s19(c):
    std = repo.build_all(ALL)
    port = repo.build_all(ALL, "port")
    exe = harness()
    c.model("Leak", workers=2, fast=False)
    c.mutant("Leak", "LeakMutant.cfg", fast=False)
    progs = c.behaviours("Leak", "LeakAll.cfg", workers=2)

    def ask(t, name, so, dim, n, lines, how, timeout=600):
        cmd = [exe, so, str(n), str(dim["pk"]), str(dim["sk"]), str(dim["ct"]), "32", str(dim["skv"])]
        cmd = cmd + ["step"] if how == "step" else VALGRIND + cmd
        try:
            p = subprocess.run(cmd, input="".join(x + "\n" for x in lines).encode(), stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise repo.CheckError("%s: no result within %d s" % (name, timeout))
        out = p.stdout.decode().splitlines()
        if len(out) != len(lines):
            err = p.stderr.decode(errors="replace")
            if "impossible" in err or "VEX" in err or "unhandled instruction" in err:
                raise repo.CheckError("valgrind failed on %s: %s" % (name, err[-500:]))
            t.add(op="crash", i=name, what="died (status %d) in %s" % (p.returncode, lines[len(out)][:10]))
            raise Stop()
        where = re.findall(r"== (Conditional jump[^\n]*|Use of uninit[^\n]*)\n==\d+==    at 0x\w+: (\w+)", p.stderr.decode(errors="replace"))
        return out, sorted({"%s in %s" % (a.split(" depends")[0].split(" of size")[0], b) for a, b in where})[:6]

    def monitor(t):
        """the monitor on the programs of the model"""
        out, _ = ask(t, "monitor", std["ref/LightSaber"], repo.param_info("LightSaber"), 1, ["prog " + b["prog"] for b in progs], "taint")
        for b, x in zip(progs, out):
            t.add(0.01, op="prog", prog=list(b["prog"]), alarm=x.split()[1] != "0")

    def run(s):
        r = c.rng("leak", s.impl.ident)
        n, dim = s.n, s.dim
        if not s.can_feed():
            raise repo.CheckError("%s: the random draws cannot be scripted" % s.name)

        def cut(h, size):
            return [h[2 * size * i:2 * size * (i + 1)] for i in range(n)]
        # events of the KEM (judged elsewhere) only prepare the inputs here
        seedA = [r.randbytes(32) for _ in range(n)]

        # which draws are the public seeds: those whose change alters the matrix seed in pk
        base = [r.randbytes(32) for _ in range(3 * n)]
        pk0 = s.guard(s.impl.keygen, b"".join(base))["pk"]
        mask = ""
        for i in range(3 * n):
            alt = list(base)
            alt[i] = r.randbytes(32)
            pk1 = s.guard(s.impl.keygen, b"".join(alt))["pk"]
            mask += "p" if any(x[-64:] != y[-64:] for x, y in zip(cut(pk0, dim["pk"]), cut(pk1, dim["pk"]))) else "s"

        def feed(fill=None):
            k = iter(seedA)
            return b"".join(next(k) if m == "p" else (bytes([fill]) * 32 if fill is not None else r.randbytes(32)) for m in mask)
        if mask.count("p") != n:
            raise repo.CheckError("%s: cannot tell the public draws (%s)" % (s.name, mask))
        f1 = feed()
        kp = s.guard(s.impl.keygen, f1)
        pk, sk = kp["pk"], kp["sk"]
        other = s.guard(s.impl.keygen, r.randbytes(96 * n))["sk"]
        e = s.guard(s.impl.enc, pk, r.randbytes(32 * n))
        ct = e["ct"]
        bad = bytearray.fromhex(ct)
        for i in range(n):
            bad[(i + 1) * dim["ct"] - 1] ^= 1
        bad = bytes(bad).hex()
        first = bytearray.fromhex(ct)
        for i in range(n):
            first[i * dim["ct"] + 1] ^= 0x10
        first = bytes(first).hex()
        a, b = cut(sk, dim["sk"]), cut(other, dim["sk"])
        sv, z = 2 * dim["skv"], 64
        sk_s = "".join(y[:sv] + x[sv:] for x, y in zip(a, b))        # another secret vector
        sk_z = "".join(x[:-z] + y[-z:] for x, y in zip(a, b))        # another rejection value
        mixed = "".join((y if i % 2 else x)[:sv] + x[sv:] for i, (x, y) in enumerate(zip(a, b)))

        # the monitored runs
        lines = ["keygen %s %s" % (f1.hex(), mask), "enc %s %s" % (pk, r.randbytes(32 * n).hex()), "dec %s %s" % (ct, sk),
                 "dec %s %s" % (bad, sk), "dec %s %s" % (first, sk), "dec %s %s" % (r.randbytes(dim["ct"] * n).hex(), sk)]
        if n > 1:
            lines.append("dec %s %s" % (ct, mixed))
        for _ in range(c.pick(0, 6)):
            lines += ["keygen %s %s" % (feed(r.choice([0, 255, None])).hex(), mask), "enc %s %s" % (pk, r.randbytes(32 * n).hex()),
                      "dec %s %s" % (r.choice([ct, bad, first]), r.choice([sk, sk_s, sk_z]))]
        out, where = ask(s.t, s.name, port[s.impl.ident], dim, n, lines, "taint")
        for ln, x in zip(lines, out):
            fn, al, rc = x.split()
            s.t.add(0.1, op="taint", i=s.name, fn=fn, alarms=int(al), rc=int(rc), inp=hashlib.sha256(ln.encode()).hexdigest()[:16],
                    where=where if al != "0" else [])

        # the stepped runs: same public inputs, different secrets
        runs = [("dec", "ct", "dec %s %s" % (ct, sk)), ("dec", "ct", "dec %s %s" % (ct, sk_s))]
        small = s.p.endswith("LightSaber") or s.p.endswith("LightSaber_90s")
        if not c.quick or small:
            runs += [("dec", "ct", "dec %s %s" % (ct, sk_z)), ("dec", "bad", "dec %s %s" % (bad, sk)), ("dec", "bad", "dec %s %s" % (bad, sk_s))]
            if n > 1:
                runs.append(("dec", "ct", "dec %s %s" % (ct, mixed)))
            for x in ([None, 0] if c.quick else [None, None, 0, 255]):
                runs.append(("keygen", "seed", "keygen %s %s" % (feed(x).hex(), mask)))
            for x in ([None, 0] if c.quick else [None, None, 0, 255]):
                runs.append(("enc", "pk", "enc %s %s" % (pk, (r.randbytes(32 * n) if x is None else bytes([x]) * 32 * n).hex())))
        warm = []
        for x in (runs[0][2], "keygen %s %s" % (f1.hex(), mask), "enc %s %s" % (pk, f1[:32 * n].hex())):
            warm += [x, x]
        out, _ = ask(s.t, s.name, std[s.impl.ident], dim, n, warm + ["+" + x for _, _, x in runs], "step")
        for (fn, pub, _), x in zip(runs, out[len(warm):]):
            _, k, rc, h = x.split()
            s.t.add(0.1, op="steps", g=s.name, fn=fn, pub=pub, n=k, h=h, rc=int(rc))
    c.run([("monitor", monitor)] + [scenario("leak", i, run) for i in sorted(ALL, key=lambda i: "90s" not in i)], module="LeakConform")
    c.assumptions += ["taint runs use the sources compiled for AVX2 without AVX-512 (valgrind), the stepped runs the project's own flags",
                      "secrets: draws for noise, rejection value and message; the secret vector and rejection value in sk; the libraries' own generator is outside",
                      "instruction addresses and data addresses; instruction latencies are not modelled"]


# ---------------------------------------------------------------- S24
def s24(c):
    idents = list(arm.CONFIGS)
    arm.build_all(idents)
    c.model("Leak", workers=2, fast=False)
    c.mutant("Leak", "LeakMutant.cfg", fast=False)
    progs = c.behaviours("Leak", "LeakAll.cfg", workers=2)

    def observer(t, ident):
        """the observer on the programs of the model"""
        m = arm.Observed(ident, "watch")
        for b in progs:
            arg = [{"in": (b["prog"].encode() + b"\0").hex()}]
            x, y = (m.observed("call", "watch", arg + [{"i": v}], ret="void")["obs"] for v in (1, 0))
            t.add(0.01, op="watch", prog=list(b["prog"]), same=x == y)

    def run(s):
        r = c.rng("observed", s.impl.ident)
        dim = s.dim
        first = {}

        def see(fn, pub, *args, what="call", **kw):
            """one observed call; pub names its public inputs"""
            q = s.guard(s.impl.observed, what, *args, **kw)
            key = (fn, pub)
            where = ""
            if key not in first:
                first[key] = (q["obs"], q["marks"])
            elif first[key][0] != q["obs"]:
                n = next((n for n, (x, y) in enumerate(zip(q["marks"], first[key][1])) if x != y), min(len(q["marks"]), len(first[key][1])))
                where = s.impl.at(256 * n, what, *args, **kw)
            s.t.add(0.02, op="steps", g=s.name, fn=fn, pub=pub, n=str(len(q["marks"])), h=q["obs"], rc=q.get("rc", 0), where=where)
            return q
        # which draws are public: those that change the matrix seed in pk
        base = [r.randbytes(32) for _ in range(3)]
        q = s.guard(s.impl.keygen, b"".join(base))
        mask = ""
        for i in range(3):
            alt = list(base)
            alt[i] = r.randbytes(32)
            mask += "p" if s.guard(s.impl.keygen, b"".join(alt))["pk"][-64:] != q["pk"][-64:] else "s"
        if mask.count("p") != 1:
            raise repo.CheckError("%s: cannot tell the public draws (%s)" % (s.name, mask))
        for a in range(c.pick(2, 6)):
            seed = r.randbytes(32)
            for n in range(c.pick(5, 60)):
                f = b"".join(seed if m == "p" else gen.some_bytes(r, 32) for m in mask)
                see("keygen", "seed%d" % a, f, what="keygen")
        for a in range(c.pick(2, 6)):
            kp = s.guard(s.impl.keygen, r.randbytes(96))
            pk, sk = kp["pk"] if a < 2 else r.randbytes(dim["pk"]).hex(), kp["sk"]
            for n in range(c.pick(5, 60)):
                see("enc", "pk%d" % a, pk, gen.some_bytes(r, 32), what="enc")
            if a >= 2:
                continue
            ct = s.guard(s.impl.enc, pk, r.randbytes(32))["ct"]
            size = dim["ct"]
            forms = [("ct", ct)]
            for pos in (0, 1, size // 2, size - 1):
                x = bytearray.fromhex(ct)
                x[pos] ^= 1 << r.randrange(8)
                forms.append(("ct altered at %d" % pos, bytes(x).hex()))
            forms += [("zero", "00" * size), ("ones", "ff" * size), ("random", r.randbytes(size).hex())]
            tail = sk[2 * dim["skv"]:-64]
            for name, x in forms:
                for n in range(c.pick(6, 60)):
                    if n == 0:
                        vec, z = sk[:2 * dim["skv"]], sk[-64:]
                    else:
                        vec, z = kem.sk_bytes(r, s, sk)[:2 * dim["skv"]], gen.some_bytes(r, 32).hex()
                    if n == 1:
                        vec = ["00", "ff"][a] * dim["skv"]
                    see("dec", "%s %d" % (name, a), x, vec + tail + z, what="dec")
        # the parts that handle values which no honest hash yields
        w = s.impl.wrappers
        k = c.pick(6, 60)
        pk = s.guard(s.impl.keygen, r.randbytes(96))["pk"]
        for n in range(k):
            if "cbd" in w:
                see("cbd", "", "w_cbd", [{"in": gen.some_bytes(r, 32 * dim["mu"]).hex()}, {"out": 512}], ret="void")
            m, coins = (gen.some_bytes(r, 32).hex() for _ in range(2))
            if "pke_enc" in w:
                see("pke_enc", "pk", "w_pke_enc", [{"in": m}, {"in": coins}, {"in": pk}, {"out": dim["ct"]}], ret="void")
        if "pke_cmp" in w and "pke_enc" in w:
            m, coins = (r.randbytes(32).hex() for _ in range(2))
            ct = s.call("w_pke_enc", [{"in": m}, {"in": coins}, {"in": pk}, {"out": dim["ct"]}], ret="void")["outs"][0]
            for x, y in [(m, coins), (coins, m)] + [tuple(gen.some_bytes(r, 32).hex() for _ in range(2)) for _ in range(k)]:
                q = s.guard(s.impl.observed, "call", "w_pke_cmp", [{"in": x}, {"in": y}, {"in": pk}, {"in": ct}])
                s.t.add(0.02, op="steps", g=s.name, fn="pke_cmp", pub="ct", n=str(len(q["marks"])), h=q["obs"], rc=0)
    c.run([("observer " + i, lambda t, i=i: observer(t, i)) for i in ("m4-striding/Saber", arm.M0)] +
          [scenario("observed", i, run, so="observed") for i in sorted(idents, key=lambda i: i != arm.M0)], module="LeakConform")
    c.assumptions += ["observer: addresses of all instructions, addresses and sizes of all loads and stores, operands of divisions; the fips202 functions and the generator the M4 code is linked with are the platform's and count as one step each",
                      "machine code of arm-none-eabi-gcc with the project's flags"]


TABLE = {"S19": s19, "S24": s24}
