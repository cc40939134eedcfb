"""S28: the Keccak libraries keep independent states: the four-way one four, those of the Cortex-M0 one."""
import os
import shutil
import tempfile

from .. import arm, gen, repo
from ..core import Stop
from ..host import Crash
from .kem import ALL, scenario
from .prims import has

P = "KeccakP1600times4_"
NAMES = {"init": P + "InitializeAll", "byte": "w_addbyte", "add": P + "AddBytes", "over": P + "OverwriteBytes", "clear": P + "OverwriteWithZeroes",
         "get": P + "ExtractBytes", "getadd": P + "ExtractAndAddBytes", "addall": P + "AddLanesAll", "overall": P + "OverwriteLanesAll",
         "getall": P + "ExtractLanesAll", "getaddall": P + "ExtractAndAddLanesAll", "perm12": P + "PermuteAll_12rounds",
         "perm24": P + "PermuteAll_24rounds", "loop12": P + "12rounds_FastLoop_Absorb", "loop24": "KeccakF1600times4_FastLoop_Absorb"}


class Library:
    """calls of the library on one memory of 800 bytes, recorded"""

    def __init__(self, s, r):
        self.s, self.r = s, r
        self.have = {f for f, n in NAMES.items() if (n == "w_addbyte" and "addbyte" in s.impl.wrappers) or (n != "w_addbyte" and has(s, n))}
        self.ctx = {"ctx": "four", "size": 800}

    def data(self, n):
        return gen.some_bytes(self.r, n) if n else b""

    def call(self, f, *a, out=False, ret="void", **ev):
        if f not in self.have:
            return
        place = self.r.choice(["mid", "end", "start"])
        off = self.r.choice([0, 0, 1, 3, 8, 17]) if place == "mid" else 0
        q = self.s.call(NAMES[f], [self.ctx] + list(a), ret=ret, place=place, off=off, fill=ev.get("fill", 0xCC))
        if out:
            ev["out"] = q["outs"][0]
        if ret != "void":
            ev["rc"] = q["rc"]
        self.s.t.add(0.1, op=f, i=self.s.name, canary=q["canary"], inputs=q["inputs"], **ev)

    def step(self, c):
        """one call as the model FourWay gives it"""
        f = c[0]
        if f == "init":
            self.call(f, n=4)
        elif f in ("perm12", "perm24"):
            self.call(f)
        elif f == "byte":
            v = self.r.randrange(256)
            self.call(f, {"i": c[1]}, {"i": v}, {"i": c[2]}, k=c[1] + 1, off=c[2], v=v)
        elif f == "clear":
            self.call(f, {"i": c[1]}, {"i": c[2]}, k=c[1] + 1, len=c[2])
        elif f in ("add", "over"):
            d = self.data(c[3]).hex()
            self.call(f, {"i": c[1]}, {"in": d}, {"i": c[2]}, {"i": c[3]}, k=c[1] + 1, off=c[2], **{"in": d})
        elif f == "get":
            self.call(f, {"i": c[1]}, {"out": c[3]}, {"i": c[2]}, {"i": c[3]}, out=True, k=c[1] + 1, off=c[2], len=c[3])
        elif f == "getadd":
            d = self.data(c[3]).hex()
            self.call(f, {"i": c[1]}, {"in": d}, {"out": c[3]}, {"i": c[2]}, {"i": c[3]}, out=True, k=c[1] + 1, off=c[2], **{"in": d})
        else:
            n = 8 * (3 * c[2] + c[1]) if c[1] else 0
            fill = self.r.choice([0, 0xCC, 0xFF])
            if f in ("addall", "overall"):
                d = self.data(n).hex()
                self.call(f, {"in": d}, {"i": c[1]}, {"i": c[2]}, c=c[1], d=c[2], **{"in": d})
            elif f == "getall":
                self.call(f, {"out": n}, {"i": c[1]}, {"i": c[2]}, out=True, c=c[1], d=c[2], fill=fill)
            elif f == "getaddall":
                d = self.data(n).hex()
                self.call(f, {"in": d}, {"out": n}, {"i": c[1]}, {"i": c[2]}, out=True, c=c[1], d=c[2], fill=fill, **{"in": d})
            else:
                d = self.data(c[4]).hex()
                self.call(f, {"i": c[1]}, {"i": c[2]}, {"i": c[3]}, {"in": d}, {"i": c[4]}, ret="int", c=c[1], d=c[2], step=c[3], **{"in": d})

    def look(self):
        """the four states, whole"""
        if "getall" in self.have:
            self.step(["getall", 25, 25])
        else:
            for k in range(4):
                self.step(["get", k, 0, 200])


M0 = arm.BASE + "Cortex-M0/saber-ref-mem/src/"
F = "KeccakF1600_State"


class Single:
    """calls of a library of the Cortex-M0 on one state, recorded; the state is word-aligned, data are anywhere"""

    def __init__(self, t, name, d, source, kind, r):
        self.t, self.name, self.r = t, name, r
        self.code = arm.Code([os.path.join(repo.REPO, M0 + source)], os.path.join(d, kind + ".elf"), kind)
        self.st = r.randbytes(200).hex()

    def has(self, f):
        return F + f in self.code.elf.syms

    def call(self, f, *a, out=False, **ev):
        q = self.code.call(F + f, [{"inout": self.st, "off": 0}] + list(a), off=self.r.randrange(8))
        self.st = q["outs"][0]
        if out:
            ev["out"] = q["outs"][1]
        self.t.add(0.02, i=self.name, canary=q["canary"], inputs=q["inputs"], **ev)

    def step(self, c):
        f = c[0]
        if f == "init":
            if self.has("Initialize"):
                self.call("Initialize", op="init", n=1)
            else:       # as fips202.c: the caller clears the state
                self.st = bytes(200).hex()
                self.t.add(0.02, i=self.name, op="init", n=1, canary=True, inputs=True)
        elif f == "perm24":
            self.call("Permute", op=f)
        elif f == "add":
            d = gen.some_bytes(self.r, c[3]).hex() if c[3] else ""
            self.call("XORBytes", {"in": d}, {"i": c[2]}, {"i": c[3]}, op=f, k=1, off=c[2], **{"in": d})
        elif f == "get":
            self.call("ExtractBytes", {"out": c[3]}, {"i": c[2]}, {"i": c[3]}, out=True, op=f, k=1, off=c[2], len=c[3])
        elif f == "flip" and self.has("ComplementBit"):
            self.call("ComplementBit", {"i": c[1]}, op="byte", k=1, off=c[1] // 8, v=1 << c[1] % 8)

    def look(self):
        self.step(["get", 0, 0, 200])


def single(c, name, source, kind, hs):
    def run(t):
        r = c.rng("single", source)
        d = tempfile.mkdtemp(prefix="keccak")
        try:
            try:
                lib = Single(t, name, d, source, kind, r)
            except Crash as x:
                t.add(op="crash", i=name, what=x.what)
                raise Stop()
            try:
                lib.step(["init"])
                lib.look()
                for b in r.sample(range(1600), c.pick(64, 1600)):
                    lib.step(["flip", b])
                    lib.step(["get", 0, b // 64 * 8, 8])
                lib.look()
                lib.step(["perm24"])
                for h in hs:
                    for call in h:
                        lib.step(call)
                    lib.look()
                for o in range(8):
                    for ln in range(c.pick(26, 42)):
                        for f in ("add", "get"):
                            for _ in range(c.pick(1, 3)):
                                lib.step([f, 0, o + 8 * r.randrange(0, (200 - o - ln) // 8 + 1), ln])
                        if ln % 3 == 0:
                            lib.look()
                    lib.step(["perm24"])
                    lib.look()
                for o in range(0, 201, c.pick(13, 1)):      # up to the end of the state
                    lib.step(["add", 0, o, 200 - o])
                    lib.step(["get", 0, o, 200 - o])
                for _ in range(c.pick(6, 60)):
                    lib.step(["perm24"])
                    lib.look()
            except Crash as x:
                t.add(op="crash", i=name, what=x.what)
                raise Stop()
            finally:
                lib.code.close()
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return (name, run)


def s28(c):
    confs = [i for i in ALL if repo.CONFIGS[i]["fam"] == "x4"][:c.pick(1, 3)]
    repo.build_all(confs)
    c.model("FourWay", workers=4, fast=False)
    for b in ("stuck", "uncapped", "packed", "whole", "crossed", "short"):
        c.mutant("FourWay", "FourWayMutant_%s.cfg" % b, fast=False)
    c.model("Interleave", workers=4, fast=False)
    for b in ("noswap", "half", "mask", "order", "flip"):
        c.mutant("Interleave", "InterleaveMutant_%s.cfg" % b, fast=False)
    hs = c.behaviours("FourWay", "FourWaySim.cfg", num=c.pick(120, 1500), depth=75)

    def parts(n):
        def play(s):
            r = c.rng("four", s.impl.ident, n)
            lib = Library(s, r)
            if not {"init", "get"} <= lib.have:
                return
            lib.step(["init"])
            if n == 0:        # the model's histories
                for h in hs:
                    for call in h:
                        lib.step(call)
                    lib.look()
                    if r.randrange(2):
                        lib.step(["perm24"])
            elif n == 1:      # every start within a lane with every short length, in every call on bytes
                lib.step(["overall", 25, 25])
                for f in ("add", "over", "get", "getadd"):
                    for o in range(8):
                        for ln in range(c.pick(20, 34)):
                            k = r.randrange(4)
                            lib.step([f, k, o + 8 * r.randrange(0, (200 - o - ln) // 8 + 1), ln])
                            if f in ("add", "over") and ln % 3 == 0:
                                lib.look()
                    lib.look()
                for f in ("byte", "clear"):
                    for ln in range(200):
                        lib.step([f, r.randrange(4), ln])
                        if ln % 4 == 0:
                            lib.look()
                        if f == "clear" and ln % 3 == 0:
                            lib.step(["overall", 25, r.choice([25, 3])])
            elif n == 2:      # every number of lanes at several distances
                for f in ("addall", "overall", "getall", "getaddall"):
                    for lanes in range(26):
                        for d in sorted({lanes, lanes + 1, 25} | ({0, 1, max(0, lanes - 1)} if f in ("addall", "overall") else set())):
                            lib.step([f, lanes, d])
                            if f in ("addall", "overall"):
                                lib.look()
                    lib.step(["perm12"])
            else:             # loops: every number of lanes, data just enough for 0, 1, 2, 3 blocks
                for f in ("loop12", "loop24"):
                    for lanes in list(range(26)) + [21] * 8:
                        d, step = r.choice([(lanes, 4 * lanes), (lanes, lanes), (lanes + 2, lanes + 1), (3 * lanes, lanes), (1, 3), (0, 1), (50, lanes)])
                        step = min(max(step, 1), 3 * d + lanes)
                        if step < 1:
                            continue
                        for b in r.sample(range(4), 2):
                            ln = 8 * (3 * d + lanes + b * step) + r.choice([0, -1, 1, 7])
                            lib.step([f, lanes, d, step, max(0, ln)])
                            lib.look()
            lib.look()
        return play
    ones = [single(c, "Cortex-M0 library " + f, f, k, hs) for f, k in (("asm_KeccakF-1600.S", "m0"), ("keccakf1600.S", "m4"))
            if os.path.exists(os.path.join(repo.REPO, M0 + f))]
    tr = c.run([scenario("four-way %d" % n, i, parts(n)) for i in confs for n in range(4)] + ones, module="FourWayConform")
    c.extra["calls"] = sum(len(t) for t in tr)
    if not c.extra["calls"]:
        c.skipped.append("the library's functions could not be called on their own; S10 judges the four-way hash functions built on it")


TABLE = {"S28": s28}
