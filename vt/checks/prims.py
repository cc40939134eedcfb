"""S07-S14: arithmetic, serialization, sampling, symmetric primitives, generator, expander."""
from .. import repo, gen
from ..core import Sys
from .kem import ALL, scenario

FAMS = {}
for _c in ALL:
    FAMS.setdefault(repo.CONFIGS[_c]["src"], []).append(_c)


def one_per_family(nineties=False):
    """one configuration per implementation directory (their primitives do not depend on the parameter set)"""
    out = []
    for cs in FAMS.values():
        pick = [c for c in cs if repo.param_info(repo.CONFIGS[c]["param"])["nineties"] == nineties]
        if pick:
            out.append(pick[0] if len(pick) < 2 else pick[1])
    return out


def has(s, *names):
    return len(s.impl.has(*names)) == len(names)


def frame(rs):
    return dict(canary=all(r["canary"] for r in rs), inputs=all(r["inputs"] for r in rs))


def need(c, traces, what):
    """vacuity: something must have been judged"""
    if not any(len(t) for t in traces):
        raise repo.CheckError("nothing to judge: " + what)


# ---------------------------------------------------------------- S07
def limb_poly(r, limbs):
    """an operand of the model Toom: its limbs in one, in all, or in runs of the 64 positions"""
    k = r.randrange(4)
    pos = {0: [r.randrange(64)], 1: range(64), 2: range(r.randrange(60), 64), 3: [p for p in range(64) if r.randrange(2)]}[k]
    a = [0] * 256
    for p in pos:
        for j in range(4):
            a[64 * j + p] = limbs[j]
    return a


def products(c, ops, nq):
    def mult(s):
        r = c.rng("mul", s.impl.ident)
        d = s.dim
        l = d["l"]

        def poly(small_ok=True):
            k = r.randrange(5)
            if k == 0:
                return limb_poly(r, r.choice(ops)[r.randrange(2)])
            if k == 1 and small_ok:
                return gen.small_poly(r, d["mu"], 1 << d["eq"])
            if k == 2 and small_ok:
                return gen.small_poly(r, d["mu"], 1 << 16)
            return gen.some_poly(r, r.choice([d["eq"], d["ep"], 16, 16, 15]))

        def go(kind, fn, w, na, extra, nout, a=None, b=None):
            a = a or [x for _ in range(na) for x in poly()]
            b = b or [x for _ in range(l if kind != "poly" else 1) for x in poly()]
            ah, bh = gen.words(a).hex(), gen.words(b).hex()
            q = s.call(fn, [{"in": ah}, {"in": bh}, {"out": 512 * nout}] + extra, ret="void")
            s.t.add(0.15 * na, op="mul", i=s.name, p=s.p, kind=kind, w=w, a=ah, b=bh, out=q["outs"][0],
                    canary=q["canary"], inputs=q["inputs"])
        if "polymul" in s.impl.wrappers:
            for o in ops[:c.pick(40, 600)]:
                go("poly", "w_polymul", d["eq"], 1, [], 1, limb_poly(r, o[0]), limb_poly(r, o[1]))
            for _ in range(nq):
                go("poly", "w_polymul", d["eq"], 1, [], 1)
        if "inner" in s.impl.wrappers:
            for _ in range(nq):
                go("inner", "w_inner", d["ep"], l, [], 1)
            # one product at a time, at both moduli's operand ranges
            for o in ops[-c.pick(20, 300):]:
                j = r.randrange(l)
                go("inner", "w_inner", d["ep"], l, [], 1,
                   sum([limb_poly(r, o[0]) if i == j else [0] * 256 for i in range(l)], []),
                   sum([limb_poly(r, o[1]) if i == j else [0] * 256 for i in range(l)], []))
        if "matvec" in s.impl.wrappers:
            for n in range(max(6, nq // 3)):
                t = n % 2
                go("matvecT" if t else "matvec", "w_matvec", d["eq"], l * l, [{"i": t}], l)
            # one entry of the matrix at a time: row and column order
            for i in range(l):
                for j in range(l):
                    a = [0] * (256 * l * l)
                    a[256 * (i * l + j) + r.randrange(256)] = r.randrange(1, 1 << d["eq"])
                    for t in (0, 1):
                        go("matvecT" if t else "matvec", "w_matvec", d["eq"], l * l, [{"i": t}], l, a)
    return mult


def s07(c):
    repo.build_all(ALL)
    c.model("Toom", "Toom_toom.cfg", workers=4, fast=False)
    c.model("Toom", "Toom_kara.cfg", workers=4, fast=False)
    c.mutant("Toom", "ToomMutant.cfg", fast=False)
    ops = c.behaviours("Toom", "ToomSim.cfg", num=c.pick(400, 4000), depth=12, cap=c.pick(1000, 20000))
    nq = c.pick(24, 400)

    mult = products(c, ops, nq)
    tr = c.run([scenario("products", i, mult) for i in ALL])
    if not any(e.get("op") == "mul" for t in tr for e in t):
        # no multiplication of its own to call: everything through the whole scheme only
        c.skipped.append("no internal multiplication could be called; S03-S05 cover them through the interface")
    c.extra["products"] = sum(e.get("op") == "mul" for t in tr for e in t)


# ---------------------------------------------------------------- S08
def packings(c, units, rounds):
    def packs(s):
        r = c.rng("pack", s.impl.ident)
        d = s.dim
        l = d["l"]

        def do_pack(fn, w, n, a):
            ah = gen.words(a).hex()
            q = s.call("w_" + fn, [{"in": ah}, {"out": w * 32 * n}], ret="void", fill=r.choice([0, 0xCC, 0xFF]))
            s.t.add(0.05 * n, op="pack", i=s.name, p=s.p, w=w, a=ah, out=q["outs"][0], canary=q["canary"], inputs=q["inputs"])

        def do_unpack(fn, w, n, b):
            q = s.call("w_" + fn, [{"in": b.hex()}, {"out": 512 * n}], ret="void", fill=r.choice([0, 0xCC, 0xFF]))
            s.t.add(0.05 * n, op="unpack", i=s.name, p=s.p, w=w, **{"in": b.hex()}, out=q["outs"][0], exact=False,
                    **({"signed": True} if fn == "unpack_mu" else {}), canary=q["canary"], inputs=q["inputs"])
        table = [("q", d["eq"], l), ("p", d["ep"], l), ("T", d["et"], 1), ("msg", 1, 1), ("q4", d["eq"], 4 * l),
                 ("p4", d["ep"], 4 * l), ("T4", d["et"], 4), ("mu", d["skw"], l), ("3", 3, 1), ("6", 6, 1),
                 ("p1", d["ep"], l), ("q1", d["eq"], 1), ("4", 4, 1), ("10", 10, l), ("11", 11, l), ("13", 13, l), ("14", 14, l),
                 ("13p", 13, 1), ("vp", d["ep"], l), ("vq", d["eq"], l), ("13x4", 13, 4 * l), ("oq4", d["eq"], 4 * l), ("op4", d["ep"], 4 * l)]
        for tag, w, n in table:
            mine = [u for u in units if u[0] == w]
            for fn, act in (("pack_" + tag, do_pack), ("unpack_" + tag, do_unpack)):
                if fn not in s.impl.wrappers:
                    continue
                # unit strings of the model, one group each, spread over the whole vector
                size = w * 256 * n
                for base in range(0, size, 8 * w * 8):
                    bits = 0
                    for g in range(8):     # every group of eight coefficients gets another unit string
                        _, kind, i, j = r.choice(mine)
                        one = (1 << i) | (1 << j if kind == "pair" else 0)
                        if kind == "hole":
                            one = ((1 << (8 * w)) - 1) ^ (1 << i)
                        bits |= one << (base + g * 8 * w)
                    if (base // (64 * w)) % c.pick(4, 1) == c.seed % c.pick(4, 1):
                        b = (bits & ((1 << size) - 1)).to_bytes(size // 8, "little")
                        if act is do_unpack:
                            act(fn, w, n, b)
                        else:
                            act(fn, w, n, gen.unpack(w, b, 256 * n))
                for _ in range(rounds):
                    if act is do_unpack:
                        act(fn, w, n, gen.some_bytes(r, size // 8))
                    else:
                        a = sum([gen.some_poly(r, w) for _ in range(n)], [])
                        if tag != "msg" and r.randrange(2):   # bits above the width are ignored
                            a = [x | (r.randrange(1 << 16) << w) & 0xFFFF for x in a]
                        act(fn, w, n, a)
    return packs


def s08(c):
    repo.build_all(ALL)
    units = c.behaviours("Packing", workers=4)
    c.mutant("PackingMutant", "PackingMutant.cfg")
    rounds = c.pick(12, 200)

    packs = packings(c, units, rounds)
    tr = c.run([scenario("serialization", i, packs) for i in ALL])
    n = sum(len(t) for t in tr)
    c.extra["packings"] = n
    if not n:
        c.skipped.append("no serialization function could be called on its own; S03-S05 cover them through the interface")


# ---------------------------------------------------------------- S09
def samples(c, rounds):
    def sample(s):
        r = c.rng("cbd", s.impl.ident)
        d = s.dim
        mu, l = d["mu"], d["l"]

        def cbd(data):
            q = s.call("w_cbd", [{"in": data.hex()}, {"out": 512}], ret="void", fill=r.choice([0, 0xCC, 0xFF]))
            s.t.add(0.05, op="cbd", i=s.name, p=s.p, **{"in": data.hex()}, out=q["outs"][0], canary=q["canary"], inputs=q["inputs"])
        if "cbd" in s.impl.wrappers and not d["uniform"]:   # the uniform variants do not sample with it
            # every value of the noise bits (the states of Sampler) at every position class
            full = 1 << mu
            span = max(full, 256)
            cls = 8
            for sh in range(cls if not c.quick or mu < 10 else 4):
                for base in range(0, span, 256):
                    cbd(gen.pack(mu, [((base + k * 37 + sh * 5 + k // cls) % full) for k in range(256)]))
            for base in range(0, span, 256):
                cbd(gen.pack(mu, [(base + k) % full for k in range(256)]))
            for k in range(mu):   # walking bit
                cbd(gen.pack(mu, [1 << k] * 256))
                cbd(gen.pack(mu, [(full - 1) ^ (1 << k)] * 256))
            for _ in range(rounds):
                cbd(gen.some_bytes(r, mu * 32))
        for fn, k in (("gensecret", 1), ("gensecret4", 4)):
            if fn not in s.impl.wrappers:
                continue
            for _ in range(rounds):
                seeds = [gen.some_bytes(r, 32) for _ in range(k)]
                q = s.call("w_" + fn, [{"in": b"".join(seeds).hex()}, {"out": 512 * l * k}], ret="void")
                m = len(q["outs"][0]) // k
                for n in range(k):
                    s.t.add(0.1, op="gensecret", i=s.name, p=s.p, **{"in": seeds[n].hex()}, out=q["outs"][0][n * m:(n + 1) * m],
                            canary=q["canary"], inputs=q["inputs"])
        for fn, k in (("genmatrix", 1), ("genmatrix4", 4)):
            if fn not in s.impl.wrappers:
                continue
            for _ in range(rounds // 5):
                seeds = [gen.some_bytes(r, 32) for _ in range(k)]
                q = s.call("w_" + fn, [{"in": b"".join(seeds).hex()}, {"out": 512 * l * l * k}], ret="void")
                m = len(q["outs"][0]) // k
                for n in range(k):
                    s.t.add(0.2, op="genmatrix", i=s.name, p=s.p, **{"in": seeds[n].hex()}, out=q["outs"][0][n * m:(n + 1) * m],
                            canary=q["canary"], inputs=q["inputs"])
        # the secret vector at the interface: key generation from structured secret seeds
        for _ in range(c.pick(2, 20)):
            s.keygen(b"".join(r.randbytes(32) + gen.some_bytes(r, 32) + r.randbytes(32) for _ in range(s.n)))
    return sample


def s09(c):
    repo.build_all(ALL)
    c.model("Sampler")
    rounds = c.pick(20, 300)

    sample = samples(c, rounds)
    c.run([scenario("sampling", i, sample) for i in ALL])


# ---------------------------------------------------------------- S10, S11
def lengths(c, classes, mode, rate, upto):
    """real lengths for the length classes of SpongeModel (model rate 8), plus all small ones"""
    m = [0, 1, 2, rate // 2 - 1, rate // 2, rate // 2 + 5, rate - 2, rate - 1]
    if mode == "sha2":   # the length field takes 3 of 8 model bytes
        f = 8 if rate == 64 else 16
        m = [0, 1, rate // 2, rate - f - 2, rate - f - 1, rate - f, rate - f + 1, rate - 1]
    out = {k * rate + m[r] for md, k, r in classes if md == mode}
    out |= set(range(0, upto))
    return sorted(out)


def hashing(c, s, r, fn, lens, outs, sig, inplace=True, rate=136):
    """outs: list of output lengths (None: fixed)"""
    name = "w_" + fn if fn in s.impl.wrappers else fn
    fixed = {"sha3_256": 32, "sha3_512": 64, "sha256": 32, "sha512": 64}.get(fn)
    if fixed:
        ms = [gen.some_bytes(r, n) for n in lens]
        for x in range(0, len(ms), 64):
            part = ms[x:x + 64]
            rs = []
            for n, m in enumerate(part):
                rs.append(s.call(name, [{"out": fixed}, {"in": m.hex()}, {"i": len(m)}], ret="void",
                                 place=["mid", "end", "start"][n % 3], off=n % 17, fill=n * 37 % 256))
            s.t.add(0.5, op="hash", i=s.name, fn=fn, **{"in": [m.hex() for m in part]}, n=fixed,
                    out=[q["outs"][0] for q in rs], **frame(rs))
        if inplace:
            part = [gen.some_bytes(r, n) for n in (fixed, fixed + 1, rate - 1, rate, rate + 1, 2 * rate, 2 * rate + 1, 32, 64)]
            part = [m for m in part if len(m) >= fixed]
            rs = [s.call(name, [{"inout": m.hex()}, {"at": [0, 0]}, {"i": len(m)}], ret="void") for m in part]
            s.t.add(0.5, op="hash", i=s.name, fn=fn, **{"in": [m.hex() for m in part]}, n=fixed,
                    out=[q["outs"][0][:2 * fixed] for q in rs], **frame(rs))
            # and nothing behind the digest changes
            s.t.add(0.1, op="same", vals=[[q["outs"][0][2 * fixed:], m[fixed:].hex()] for q, m in zip(rs, part)])
        return
    for n, ol in enumerate(outs):
        k = lens[n % len(lens)]
        m = gen.some_bytes(r, k)
        q = s.call(name, [{"out": ol}, {"i": ol}, {"in": m.hex()}, {"i": k}], ret="void",
                   place=["mid", "end", "start"][n % 3], off=n % 17, fill=n * 37 % 256)
        s.t.add(0.05, op="hash", i=s.name, fn=fn, **{"in": [m.hex()]}, n=ol, out=[q["outs"][0]], **frame([q]))
    for k in lens:
        ol = r.choice([1, 32, 33, 168, 200])
        m = gen.some_bytes(r, k)
        q = s.call(name, [{"out": ol}, {"i": ol}, {"in": m.hex()}, {"i": k}], ret="void")
        s.t.add(0.05, op="hash", i=s.name, fn=fn, **{"in": [m.hex()]}, n=ol, out=[q["outs"][0]], **frame([q]))
    if inplace:
        for k, ol in ((32, 32), (32, 200), (64, 64), (200, 500), (168, 168), (500, 100), (336, 337), (167, 336)):
            m = gen.some_bytes(r, max(k, ol))
            q = s.call(name, [{"inout": m.hex()}, {"i": ol}, {"at": [0, 0]}, {"i": k}], ret="void")
            s.t.add(0.05, op="hash", i=s.name, fn=fn, **{"in": [m[:k].hex()]}, n=ol, out=[q["outs"][0][:2 * ol]], **frame([q]))
            s.t.add(0.05, op="same", vals=[[q["outs"][0][2 * ol:], m[ol:].hex()]])


def long_messages(s, r, fn, lens, n=0):
    name = "w_" + fn if fn in s.impl.wrappers else fn
    fixed = {"sha3_256": 32, "sha3_512": 64, "sha256": 32, "sha512": 64}.get(fn)
    for k in lens:
        pat = gen.some_bytes(r, 31).hex()
        a = [{"out": fixed or n}] + ([] if fixed else [{"i": n}]) + [{"rep": pat, "n": k}, {"i": k}]
        q = s.call(name, a, ret="void", off=k % 17)
        s.t.add(1, op="longhash", i=s.name, fn=fn, pat=pat, len=k, n=fixed or n, out=q["outs"][0], **frame([q]))


def windows(r, n, step=16, first=0):
    """parts of a long stream of n bytes beginning at block first: around every carry of the block counter, and anywhere"""
    at = {0}
    for b in (8, 12, 15, 16, 17, 20, 23, 24):
        for k in ((1 << b), (2 << b), ((first >> b) + 1 << b), ((first >> b) + 2 << b)):
            at |= {(k - first - d) for d in (0, 1, 2, 4, 8)}
    blocks = n // 16
    at |= {blocks - 4, blocks - 9} | {r.randrange(max(1, blocks)) for _ in range(40)}
    return [[16 * b, min(64, n - 16 * b)] for b in sorted(at) if 0 <= b and 16 * b < n]


def parts(win, out):
    return [[o // 16, x] for (o, _), x in zip(win, out)]


def cshaking(c, s, fn, rate, lens, outs):
    """cSHAKE with a two-byte customisation string and no function name"""
    r = c.rng(fn, s.impl.ident)
    name = "w_" + fn if fn in s.impl.wrappers else fn + "_simple"
    for n, k in enumerate(list(lens) + [0, 32, 64] * 4):
        ol = r.choice(outs)
        cstm = r.choice([0, 1, 255, 256, 0xFFFF, r.randrange(1 << 16)])
        m = gen.some_bytes(r, k)
        q = s.call(name, [{"out": ol}, {"i": ol}, {"i": cstm}, {"in": m.hex()}, {"i": k}], ret="void", off=n % 5, fill=n * 37 % 256)
        s.t.add(0.05, op="cshake", i=s.name, rate=rate, cstm=cstm.to_bytes(2, "little").hex(), **{"in": m.hex()}, n=ol, out=q["outs"][0], **frame([q]))


def s10(c):
    confs = one_per_family()
    repo.build_all(confs)
    classes = c.behaviours("SpongeModel")
    c.mutant("SpongeModelMutant", "SpongeModelMutant2.cfg", fast=False)

    def h(s):
        r = c.rng("sha3", s.impl.ident)
        if has(s, "sha3_256"):
            hashing(c, s, r, "sha3_256", lengths(c, classes, "sha3", 136, c.pick(420, 1400)), None, "oi")
        if has(s, "sha3_512"):
            hashing(c, s, r, "sha3_512", lengths(c, classes, "sha3", 72, c.pick(300, 1000)), None, "oi", rate=72)
        if has(s, "shake128"):
            ls = lengths(c, classes, "sha3", 168, c.pick(180, 1200))
            outs = sorted(set(range(0, c.pick(345, 1700))) | {k * 168 + x for k in range(3, 10) for x in (-1, 0, 1)} |
                          {832, 1152, 1248, 3744, 6656, 4992})
            hashing(c, s, r, "shake128", ls, outs, "oi", rate=168)
            # the output is a prefix of any longer output
            m = gen.some_bytes(r, 32).hex()
            full = None
            for ol in (3744, 1248, 500, 337, 336, 335, 168, 167, 1, 0):
                q = s.call("shake128", [{"out": ol}, {"i": ol}, {"in": m}, {"i": 32}], ret="void")
                full = full or q["outs"][0]
                s.t.add(0.05, op="same", vals=[[q["outs"][0], full[:2 * ol]]])
        if has(s, "cshake128_simple"):
            cshaking(c, s, "cshake128", 168, lengths(c, classes, "sha3", 168, c.pick(60, 700))[::c.pick(2, 1)], [0, 1, 32, 167, 168, 169, 336, 500])
        for fn, n in (("sha3_256", 32), ("sha3_512", 64), ("shake128", 333)):
            if has(s, fn):
                long_messages(s, r, fn, [4095, 65535, 65536, 65536 + 136, (1 << 20) + r.randrange(300)], n)
        if has(s, "shake128"):
            for ol in [8192, 65535, 65536, 65537] + [1 << 18] * (not c.quick):
                m = gen.some_bytes(r, 32)
                q = s.call("shake128", [{"out": ol}, {"i": ol}, {"in": m.hex()}, {"i": 32}], ret="void")
                s.t.add(0.5, op="hash", i=s.name, fn="shake128", **{"in": [m.hex()]}, n=ol, out=[q["outs"][0]], **frame([q]))
        # the four-way versions
        for fn, fixed, rate in (("sha3_256x4", 32, 136), ("sha3_512x4", 64, 72), ("shake128x4", None, 168), ("shake256x4", None, 136)):
            if not has(s, fn):
                continue
            ls = lengths(c, classes, "sha3", rate, c.pick(40, 420))
            outs = [fixed] if fixed else sorted(set(range(0, c.pick(20, 700))) | {rate * k + x for k in (1, 2, 3) for x in (-31, -2, -1, 0, 1, 2, 50)} | {3744, 768})
            jobs = [(k, r.choice(outs)) for k in ls] + ([(r.choice(ls), o) for o in outs] if not fixed else [])
            for k, ol in jobs:
                ms = [gen.some_bytes(r, k) for _ in range(4)]
                a = [{"out": ol} for _ in range(4)] + ([] if fixed else [{"i": ol}]) + [{"in": m.hex()} for m in ms] + [{"i": k}]
                q = s.call(fn, a, ret="void", off=0)
                s.t.add(0.1, op="hash", i=s.name, fn=fn[:-2], **{"in": [m.hex() for m in ms]}, n=ol, out=q["outs"], **frame([q]))
    need(c, c.run([scenario("SHA-3", i, h) for i in confs]), "SHA-3")


def s11(c):
    confs = [i for i in ALL if i.startswith("v-ref/") and i.endswith("_90s")][:c.pick(1, 2)]
    repo.build_all(confs)
    classes = c.behaviours("SpongeModel")
    c.mutant("SpongeModelMutant", "SpongeModelMutant1.cfg", fast=False)

    def h(s):
        r = c.rng("sha2", s.impl.ident)
        if has(s, "sha256"):
            hashing(c, s, r, "sha256", lengths(c, classes, "sha2", 64, c.pick(700, 2500)) + [992, 1312, 1088, 1024, 4096, 5000], None, "oi", rate=64)
        if has(s, "sha512"):
            hashing(c, s, r, "sha512", lengths(c, classes, "sha2", 128, c.pick(700, 2500)) + [1023, 1024, 4097], None, "oi", rate=128)
        for fn in ("sha256", "sha512"):
            if has(s, fn):
                long_messages(s, r, fn, [4095, 8192, 8191 + 64, 65535, 65536, 100001, (1 << 21) - 1, (1 << 21) + 77, (1 << 24) + 200] +
                              [(1 << 29) + 1, (1 << 29) + {"sha256": 61, "sha512": 125}[fn]])
        # many messages of one length: carries inside the compression function
        for fn, n in (("sha256", 64), ("sha512", 128)):
            if has(s, fn):
                hashing(c, s, r, fn, [n - 9] * c.pick(60, 600) + [2 * n] * c.pick(60, 600), None, "oi", False)
    need(c, c.run([scenario("SHA-2", i, h) for i in confs]), "SHA-2")
    # the other implementation of the 90s variant hashes through its own route: judged at the interface
    def kem(s):
        r = c.rng("kem", s.impl.ident)
        pk, sk = s.keygen(b"".join(gen.some_bytes(r, 32) for _ in range(3)))
        ct, k = s.enc(pk, gen.some_bytes(r, 32))
        s.dec(ct, sk)
        s.dec(gen.some_bytes(r, len(ct) // 2).hex(), sk)
    k90 = [i for i in ALL if i.endswith("_90s")]
    repo.build_all(k90)
    c.run([scenario("KEM", i, kem) for i in k90])


# ---------------------------------------------------------------- S12
def s12(c):
    confs = [i for i in ALL if i in ("v-ref/Saber_90s", "v-avx2/Saber_90s", "v-ref/uSaber_90s")]
    repo.build_all(confs)
    starts = c.behaviours("CtrBatch")
    c.mutant("CtrBatch", "CtrBatchMutant.cfg")

    def ctr(s):
        r = c.rng("ctr", s.impl.ident)

        def one(fn, args, key, ctrb, w, n, rc=None, **kw):
            q = s.call(fn, args, **kw)
            ev = dict(op="ctr", i=s.name, key=key.hex(), ctr=ctrb.hex(), w=w, n=n, out=q["outs"][0], **frame([q]))
            s.t.add(0.05, **ev)
        lens = list(range(0, c.pick(150, 700))) + [255, 256, 257, 511, 512, 513, 1000, 1024, 4095, 4096, 4097, 16384, 65537]
        if has(s, "aes256ctr_prf"):
            for n, k in enumerate(lens):
                key, nonce = gen.some_bytes(r, 32), gen.some_bytes(r, 12)
                one("aes256ctr_prf", [{"out": k}, {"i": k}, {"in": key.hex()}, {"in": nonce.hex()}], key, nonce + bytes(4), 4, k,
                    ret="void", place=["mid", "end", "start"][n % 3], off=n % 17)
        if has(s, "saber_aes256ctr_prf"):
            for n, k in enumerate(lens + [32, 416 * 9, 768]):
                key = gen.some_bytes(r, 32)
                one("saber_aes256ctr_prf", [{"out": k}, {"i": k}, {"in": key.hex()}], key, bytes(16), 4, k,
                    ret="void", place=["mid", "end", "start"][n % 3], off=n % 17)
        # long streams: every carry of the 32-bit counter in the 256 MB a block counter of 24 bits reaches
        def long(fn, args, key, ctrb, w, n, **kw):
            win = windows(r, n)
            q = s.call(fn, [{"out": n, "win": win}, {"i": n}] + args, **kw)
            s.t.add(1, op="ctrparts", i=s.name, key=key.hex(), ctr=ctrb.hex(), w=w, at=parts(win, q["outs"][0]), **frame([q]))
        for n in [(1 << 20) + 100, (1 << 28) + 1000]:
            key, nonce = r.randbytes(32), r.randbytes(12)
            if has(s, "aes256ctr_prf"):
                long("aes256ctr_prf", [{"in": key.hex()}, {"in": nonce.hex()}], key, nonce + bytes(4), 4, n, ret="void")
            if has(s, "saber_aes256ctr_prf"):
                long("saber_aes256ctr_prf", [{"in": key.hex()}], key, bytes(16), 4, n if n < 1 << 28 else 1 << 21, ret="void")
            if has(s, "crypto_stream_aes256ctr"):
                ctrb = r.randbytes(16)
                long("crypto_stream_aes256ctr", [{"in": ctrb.hex()}, {"in": key.hex()}], key, ctrb, 16, n)
        if has(s, "aes256ctr_init", "aes256ctr_squeezeblocks"):
            key, nonce, at, ctx = r.randbytes(32), r.randbytes(12), 0, {"ctx": "long", "size": 8 * 120 + 64}
            q = s.call("aes256ctr_init", [ctx, {"in": key.hex()}, {"in": nonce.hex()}], ret="void")
            s.t.add(0.1, op="ctrinit", i=s.name, c=s.name + "long", key=key.hex(), ctr=nonce.hex() + "00000000", canary=q["canary"])
            for n in (63, 1, 1 << 14, (1 << 18) - 100, 300, (1 << 22) - (1 << 18) - (1 << 14), 400):
                win = windows(r, 64 * n, first=at)
                q = s.call("aes256ctr_squeezeblocks", [{"out": 64 * n, "win": win}, {"i": n}, ctx], ret="void")
                s.t.add(1, op="ctrnextparts", i=s.name, c=s.name + "long", n=4 * n, at=parts(win, q["outs"][0]), canary=q["canary"])
                at += 4 * n
            for h in range(c.pick(12, 100)):
                ids = ["a%d" % h, "b%d" % h]
                for x in ids:
                    key, nonce = gen.some_bytes(r, 32), gen.some_bytes(r, 12)
                    q = s.call("aes256ctr_init", [{"ctx": x, "size": 8 * 120 + 64}, {"in": key.hex()}, {"in": nonce.hex()}], ret="void")
                    s.t.add(0.1, op="ctrinit", i=s.name, c=s.name + x, key=key.hex(), ctr=nonce.hex() + "00000000", canary=q["canary"])
                for _ in range(r.randrange(2, 9)):
                    x = r.choice(ids)
                    n = r.choice([0, 1, 1, 2, 3, 5, 16, 17, 63, 64, 65])
                    q = s.call("aes256ctr_squeezeblocks", [{"out": 64 * n}, {"i": n}, {"ctx": x, "size": 8 * 120 + 64}], ret="void")
                    s.t.add(0.1, op="ctrnext", i=s.name, c=s.name + x, n=4 * n, out=q["outs"][0], canary=q["canary"])
        if has(s, "crypto_stream_aes256ctr"):
            def stream(ctrb, k, n=0):
                key = gen.some_bytes(r, 32)
                one("crypto_stream_aes256ctr", [{"out": k}, {"i": k}, {"in": ctrb.hex()}, {"in": key.hex()}], key, ctrb, 16, k,
                    place=["mid", "end", "start"][n % 3], off=n % 17)
            for n, k in enumerate(lens):
                stream(gen.some_bytes(r, 16), k, n)
            # the starts of the model: how far each half of the counter is from wrapping
            M64 = 1 << 64
            for hi, dist in starts:
                H = {0: 0, 1: 1}.get(hi, M64 - 1)
                stream(H.to_bytes(8, "big") + (M64 - dist).to_bytes(8, "big"), 16 * 8 * 5 - r.randrange(16))
                stream(r.randbytes(8) + (M64 - dist).to_bytes(8, "big"), 16 * 8 * 5)
            # carries at other byte and sign boundaries
            for b in (8, 16, 24, 31, 32, 33, 40, 48, 56, 63):
                for d in (1, 4, 7, 8, 9, 15, 16, 17):
                    stream(r.randbytes(8) + (((r.randrange(M64 >> b) << b) - d) % M64).to_bytes(8, "big"), 16 * 40)
    need(c, c.run([scenario("AES-CTR", i, ctr) for i in confs]), "AES-CTR")


# ---------------------------------------------------------------- S13
# AES-256 of the counter blocks 1, 2, 3 under the zero key: initialisation XORs the seed onto them
E0 = bytes.fromhex("530f8afbc74536b9a963b4f1c4cb738bcea7403d4d606b6e074ec5d3baf39d18726003ca37a62a74d1a2f58e7506358e")


def seed_for(v, key=None, r=None):
    """the seed after which the generator's counter block is v (and its key is key)"""
    k = key or r.randbytes(32)
    return bytes(a ^ b for a, b in zip(E0, k + v))


def scaled(r, n, B=4):
    """model length (block of four) to a real length with the same block structure"""
    return (n // B) * 16 + [0, 1, r.randrange(2, 15), 15][n % B]


def s13(c):
    confs = one_per_family()
    repo.build_all(confs)
    c.model("DrbgModel", workers=2)
    c.mutant("DrbgModelMutant", "DrbgModelMutant.cfg", fast=False)
    hs = c.behaviours("DrbgModel", "DrbgModelSim.cfg", num=c.pick(40, 600) * len(confs), depth=20)

    def drbg(s):
        r = c.rng("drbg", s.impl.ident)
        mine = hs[confs.index(s.impl.ident)::len(confs)]
        seeds = {x: (gen.some_bytes(r, 48), b"") for x in "stu"}
        seeds["u"] = (gen.some_bytes(r, 48), gen.some_bytes(r, 48))
        for h in mine:
            if h[0]["op"] != "init":
                continue
            for e in h:
                if e["op"] == "init":
                    s.init(*seeds[e["s"]])
                else:
                    s.draw(scaled(r, e["n"]))
        # counter blocks about to carry, at every byte and over the end
        edge = []
        for b in range(1, 17):
            for d in (1, 2, 3, 4, 5):
                hi = r.randbytes(16 - b)
                v = int.from_bytes(hi + bytes([255] * b), "big") + 1 - d
                edge.append((v % (1 << 128)).to_bytes(16, "big"))
        for v in edge:
            s.init(seed_for(v, r=r))
            for n in (r.choice([0, 1, 16, 17, 32, 48, 100]), 32):
                s.draw(n)
        # structured seeds, personalisation, long and many requests
        for _ in range(c.pick(10, 100)):
            s.init(gen.some_bytes(r, 48), r.choice([b"", gen.some_bytes(r, 48)]))
            for _ in range(r.randrange(1, 12)):
                s.draw(r.choice([0, 1, 15, 16, 17, 31, 32, 33, 47, 48, 49, 64, 96, 255, 256, 257, 1000, r.randrange(3000)]))
        s.init(gen.some_bytes(r, 48))
        s.draw(c.pick(70000, 1100000))
        s.draw(33)
        for _ in range(c.pick(300, 3000)):
            s.draw(r.choice([0, 1, 2, 16, 31, 32, 32, 48]))

    def several(s):
        """the four-way library's four further generators: one initialisation seeds all, each then runs alone"""
        gens = [g for g in ("randombytes%d" % k for k in range(4)) if has(s, g)]
        r = c.rng("several", s.impl.ident)

        def init(seed, pers=b""):
            s.init(seed, pers)
            for g in gens:
                s.t.add(op="init", i=s.name + g, seed=seed.hex(), pers=pers.hex(), canary=True, inputs=True)

        def draw(g, n):
            if not g:
                s.draw(n)
                return
            q = s.call(g, [{"out": n}, {"i": n}])
            s.t.add(op="draw", i=s.name + g, n=n, out=q["outs"][0], rc=q["rc"], **frame([q]))
        if not gens:
            return
        for h in hs[:c.pick(40, 400)]:
            if h[0]["op"] == "init":
                for e in h:
                    if e["op"] == "init":
                        init(gen.some_bytes(r, 48), r.choice([b"", gen.some_bytes(r, 48)]))
                    else:
                        draw(r.choice([""] + gens * 2), scaled(r, e["n"]))
        for b in range(1, 17):
            for d in (1, 2, 3, 4):
                v = int.from_bytes(r.randbytes(16 - b) + bytes([255] * b), "big") + 1 - d
                init(seed_for((v % (1 << 128)).to_bytes(16, "big"), r=r))
                for g in r.sample(gens, len(gens)):
                    draw(g, r.choice([1, 16, 17, 32, 48, 100]))
                    draw(g, 16)
        for n in (0, 1, 15, 16, 17, 31, 32, 33, 255, 256, 257, 3000, 0, 70000, 33):
            for g in r.sample([""] + gens, 1 + len(gens)):
                draw(g, n)
    c.run([scenario("generator", i, drbg) for i in confs] + [scenario("generators", i, several) for i in confs if repo.CONFIGS[i]["fam"] == "x4"])


# ---------------------------------------------------------------- S14
def s14(c):
    confs = one_per_family()
    repo.build_all(confs)
    c.model("SeedExp", workers=2, fast=False)
    c.mutant("SeedExpMutant", "SeedExpMutant.cfg", fast=False)
    hs = c.behaviours("SeedExp", "SeedExpSim.cfg", num=c.pick(60, 600) * len(confs), depth=20)

    def be8(n):
        return (n % (1 << 64)).to_bytes(8, "big").hex()

    def xof(s):
        if not has(s, "seedexpander_init", "seedexpander"):
            return
        r = c.rng("xof", s.impl.ident)
        size = s.impl.info["xof"]
        rem = {}
        pre = 0x5A

        def init(ctx, mx, seed=None, div=None):
            seed, div = seed or gen.some_bytes(r, 32), div or gen.some_bytes(r, 8)
            q = s.call("seedexpander_init", [{"ctx": ctx, "size": size}, {"in": seed.hex()}, {"in": div.hex()}, {"i": mx}])
            s.t.add(0.05, op="xofinit", i=s.name, c=s.name + ctx, seed=seed.hex(), div=div.hex(), max=be8(mx), rc=q["rc"], **frame([q]))
            if q["rc"] == 0 and mx < 1 << 32:
                rem[ctx] = mx

        def req(ctx, n, null=False):
            # a refused request must leave the buffer alone; give long refused ones a small buffer, so that any write shows
            m = n if n <= 1 << 21 and n < rem.get(ctx, 0) else min(n, 64)
            if null:
                q = s.call("seedexpander", [{"ctx": ctx, "size": size}, {"null": 1}, {"i": n}])
                out = ""
            else:
                q = s.call("seedexpander", [{"ctx": ctx, "size": size}, {"out": m}, {"i": n}], fill=pre)
                out = q["outs"][0]
            s.t.add(0.05, op="xof", i=s.name, c=s.name + ctx, n=m if not null else 0, len=be8(n), nobuf=null, rc=q["rc"], out=out,
                    pre="%02x" % pre * m if not null else "", **frame([q]))
            if not null and q["rc"] == 0:
                rem[ctx] = max(0, rem[ctx] - n)
        k = 0
        for h in hs[confs.index(s.impl.ident)::len(confs)]:
            k += 1
            for e in h:
                ctx = "%s%d" % (e["c"], k)
                if e["op"] == "init":
                    init(ctx, 4 * e["n"])
                else:
                    req(ctx, 4 * e["n"], e["op"] == "null")
        # byte-exact requests around what is left and around the block boundary, several contexts at once
        for h in range(c.pick(25, 300)):
            ids = ["x%d.%d" % (h, j) for j in range(3)]
            seed = gen.some_bytes(r, 32)
            for x in ids:
                init(x, r.choice([0, 1, 2, 15, 16, 17, 31, 32, 33, 47, 64, 100, 256, 257, 1000, 5000]), r.choice([seed, None]))
            for _ in range(r.randrange(4, 20)):
                x = r.choice(ids)
                left = rem.get(x, 0)
                n = r.choice([0, 1, 2, 7, 15, 16, 17, 31, 32, 33, left, left + 1, max(left - 1, 0), max(left - 2, 0), left // 2, r.randrange(left + 20)])
                req(x, n, r.randrange(12) == 0)
        # limits of the budget
        for mx in (0xFFFFFFFF, 0x100000000, 0x100000001, 0x1FFFFFFFF, 1 << 63, (1 << 64) - 1, 0x80000000, 0xFFFF, 0x10000, 0xFF00, 0x01020304):
            x = "m%x" % mx
            init(x, mx)
            if x in rem:
                for n in (0x100000000, (1 << 64) - 1, mx, mx + 1, (1 << 32) + 5, 1 << 63, 33, 0, 16, 100):
                    req(x, n)
        # a context re-initialised half way
        init("again", 200)
        req("again", 21)
        init("again", 100)
        req("again", 50)
        init("again", 1 << 32)   # refused: the old one stays
        req("again", 5)
        # past the first and the second byte of the block counter
        init("long", 0xFFFFFFFF)
        req("long", 16 * 250)
        req("long", 16 * 10 + 3)
        req("long", 16 * 65536 - 16 * 262)
        for n in (5, 16, 17, 40, 33):
            req("long", n)
        s.guard(s.impl.ask, op="dropctx")
    def far(s):
        """to the last byte of the block counter"""
        if not has(s, "seedexpander_init", "seedexpander"):
            return
        r = c.rng("far", s.impl.ident)
        ctx = {"ctx": "far", "size": s.impl.info["xof"]}
        seed, div = r.randbytes(32), r.randbytes(8)
        q = s.call("seedexpander_init", [ctx, {"in": seed.hex()}, {"in": div.hex()}, {"i": 0xFFFFFFFF}])
        s.t.add(0.05, op="xofinit", i=s.name, c=s.name + "far", seed=seed.hex(), div=div.hex(), max=be8(0xFFFFFFFF), rc=q["rc"], **frame([q]))
        at = 0
        for n in [5, 1 << 22, 1000] + [1 << 26] * 3 + [(1 << 26) - (1 << 22) - 1000, 3, 5000, 17]:
            win = windows(r, n, first=at // 16)
            q = s.call("seedexpander", [ctx, {"out": n, "win": win}, {"i": n}])
            s.t.add(1, op="xofparts", i=s.name, c=s.name + "far", n=n, at=[[o, x] for (o, _), x in zip(win, q["outs"][0])], rc=q["rc"], **frame([q]))
            at += n
    c.run([scenario("expander", i, xof) for i in confs] + [scenario("far", i, far) for i in confs])


TABLE = {"S07": s07, "S08": s08, "S09": s09, "S10": s10, "S11": s11, "S12": s12, "S13": s13, "S14": s14}
