"""S01-S06, S15, S17: the KEM interface."""
import json
import re

from .. import repo, tla, gen, forge, kat
from ..core import Sys, Stop, Trace, lanes

ALL = list(repo.CONFIGS)


def by_param():
    d = {}
    for c in ALL:
        d.setdefault(repo.CONFIGS[c]["param"], []).append(c)
    return d


# ---------------------------------------------------------------- behaviours of KemSystem
def behaviours(c, num, seed, cfg="KemSystemSim.cfg"):
    seen, out = set(), []
    for b in c.behaviours("KemSystem", cfg, num=num, depth=40, cap=1 << 30):
        key = json.dumps(b[:-1])
        if key not in seen:
            seen.add(key)
            out.append(b)
    return out


def small_change(rng, dim):
    """a change of the ciphertext that does not reach the decrypted message (lowest bit of one coefficient of
    the vector part), as byte position and mask"""
    i = rng.randrange(dim["l"] * 256)
    return (10 * i) // 8, 1 << ((10 * i) % 8)


def replay(t, c, b, insts, rng, tag):
    """one behaviour of KemSystem on real instances (dict model instance -> Sys)"""
    t.add(0.1, op="reboot", i="-")
    keys, cts = {}, {}
    dim = insts["A"].dim
    seeds = {"s1": gen.stream("%s/s1" % tag, 48), "s2": gen.stream("%s/s2" % tag, 48)}
    for e in b:
        s = insts.get(e.get("i"))
        if e["op"] == "init":
            s.init(seeds[e["s"]])
        elif e["op"] == "reboot":
            s.reboot()
        elif e["op"] == "keygen":
            kp = s.keygen()
            if keys.setdefault(e["key"], kp) != kp:
                t.add(op="same", i=s.name, vals=[[keys[e["key"]][0], kp[0]], [keys[e["key"]][1], kp[1]]])
        elif e["op"] == "enc":
            ct, k = s.enc(keys[e["key"]][0], sym=e["sym"])
            t[-1]["g"] = tag
            if cts.setdefault(e["ct"], ct) != ct:
                t.add(op="same", i=s.name, vals=[[cts[e["ct"]], ct]])
        elif e["op"] == "dec":
            s.dec(cts[e["ct"]], keys[e["key"]][1], sym=e["sym"])
            t[-1]["g"] = tag
        elif e["op"] == "tamper":
            x = bytearray.fromhex(cts[e["from"]])
            if e["how"] == "small":
                p, m = small_change(rng, dim)
                x[p] ^= m
            else:  # replace a stretch; always a change
                n = rng.choice([1, 2, 32, len(x) // 2, len(x)])
                o = rng.randrange(len(x) - n + 1)
                for j in range(o, o + n):
                    x[j] ^= rng.randrange(256)
                if rng.randrange(2):
                    x[-1] ^= 1 + rng.randrange(255)
                else:
                    x[o] ^= 1
                if bytes(x).hex() == cts[e["from"]]:
                    x[0] ^= 1
            cts[e["ct"]] = bytes(x).hex()
        elif e["op"] == "forge":
            p = keys[e["key"]][0]
            m, coins = rng.randbytes(32), rng.randbytes(32)
            f = next((x for x in insts.values() if "pke_enc" in x.impl.wrappers), None)
            if f:
                r = f.call("w_pke_enc", [{"in": m.hex()}, {"in": coins.hex()}, {"in": p}, {"out": dim["ct"]}], ret="void")
                t.add(op="pkeenc", i=f.name, p=f.p, m=m.hex(), coins=coins.hex(), pk=p, ct=r["outs"][0],
                      canary=r["canary"], inputs=r["inputs"])
                cts[e["ct"]] = r["outs"][0]
            else:
                cts[e["ct"]] = rng.randbytes(dim["ct"]).hex()
        elif e["op"] == "junk":
            cts[e["ct"]] = rng.randbytes(dim["ct"]).hex()


def model_replays(c, pairs, num):
    """scenarios: behaviours of KemSystem on the given (config A, config B) pairs"""
    bs = behaviours(c, num * len(pairs), c.seed)
    out = []
    for n, (a, b) in enumerate(pairs):
        mine = bs[n::len(pairs)][:num]

        def fn(t, a=a, b=b, mine=mine):
            insts = {}
            try:
                insts["A"] = Sys(t, a, a + "#A")
                insts["B"] = Sys(t, b, b + "#B")
                for j, x in enumerate(mine):
                    replay(t, c, x, insts, c.rng("replay", a, b, j), "%s/%s/%s/%d/%d" % (c.id, a, b, c.seed, j))
                    for s in insts.values():  # the model starts with unseeded, fresh processes
                        s.reboot()
            finally:
                for s in insts.values():
                    s.close()
        out.append(("model behaviours on %s and %s" % (a, b), fn))
    return out


def scenario(name, ident, fn, **kw):
    def run(t):
        s = Sys(t, ident, **kw)
        try:
            fn(s)
        finally:
            s.close()
    return (name + " " + ident, run)


def draws_of(r, k):
    return b"".join(gen.some_bytes(r, 32) for _ in range(k))


def crafted_kp(s, r, honest=False):
    """a key pair whose parts are as wanted"""
    feed = draws_of(r, 3 * s.n)
    return s.keygen(feed)


# ---------------------------------------------------------------- S01
def round_trips(c, nk, ne, bulk):
    def rounds(s):
        r = c.rng("rounds", s.impl.ident)
        keys = [s.keygen(draws_of(r, 3 * s.n)) for _ in range(nk)]
        jobs = []
        # key pairs that share one or two of their draws, used alternately
        f = [r.randbytes(32) for _ in range(3 * s.n)]
        for mask in (0b000, 0b110, 0b101, 0b011, 0b010, 0b100):
            keys.append(s.keygen(b"".join(r.randbytes(32) if mask >> (n % 3) & 1 else x for n, x in enumerate(f))))
        for turn in range(2):
            for pk, sk in keys[nk:]:
                ct, k = s.enc(pk, r.randbytes(32 * s.n))
                if turn:
                    s.dec(ct, sk)
                else:
                    jobs.append((ct, sk))
        for pk, sk in keys[:nk]:
            for _ in range(ne):
                ct, k = s.enc(pk, draws_of(r, s.n))
                jobs.append((ct, sk))
        r.shuffle(jobs)      # many keys and ciphertexts alive at once, any order
        for ct, sk in jobs:
            s.dec(ct, sk)
        # the same volume again without recomputation: both sides must agree
        if s.can_feed():
            q = s.guard(s.impl.ask, op="bulk", n=bulk // s.n, seed="%d" % c.seed, lanes=s.n)
            for x in range(0, len(q["res"]), 500):
                part = q["res"][x:x + 500]
                s.t.add(2, op="agree", i=s.name, p=s.p, rcs=q["rcs"], enc=[y[0] for y in part], dec=[y[1] for y in part])
    return rounds


def s01(c):
    repo.build_all(ALL)
    c.model("KemSystem", workers=4, fast=False)
    c.mutant("KemSystemMutant", "KemSystemMutant.cfg", workers=2, fast=False)
    pairs = [(i, i) for i in repo.SINGLE]
    sc = model_replays(c, pairs, c.pick(1, 12))
    nk, ne, bulk = c.pick(3, 20), c.pick(3, 6), c.pick(500, 20000)

    rounds = round_trips(c, nk, ne, bulk)
    sc += [scenario("round trips", i, rounds) for i in ALL]
    if not c.quick:    # the specification itself against the published vectors
        c.extra["published_vectors_accepted"] = kat.accepted(100)
    c.run(sc)
    c.extra["bulk_round_trips_per_configuration"] = bulk


# ---------------------------------------------------------------- S02
def verifying(c):
    """the comparison and the conditional move by themselves, for any length"""
    def ver(s):
        r = c.rng("verify", s.impl.ident)
        pre = "w_" if "verify" in s.impl.wrappers else ""
        n = s.dim["ct"]
        lens = sorted(set(list(range(0, 70)) + [n - 1, n, n + 1, 127, 128, 255, 256, 257, 511, 512, 513, 1024, 2048]))
        if s.impl.has(pre + "verify"):
            for k in lens + [n] * c.pick(60, 600):
                a = gen.some_bytes(r, k)
                for diff in r.sample(DIFFS, 3) if k else ("none",):
                    b = bytearray(a)
                    if diff == "bit":
                        b[r.choice([0, k - 1, r.randrange(k)])] ^= 1 << r.randrange(8)
                    elif diff == "all":
                        b = bytearray(x ^ 255 for x in a)
                    elif diff == "some":
                        for _ in range(r.choice([2, 3, 4, 8, 16])):
                            b[r.randrange(k)] ^= r.choice([1, 128, 255])
                    elif diff == "pair":
                        d = r.choice([1, 2, 4, 8, 16, 32, 64])
                        x, m = r.randrange(k), r.randrange(1, 256)
                        b[x] ^= m
                        b[(x + d) % k] ^= m
                    elif diff == "count":
                        for x in r.sample(range(k), min(k, r.choice([16, 32, 64, 128, 256, 512]))):
                            b[x] ^= 1
                    q = s.call(pre + "verify", [{"in": a.hex()}, {"in": bytes(b).hex()}, {"i": k}])
                    s.t.add(0.02, op="verify", i=s.name, a=a.hex(), b=bytes(b).hex(), rc=q["rc"], canary=q["canary"], inputs=q["inputs"])
        if s.impl.has(pre + "cmov"):
            for k in [x for x in lens if x <= 520]:
                for b in (0, 1):
                    x, y = gen.some_bytes(r, k), gen.some_bytes(r, k)
                    q = s.call(pre + "cmov", [{"inout": x.hex()}, {"in": y.hex()}, {"i": k}, {"i": b}], ret="void")
                    s.t.add(0.02, op="cmov", i=s.name, b=b, pre=x.hex(), **{"in": y.hex()}, out=q["outs"][0], canary=q["canary"], inputs=q["inputs"])
    return ver


DIFFS = ["none", "bit", "bit", "all", "some", "pair", "count"]


def variants(r, s, dim, dense):
    """ways to change a ciphertext; each a list of (lane, position, mask)"""
    n, L = dim["ct"], s.n
    out = []

    def lane():
        return 1 + r.randrange(L)
    # every byte position once, in every lane
    for p in range(n):
        out.append([(lane(), p, 1 << r.randrange(8))])
    if dense:
        for p in range(n):
            for b in range(8):
                out.append([(lane(), p, 1 << b)])
    # lowest bit of coefficients: the decrypted message stays the same
    for _ in range(n // 4):
        p, m = small_change(r, dim)
        out.append([(lane(), p, m)])
    # the last bytes, all masks
    for p in list(range(n - 8, n)) + list(range(0, 4)):
        for m in (1, 2, 4, 8, 16, 32, 64, 128, 255):
            out.append([(1 + (p + m) % L, p, m)])
    # pairs of equal and of complementary masks, at distances that are multiples of word sizes
    for d in (1, 2, 4, 8, 16, 32, 64, 128, 256, 320, 512):
        for _ in range(4):
            p = r.randrange(n - d) if n > d else 0
            l, m = lane(), 1 << r.randrange(8)
            out.append([(l, p, m), (l, (p + d) % n, m)])
            out.append([(l, p, 0xFF), (l, (p + d) % n, 0xFF)])
    # equal small changes (the message stays the same) one or more packing groups apart, in either part
    for k in range(36):
        l = lane()
        base, w, size = ((0, 10, dim["l"] * 320), (dim["l"] * 320, dim["et"], 32 * dim["et"]))[k % 2]
        i = r.randrange(size * 8 // w)
        p, m = w * i // 8, 1 << (w * i % 8)
        g = w * r.choice([1, 1, 2, 3, 4, 8, r.randrange(1, size // w)])
        if (k // 2) % 3 == 0:
            g = size // dim["l"] if base == 0 else w * 16
        q = (p + g) % size
        out.append([(l, base + x, m) for x in ([p] if q == p else [p, q])])
        if k % 4 > 1:
            out[-1] += [(l, base + x, m) for x in {(p + 2 * g) % size, (p + 3 * g) % size} - {p, q}]
    # three and more equal masks, sums that wrap
    for k in (2, 3, 4, 8, 16, 64, 128, 255, 256, 257, 512):
        for m in (1, 2, 0x80, 0xFF, 0x40):
            if k <= n:
                l = lane()
                for ps in (range(k), range(n - k, n), sorted(r.sample(range(n), k))):
                    out.append([(l, p, m) for p in ps])
    # ranges
    for _ in range(20):
        a, b = sorted((r.randrange(n), r.randrange(n)))
        l = lane()
        out.append([(l, p, 1 + r.randrange(255)) for p in range(a, b + 1)])
    # everything, in each lane and in all lanes
    for l in range(1, L + 1):
        out.append([(l, p, 0xFF) for p in range(n)])
        out.append([(l, p, r.randrange(256)) for p in range(n)])
    out.append([])   # unchanged: the honest key again, after all these rejections
    if L > 1:
        for mask in range(16):
            out.append([(l + 1, r.randrange(n), 1 << r.randrange(8)) for l in range(L) if mask >> l & 1])
    return out


def tampering(c, share=0, of=1):
    """of: the work is divided among that many scenarios, each with a key pair of its own"""
    def tamper(s):
        r = c.rng("tamper", s.impl.ident, *([share] if of > 1 else []))
        for _ in range(c.pick(1, 4)):
            pk, sk = s.keygen(draws_of(r, 3 * s.n))
            ct, k = s.enc(pk, draws_of(r, s.n))
            s.flips(ct, sk, variants(r, s, s.dim, not c.quick)[share::of])
        if share:
            return
        # other ciphertexts, in full: foreign, zero, shifted, spliced, random, wrong coins
        pk2, sk2 = s.keygen(draws_of(r, 3 * s.n))
        ct2, k2 = s.enc(pk2, draws_of(r, s.n))
        ct3, k3 = s.enc(pk, draws_of(r, s.n))
        n = s.dim["ct"]

        def per_lane(f):
            return "".join(f(*x) for x in zip(lanes(ct, s.n), lanes(ct2, s.n), lanes(ct3, s.n)))
        cases = [ct2, per_lane(lambda a, b, d: "00" * n), per_lane(lambda a, b, d: "ff" * n)]
        for cut in (32, n // 2, 2 * (s.dim["l"] * 320) // 2, n - 1, 1):
            cases.append(per_lane(lambda a, b, d: a[:2 * cut] + b[2 * cut:]))
            cases.append(per_lane(lambda a, b, d: a[:2 * cut] + d[2 * cut:]))
            cases.append(per_lane(lambda a, b, d: d[:2 * cut] + a[2 * cut:]))
            cases.append(per_lane(lambda a, b, d: a[:2 * cut] + "00" * (n - cut)))
            cases.append(per_lane(lambda a, b, d: "00" * cut + a[2 * cut:]))
            cases.append(per_lane(lambda a, b, d: a[2 * cut:] + a[:2 * cut]))
        for _ in range(c.pick(3, 40)):
            cases.append(r.randbytes(n * s.n).hex())
        for x in cases:
            s.dec(x, sk)
        for _ in range(2):     # the same again: same rejection key
            s.dec(cases[0], sk)
        if "pke_enc" in s.impl.wrappers:
            for _ in range(c.pick(2, 20)):
                m, coins = r.randbytes(32), r.randbytes(32)
                q = s.call("w_pke_enc", [{"in": m.hex()}, {"in": coins.hex()}, {"in": pk}, {"out": n}], ret="void")
                s.t.add(op="pkeenc", i=s.name, p=s.p, m=m.hex(), coins=coins.hex(), pk=pk, ct=q["outs"][0],
                        canary=q["canary"], inputs=q["inputs"])
                s.dec(q["outs"][0], sk)
    return tamper


def s02(c):
    repo.build_all(ALL)
    c.model("KemSystem", workers=4, fast=False)
    c.mutant("KemSystemMutant", "KemSystemMutant.cfg", workers=2, fast=False)
    pairs = [(i, i) for i in repo.SINGLE]
    sc = model_replays(c, pairs, c.pick(1, 12))

    tamper = tampering(c)
    sc += [scenario("tampering", i, tamper) for i in ALL]
    sc += [scenario("comparisons", i, verifying(c)) for i in ALL]
    c.run(sc)


# ---------------------------------------------------------------- S03
def sk_bytes(r, s, base):
    """a secret key byte string: parts honest, structured or random"""
    d = s.dim
    out = []
    for one in lanes(base, s.n):
        b = bytes.fromhex(one)
        vec, pk, h, z = b[:d["skv"]], b[d["skv"]:d["skv"] + d["pk"]], b[-64:-32], b[-32:]
        k = r.randrange(6)
        if k == 1:
            vec = b"".join(gen.pack(d["skw"], gen.some_poly(r, d["skw"])) for _ in range(d["l"]))
        elif k == 2:
            vec = gen.some_bytes(r, len(vec))
        elif k == 3:
            vec = b"".join(gen.pack(d["skw"], gen.small_poly(r, d["mu"], 1 << d["skw"])) for _ in range(d["l"]))
        k = r.randrange(6)
        if k == 1:
            pk = b"".join(gen.pack(10, gen.some_poly(r, 10)) for _ in range(d["l"])) + pk[-32:]
        elif k == 2:
            pk = gen.some_bytes(r, len(pk))
        elif k == 3:
            x = bytearray(pk)
            x[r.randrange(len(x))] ^= 1 << r.randrange(8)
            pk = bytes(x)
        if r.randrange(3) == 0:
            h = gen.some_bytes(r, 32)
        if r.randrange(3) == 0:
            z = gen.some_bytes(r, 32)
        out.append(vec + pk + h + z)
    return b"".join(out).hex()


def ct_bytes(r, s, base=None):
    d = s.dim
    out = []
    for j in range(s.n):
        b = bytes.fromhex(lanes(base, s.n)[j]) if base else gen.some_bytes(r, d["ct"])
        k = r.randrange(6)
        v, cm = b[:d["l"] * 320], b[d["l"] * 320:]
        if k == 1:
            v = b"".join(gen.pack(10, gen.some_poly(r, 10)) for _ in range(d["l"]))
        elif k == 2:
            v = gen.some_bytes(r, len(v))
        k = r.randrange(4)
        if k == 1:
            cm = gen.pack(d["et"], gen.some_poly(r, d["et"]))
        elif k == 2:
            cm = gen.some_bytes(r, len(cm))
        out.append(v + cm)
    return b"".join(out).hex()


def boundary_decs(c, s, r, count):
    """accepted ciphertexts whose decryption sits on the decision boundary, for secrets of any size"""
    d, edge = s.dim, 0
    for n in range(count):
        pk, sk = s.keygen(draws_of(r, 3 * s.n))
        if not s.can_feed():
            return 0
        cts, sks = [], []
        for _ in range(4):
            f = r.randbytes(32 * s.n)
            ct, k = s.enc(pk, f)
            base = sk_bytes(r, s, sk) if n % 2 else sk
            for j in range(s.n):
                if len(cts) == s.n:
                    break
                x = forge.boundary(r, d, bytes.fromhex(lanes(pk, s.n)[j]), f[32 * j:32 * j + 32],
                                   bytes.fromhex(lanes(ct, s.n)[j]), bytes.fromhex(lanes(base, s.n)[j]))
                if x:
                    cts.append(x[0].hex())
                    sks.append(x[1].hex())
                    edge += x[2]
            if len(cts) == s.n:
                s.dec("".join(cts), "".join(sks))
                break
    return edge


def decapsulations(c, edges):
    def decs(s):
        r = c.rng("decs", s.impl.ident)
        pk, sk = s.keygen(draws_of(r, 3 * s.n))
        ct, k = s.enc(pk, draws_of(r, s.n))
        s.dec(ct, sk)
        d = s.dim
        # extreme strings everywhere
        for b in (0x00, 0xFF, 0x80, 0x7F, 0x01):
            s.dec("%02x" % b * (d["ct"] * s.n), sk)
            s.dec(ct, "%02x" % b * (d["sk"] * s.n))
            s.dec("%02x" % b * (d["ct"] * s.n), "%02x" % b * (d["sk"] * s.n))
        for n in range(c.pick(70, 1500) // s.n):
            if n % 12 == 0:
                pk, sk = s.keygen(draws_of(r, 3 * s.n))
                ct, k = s.enc(pk, draws_of(r, s.n))
            a = sk if r.randrange(3) == 0 else sk_bytes(r, s, sk)
            b = ct if r.randrange(3) == 0 else ct_bytes(r, s, ct if r.randrange(2) else None)
            s.dec(b, a)
        edges.append(boundary_decs(c, s, c.rng("boundary", s.impl.ident), c.pick(12, 200) // s.n))
        # honest ciphertext, only the rejection value or stored hash differs
        if s.n == 1:
            x = bytearray.fromhex(sk)
            x[-1] ^= 1
            s.dec(ct, bytes(x).hex())
            x = bytearray.fromhex(sk)
            x[-33] ^= 1
            s.dec(ct, bytes(x).hex())
        # accepted ciphertexts under crafted keys: secrets of zero or small weight decrypt what is encrypted to them
        if "pke_enc" in s.impl.wrappers:
            import hashlib
            for _ in range(c.pick(6, 60)):
                z = bytes.fromhex(sk_bytes(r, s, sk))
                pk0 = z[d["skv"]:d["skv"] + d["pk"]].hex()
                s.enc(pk0, gen.some_bytes(r, 32))
                s.dec(s.t[-1]["ct"][0], z.hex())
    return decs


def s03(c):
    repo.build_all(ALL)
    edges = []

    decs = decapsulations(c, edges)
    sc = [scenario("decapsulations", i, decs) for i in ALL]
    # volume: implementations of one parameter set on the same pseudorandom ciphertexts
    n = c.pick(400, 8000)
    for p, ids in by_param().items():
        if len(ids) < 2:
            continue

        def both(t, ids=ids, p=p):
            ss = []
            try:
                ss = [Sys(t, i) for i in ids]
                a = ss[0]
                pk, sk = a.keygen(draws_of(c.rng("volume", p), 3 * a.n))
                rows = []
                for s in ss:
                    q = s.guard(s.impl.ask, op="bulkdec", n=n // s.n, sk=sk, seed="%s/%d" % (p, c.seed), lanes=s.n)
                    rows.append(q["ks"] + [str(q["rcs"]), str(q["canary"])])
                m = min(map(len, rows))
                for x in range(0, m, 400):
                    t.add(1, op="same", i=p, vals=[list(v) for v in zip(*(row[x:x + 400] for row in rows))])
            finally:
                for s in ss:
                    s.close()
        sc.append(("same ciphertexts on " + p, both))
    c.run(sc)
    c.extra["bulk_decapsulations_per_configuration"] = n
    c.extra["message_coefficients_within_6_of_the_decision_boundary"] = sum(edges)


# ---------------------------------------------------------------- S04
def encapsulations(c):
    def encs(s):
        r = c.rng("encs", s.impl.ident)
        d = s.dim
        pk, sk = s.keygen(draws_of(r, 3 * s.n))
        for b in (0x00, 0xFF, 0x80, 0x7F, 0x01, 0xFE):
            s.enc("%02x" % b * (d["pk"] * s.n), bytes([b]) * (32 * s.n))
            s.enc(pk, bytes([b]) * (32 * s.n))
        for n in range(c.pick(70, 2000) // s.n):
            out = []
            for one in lanes(pk, s.n):
                b = bytes.fromhex(one)
                k = r.randrange(6)
                if k == 0:
                    b = gen.some_bytes(r, len(b))
                elif k == 1:
                    b = b"".join(gen.pack(10, gen.some_poly(r, 10)) for _ in range(d["l"])) + gen.some_bytes(r, 32)
                elif k == 2:
                    b = b[:-32] + gen.some_bytes(r, 32)
                elif k == 3:
                    x = bytearray(b)
                    x[r.randrange(len(x))] ^= 1 << r.randrange(8)
                    b = bytes(x)
                elif k == 4:
                    b = b"".join(gen.pack(10, gen.some_poly(r, 10)) for _ in range(d["l"])) + b[-32:]
                out.append(b)
            s.enc(b"".join(out).hex(), draws_of(r, s.n))
        # binding: every byte of the public key and of the draw reaches the key
        f = r.randbytes(32 * s.n)
        ks = [s.enc(pk, f)[1]]
        x0 = bytes.fromhex(pk)
        for p in [0, 1, len(x0) // s.n - 1, len(x0) // s.n - 32] + [r.randrange(len(x0)) for _ in range(4)]:
            x = bytearray(x0)
            x[p] ^= 1 << r.randrange(8)
            ks.append(s.enc(bytes(x).hex(), f)[1])
        for p in (0, 15, 16, 31):
            x = bytearray(f)
            x[p] ^= 1 << r.randrange(8)
            ks.append(s.enc(pk, bytes(x))[1])
        if s.can_feed():
            s.t.add(op="distinct", i=s.name, vals=ks)
        # through the real generator as well
        s.init(r.randbytes(48))
        for _ in range(2):
            s.keygen()
            s.enc(pk)
            s.draw(r.choice([0, 1, 16, 33]))
            s.enc(pk)
    return encs


def s04(c):
    repo.build_all(ALL)

    encs = encapsulations(c)
    c.run([scenario("encapsulations", i, encs) for i in ALL])


# ---------------------------------------------------------------- S05
def key_generations(c):
    def kgs(s):
        r = c.rng("keygens", s.impl.ident)
        for b in (0x00, 0xFF, 0x80, 0x01):
            s.keygen(bytes([b]) * (96 * s.n))
        for n in range(c.pick(70, 2000) // s.n):
            s.keygen(draws_of(r, 3 * s.n))
        # one draw changes, the others stay: which part of the result each reaches
        f = bytearray(r.randbytes(96 * s.n))
        s.keygen(bytes(f))
        for p in (0, 31, 32, 63, 64, 95):
            g = bytearray(f)
            g[p] ^= 1 << r.randrange(8)
            s.keygen(bytes(g))
        s.init(r.randbytes(48))
        for _ in range(3):
            s.keygen()
            s.draw(r.choice([0, 5, 32, 100]))
            s.keygen()
    return kgs


def s05(c):
    repo.build_all(ALL)

    kgs = key_generations(c)
    c.run([scenario("key generations", i, kgs) for i in ALL])


# ---------------------------------------------------------------- S06
def s06(c):
    repo.build_all(ALL)
    c.model("KemSystem", workers=4, fast=False)
    c.mutant("KemSystemMutant", "KemSystemMutant.cfg", workers=2, fast=False)
    pairs = []
    for p, ids in by_param().items():
        one = [i for i in ids if not i.startswith("x4")]
        pairs += [(a, b) for n, a in enumerate(one) for b in one[n + 1:]]
    sc = model_replays(c, pairs, c.pick(2, 20))
    n = c.pick(800, 20000)
    for p, ids in by_param().items():
        if len(ids) < 2:
            continue

        def same(t, ids=ids, p=p):
            ss = []
            try:
                ss = [Sys(t, i) for i in ids]
                rows = []
                for s in ss:
                    if not s.can_feed():
                        continue
                    q = s.guard(s.impl.ask, op="bulk", n=n // s.n, seed="%s/%d" % (p, c.seed), lanes=s.n)
                    rows.append([x for y in q["res"] for x in y])
                m = min(map(len, rows))
                for x in range(0, m, 600):
                    t.add(1, op="same", i=p, vals=[list(v) for v in zip(*(row[x:x + 600] for row in rows))])
                # everything made by one is used by the others, honest and tampered
                r = c.rng("cross", p)
                d = ss[0].dim
                for maker in ss:
                    pk, sk = maker.keygen(draws_of(r, 3 * maker.n))
                    pk1, sk1 = lanes(pk, maker.n)[-1], lanes(sk, maker.n)[-1]
                    for encer in ss:
                        ct, k = encer.enc(pk1 * encer.n, draws_of(r, encer.n))
                        ct1 = lanes(ct, encer.n)[encer.n - 1]
                        bad = bytearray.fromhex(ct1)
                        bad[r.randrange(len(bad))] ^= 1 << r.randrange(8)
                        for decer in ss:
                            decer.dec(ct1 * decer.n, sk1 * decer.n)
                            decer.dec(bytes(bad).hex() * decer.n, sk1 * decer.n)
            finally:
                for s in ss:
                    s.close()
        sc.append(("all implementations of " + p, same))

    def differ(t):
        """the same random input under different parameter sets of one size never gives the same keys"""
        ks = []
        for p, ids in sorted(by_param().items()):
            s = Sys(t, ids[0])
            try:
                if s.can_feed():
                    f = gen.stream("differ/%d" % c.seed, 128)
                    pk, sk = s.keygen(f[:96])
                    ct, k = s.enc(pk, f[96:])
                    ks.append(k)
            finally:
                s.close()
        t.add(op="distinct", i="all", vals=ks)
    sc.append(("parameter sets differ", differ))
    c.run(sc)
    c.extra["bulk_round_trips_compared"] = n


# ---------------------------------------------------------------- S15
def s15(c):
    repo.build_all(["x4/Saber", "ref/Saber"])

    def mixed(t, part, parts):
        s, o = Sys(t, "x4/Saber"), Sys(t, "ref/Saber")
        try:
            r = c.rng("x4", part)
            d = s.dim
            for rnd in range(c.pick(1, 8)):
                kp = s.keygen(draws_of(r, 12))
                pks, sks = lanes(kp[0], 4), lanes(kp[1], 4)
                ct, k = s.enc(kp[0], draws_of(r, 4))
                cts = lanes(ct, 4)
                # every subset of tampered lanes, with different kinds of tampering per lane
                for mask in range(part, 16, parts):
                    for kind in range(c.pick(2, 4)):
                        x = list(cts)
                        for l in range(4):
                            if mask >> l & 1:
                                b = bytearray.fromhex(x[l])
                                if kind == 0:
                                    b[r.choice([0, 1, len(b) - 1, r.randrange(len(b))])] ^= 1 << r.randrange(8)
                                elif kind == 1:
                                    b = bytearray(gen.some_bytes(r, len(b)))
                                else:
                                    p, m = small_change(r, d)
                                    b[p] ^= m
                                x[l] = bytes(b).hex()
                        s.dec("".join(x), kp[1])
                # permutations and repetitions of lanes: other people's ciphertexts and keys
                for _ in range(c.pick(2, 10)):
                    a = [r.randrange(4) for _ in range(4)]
                    b = [r.randrange(4) for _ in range(4)]
                    s.dec("".join(cts[i] for i in a), "".join(sks[i] for i in b))
                    s.enc("".join(pks[i] for i in a), draws_of(r, 4))
                # one lane extreme, the others ordinary
                for l in range(4):
                    x, y, z = list(cts), list(sks), list(pks)
                    x[l] = "%02x" % r.choice([0, 255]) * d["ct"]
                    s.dec("".join(x), kp[1])
                    y[l] = "%02x" % r.choice([0, 255]) * d["sk"]
                    s.dec(ct, "".join(y))
                    z[l] = "%02x" % r.choice([0, 255]) * d["pk"]
                    s.enc("".join(z), draws_of(r, 4))
                # against the single instance
                for l in range(4):
                    o.dec(cts[l], sks[l])
                f = draws_of(r, 12)
                if s.can_feed() and o.can_feed():
                    a = s.keygen(f)
                    for l in range(4):
                        b = o.keygen(f[96 * l:96 * l + 96])
                        t.add(0.1, op="same", i="lanes", vals=[[lanes(a[0], 4)[l], b[0]], [lanes(a[1], 4)[l], b[1]]])
        finally:
            s.close()
            o.close()
    parts = 8
    m = c.model("Lanes", fast=False)
    c.mutant("LanesMutant", "LanesMutant.cfg", fast=False)
    mixes = [json.loads(json.loads(l)[len("BEHAVIOUR "):]) for l in m.out.splitlines() if l.startswith('"BEHAVIOUR ')]

    def model_mix(t, part):
        """every mixture of lane contents of the model"""
        s = Sys(t, "x4/Saber")
        try:
            r = c.rng("mix", part)
            kp = s.keygen(draws_of(r, 12))
            ct, k = s.enc(kp[0], draws_of(r, 4))
            cts, ks = lanes(ct, 4), lanes(k, 4)
            for kinds in mixes[part::parts]:
                x = []
                for l in range(4):
                    b = bytearray.fromhex(cts[l])
                    if kinds[l] == "small":
                        p, mk = small_change(r, s.dim)
                        b[p] ^= mk
                    elif kinds[l] == "large":
                        b = bytearray(r.randbytes(len(b)))
                    elif kinds[l] == "foreign":
                        b = bytearray.fromhex(cts[(l + 1) % 4])
                    x.append(bytes(b).hex())
                got = lanes(s.dec("".join(x), kp[1]), 4)
                # the model's verdict per lane
                for l in range(4):
                    if kinds[l] == "honest":
                        t.add(0.01, op="same", i="lane", vals=[[got[l], ks[l]]])
                    else:
                        t.add(0.01, op="distinct", i="lane", vals=[got[l], ks[l]])
        finally:
            s.close()
    if len(mixes) != 256:
        raise repo.CheckError("Lanes gave %d mixtures" % len(mixes))
    sc = [("model mixtures %d" % k, lambda t, k=k: model_mix(t, k)) for k in range(parts)]
    sc += [("lanes part %d" % k, lambda t, k=k: mixed(t, k, parts)) for k in range(parts)]

    # deterministic generator order: three draws per lane, lane by lane
    def order(t):
        s = Sys(t, "x4/Saber")
        try:
            r = c.rng("order")
            s.init(r.randbytes(48))
            for _ in range(c.pick(2, 10)):
                pk, sk = s.keygen()
                ct, k = s.enc(pk)
                s.dec(ct, sk)
                s.draw(r.randrange(70))
        finally:
            s.close()
    sc.append(("generator order", order))
    c.run(sc)


# ---------------------------------------------------------------- S17
def s17(c):
    repo.build_all(ALL)
    c.model("KemSystem", workers=4, fast=False)
    c.mutant("KemSystemMutant", "KemSystemMutant.cfg", workers=2, fast=False)
    pairs = [(i, i) for i in repo.SINGLE]
    sc = model_replays(c, pairs, c.pick(1, 20))

    def histories(s):
        r = c.rng("hist", s.impl.ident)
        d = s.dim
        # a set of operations with their results as the very first operation of a fresh process
        f = [draws_of(r, 3 * s.n) for _ in range(3)]
        fe = [draws_of(r, s.n) for _ in range(3)]
        kp = [s.keygen(x) for x in f]
        cts = [s.enc(kp[j % 3][0], fe[j])[0] for j in range(3)]
        bad = []
        for x in cts:
            y = bytearray.fromhex(x)
            for l in range(s.n):
                y[l * d["ct"] + r.randrange(d["ct"])] ^= 1 << r.randrange(8)
            bad.append(bytes(y).hex())
        junk = ct_bytes(r, s)
        ops = []
        for j in range(3):
            ops.append(("keygen", f[j]))
            ops.append(("enc", kp[j][0], fe[j]))
            ops.append(("dec", cts[j], kp[j][1]))
            ops.append(("dec", bad[j], kp[j][1]))
            ops.append(("dec", cts[j], kp[(j + 1) % 3][1]))
        ops.append(("dec", junk, kp[0][1]))
        ops.append(("dec", cts[0], sk_bytes(r, s, kp[0][1])))

        def do(o):
            return getattr(s, o[0])(*o[1:])
        first = {}
        feeds = s.can_feed()
        for n, o in enumerate(ops):
            if n % 5 == 0 or not c.quick:
                s.reboot()
            if o[0] == "dec" or feeds:
                first[n] = do(o)
        # then any order, any repetition, in one process: the same results
        seq = list(first) * c.pick(2, 12)
        r.shuffle(seq)
        vals = []
        for n in seq:
            vals.append([str(first[n]), str(do(ops[n]))])
            if r.randrange(6) == 0:
                s.init(r.randbytes(48), r.choice([b"", r.randbytes(48)]))
                s.draw(r.randrange(100))
        s.t.add(1, op="same", i=s.name, vals=vals)
        # arguments that differ in one byte only, used alternately (a result remembered under a part of
        # its arguments shows here)
        pk, sk = kp[0]
        ct = cts[0]

        def near(hexs, width, places):
            for p in places:
                x = bytearray.fromhex(hexs)
                for l in range(s.n):
                    x[l * width + p] ^= 1 << r.randrange(8)
                yield bytes(x).hex()
        vec, v = d["skv"], d["l"] * 320
        spots = [0, 7, 8, 15, 16, 31, v - 1, v, v + 3, v + 4, v + 7, v + 8, v + 15, v + 16, v + 31]
        if not c.quick:
            spots += [r.randrange(v) for _ in range(20)] + list(range(v, v + 32))
        for x in near(pk, d["pk"], spots):
            s.enc(pk, fe[0])
            s.enc(x, fe[0])
        spots = [0, 8, 31, 32, vec - 1, vec, vec + 31, vec + v, vec + v + 8, vec + v + 31] + [vec + v + 32 + x for x in (0, 8, 31, 32, 40, 63)]
        if not c.quick:
            spots += [r.randrange(d["sk"]) for _ in range(40)]
        for x in near(sk, d["sk"], spots):
            s.dec(ct, sk)
            s.dec(ct, x)
        spots = [0, 8, 31, 32, v - 1, v, v + 31, d["ct"] - 1]
        for x in near(ct, d["ct"], spots):
            s.dec(ct, sk)
            s.dec(x, sk)
        spots = [0, 7, 8, 16, 31]
        for i in range(3):
            for p in spots:
                x = bytearray(f[0])
                for l in range(s.n):
                    x[96 * l + 32 * i + p] ^= 1 << r.randrange(8)
                s.keygen(f[0])
                a, b = s.keygen(bytes(x))
                s.dec(s.enc(a, fe[1])[0], b)
        # long runs of one operation
        if s.n == 1:
            q = s.guard(s.impl.ask, op="decflip", ct=cts[0], sk=kp[0][1], flips=[[]] * c.pick(300, 5000))
            s.t.add(1, op="same", i=s.name, vals=[[k, s_] for k, s_ in zip(q["ks"], [q["ks"][0]] * len(q["ks"]))])
    sc += [scenario("histories", i, histories) for i in ALL]
    c.run(sc)


TABLE = {"S01": s01, "S02": s02, "S03": s03, "S04": s04, "S05": s05, "S06": s06, "S15": s15, "S17": s17}
