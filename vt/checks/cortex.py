"""S20-S22: the Cortex-M code, built for its processor and run in the interpreter."""
from .. import repo, arm, gen, host
from ..core import Sys, Trace, Stop, lanes
from . import kem, prims
from .kem import scenario, draws_of

TWIN = {"LightSaber": "ref/LightSaber", "Saber": "ref/Saber", "FireSaber": "ref/FireSaber"}


def strided_poly(r, x):
    """an operand of the model Strided: its two places at some pair of neighbours, elsewhere nothing or again"""
    a = [0] * 256
    for p in ([r.randrange(64)] if r.randrange(2) else range(0, 64, 2)):
        for n, v in enumerate(x):
            a[(4 * (p + n // 4) + n % 4) % 256] = v
    return a


def m4_products(c, strided, nq):
    """the accumulating product, and operands in strided positions"""
    def mult(s):
        r = c.rng("acc", s.impl.ident)
        d = s.dim

        def go(kind, fn, a, b, acc=None):
            ins = [gen.words(x).hex() for x in ([a, b] if acc is None else [a, b, acc])]
            q = s.call(fn, [{"in": x} for x in ins] + [{"out": 512}], ret="void")
            s.t.add(0.15, op="mul", i=s.name, p=s.p, kind=kind, w=d["eq"], a=ins[0], b=ins[1], c=ins[-1], out=q["outs"][0],
                    canary=q["canary"], inputs=q["inputs"])
        for n, (x, y) in enumerate(strided):
            a, b = strided_poly(r, x), strided_poly(r, y)
            if "polymul" in s.impl.wrappers:
                go("poly", "w_polymul", a, b)
            if "polymulacc" in s.impl.wrappers and n % 2:
                go("acc", "w_polymulacc", a, b, gen.some_poly(r, 16))
        if "polymulacc" in s.impl.wrappers:
            for _ in range(nq):
                go("acc", "w_polymulacc", gen.small_poly(r, d["mu"], 1 << 16), gen.some_poly(r, r.choice([13, 10, 16])), gen.some_poly(r, 16))
    return mult


def comparisons(c, diffs):
    """in-place comparisons: zero exactly if nothing differs (difference patterns of the model Compare)"""
    def comps(s):
        r = c.rng("cmp", s.impl.ident)
        d = s.dim
        for tag, w, n in (("T", d["et"], 1), ("p", d["ep"], d["l"])):
            if "cmp_" + tag not in s.impl.wrappers:
                continue
            size = 32 * w * n
            # equal differences at every small distance, and at group, polynomial and word distances
            dist = list(range(1, 2 * w + 2)) + [w * x for x in (3, 4, 8, 16, 31)] + [32, 64] + [32 * w] * (n > 1) + [r.randrange(1, size) for _ in range(6)]
            for g in dist:
                for _ in range(c.pick(2, 12)):
                    a = sum([gen.some_poly(r, w) for _ in range(n)], [])
                    b = bytearray(gen.pack(w, a))
                    p, m = r.randrange(size), r.choice([1, 2, 4, 8, 16, 32, 64, 128, 255])
                    for j in range(r.choice([2, 2, 2, 4])):
                        b[(p + j * g) % size] ^= m
                    q = s.call("w_cmp_" + tag, [{"in": bytes(b).hex()}, {"in": gen.words(a).hex()}])
                    s.t.add(0.05 * n, op="cmp", i=s.name, p=s.p, w=w, a=gen.words(a).hex(), **{"in": bytes(b).hex()}, rc=q["rc"],
                            canary=q["canary"], inputs=q["inputs"])
            for k, ds in enumerate(diffs):
                a = sum([gen.some_poly(r, w if k % 3 else 16) for _ in range(n)], [])
                b = bytearray(gen.pack(w, a))
                base = r.choice([0, size - len(ds), r.randrange(size - len(ds) + 1)])
                step = r.choice([1, 1, 2, 4, 5, 8])
                for j, x in enumerate(ds):     # three model bits stand for some of the eight
                    b[(base + j * step) % size] ^= sum(1 << p for q, p in enumerate(r.choice([(0, 3, 7), (7, 6, 0), (1, 2, 4)])) if x >> q & 1)
                q = s.call("w_cmp_" + tag, [{"in": bytes(b).hex()}, {"in": gen.words(a).hex()}])
                s.t.add(0.05 * n, op="cmp", i=s.name, p=s.p, w=w, a=gen.words(a).hex(), **{"in": bytes(b).hex()}, rc=q["rc"],
                        canary=q["canary"], inputs=q["inputs"])
        if "pke_cmp" in s.impl.wrappers and "pke_enc" in s.impl.wrappers:
            pk, sk = s.keygen(draws_of(r, 3))
            m, coins = r.randbytes(32).hex(), r.randbytes(32).hex()
            ct = s.call("w_pke_enc", [{"in": m}, {"in": coins}, {"in": pk}, {"out": d["ct"]}], ret="void")["outs"][0]
            for k in range(c.pick(24, 300)):
                x = bytearray.fromhex(ct)
                for _ in range(r.choice([0, 1, 1, 2, 3])):
                    p = r.choice([0, d["ct"] - 1, r.randrange(d["ct"])])
                    x[p] ^= 1 << r.randrange(8)
                q = s.call("w_pke_cmp", [{"in": m}, {"in": coins}, {"in": pk}, {"in": bytes(x).hex()}])
                s.t.add(1, op="pkecmp", i=s.name, p=s.p, m=m, coins=coins, pk=pk, ct=bytes(x).hex(), rc=q["rc"],
                        canary=q["canary"], inputs=q["inputs"])
    return comps


def placements(c):
    """buffers at every alignment, with different previous contents; only the outputs are writable and only
    the arguments readable, so that any access beside them ends the run"""
    def places(s):
        r = c.rng("places", s.impl.ident)
        for off in range(c.pick(4, 8)):
            kw = dict(off=off, fill=r.choice([0, 255, 0xCC]))
            pk, sk = s.keygen(draws_of(r, 3), **kw)
            ct, k = s.enc(pk, draws_of(r, 1), **kw)
            s.dec(ct, sk, **kw)
            x = bytearray.fromhex(ct)
            x[r.randrange(len(x))] ^= 1 << r.randrange(8)
            s.dec(bytes(x).hex(), sk, **kw)
    return places


def pke_decs(c):
    def decs(s):
        if "pke_dec" not in s.impl.wrappers:
            return
        r = c.rng("pkedec", s.impl.ident)
        pk, sk = s.keygen(draws_of(r, 3))
        for n in range(c.pick(16, 300)):
            k = kem.sk_bytes(r, s, sk)[:2 * s.dim["skv"]]
            ct = kem.ct_bytes(r, s)
            q = s.call("w_pke_dec", [{"in": k}, {"in": ct}, {"out": 32}], ret="void")
            s.t.add(0.5, op="pkedec", i=s.name, p=s.p, sk=k, ct=ct, m=q["outs"][0], canary=q["canary"], inputs=q["inputs"])
    return decs


def replays(c, ident, other, num):
    return kem.model_replays(c, [(ident, other)], num)


def s20(c):
    M4 = arm.M4
    arm.build_all(M4)
    repo.build_all(TWIN.values())
    c.model("Strided", workers=4, fast=False)
    c.mutant("Strided", "StridedMutant.cfg", workers=4, fast=False)
    diffs = c.behaviours("Compare")
    c.mutant("Compare", "CompareMutant.cfg")
    strided = c.behaviours("Strided", "StridedSim.cfg", num=c.pick(24, 500), depth=20)
    c.rng("diffs").shuffle(diffs)
    full = [i for i in M4 if not i.endswith("+4bit")]
    ops = c.behaviours("Toom", "ToomSim.cfg", num=c.pick(60, 1000), depth=12, cap=c.pick(200, 4000))
    units = c.behaviours("Packing", workers=4)
    edges = []
    sc = []
    fns = [("round trips", round_trips(c)), ("tampering", kem.tampering(c)), ("decapsulations", kem.decapsulations(c, edges)),
           ("encapsulations", kem.encapsulations(c)), ("key generations", kem.key_generations(c)),
           ("placements", placements(c)), ("comparisons", comparisons(c, diffs[:c.pick(64, 512)])),
           ("products", prims.products(c, ops, c.pick(10, 200))), ("strided products", m4_products(c, strided, c.pick(10, 200))),
           ("packings", prims.packings(c, units, c.pick(6, 100))), ("samples", prims.samples(c, c.pick(6, 100))),
           ("decryptions", pke_decs(c))]
    for i in M4:
        for n, f in fns:
            # the storage format of the secret changes nothing outside the key: the option gets part of the work
            if i in full or n in ("round trips", "decapsulations", "key generations", "packings", "decryptions", "placements"):
                sc.append(scenario(n, i, f))
    pairs = [(i, i) for i in full] + [("m4-striding/" + n, "m4-tc4kara/" + n) for n in TWIN] + \
            [("m4-striding/%s+4bit" % n, "m4-tc4kara/%s+4bit" % n) for n in TWIN]
    sc += kem.model_replays(c, pairs, c.pick(1, 12))
    n = c.pick(24, 600)

    def twins(t, name):
        """the same random input on the processor and on the host's reference: the same bytes everywhere"""
        ss = []
        try:
            ss = [Sys(t, i) for i in (TWIN[name], "m4-striding/" + name, "m4-tc4kara/" + name,
                                      "m4-striding/%s+4bit" % name, "m4-tc4kara/%s+4bit" % name)]
            rows = []
            for s in ss:
                q = s.guard(s.impl.ask, op="bulk", n=n, seed="%s/%d" % (name, c.seed), lanes=1)
                rows.append([x for y in q["res"] for x in (y[:2] + y[3:] if s.dim["skw"] < s.dim["eq"] else y)] + [str(q["rcs"])])
            t.add(1, op="same", i=name, vals=[list(v) for v in zip(*rows[:3])])
            t.add(1, op="same", i=name, vals=[list(v) for v in zip(*rows[3:])])
            t.add(1, op="same", i=name, vals=[[a, b] for a, b in zip([x for k, x in enumerate(rows[0][:-1]) if k % 3 < 2], rows[3])])
            # everything public made by one is used by the others
            r = c.rng("cross", name)
            for maker in ss:
                pk, sk = maker.keygen(draws_of(r, 3))
                for encer in ss:
                    ct, k = encer.enc(pk, draws_of(r, 1))
                    maker.dec(ct, sk)
        finally:
            for s in ss:
                s.close()
    sc += [("twins " + x, lambda t, x=x: twins(t, x)) for x in TWIN]
    sc += checked(c, M4)
    c.run(sc)
    c.extra["message_coefficients_within_6_of_the_decision_boundary"] = sum(edges)
    c.extra["round_trips_compared_with_the_host"] = n


def round_trips(c):
    return kem.round_trips(c, c.pick(2, 20), 2, c.pick(16, 600))


def checked_lives(c):
    """the C part on the host with every access checked (the assembly replaced): honest and altered life cycles"""
    def lives(s):
        r = c.rng("checked", s.impl.ident)
        for _ in range(c.pick(3, 40)):
            pk, sk = s.keygen(draws_of(r, 3))
            ct, k = s.enc(pk, draws_of(r, 1))
            s.dec(ct, sk)
            x = bytearray.fromhex(ct)
            x[r.randrange(len(x))] ^= 1 << r.randrange(8)
            s.dec(bytes(x).hex(), sk)
            s.dec(kem.ct_bytes(r, s), kem.sk_bytes(r, s, sk))
            s.enc(r.randbytes(s.dim["pk"]).hex(), draws_of(r, 1))
    return lives


def checked(c, idents):
    arm_host = [i for i in idents]
    return [scenario("address-checked lives", i, checked_lives(c), so="checked") for i in arm_host]


# ---------------------------------------------------------------- S21
M0 = "m0/Saber"


def streams(c, hists):
    """polynomials of the matrix one call at a time, in the histories of the model Stream"""
    def run(s):
        if "genmatrix_one" not in s.impl.wrappers:
            return
        r = c.rng("streams", s.impl.ident)
        for h in hists:
            seeds = {x["seed"]: r.randbytes(32).hex() for x in h}
            for x in h:
                q = s.call("w_genmatrix_one", [{"in": seeds[x["seed"]]}, {"out": 512}, {"i": x["n"]}], ret="void", fill=r.choice([0, 0xCC, 0xFF]))
                s.t.add(0.1, op="stream", i=s.name, p=s.p, n=x["n"], **{"in": seeds[x["seed"]]}, out=q["outs"][0],
                        canary=q["canary"], inputs=q["inputs"])
    return run


def m0_hashes(c, classes):
    def h(s):
        r = c.rng("hashes", s.impl.ident)
        w = s.impl.wrappers
        for fn, rate in (("sha3_256", 136), ("sha3_512", 72)):
            if fn in w:
                prims.hashing(c, s, r, fn, prims.lengths(c, classes, "sha3", rate, c.pick(150, 600)), None, "oi", rate=rate)
        for fn, rate in (("shake128", 168), ("shake256", 136)):
            ls = prims.lengths(c, classes, "sha3", rate, c.pick(20, 400))
            if fn in w:
                outs = sorted(set(range(0, c.pick(60, 700))) | {k * rate + x for k in range(1, 8) for x in (-1, 0, 1)})
                prims.hashing(c, s, r, fn, ls, outs, "oi", rate=rate)
            if fn + "_inc" in w:    # whole blocks
                for k in ls:
                    n = r.randrange(1, 9)
                    m = gen.some_bytes(r, k).hex()
                    q = s.call("w_%s_inc" % fn, [{"out": n * rate}, {"i": n}, {"in": m}, {"i": k}], ret="void", off=k % 4)
                    s.t.add(0.1, op="hash", i=s.name, fn=fn, **{"in": [m]}, n=n * rate, out=q["outs"], **prims.frame([q]))
            if "c" + fn in w:
                prims.cshaking(c, s, "c" + fn, rate, ls, [0, 1, 32, rate - 1, rate, rate + 1, 3 * rate])
    return h


def products_m0(c, ops, nq):
    def mult(s):
        r = c.rng("acc", s.impl.ident)
        d = s.dim
        if "polymulacc" not in s.impl.wrappers:
            return
        for k in range(nq):
            a = prims.limb_poly(r, ops[k % len(ops)][0]) if k % 2 else gen.some_poly(r, r.choice([13, 10, 16]))
            b = gen.small_poly(r, d["mu"], 1 << r.choice([13, 16])) if k % 3 else gen.some_poly(r, 16)
            x = [gen.words(v).hex() for v in (a, b, gen.some_poly(r, 16))]
            q = s.call("w_polymulacc", [{"in": v} for v in x] + [{"out": 512}], ret="void")
            s.t.add(0.15, op="mul", i=s.name, p=s.p, kind="acc", w=d["eq"], a=x[0], b=x[1], c=x[2], out=q["outs"][0],
                    canary=q["canary"], inputs=q["inputs"])
    return mult


def s21(c):
    arm.build(M0)
    c.model("Stream", workers=4, fast=False)
    c.mutant("Stream", "StreamMutant.cfg", workers=4, fast=False)
    c.mutant("Stream", "StreamMutant2.cfg", workers=4, fast=False)
    hists = c.behaviours("Stream", "StreamSim.cfg", num=c.pick(24, 400), depth=90)
    ops = c.behaviours("Toom", "ToomSim.cfg", num=c.pick(60, 1000), depth=12, cap=c.pick(200, 4000))
    units = c.behaviours("Packing", workers=4)
    classes = c.behaviours("SpongeModel")
    edges = []
    of = 6
    fns = [("round trips %d" % k, kem.round_trips(c, 1, 2, c.pick(12, 300))) for k in range(1)]
    fns += [("tampering %d" % k, kem.tampering(c, k, of)) for k in range(of)]
    fns += [("decapsulations", kem.decapsulations(c, edges)), ("encapsulations", kem.encapsulations(c)),
            ("key generations", kem.key_generations(c)), ("placements", placements(c)),
            ("products", prims.products(c, ops, c.pick(10, 200))), ("accumulating products", products_m0(c, ops, c.pick(40, 1000))),
            ("packings", prims.packings(c, units, c.pick(6, 100))), ("samples", prims.samples(c, c.pick(6, 100))),
            ("decryptions", pke_decs(c)), ("streams", streams(c, hists)), ("hashes", m0_hashes(c, classes)),
            ("comparisons", kem.verifying(c))]
    sc = [scenario(n, M0, f) for n, f in fns]
    sc += kem.model_replays(c, [(M0, M0)], c.pick(4, 40))
    sc += checked(c, [M0])

    def whole(t):
        """the board's own program from reset to its end"""
        for k in range(c.pick(2, 10)):
            q = on_board(t, c.rng("board", k), k)
            t.add(0.1, op="board", lowest=q["minsp"], end=q["end"])
    sc.append(("the board's program", whole))
    c.run(sc)
    c.extra["message_coefficients_within_6_of_the_decision_boundary"] = sum(edges)


# ---------------------------------------------------------------- S22
def on_board(t, r, latency):
    try:
        return arm.board([r.randrange(1 << 16) for _ in range(1000)], latency)
    except host.Crash as e:
        t.add(op="crash", i="board", what=e.what)
        raise Stop()


def hw_words(r, n):
    k = r.randrange(4)
    if k == 0:
        return [r.choice([0, 0xFFFF, 0x00FF, 0xFF00, 0x0001, 0x8000, 0x0100, 0x0080]) for _ in range(n)]
    if k == 1:
        return [(x % 128) * 2 + 256 * (x % 128 * 2 + 1) for x in range(n)]
    return [r.randrange(1 << 16) for _ in range(n)]


def s22(c):
    arm.build(M0, "prng")
    hists = c.behaviours("Prng", workers=4)
    for k in (1, 2, 3):
        c.mutant("Prng", "PrngMutant%d.cfg" % k)
    c.rng("hists").shuffle(hists)

    def life(name, ctrl, latency, hist, key=None, size=2):
        def run(t):
            r = c.rng(name)
            s = arm.Source(ctrl, latency)
            try:
                s.supply(hw_words(r, 20000))
                t.add(0.01, op="reset", ctrl=ctrl)

                def init():
                    if key is None:
                        q = s.recorded("rng_enable", [])
                        t.add(0.05, op="init", key=[], size=2, rc=-1, acc=q["acc"])
                    else:
                        q = s.recorded("w_prng_init", [{"in": gen.words(key).hex()}, {"i": size}])
                        t.add(0.05, op="init", key=key, size=size, rc=q["rc"] & 0xFF, acc=q["acc"])
                init()
                for n in hist:
                    if n < 0:
                        init()
                    else:
                        q = s.recorded("randombytes", [{"out": n}, {"i": 0}, {"i": n}, {"i": 0}], off=r.randrange(4), fill=r.choice([0, 0xCC, 255]))
                        t.add(0.02 + n / 2000, op="req", n=n, out=list(bytes.fromhex(q["outs"][0])), acc=q["acc"])
            except host.Crash as e:
                t.add(op="crash", i=name, what=e.what)
                raise Stop()
            finally:
                s.close()
        return (name, run)
    sc = []
    r = c.rng("lives")
    # histories of the model (its lengths 0..5 as they are, and scaled to longer requests of the same parity)
    for j in range(c.pick(8, 40)):
        hs = [n for h in hists[j::c.pick(8, 40)] for n in h][:c.pick(200, 2000)]
        hs = [n if n < 0 or r.randrange(3) else n + 2 * r.randrange(40) for n in hs]
        sc.append(life("history %d" % j, r.choice([0, 2, 4]), j % 8, hs))
    sc.append(life("all lengths", 0, 1, list(range(0, c.pick(160, 700)))))
    sc.append(life("long requests", 0, 0, [255, 256, 257, 1000, 1001, 512, 513, 4096]))
    if "prng_init" in arm.build(M0, "prng")[1]:
        for j in range(c.pick(6, 40)):
            key = [r.choice([0, 0xFFFF, r.randrange(1 << 16), r.randrange(1 << 16)]) for _ in range(5)]
            sc.append(life("key %d" % j, 0, j % 5, [n for n in (32, 1, 32, -1, 33)], key))
            sc.append(life("key and size %d" % j, 0, j % 5, [], key, j % 3))

    def program(t):
        for k in range(c.pick(2, 8)):
            q = on_board(t, c.rng("program", k), 3 * k)
            t.add(0.1, op="reset", ctrl=0)
            t.add(0.3, op="program", acc=q["acc"])
    sc.append(("the board's program", program))
    c.run(sc, module="PrngConform")
    c.assumptions.append("the generator's registers behave as the model Prng's hardware: a key word is taken when the status bit is set, every read of the data register gives the next word")


TABLE = {"S22": s22, "S20": s20, "S21": s21}
