"""S16: memory."""
from .. import repo, gen
from ..core import Sys, lanes
from .kem import ALL, draws_of, scenario


def s16(c):
    sos = repo.build_all(ALL)
    asan = repo.build_all(ALL, "asan")
    lay = c.behaviours("Layout", workers=4)
    c.mutant("LayoutMutant", "LayoutMutant.cfg", fast=False)
    c.rng("layouts").shuffle(lay)
    nlay, noff = c.pick(3, 60), c.pick(10, 64)

    def layouts(s):
        """the life cycle in layouts of the model"""
        r = c.rng("lay", s.impl.ident)
        if not s.can_feed():
            return
        first = ALL.index(s.impl.ident) * nlay
        offs = {0: 0, 1: 1, 2: r.choice([8, 16, 24]), 3: r.randrange(3, 64)}
        for b in [lay[(first + j) % len(lay)] for j in range(nlay)]:
            feed = [draws_of(r, 3 * s.n).hex(), draws_of(r, s.n).hex()]
            q = s.guard(s.impl.ask, op="cycle", order=b["order"], gap=b["gap"] * r.randrange(1, 40), off=offs[b["off"]],
                        place=b["place"], fill=r.randrange(256), feed=feed)
            d = "".join(q["recs"][:2])
            s.t.add(3 * s.n, op="cycle", i=s.name, p=s.p, draws=[d[i:i + 64] for i in range(0, len(d), 64)],
                    rcs=q["rcs"], kept=q["kept"], layout=b, **{k: lanes(q[v], s.n) for k, v in
                                                              (("pk", "pk"), ("sk", "sk"), ("ct", "ct"), ("k", "k1"), ("k2", "k2"))})

    def aligned(s):
        """one life cycle judged in full; then the same calls in other places, alignments and buffer contents"""
        r = c.rng("align", s.impl.ident)
        f1, f2 = draws_of(r, 3 * s.n), draws_of(r, s.n)
        if not s.can_feed():
            return
        pk, sk = s.keygen(f1)
        ct, k = s.enc(pk, f2)
        s.dec(ct, sk)
        bad = bytearray.fromhex(ct)
        for l in range(s.n):
            bad[l * len(bad) // s.n + r.randrange(len(bad) // s.n)] ^= 1 << r.randrange(8)
        bad = bytes(bad).hex()
        kr = s.dec(bad, sk)
        ways = [dict(place=p, fill=f) for p in ("start", "end") for f in (0, 0xFF)]
        ways += [dict(off=o, fill=r.randrange(256)) for o in ([1, 31, 63] + list(range(64)) if not c.quick else
                                                             [1, 8, 16] + r.sample(range(2, 64), noff - 3))]
        if s.n == 4:
            ways += [dict(off=o) for o in (2, 4, 32, 48)]
        rows, ok, inp, rcs = [], True, True, 0
        for w in ways:
            a = s.guard(s.impl.keygen, f1, **w)
            b = s.guard(s.impl.enc, pk, f2, **w)
            d = s.guard(s.impl.dec, ct, sk, **w)
            e = s.guard(s.impl.dec, bad, sk, **w)
            rows += [[pk, a["pk"]], [sk, a["sk"]], [ct, b["ct"]], [k, b["k"]], [k, d["k"]], [kr, e["k"]]]
            for x in (a, b, d, e):
                ok, inp, rcs = ok and x["canary"], inp and x["inputs"], rcs | x["rc"]
        s.t.add(1, op="same", i=s.name, vals=rows, canary=ok, inputs=inp, rcs=rcs)

    def checked(ident):
        """the same with every access of the code checked by the address sanitizer"""
        def run(t):
            s = Sys(t, ident, so=asan[ident])
            try:
                r = c.rng("asan", ident)
                s.init(gen.some_bytes(r, 48), gen.some_bytes(r, 48))
                for n in (0, 1, 15, 16, 17, 33, 100):
                    s.draw(n)
                for _ in range(c.pick(1, 8)):
                    pk, sk = s.keygen()
                    ct, k = s.enc(pk)
                    s.dec(ct, sk)
                    s.dec(gen.some_bytes(r, len(ct) // 2).hex(), sk)
                    s.dec(ct, gen.some_bytes(r, len(sk) // 2).hex())
                    s.enc(gen.some_bytes(r, len(pk) // 2).hex())
            finally:
                s.close()
        return ("address-checked life cycle " + ident, run)
    sc = [scenario("layouts", i, layouts) for i in ALL]
    sc += [scenario("alignments", i, aligned) for i in ALL]
    sc += [checked(i) for i in ALL]
    c.run(sc)


TABLE = {"S16": s16}
