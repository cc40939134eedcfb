"""Executes calls of one configuration's shared object; one JSON request per line on stdin, one
JSON answer per line on stdout. Every buffer lies between canaries (or against an inaccessible
page) and inputs are compared after the call."""
import ctypes
import json
import mmap
import os
import sys
import random

PAGE = 4096
libc = ctypes.CDLL(None, use_errno=True)
libc.mmap.restype = ctypes.c_void_p
libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
libc.munmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t]


class Arena:
    """guard page | room pages | guard page"""

    def __init__(self, room):
        self.room = (room + PAGE - 1) // PAGE * PAGE
        base = libc.mmap(None, self.room + 2 * PAGE, 3, 0x22, -1, 0)
        if base in (None, ctypes.c_void_p(-1).value):
            raise MemoryError
        libc.mprotect(base, PAGE, 0)
        libc.mprotect(base + PAGE + self.room, PAGE, 0)
        self.base = base
        self.start = base + PAGE

    def free(self):
        libc.munmap(self.base, self.room + 2 * PAGE)


RND = random.Random(12345)
CAN = bytes(RND.randrange(256) for _ in range(1 << 16))


class Buf:
    def __init__(self, arena, size, place, off):
        self.a = arena
        self.size = size
        self.win = None    # the parts of a long output that are reported
        if place == "end":
            self.addr = arena.start + arena.room - size
        elif place == "start":
            self.addr = arena.start
        else:
            self.addr = arena.start + 128 + off
        # canary bytes: up to 4096 on either side, within the room
        self.lo = max(arena.start, self.addr - 4096)
        self.hi = min(arena.start + arena.room, self.addr + size + 4096)
        self.clo = CAN[:self.addr - self.lo]
        self.chi = CAN[7:7 + self.hi - self.addr - size]
        ctypes.memmove(self.lo, self.clo, len(self.clo))
        ctypes.memmove(self.addr + size, self.chi, len(self.chi))

    def put(self, data):
        ctypes.memmove(self.addr, data, len(data))

    def get(self):
        return ctypes.string_at(self.addr, self.size)

    def intact(self):
        return (ctypes.string_at(self.lo, len(self.clo)) == self.clo and
                ctypes.string_at(self.addr + self.size, len(self.chi)) == self.chi)


class Worker:
    def __init__(self, so):
        self.lib = ctypes.CDLL(so, mode=os.RTLD_LAZY | os.RTLD_LOCAL)
        self.pool = []
        self.ctx = {}
        for n in ("shim_nreq", "shim_reclen"):
            getattr(self.lib, n).restype = ctypes.c_size_t
        self.lib.shim_req.restype = ctypes.c_uint32
        self.lib.shim_req.argtypes = [ctypes.c_size_t]
        self.lib.shim_rec.restype = ctypes.c_void_p
        self.lib.shim_feed.argtypes = [ctypes.c_void_p, ctypes.c_size_t]

    def arena(self, used, size):
        need = size + 2 * 4096 + 256
        for a in self.pool:
            if a not in used and a.room >= need:
                used.append(a)
                return a
        a = Arena(max(need, 1 << 15))
        if a.room <= 1 << 20:
            self.pool.append(a)
        used.append(a)
        return a

    def call(self, q):
        fn = getattr(self.lib, q["fn"])
        fn.restype = None if q.get("ret") == "void" else ctypes.c_int
        place, off, fill = q.get("place", "mid"), q.get("off", 0), q.get("fill", 0xCC)
        used, args, bufs, ins, outs = [], [], [], [], []
        for n, a in enumerate(q["args"]):
            o = a.get("off", off)
            if "in" in a or "inout" in a or "rep" in a:
                if "rep" in a:    # a long input: n bytes, periodic
                    p = bytes.fromhex(a["rep"])
                    data = (p * (a["n"] // len(p) + 1))[:a["n"]]
                else:
                    data = bytes.fromhex(a["in"] if "in" in a else a["inout"])
                b = Buf(self.arena(used, len(data)), len(data), a.get("place", place), o)
                b.put(data)
                (outs if "inout" in a else ins).append(b if "inout" in a else (b, data))
                bufs.append(b)
                args.append(ctypes.c_void_p(b.addr))
            elif "out" in a:
                b = Buf(self.arena(used, a["out"]), a["out"], a.get("place", place), o)
                b.put(bytes([a.get("fill", fill)]) * a["out"])
                outs.append(b)
                bufs.append(b)
                b.win = a.get("win")
                args.append(ctypes.c_void_p(b.addr))
            elif "ctx" in a:  # persistent context object
                if a["ctx"] not in self.ctx:
                    ar = Arena(a["size"] + 8192 + 256)
                    b = Buf(ar, a["size"], "mid", 0)
                    b.put(bytes([fill]) * a["size"])
                    self.ctx[a["ctx"]] = b
                bufs.append(self.ctx[a["ctx"]])
                args.append(ctypes.c_void_p(self.ctx[a["ctx"]].addr))
            elif "at" in a:  # inside the buffer of argument at[0], offset at[1]
                args.append(ctypes.c_void_p(args[a["at"][0]].value + a["at"][1]))
            elif "i" in a:
                args.append(ctypes.c_ulonglong(a["i"] & 0xFFFFFFFFFFFFFFFF))
            elif "null" in a:
                args.append(ctypes.c_void_p(None))
        lib = self.lib
        lib.shim_reset()
        keep = None
        if q.get("feed") is not None:
            keep = ctypes.create_string_buffer(bytes.fromhex(q["feed"]), len(q["feed"]) // 2)
            lib.shim_feed(ctypes.addressof(keep), len(q["feed"]) // 2)
        else:
            lib.shim_nofeed()
        rc = fn(*args)
        lib.shim_nofeed()
        res = {"outs": [b.get().hex() if not b.win else [ctypes.string_at(b.addr + o, n).hex() for o, n in b.win] for b in outs],
               "canary": all(b.intact() for b in bufs),
               "inputs": all(b.get() == d for b, d in ins)}
        if q.get("ret") != "void":
            res["rc"] = rc
        n = lib.shim_nreq()
        res["reqs"] = [lib.shim_req(i) for i in range(min(n, 4096))]
        res["rec"] = ctypes.string_at(lib.shim_rec(), lib.shim_reclen()).hex()
        for a in used:
            if a not in self.pool:
                a.free()
        return res

    def decflip(self, q):
        """crypto_kem_dec on many variants of one ciphertext; flips: list of lists [pos, xor]"""
        sk, ct = bytes.fromhex(q["sk"]), bytes.fromhex(q["ct"])
        ss = self.lib.shim_ssbytes()
        used = []
        bk = Buf(self.arena(used, ss), ss, "mid", 0)
        bs = Buf(self.arena(used, len(sk)), len(sk), "mid", 0)
        bc = Buf(self.arena(used, len(ct)), len(ct), "mid", 0)
        bs.put(sk)
        fn = self.lib.crypto_kem_dec
        fn.restype = ctypes.c_int
        ks, rcs, ok = [], [], True
        for fl in q["flips"]:
            c = bytearray(ct)
            for p, m in fl:
                c[p] ^= m
            bc.put(bytes(c))
            rcs.append(fn(ctypes.c_void_p(bk.addr), ctypes.c_void_p(bc.addr), ctypes.c_void_p(bs.addr)))
            ks.append(bk.get().hex())
            ok = ok and bc.get() == bytes(c)
        return {"ks": ks, "rcs": rcs, "canary": all(b.intact() for b in (bk, bs, bc)), "inputs": ok and bs.get() == sk}

    def cycle(self, q):
        """key generation, encapsulation, decapsulation with all five buffers in one arena, in the given order"""
        lib = self.lib
        size = {"pk": lib.shim_pkbytes(), "sk": lib.shim_skbytes(), "ct": lib.shim_ctbytes(), "k1": lib.shim_ssbytes()}
        size["k2"] = size["k1"]
        total = sum(size.values()) + 4 * q["gap"]
        a = Arena(total + q["off"] + 64)
        base = a.start + q["off"] if q["place"] == "low" else a.start + a.room - total - q["off"]
        at, p = {}, base
        for b in q["order"]:
            at[b] = p
            p += size[b] + q["gap"]
        noise = (CAN * (a.room // len(CAN) + 1))[:a.room]
        ctypes.memmove(a.start, noise, a.room)
        kept, rcs, recs = True, 0, []
        for fn, outs, args in (("crypto_kem_keypair", ["pk", "sk"], ["pk", "sk"]),
                               ("crypto_kem_enc", ["ct", "k1"], ["ct", "k1", "pk"]),
                               ("crypto_kem_dec", ["k2"], ["k2", "ct", "sk"])):
            for b in outs:
                ctypes.memset(at[b], q["fill"], size[b])
            before = bytearray(ctypes.string_at(a.start, a.room))
            lib.shim_reset()
            f = bytes.fromhex(q["feed"][len(recs)]) if len(recs) < 2 else b""
            keep = ctypes.create_string_buffer(f, max(1, len(f)))
            lib.shim_feed(ctypes.addressof(keep), len(f))
            fun = getattr(lib, fn)
            fun.restype = ctypes.c_int
            rcs |= fun(*[ctypes.c_void_p(at[b]) for b in args]) & 0xFFFFFFFF
            lib.shim_nofeed()
            after = bytearray(ctypes.string_at(a.start, a.room))
            recs.append(ctypes.string_at(lib.shim_rec(), lib.shim_reclen()).hex())
            for b in outs:
                o = at[b] - a.start
                before[o:o + size[b]] = after[o:o + size[b]]
            kept = kept and before == after
        res = {b: ctypes.string_at(at[b], size[b]).hex() for b in at}
        res.update(rcs=rcs, kept=kept, recs=recs)
        a.free()
        return res

    def bulk(self, q):
        """n round trips from scripted randomness: per lane the keys of both sides and a digest of pk, sk, ct"""
        import hashlib
        lib = self.lib
        k = q["lanes"]
        npk, nsk, nct, nss = (getattr(lib, "shim_%sbytes" % x)() for x in ("pk", "sk", "ct", "ss"))
        used = []
        pk, sk, ct, k1, k2 = [Buf(self.arena(used, n), n, "mid", 0) for n in (npk, nsk, nct, nss, nss)]
        kp, en, de = lib.crypto_kem_keypair, lib.crypto_kem_enc, lib.crypto_kem_dec
        A = [ctypes.c_void_p(b.addr) for b in (pk, sk, ct, k1, k2)]
        res, rcs = [], 0

        def feed(label, n):
            out, i = b"", 0
            while len(out) < n:
                out += hashlib.sha256(("%s/%d" % (label, i)).encode()).digest()
                i += 1
            return ctypes.create_string_buffer(out[:n], n)
        for j in range(q["n"]):
            lib.shim_reset()
            # lane i of round trip j draws what a single instance draws in round trip j*lanes+i
            f = feed("", 0)
            data = b"".join(bytes(feed("%s/k/%d" % (q["seed"], j * k + i), 96)) for i in range(k))
            f = ctypes.create_string_buffer(data, len(data))
            lib.shim_feed(ctypes.addressof(f), len(data))
            rcs |= kp(A[0], A[1]) & 0xFFFFFFFF
            data = b"".join(bytes(feed("%s/e/%d" % (q["seed"], j * k + i), 32)) for i in range(k))
            f = ctypes.create_string_buffer(data, len(data))
            lib.shim_feed(ctypes.addressof(f), len(data))
            rcs |= en(A[2], A[3], A[0]) & 0xFFFFFFFF
            lib.shim_nofeed()
            rcs |= de(A[4], A[2], A[1]) & 0xFFFFFFFF
            P, S, C, X, Y = (b.get() for b in (pk, sk, ct, k1, k2))
            for i in range(k):
                def lane(b):
                    m = len(b) // k
                    return b[i * m:(i + 1) * m]
                dg = hashlib.sha256(lane(P) + lane(S) + lane(C) + lane(X)).hexdigest()
                res.append([lane(X).hex(), lane(Y).hex(), dg])
        return {"res": res, "rcs": rcs, "canary": all(b.intact() for b in (pk, sk, ct, k1, k2))}

    def bulkdec(self, q):
        """decapsulation of n scripted pseudorandom ciphertexts under one secret key"""
        import hashlib
        lib, k = self.lib, q["lanes"]
        nsk, nct, nss = (getattr(lib, "shim_%sbytes" % x)() for x in ("sk", "ct", "ss"))
        used = []
        sk, ct, k2 = [Buf(self.arena(used, n), n, "mid", 0) for n in (nsk, nct, nss)]
        sk.put(bytes.fromhex(q["sk"]) * k)
        ks, rcs = [], 0
        for j in range(q["n"]):
            m = nct // k
            c = b"".join(hashlib.shake_128(("%s/%d" % (q["seed"], j * k + i)).encode()).digest(m) for i in range(k))
            ct.put(c)
            rcs |= lib.crypto_kem_dec(ctypes.c_void_p(k2.addr), ctypes.c_void_p(ct.addr), ctypes.c_void_p(sk.addr)) & 0xFFFFFFFF
            o = k2.get().hex()
            ks += [o[64 * i:64 * i + 64] for i in range(k)]
        return {"ks": ks, "rcs": rcs, "canary": all(b.intact() for b in (sk, ct, k2))}

    def has(self, q):
        r = []
        for n in q["names"]:
            try:
                getattr(self.lib, n)
                r.append(n)
            except AttributeError:
                pass
        return {"has": r}

    def info(self, q):
        l = self.lib
        return {"pk": l.shim_pkbytes(), "sk": l.shim_skbytes(), "ct": l.shim_ctbytes(), "ss": l.shim_ssbytes(),
                "xof": l.shim_xofsize()}

    def dropctx(self, q):
        for b in self.ctx.values():
            b.a.free()
        self.ctx = {}
        return {}

    def repeat(self, q):
        """the same call many times; returns the set of distinct results"""
        seen = []
        for _ in range(q["n"]):
            r = self.call(q["call"])
            if r not in seen:
                seen.append(r)
        return {"seen": seen}


def main():
    w = Worker(sys.argv[1])
    out = sys.stdout
    for line in sys.stdin:
        q = json.loads(line)
        try:
            r = getattr(w, q["op"])(q)
        except Exception as e:  # an error of the harness, not of the code under test
            r = {"error": "%s: %s" % (type(e).__name__, e)}
        out.write(json.dumps(r) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
