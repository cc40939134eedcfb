"""The Cortex-M code, built for its processor and run in the interpreter of arm/arm.c."""
import ctypes
import hashlib
import json
import os
import random
import re
import shutil
import struct
import subprocess
import threading
from concurrent.futures import ThreadPoolExecutor

from . import repo
from .repo import CACHE, VERIF, CheckError, sh
from .host import Crash

HERE = os.path.join(VERIF, "arm")
BASE = "Cortex-M_Implementation_KEM/"
M0DIR = BASE + "Cortex-M0/saber-ref-mem"
CC = "arm-none-eabi-gcc"
ARGS, ARGSIZE = 0x30000000, 1 << 17
STACK, STACKSIZE = 0x20040000, 1 << 16

CONFIGS = {}
for _n, _k in repo.LEVELS.items():
    for _i in ("m4-striding", "m4-tc4kara"):
        for _c in (False, True):
            CONFIGS["%s/%s%s" % (_i, _n, "+4bit" if _c else "")] = dict(
                id=_i, kind="m4", src=BASE + "Cortex-M4/src/%s/%s" % (_n.lower(), _i), param=("M4_" if _c else "") + _n, compress=_c)
CONFIGS["m0/Saber"] = dict(id="m0", kind="m0", src=M0DIR, param="M0_Saber", compress=False)
M4 = [c for c in CONFIGS if c.startswith("m4")]
M0 = "m0/Saber"

_lock = threading.Lock()
_lib = None


def library():
    """the interpreter, compiled once"""
    global _lib
    with _lock:
        if _lib:
            return _lib
        src = os.path.join(HERE, "arm.c")
        with open(src, "rb") as f:
            h = hashlib.sha256(f.read()).hexdigest()[:16]
        d = os.path.join(CACHE, "arm")
        os.makedirs(d, exist_ok=True)
        so = os.path.join(d, "libarm-%s.so" % h)
        if not os.path.exists(so):
            tmp = so + ".%d" % os.getpid()
            sh(["gcc", "-O2", "-fPIC", "-shared", "-w", "-o", tmp, src])
            os.rename(tmp, so)
        l = ctypes.CDLL(so)
        P, U, I, Z = ctypes.c_void_p, ctypes.c_uint32, ctypes.c_int, ctypes.c_size_t
        for name, res, args in (
                ("arm_new", P, [I]), ("arm_free", None, [P]), ("arm_map", None, [P, U, U, I]), ("arm_rights", None, [P, U, U, I]),
                ("arm_put", None, [P, U, ctypes.c_char_p, U]), ("arm_get", None, [P, U, P, U]),
                ("arm_run", I, [P, U, ctypes.POINTER(U), I, U, ctypes.c_uint64]), ("arm_r0", U, [P]), ("arm_what", ctypes.c_char_p, [P]),
                ("arm_fault", U, [P, I]), ("arm_count", ctypes.c_uint64, [P]), ("arm_minsp", U, [P]),
                ("arm_feed", None, [P, P, Z]), ("arm_nreq", Z, [P]), ("arm_req", U, [P, Z]), ("arm_rec", P, [P]), ("arm_nrec", Z, [P]),
                ("arm_words", None, [P, P, Z]), ("arm_taken", Z, [P]), ("arm_prng", None, [P, U, I]),
                ("arm_watch", None, [P, I]), ("arm_obs", ctypes.c_uint64, [P]), ("arm_nmark", Z, [P]), ("arm_marks", P, [P]), ("arm_pc", U, [P]),
                ("arm_pass", I, [P, U, ctypes.c_uint64]), ("arm_timing", None, [P, U, I, U]), ("arm_now", ctypes.c_uint64, [P]),
                ("arm_probe", None, [P, U, I]), ("arm_nhit", Z, [P]), ("arm_hit", ctypes.c_int64, [P, Z, I]),
                ("arm_floor", None, [P, U]), ("arm_line", P, [P]), ("arm_nline", Z, [P]), ("arm_lost", Z, [P]), ("arm_receive", None, [P, P, Z]), ("arm_received", Z, [P]),
                ("arm_slow", None, [P, I]), ("arm_io", U, [P, U]), ("arm_setio", None, [P, U, U]), ("arm_state", U, [P, I]),
                ("arm_logging", None, [P, I]), ("arm_nlog", Z, [P]), ("arm_log", U, [P, Z, I])):
            f = getattr(l, name)
            f.restype, f.argtypes = res, args
        _lib = l
        return l


# ---------------------------------------------------------------- building
def digest(files, *more):
    h = hashlib.sha256()
    for k in sorted(files):
        h.update(k.encode() + b"\0" + hashlib.sha256(files[k]).digest())
    for base, dirs, names in os.walk(HERE):
        for n in sorted(names):
            if n != "arm.c":
                with open(os.path.join(base, n), "rb") as f:
                    h.update(n.encode() + f.read())
    with open(os.path.abspath(__file__), "rb") as f:
        h.update(f.read())
    for m in more:
        h.update(repr(m).encode())
    return h.hexdigest()


def defined(o):
    _, out = sh(["arm-none-eabi-nm", "--defined-only", "-g", o])
    return {l.split()[-1] for l in out.splitlines() if len(l.split()) >= 3}


def m0_sources(files):
    """(C and assembly sources of the KEM, the other sources, flags) by the Makefile"""
    mk = files["Makefile"].decode().replace("\\\n", " ")
    kem = re.search(r"^SABER_SRC\s*:?=\s*(.*)$", mk, flags=re.M).group(1).split()
    rest = re.findall(r"\$\(SDIR\)/(\w+\.c)", re.search(r"^SRC\s*:?=\s*(.*)$", mk, flags=re.M).group(1))
    fl = []
    for l in re.findall(r"^CCFLAGS\s*\+?=\s*(.*)$", mk, flags=re.M):
        fl += [f for f in l.split() if re.match(r"-(m|O|f|D)", f)]
    return ["src/" + s for s in kem], ["src/" + s for s in rest], fl


def build(ident, what="kem", edits=None):
    """Returns (path of the ELF file, names of the wrappers it has). what: kem, board (the real program),
    prng (the random source), watch (programs of the model Leak). edits: contents of files that replace /repo's."""
    if what == "watch":
        d = os.path.join(CACHE, "arm", CONFIGS[ident]["kind"] + "-watch")
        os.makedirs(d, exist_ok=True)
        elf = os.path.join(d, digest({}, what)[:16] + ".elf")
        if not os.path.exists(elf):
            sh([CC, "-mthumb", "-mcpu=cortex-" + CONFIGS[ident]["kind"], "-mfloat-abi=soft", "-O0", "-w", os.path.join(HERE, "watch.c"), "-o", elf + ".tmp",
                "-nostartfiles", "-Wl,-e,watch", "-Wl,-T," + os.path.join(HERE, "m4", "link.ld"), "-Wl,--no-warn-rwx-segments", "-lgcc"])
            os.rename(elf + ".tmp", elf)
        return elf, set()
    conf = CONFIGS[ident]
    files = repo.tree(conf["src"])
    if not files:
        raise CheckError("no sources in " + conf["src"])
    d = os.path.join(CACHE, "arm", ident.replace("/", "_") + "-" + what)
    if edits:
        files = {**files, **edits}
        d += "-" + digest(edits)[:16]
    elf, stamp = os.path.join(d, "image.elf"), os.path.join(d, "stamp")
    h = digest(files, ident, what)
    if os.path.exists(stamp):
        with open(stamp) as f:
            if f.read() == h:
                with open(os.path.join(d, "have")) as g:
                    return elf, set(g.read().split())
    shutil.rmtree(d, ignore_errors=True)
    src = os.path.join(d, "src")
    repo.materialise(files, src)
    kind = conf["kind"]
    if kind == "m4":
        srcs = sorted(f for f in files if f.endswith((".c", ".s", ".S")) and "/" not in f)
        flags = ["-mthumb", "-mcpu=cortex-m4", "-mfloat-abi=soft", "-O3", "-std=gnu99", "-w", "-g1",
                 "-I" + src, "-I" + os.path.join(HERE, "m4")] + (["-DSABER_COMPRESS_SECRETKEY"] if conf["compress"] else [])
        stubs, wf, script = os.path.join(HERE, "m4", "stubs.S"), os.path.join(HERE, "m4", "glue.c"), os.path.join(HERE, "m4", "link.ld")
    else:
        kem, rest, fl = m0_sources(files)
        srcs = kem if what == "kem" else kem + rest
        flags = fl + ["-w", "-g1", "-I" + os.path.join(src, "include")]
        stubs, wf, script = os.path.join(HERE, "m0", "stubs.S"), os.path.join(HERE, "m0", "glue.c"), os.path.join(HERE, "m4", "link.ld")
        if what == "prng":
            srcs = [s for s in rest if "main" not in s]

    def comp(s):
        o = os.path.join(d, os.path.basename(s) + ".o")
        sh([CC] + flags + ["-c", s if s.startswith("/") else os.path.join(src, s), "-o", o], cwd=src)
        return o
    have = []
    objs = []
    if what == "prng":
        o = os.path.join(d, "prngglue.o")
        rc, _ = sh([CC] + flags + ["-I" + os.path.join(src, "src"), "-c", os.path.join(HERE, "m0", "prngglue.c"), "-o", o], cwd=src, ok=False)
        if rc == 0:
            objs, have = [o], ["prng_init"]
            srcs = [s for s in srcs if os.path.basename(s) != "prng.c"]
    with ThreadPoolExecutor(4) as ex:
        objs += list(ex.map(comp, srcs + ([stubs] if what == "kem" else [])))
    if what == "board":
        sh([CC] + [f for f in flags if f.startswith("-m")] + ["-o", elf] + objs +
           ["-Wl,-T," + os.path.join(src, "linker_script.ld"), "-nostartfiles", "-lgcc"], cwd=src)
    elif what == "prng":
        sh([CC] + [f for f in flags if f.startswith("-m")] + ["-o", elf] + objs +
           ["-Wl,-T," + script, "-nostartfiles", "-Wl,--no-warn-rwx-segments", "-Wl,--unresolved-symbols=ignore-all", "-lc", "-lgcc"], cwd=src)
    else:
        syms = set()
        for o in objs:
            syms |= defined(o)
        with open(wf) as f:
            names = re.findall(r"^#ifdef W_(\w+)\s*//\s*needs:(.*)$", f.read(), flags=re.M)
        names = [(n, needs) for n, needs in names if set(needs.split()) <= syms]
        strict = [f for f in flags if f not in ("-w", "-O3")] + ["-O1", "-Werror=incompatible-pointer-types",
                  "-Werror=implicit-function-declaration", "-Werror=int-conversion"]
        o = os.path.join(d, "glue.o")
        rc, out = sh([CC] + strict + ["-DW_" + n for n, _ in names] + ["-c", wf, "-o", o], cwd=src, ok=False)
        if rc == 0:
            objs.append(o)
            have = [n for n, _ in names]
        else:
            sh([CC] + strict + ["-c", wf, "-o", o], cwd=src)
            objs.append(o)
            for name, _ in names:
                o = os.path.join(d, "w_%s.o" % name)
                rc, out = sh([CC] + strict + ["-DW_" + name, "-DONLY", "-c", wf, "-o", o], cwd=src, ok=False)
                if rc == 0:
                    objs.append(o)
                    have.append(name)
        sh([CC] + [f for f in flags if f.startswith("-m")] + ["-o", elf] + objs +
           ["-Wl,-T," + script, "-nostartfiles", "-Wl,--no-warn-rwx-segments", "-lc", "-lgcc"], cwd=src)
    with open(os.path.join(d, "have"), "w") as f:
        f.write(" ".join(have))
    with open(stamp, "w") as f:
        f.write(h)
    return elf, set(have)


def build_all(idents=None, what="kem"):
    with ThreadPoolExecutor(repo.JOBS) as ex:
        return list(ex.map(lambda i: build(i, what), idents or CONFIGS))


class Elf:
    def __init__(self, path):
        with open(path, "rb") as f:
            b = self.b = f.read()
        phoff, shoff = struct.unpack_from("<II", b, 28)
        self.entry, = struct.unpack_from("<I", b, 24)
        phn, = struct.unpack_from("<H", b, 44)
        shn, = struct.unpack_from("<H", b, 48)
        self.segs, self.syms = [], {}
        for i in range(phn):
            t, off, va, pa, fs, ms, fl, _ = struct.unpack_from("<8I", b, phoff + 32 * i)
            if t == 1 and ms:
                self.segs.append((va, pa, b[off:off + fs], ms, fl))
        secs = [struct.unpack_from("<10I", b, shoff + 40 * i) for i in range(shn)]
        self.funcs = []
        for s in secs:
            if s[1] == 2:
                st = secs[s[6]]
                for o in range(s[4], s[4] + s[5], 16):
                    n, v, z, info, _, ndx = struct.unpack_from("<IIIBBH", b, o)
                    name = b[st[4] + n:b.index(b"\0", st[4] + n)].decode()
                    if ndx and name:
                        self.syms[name] = v
                        if info & 15 == 2:
                            self.funcs.append((v & ~1, name))
        self.funcs.sort()

    def where(self, a):
        r = "?"
        for v, n in self.funcs:
            if v <= a:
                r = n
        return r


class Arm:
    """one machine with a program; calls run its functions"""

    def __init__(self, ident, what="kem", limit=2_000_000_000):
        self.ident = ident
        self.conf = CONFIGS[ident]
        self.param = self.conf["param"]
        self.x4 = False
        self.limit = limit
        path, self.wrappers = build(ident, what)
        self.elf = Elf(path)
        self.lib = library()
        self.m = None
        self.rnd = random.Random(ident)
        self.start()
        if what == "kem":
            self.info = self.ask(op="info")
            d = self.dim = repo.param_info(self.param)
            self.size = {"pk": d["pk"], "sk": d["sk"], "ct": d["ct"], "ss": 32}
            self.sizes_ok = all(self.info[x] == self.size[x] for x in self.size)

    def start(self):
        self.close()
        l = self.lib
        self.m = l.arm_new(1 if self.conf["kind"] == "m0" else 0)
        for va, pa, data, ms, fl in self.elf.segs:
            l.arm_map(self.m, va, ms, (1 if fl & 4 else 0) | (2 if fl & 2 else 0) | (4 if fl & 1 else 0))
            l.arm_put(self.m, va, data, len(data))
        l.arm_map(self.m, STACK - STACKSIZE, STACKSIZE, 3)
        l.arm_map(self.m, ARGS, ARGSIZE, 0)
        self.lowest = STACK

    restart = start

    def close(self):
        if self.m:
            self.lib.arm_free(self.m)
            self.m = None

    def __del__(self):
        self.close()

    def get(self, addr, n):
        b = ctypes.create_string_buffer(n + 1)
        self.lib.arm_get(self.m, addr, b, n)
        return b.raw[:n]

    def put(self, addr, data):
        self.lib.arm_put(self.m, addr, data, len(data))

    def has(self, *names):
        return [n for n in names if n in self.elf.syms]

    def ask(self, op, **q):
        if op == "info":
            v = struct.unpack("<4I", self.get(self.elf.syms["shim_sizes"], 16))
            return dict(zip(("pk", "sk", "ct", "ss"), v))
        if op == "decflip":
            ks, rcs = [], []
            for fl in q["flips"]:
                c = bytearray.fromhex(q["ct"])
                for p, m in fl:
                    c[p] ^= m
                r = self.dec(bytes(c).hex(), q["sk"])
                ks.append(r["k"])
                rcs.append(r["rc"])
            return {"ks": ks, "rcs": rcs, "canary": True, "inputs": True}
        if op == "bulk":    # as in worker.py
            def feed(label, n):
                out, i = b"", 0
                while len(out) < n:
                    out += hashlib.sha256(("%s/%d" % (label, i)).encode()).digest()
                    i += 1
                return out[:n]
            res, rcs = [], 0
            for j in range(q["n"]):
                k = self.keygen(feed("%s/k/%d" % (q["seed"], j), 96))
                e = self.enc(k["pk"], feed("%s/e/%d" % (q["seed"], j), 32))
                d = self.dec(e["ct"], k["sk"])
                rcs |= (k["rc"] | e["rc"] | d["rc"]) & 0xFFFFFFFF
                h = hashlib.sha256(bytes.fromhex(k["pk"] + k["sk"] + e["ct"] + e["k"])).hexdigest()
                res.append([e["k"], d["k"], h])
            return {"res": res, "rcs": rcs, "canary": True}
        raise CheckError("no %s on %s" % (op, self.ident))

    def call(self, fn, args, ret="int", off=0, fill=0xCC, feed=None, **kw):
        l, m = self.lib, self.m
        l.arm_rights(m, ARGS, ARGSIZE, 0)
        l.arm_put(m, STACK - STACKSIZE, self.rnd.randbytes(STACKSIZE), STACKSIZE)
        at, regs, bufs, outs = ARGS + 4096, [], [], []
        for a in args:
            if "in" in a or "out" in a or "inout" in a:
                data = bytes([a.get("fill", fill)]) * a["out"] if "out" in a else bytes.fromhex(a["in"] if "in" in a else a["inout"])
                at = (at + 64 + self.rnd.randrange(64)) // 8 * 8 + a.get("off", off)
                l.arm_put(m, at, data, len(data))
                if data:
                    l.arm_rights(m, at, len(data), 1 if "in" in a else 3)
                bufs.append((at, len(data), a))
                if "in" not in a:
                    outs.append((at, len(data)))
                regs.append(at)
                at += len(data)
            elif "at" in a:
                regs.append(regs[a["at"][0]] + a["at"][1])
            elif "i" in a:
                regs.append(a["i"] & 0xFFFFFFFF)
            else:
                regs.append(0)
        if at > ARGS + ARGSIZE:
            raise CheckError("arguments too large")
        keep = None
        if feed is not None:
            feed = bytes.fromhex(feed)
            keep = ctypes.create_string_buffer(feed, max(1, len(feed)))
        l.arm_feed(m, keep, len(feed) if feed else 0)
        if fn not in self.elf.syms:
            raise CheckError("%s has no function %s" % (self.ident, fn))
        st = l.arm_run(m, self.elf.syms[fn], (ctypes.c_uint32 * max(1, len(regs)))(*regs), len(regs), STACK - 64, self.limit)
        self.lowest = min(self.lowest, l.arm_minsp(m))
        if st:
            pc, addr = l.arm_fault(m, 1), l.arm_fault(m, 0)
            near = ["argument %d%+d" % (n, addr - b) for n, (b, k, _) in enumerate(bufs) if b - 64 <= addr < b + k + 64]
            what = "%s at 0x%08x%s in %s (0x%08x), called from %s" % (
                l.arm_what(m).decode(), addr, " (%s)" % near[0] if near else "", self.elf.where(pc), pc, fn)
            if st == 1:
                raise CheckError("interpreter: " + what)
            raise Crash(what)
        rc = l.arm_r0(m)
        nreq = l.arm_nreq(m)
        return {"outs": [self.get(a, n).hex() for a, n in outs], "canary": True, "inputs": True,
                "rc": rc - (1 << 32) if rc >> 31 else rc,
                "reqs": [l.arm_req(m, i) for i in range(nreq)],
                "rec": ctypes.string_at(l.arm_rec(m), l.arm_nrec(m)).hex(), "count": l.arm_count(m)} if ret != "void" else \
               {"outs": [self.get(a, n).hex() for a, n in outs], "canary": True, "inputs": True}

    # ---- the interface host.Impl offers
    def keygen(self, feed=None, **kw):
        r = self.call("crypto_kem_keypair", [{"out": self.size["pk"]}, {"out": self.size["sk"]}],
                      feed=feed.hex() if feed is not None else None, **kw)
        r["pk"], r["sk"] = r["outs"]
        return r

    def enc(self, pk, feed=None, **kw):
        r = self.call("crypto_kem_enc", [{"out": self.size["ct"]}, {"out": self.size["ss"]}, {"in": pk}],
                      feed=feed.hex() if feed is not None else None, **kw)
        r["ct"], r["k"] = r["outs"]
        return r

    def dec(self, ct, sk, **kw):
        r = self.call("crypto_kem_dec", [{"out": self.size["ss"]}, {"in": ct}, {"in": sk}], **kw)
        r["k"] = r["outs"][0]
        return r


class Code(Arm):
    """assembly files alone, assembled and linked as they are"""

    def __init__(self, sources, elf, kind="m4"):
        self.ident = os.path.basename(elf)
        self.conf = dict(kind=kind)
        self.limit = 50_000_000
        self.wrappers = set()
        rc, out = sh([CC, "-mthumb", "-mcpu=cortex-" + kind, "-mfloat-abi=soft", "-o", elf] + sources +
                     ["-nostartfiles", "-Wl,-e,0", "-Wl,-T," + os.path.join(HERE, "m4", "link.ld"), "-Wl,--no-warn-rwx-segments"], ok=False)
        if rc:
            raise Crash("cannot be assembled: " + out[-300:])
        self.elf = Elf(elf)
        self.lib = library()
        self.m = None
        self.rnd = random.Random(self.ident)
        self.start()


class Observed(Arm):
    """calls in a fresh machine with fixed places of arguments, and what an observer of addresses sees"""

    def observed(self, fn, *args, **kw):
        self.start()
        self.rnd = random.Random(1)
        self.lib.arm_watch(self.m, 1)
        q = getattr(self, fn)(*args, **kw)
        n = self.lib.arm_nmark(self.m)
        q["obs"] = "%016x" % self.lib.arm_obs(self.m)
        q["marks"] = list((ctypes.c_uint64 * n).from_address(self.lib.arm_marks(self.m))) if n else []
        return q

    def at(self, upto, fn, *args, **kw):
        """the function the program is in after that many instructions"""
        lim, self.limit = self.limit, max(1, upto)
        self.start()
        self.rnd = random.Random(1)
        try:
            getattr(self, fn)(*args, **kw)
        except Crash:
            pass
        finally:
            self.limit = lim
        return self.elf.where(self.lib.arm_pc(self.m))


def selftest(n=4000):
    """the interpreter against the host on the same C program and on formulas of the DSP instructions"""
    l = library()
    d = os.path.join(CACHE, "arm", "selftest")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    src = os.path.join(HERE, "selftest.c")
    so = os.path.join(d, "host.so")
    sh(["gcc", "-O1", "-fwrapv", "-w", "-shared", "-fPIC", "-o", so, src])
    host = ctypes.CDLL(so)
    done = 0
    for cpu in ("cortex-m4", "cortex-m0"):
        want = (ctypes.c_uint32 * 8)()
        host.selftest(12345, n, int(cpu == "cortex-m4"), want)
        for o in ("-O0", "-O1", "-O2", "-O3", "-Os"):
            elf = os.path.join(d, cpu + o + ".elf")
            sh([CC, "-mthumb", "-mcpu=" + cpu, "-mfloat-abi=soft", "-fwrapv", "-w", o, src, "-o", elf, "-nostartfiles", "-Wl,-e,selftest",
                "-Wl,-T," + os.path.join(HERE, "m4", "link.ld"), "-Wl,--no-warn-rwx-segments", "-lc", "-lgcc"]) \
                if cpu == "cortex-m4" else \
                sh([CC, "-mthumb", "-mcpu=" + cpu, "-fwrapv", "-w", o, src, "-o", elf, "-nostartfiles", "-Wl,-e,selftest",
                    "-Wl,-T," + os.path.join(HERE, "m4", "link.ld"), "-Wl,--no-warn-rwx-segments", "-lc", "-lgcc"])
            e = Elf(elf)
            m = l.arm_new(int(cpu == "cortex-m0"))
            for va, pa, data, ms, fl in e.segs:
                l.arm_map(m, va, ms, (1 if fl & 4 else 0) | (2 if fl & 2 else 0) | (4 if fl & 1 else 0))
                l.arm_put(m, va, data, len(data))
            l.arm_map(m, STACK - STACKSIZE, STACKSIZE, 3)
            l.arm_map(m, ARGS, 64, 3)
            st = l.arm_run(m, e.syms["selftest"], (ctypes.c_uint32 * 4)(12345, n, int(cpu == "cortex-m4"), ARGS), 4, STACK - 64, 1 << 40)
            out = ctypes.create_string_buffer(33)
            l.arm_get(m, ARGS, out, 32)
            if st or struct.unpack("<8I", out.raw[:32]) != tuple(want):
                raise CheckError("interpreter self-test %s %s: %s at %08x in %s" % (cpu, o, l.arm_what(m).decode() or "wrong result", l.arm_fault(m, 1), e.where(l.arm_fault(m, 1))))
            done += l.arm_count(m)
            l.arm_free(m)
    return done


# ---------------------------------------------------------------- the C code on the host, address-checked
def host_checked(ident):
    """path of a program that runs the configuration's C code under the address sanitizer"""
    conf = CONFIGS[ident]
    files = repo.tree(conf["src"])
    har = os.path.join(VERIF, "harness", "cortex.c")
    with open(har, "rb") as f:
        h = digest(files, ident, "host", f.read())
    d = os.path.join(CACHE, "arm", ident.replace("/", "_") + "-host")
    exe, stamp = os.path.join(d, "run"), os.path.join(d, "stamp")
    if os.path.exists(stamp):
        with open(stamp) as f:
            if f.read() == h:
                return exe
    shutil.rmtree(d, ignore_errors=True)
    src = os.path.join(d, "src")
    repo.materialise(files, src)
    flags = ["-O1", "-g1", "-w", "-funsigned-char", "-fwrapv", "-fno-strict-aliasing", "-fno-omit-frame-pointer", "-fsanitize=address", "-std=gnu99"]
    if conf["kind"] == "m0":
        srcs = [s for s in m0_sources(files)[0] if s.endswith(".c")]
        flags += ["-DM0", "-I" + os.path.join(src, "include")]
    else:
        srcs = sorted(f for f in files if f.endswith(".c") and "/" not in f and f != "poly_mul.c")
        flags += ["-DPRODUCT", "-I" + src, "-I" + os.path.join(HERE, "m4")] + (["-DSABER_COMPRESS_SECRETKEY"] if conf["compress"] else [])
    sh(["gcc"] + flags + [har] + [os.path.join(src, s) for s in srcs] + ["-o", exe], cwd=src)
    with open(stamp, "w") as f:
        f.write(h)
    return exe


class Checked:
    """the interface of Arm's KEM calls on the program of host_checked"""

    def __init__(self, ident):
        self.ident, self.conf = ident, CONFIGS[ident]
        self.param = self.conf["param"]
        self.x4, self.wrappers = False, set()
        self.exe = host_checked(ident)
        self.p = None
        self.start()
        d = self.dim = repo.param_info(self.param)
        self.size = {"pk": d["pk"], "sk": d["sk"], "ct": d["ct"], "ss": 32}
        self.sizes_ok = all(self.info[x] == self.size[x] for x in self.size)

    def start(self):
        self.close()
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                  env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:detect_stack_use_after_return=1"))
        self.info = dict(zip(("pk", "sk", "ct", "ss"), map(int, self.p.stdout.readline().split())))

    restart = start

    def close(self):
        if self.p:
            self.p.kill()
            self.p.communicate()
            self.p = None

    def go(self, c, feed, *ins):
        feed = feed or b""
        try:
            self.p.stdin.write(c + bytes([len(feed)]) + feed + b"".join(bytes.fromhex(x) for x in ins))
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        line = self.p.stdout.readline().decode()
        if not line.endswith("\n"):
            err = self.p.stderr.read().decode(errors="replace")
            m = re.search(r"ERROR: AddressSanitizer: (.*)", err)
            at = re.findall(r"^\s*#\d+ \S+ in (\w+)", err, flags=re.M)
            self.start()
            raise Crash("%s in %s" % (m.group(1)[:160] if m else "stopped: " + err[-300:], " < ".join(at[:4])))
        w = line[:-1].split(" ")
        reqs = [int(x) for x in w[-1].split(",") if x]
        return {"outs": w[:-2], "rc": int(w[-2]), "reqs": reqs, "rec": feed[:sum(reqs)].hex(), "canary": True, "inputs": True}

    def keygen(self, feed=None, **kw):
        r = self.go(b"k", feed)
        r["pk"], r["sk"] = r["outs"]
        return r

    def enc(self, pk, feed=None, **kw):
        r = self.go(b"e", feed, pk)
        r["ct"], r["k"] = r["outs"]
        return r

    def dec(self, ct, sk, **kw):
        r = self.go(b"d", b"", ct, sk)
        r["k"] = r["outs"][0]
        return r


# ---------------------------------------------------------------- the board
REGS = {0x48020000: "word", 0x48020004: "chk", 0x4802000c: "ctrl"}


class Source(Arm):
    """the board's random source over its registers"""

    def __init__(self, ctrl=0, latency=0):
        super().__init__(M0, "prng", limit=20_000_000)
        self.lib.arm_prng(self.m, ctrl, latency)

    def supply(self, words):
        """the words the hardware will deliver next"""
        self.keep = (ctypes.c_uint16 * max(1, len(words)))(*words)
        self.lib.arm_words(self.m, self.keep, len(words))

    def recorded(self, fn, args, **kw):
        l, m = self.lib, self.m
        l.arm_logging(m, 1)
        q = self.call(fn, args, **kw)
        q["acc"] = [{"r": REGS.get(l.arm_log(m, i, 0), "other"), "w": bool(l.arm_log(m, i, 2)), "v": l.arm_log(m, i, 1) & 0xFFFF}
                    for i in range(l.arm_nlog(m))]
        l.arm_logging(m, 0)
        return q


VECTOR = 0x2000003C      # where the board's boot code sends the SysTick exception
CHARACTER = 694          # cycles of a character on the line at 115200 baud, 8 MHz


class Timed(Arm):
    """the board's program, function by function, with time: SysTick, interrupts and the serial port"""

    def __init__(self, lag=0, drain=CHARACTER):
        self.lag, self.drain = lag, drain
        super().__init__(M0, "board", limit=50_000_000)

    def start(self):
        self.close()
        l = self.lib
        m = self.m = l.arm_new(1)
        l.arm_map(m, 0x10001000, 64 << 10, 5)
        l.arm_map(m, 0x20000000, 16 << 10, 7)
        for va, pa, data, ms, fl in self.elf.segs:
            l.arm_put(m, va, data, len(data))
        l.arm_map(m, STACK - STACKSIZE, STACKSIZE, 3)
        l.arm_map(m, ARGS, ARGSIZE, 0)
        self.lowest = STACK
        l.arm_timing(m, VECTOR, self.lag, self.drain)

    def now(self):
        return self.lib.arm_now(self.m)

    def wait(self, n):
        """n cycles pass; returns how many did (an interrupt may be under way)"""
        t = self.now()
        if self.lib.arm_pass(self.m, STACK - 64, n):
            pc = self.lib.arm_fault(self.m, 1)
            raise Crash("%s in %s (0x%08x) during an interrupt" % (self.lib.arm_what(self.m).decode(), self.elf.where(pc), pc))
        return self.now() - t

    def sent(self):
        n = self.lib.arm_nline(self.m)
        return list(ctypes.string_at(self.lib.arm_line(self.m), n))

    def lost(self):
        return self.lib.arm_lost(self.m)

    def receive(self, data):
        self.keep = ctypes.create_string_buffer(bytes(data), max(1, len(data)))
        self.lib.arm_receive(self.m, self.keep, len(data))


OPERATIONS = ("crypto_kem_keypair", "crypto_kem_enc", "crypto_kem_dec")


def board(words, latency, drain=None, lag=0, slow=1, edits=None):
    """The whole program from reset in the board's memory. Returns what the run left: lowest stack pointer,
    end of the static data, registers accesses of the random source; with time (drain: cycles of a character
    on the serial line), also how long the operations took and what was sent."""
    path, _ = build(M0, "board", edits)
    e = Elf(path)
    l = library()
    m = l.arm_new(1)
    try:
        l.arm_map(m, 0x10001000, 64 << 10, 5)
        l.arm_map(m, 0x20000000, 16 << 10, 7)
        l.arm_put(m, 0x20000000, random.Random(latency).randbytes(16 << 10), 16 << 10)
        for va, pa, data, ms, fl in e.segs:
            if data:
                if not 0x10001000 <= pa <= 0x10011000 - len(data):
                    raise Crash("the program does not fit into the flash memory")
                l.arm_put(m, pa, data, len(data))
        keep = (ctypes.c_uint16 * len(words))(*words)
        l.arm_words(m, keep, len(words))
        l.arm_prng(m, 0, latency)
        l.arm_logging(m, 1)
        if drain is not None:
            l.arm_timing(m, VECTOR, lag, drain)
            l.arm_slow(m, slow)
            for k, f in enumerate(OPERATIONS):
                l.arm_probe(m, e.syms[f], k + 1)
            l.arm_floor(m, e.syms["BSS_END"])
        buf = ctypes.create_string_buffer(8)
        l.arm_get(m, 0x10001000, buf, 8)
        sp, entry = struct.unpack("<II", buf.raw[:8])
        st = l.arm_run(m, entry, (ctypes.c_uint32 * 1)(0), 0, sp, 2_000_000_000)
        if st:
            pc = l.arm_fault(m, 1)
            what = "%s at 0x%08x in %s (0x%08x)" % (l.arm_what(m).decode(), l.arm_fault(m, 0), e.where(pc), pc)
            if st == 1:
                raise CheckError("interpreter: " + what)
            raise Crash(what)
        acc = [{"r": REGS.get(l.arm_log(m, i, 0), "other"), "w": bool(l.arm_log(m, i, 2)), "v": l.arm_log(m, i, 1) & 0xFFFF} for i in range(l.arm_nlog(m))]
        return {"minsp": l.arm_minsp(m), "end": e.syms["BSS_END"], "acc": acc, "count": l.arm_count(m),
                "hits": [(l.arm_hit(m, i, 0), l.arm_hit(m, i, 1)) for i in range(l.arm_nhit(m))],
                "stack": [l.arm_hit(m, i, 2) - l.arm_hit(m, i, 3) for i in range(l.arm_nhit(m)) if l.arm_hit(m, i, 0) < 0],
                "sent": list(ctypes.string_at(l.arm_line(m), l.arm_nline(m))), "lost": l.arm_lost(m)}
    finally:
        l.arm_free(m)
