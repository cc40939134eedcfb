"""S26: the generator of the Cortex-M4 multiplication and the tool that aligns its instructions."""
import os
import re
import shutil
import subprocess
import sys
import tempfile

from .. import arm, gen, repo
from ..core import Stop
from ..host import Crash
from .cortex import strided_poly
from .prims import limb_poly

DIR = arm.BASE + "Cortex-M4/src/saber/m4-striding"
NARROW = ["adds r0, #%d", "eors r0, r2", "subs r0, #%d", "mvns r0, r0", "rev r0, r0", "adds r0, r0, r1", "adds r1, #%d"]
WIDE = ["eor.w r0, r0, r0, ror #9", "smlabb r0, r1, r2, r0", "pkhbt r0, r0, r1, lsl #3", "rsb r0, r0, #77", "add.w r2, r2, r0, lsl #1"]


def script(name, args, cwd):
    """run one of the scripts; its output"""
    try:
        r = subprocess.run([sys.executable, "-B", os.path.join(repo.REPO, DIR, name)] + args, cwd=cwd, timeout=120,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    except subprocess.TimeoutExpired:
        raise Crash("%s: no result within 120 s" % name)
    if r.returncode:
        raise Crash("%s %s: exit status %d: %s" % (name, " ".join(args), r.returncode, r.stderr.decode(errors="replace")[-300:]))
    return r.stdout


def listing(s, d, short=False):
    """functions of an assembly file: [[text without width suffix, address, width, can be widened]], up to the return"""
    o = os.path.join(d, os.path.basename(s) + ".lst.o")
    rc, out = repo.sh([arm.CC, "-mthumb", "-mcpu=cortex-m4", "-mfloat-abi=soft", "-c", s, "-o", o], ok=False)
    if rc:
        raise Crash("the aligned file cannot be assembled: " + out[-300:])
    _, out = repo.sh(["arm-none-eabi-objdump", "-d", o])
    os.unlink(o)
    funcs, cur = [], None
    for l in out.splitlines():
        if re.match(r"^[0-9a-f]+ <.*>:", l):
            cur = []
            funcs.append(cur)
        m = re.match(r"^ *([0-9a-f]+):\t([0-9a-f ]+)\t(.*)", l)
        if m and cur is not None:
            t = re.sub(r"\s*@.*", "", m.group(3)).replace("\t", " ").strip()
            t = re.sub(r"^(\w+)\.[wn]\b", r"\1", t)
            t = re.sub(r"^bl [0-9a-f]+ ", "bl ", t)
            t = re.sub(r"^(adds|subs|eors|ands|orrs|bics|adcs|add) (\w+), ([^,]+)$", r"\1 \2, \2, \3", t)   # the two-operand form
            if short:
                t = t.split()[0]       # of a long listing; the wide forms of push and pop have other names
                t = {"push": "str", "stmdb": "str", "pop": "ldr", "ldmia": "ldr"}.get(t, t)
            w = len(m.group(2).replace(" ", "")) // 2
            cur.append([t, int(m.group(1), 16), w, int(w == 2 and not (t.startswith("add") and t.endswith("sp")))])
            if t.startswith("bx"):
                cur = None
    return funcs


def values(files, d, names, r):
    """what the functions return for some arguments"""
    a = arm.Code(files, os.path.join(d, "v.elf"))
    try:
        return [a.call(n, [{"i": r.randrange(1 << 32)} for _ in range(4)])["rc"] for n in names for _ in range(3)]
    finally:
        a.close()


def scratch(f):
    def g(t):
        d = tempfile.mkdtemp(prefix="mulgen")
        try:
            f(t, d)
        except Crash as x:
            t.add(op="crash", i="m4-striding scripts", what=x.what)
            raise Stop()
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return g


def s26(c):
    c.model("Strided", workers=4, fast=False)
    c.model("Align", workers=4, fast=False)
    for i in (1, 2, 3):
        c.mutant("Align", "AlignMutant%d.cfg" % i)
    progs = c.behaviours("Align", "AlignEmit.cfg")
    strided = c.behaviours("Strided", "StridedSim.cfg", num=c.pick(24, 500), depth=20)
    ops = c.behaviours("Toom", "ToomSim.cfg", num=c.pick(40, 600), depth=12, cap=c.pick(120, 2000))
    nq = c.pick(24, 400)

    def text(v, d):
        """the assembly files of a variant: as delivered, as generated, as generated and aligned"""
        if v == "delivered":
            return [os.path.join(repo.REPO, DIR, f) for f in ("kara.s", "tc.s") if os.path.exists(os.path.join(repo.REPO, DIR, f))]
        n = re.search(r"\d+", v).group()
        s = os.path.join(d, "g.s")
        with open(s, "wb") as f:
            f.write(script("generate-multiplication.py", [n], d))
        if v.startswith("aligned"):
            script("fix-alignment.py", ["g.s"], d)
        return [s]

    def products(v):
        @scratch
        def f(t, d):
            r = c.rng("mulgen", v)
            a = arm.Code(text(v, d), os.path.join(d, "x.elf"))
            W = lambda x: gen.words(x).hex()     # noqa: E731

            def small(x, y):
                q = a.call("kara_strd_mem_asm", [{"inout": W(x)}, {"inout": W(y)}, {"out": 128}, {"out": 256}], ret="void")
                t.add(0.3, op="mul64", i=v, a=W(x), b=W(y), out=q["outs"][2], canary=True, inputs=True)

            def large(x, y, z):
                q = a.call("toom_cook_4way_striding_asm", [{"in": W(x)}, {"inout": W(y)}, {"inout": W(z)}], ret="void")
                t.add(0.15, op="mul", i=v, p="Saber", kind="acc", w=13, a=W(x), b=W(y), c=W(z), out=q["outs"][1], canary=True, inputs=True)
            try:
                for n in range(64):          # units: every place of the product
                    small([int(k == n) for k in range(64)], [r.randrange(1 << 16) for _ in range(64)])
                for x in ([65535] * 64, [32768] * 64, [0, 32767] * 32, [1] * 64):
                    for y in ([65535] * 64, [32768, 1] * 32, [8191] * 64):
                        small(x, y)
                for _ in range(nq):
                    small(gen.some_poly(r, r.choice([13, 16]))[:64], gen.some_poly(r, r.choice([4, 13, 16]))[-64:])
                if "toom_cook_4way_striding_asm" in a.elf.syms:
                    for x, y in strided:
                        large(strided_poly(r, x), strided_poly(r, y), gen.some_poly(r, 16))
                    for x, y in ops[:c.pick(24, 600)]:
                        large(limb_poly(r, x), limb_poly(r, y), gen.some_poly(r, 16))
                    for _ in range(nq):
                        large(gen.some_poly(r, r.choice([13, 10, 16])), gen.small_poly(r, 8, 1 << 16), gen.some_poly(r, 16))
            finally:
                a.close()
        return f

    def aligned(n):
        @scratch
        def f(t, d):
            g, h = text("generated %d" % n, d)[0], os.path.join(d, "h.s")
            shutil.copy(g, h)
            before = listing(g, d, True)
            for k in (1, 2):     # aligning an aligned file changes nothing any more
                script("fix-alignment.py", ["h.s"], d)
                t.add(40, op="widen", before=before, after=listing(h, d, True), same=True)
        return f

    def programs(some, label):
        @scratch
        def f(t, d):
            r = c.rng("align", label)
            for p in some:
                s, h = os.path.join(d, "p.s"), os.path.join(d, "q.s")
                names = ["fun%d" % k for k in range(len(p))]
                with open(s, "w") as o:
                    o.write(".syntax unified\n.cpu cortex-m4\n")
                    for k, body in zip(names, p):
                        o.write(".global %s\n.type %s, %%function\n.align 2\n%s:\n" % (k, k, k))
                        for x in body:
                            q = "add r0, sp" if x == "s" else r.choice(NARROW if x == "n" else WIDE)
                            o.write((q % r.randrange(1, 200) if "%" in q else q) + "\n")
                        o.write("bx lr\n")
                shutil.copy(s, h)
                script("fix-alignment.py", ["q.s"], d)
                seed = r.randrange(1 << 30)
                was, now = (values([x], d, names, __import__("random").Random(seed)) for x in (s, h))
                t.add(0.1, op="widen", before=listing(s, d), after=listing(h, d), same=was == now)
        return f
    sc = [("products " + v, products(v)) for v in ("delivered", "generated 16", "generated 32", "aligned 16", "aligned 32")]
    sc += [("alignment %d" % n, aligned(n)) for n in (16, 32)]
    c.rng("programs").shuffle(progs)
    # single functions first: they are the shortest programs of the model
    progs = progs[:c.pick(160, 1600)]
    step = max(1, len(progs) // 8)
    sc += [("programs %d" % k, programs(progs[k:k + step], k)) for k in range(0, len(progs), step)]
    c.run(sc)
    c.assumptions += ["straight-line functions that end in bx lr, as the tool expects them",
                      "machine code runs in the interpreter (compared with the host compiler in setup)"]


TABLE = {"S26": s26}
