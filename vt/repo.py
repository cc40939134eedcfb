"""Builds every host configuration of /repo's working tree as a shared object.

A configuration is a copy of an implementation directory with the parameter-set #define
lines set the way the repository documents it; which sources and flags belong to it is read
off the implementation's own Makefile (make -n)."""
import hashlib
import os
import re
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
SHIM = os.path.join(VERIF, "shim")
JOBS = os.cpu_count() or 4
LEVELS = {"LightSaber": 2, "Saber": 3, "FireSaber": 4}


class CheckError(Exception):
    """Something the check cannot judge (exit code 2)."""


def choose(text, macro, value):
    found = 0

    def line(m):
        nonlocal found
        on = m.group(2) == value
        found += on
        return ("" if on else "// ") + "#define " + macro + " " + m.group(2) + m.group(3)

    text = re.sub(r"^[ \t]*(//[ \t]*)?#define[ \t]+%s[ \t]+(\w+)(.*)$" % macro, line, text, flags=re.M)
    if found != 1:
        raise CheckError("expected one '#define %s %s' line, found %d" % (macro, value, found))
    return text


def switch(text, macro, on):
    text, n = re.subn(r"^[ \t]*(?://[ \t]*)?#define[ \t]+%s[ \t]*$" % macro,
                      ("" if on else "// ") + "#define " + macro, text, flags=re.M)
    if n != 1:
        raise CheckError("expected one '#define %s' line, found %d" % (macro, n))
    return text


def _configs():
    out = {}

    def add(ident, fam, src, param, edits):
        out[ident] = dict(id=ident, fam=fam, src=src, param=param, edits=edits)
    for name, k in LEVELS.items():
        add("ref/" + name, "ref", "Reference_Implementation_KEM", name,
            {"SABER_params.h": [(choose, "SABER_L", str(k))]})
        add("avx/" + name, "avx", "AVX_Implementation_KEM", name, {"api.h": [(choose, "SABER_TYPE", name)]})
        for nin in (False, True):
            alg = name + ("_90s" if nin else "")
            add("v-avx2/" + alg, "vavx", "Variants/uSaber-90s/avx2", alg,
                {"api.h": [(choose, "SABER_TYPE", name)], "SABER_params.h": [(switch, "Saber90s", nin)]})
            for uni in (False, True):
                alg2 = ("u" if uni else "") + alg
                add("v-ref/" + alg2, "vref", "Variants/uSaber-90s/ref", alg2,
                    {"SABER_params.h": [(choose, "SABER_L", str(k)), (switch, "uSaber", uni),
                                        (switch, "Saber90s", nin)]})
    add("x4/Saber", "x4", "Variants/SaberX4_avx2", "Saber", {})
    return out


CONFIGS = _configs()
SINGLE = [c for c in CONFIGS if not c.startswith("x4")]


def param_info(param):
    """Sizes by the scheme's definition (mirrors spec/Saber.tla)."""
    m4, m0 = param.startswith("M4_"), param.startswith("M0_")
    param = param[3:] if m4 or m0 else param
    uni = param.startswith("u")
    base = param.replace("_90s", "").lstrip("u")
    l, mu, et = {"LightSaber": (2, 10, 3), "Saber": (3, 8, 4), "FireSaber": (4, 6, 6)}[base]
    eq = 12 if uni else 13
    if uni:
        mu = 2
    pk = l * 320 + 32
    skv = l * (4 if m4 else eq) * 32
    hv = 0 if m0 else 1 << (eq - 11)
    return dict(hv=hv, h2=256 - (1 << (9 - et)) + hv, skw=4 if m4 else eq, l=l, mu=mu, et=et, eq=eq, ep=10, pk=pk, sk=skv + pk + 64, ct=l * 320 + et * 32, skv=skv,
                nineties=param.endswith("_90s"), uniform=uni)


SKIP = (".o", ".a", ".d", ".elf", ".bin", ".hex", ".map", ".lst", ".req", ".rsp", ".pyc")


def tree(src):
    root = os.path.join(REPO, src)
    files = {}
    for base, dirs, names in os.walk(root):
        dirs[:] = sorted(d for d in dirs if d != "obj")
        for n in sorted(names):
            p = os.path.join(base, n)
            if n.startswith("._") or n.endswith(SKIP) or not os.path.isfile(p):
                continue
            with open(p, "rb") as f:
                d = f.read()
            if d[:4] != b"\x7fELF":
                files[os.path.relpath(p, root)] = d
    return files


def edited(conf):
    files = tree(conf["src"])
    for name, edits in conf["edits"].items():
        if name not in files:
            raise CheckError(name + " is missing in " + conf["src"])
        t = files[name].decode("utf-8", "surrogateescape")
        for fn, *args in edits:
            t = fn(t, *args)
        files[name] = t.encode("utf-8", "surrogateescape")
    return files


def materialise(files, dest):
    for rel, data in files.items():
        p = os.path.join(dest, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)


def sh(cmd, cwd=None, ok=True, timeout=600):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    out = r.stdout.decode(errors="replace")
    if ok and r.returncode:
        raise CheckError("command failed: %s\n%s" % (" ".join(cmd)[:400], out[-3000:]))
    return r.returncode, out


def makefile_sources(d):
    """(sources, flags) of the test_kex program, from the implementation's own Makefile."""
    _, out = sh(["make", "-n", "-B", "test/test_kex"], cwd=d)
    srcs, flags = [], []
    text = out.replace("\\\n", " ")
    for line in text.splitlines():
        tok = line.split()
        if not tok or not re.search(r"(gcc|clang|cc)$", tok[0]):
            continue
        for t in tok[1:]:
            if t.endswith(".c") and not t.startswith("test/"):
                srcs.append(t)
            elif t.endswith(".o") and not t.startswith("test/"):
                c = t[:-2] + ".c"
                if os.path.exists(os.path.join(d, c)):
                    srcs.append(c)
            elif re.match(r"-(m|f|D|I|U)", t) and not t.startswith("-fwrapv"):
                flags.append(t)
    seen = []
    for s in srcs:
        if s not in seen:
            seen.append(s)
    if not seen:
        raise CheckError("no sources found through make -n in " + d)
    fl = []
    for f in flags:
        if f not in fl:
            fl.append(f)
    return seen, fl


def cpu_key():
    _, out = sh(["gcc", "-march=native", "-Q", "--help=target"])
    return hashlib.sha256(re.sub(r"/tmp/\S+", "", out).encode()).hexdigest()


_CPU = None


def shim_files():
    r = {}
    for n in sorted(os.listdir(SHIM)):
        with open(os.path.join(SHIM, n), "rb") as f:
            r[n] = f.read()
    return r


def nm_defined(path):
    _, out = sh(["nm", "--defined-only", "-g", path])
    return {l.split()[-1] for l in out.splitlines() if len(l.split()) >= 3}


def build(ident, variant="std"):
    """Returns the path of the shared object of one configuration.
    variant: std (project flags), port (-march=haswell, for valgrind), asan."""
    global _CPU
    conf = CONFIGS[ident]
    files = edited(conf)
    shims = shim_files()
    if _CPU is None:
        _CPU = cpu_key()
    h = hashlib.sha256()
    for k in sorted(files):
        h.update(k.encode() + b"\0" + hashlib.sha256(files[k]).digest())
    for k in sorted(shims):
        h.update(k.encode() + b"\0" + hashlib.sha256(shims[k]).digest())
    with open(os.path.abspath(__file__), "rb") as f:
        h.update(f.read())
    h.update((_CPU + variant).encode())
    d = os.path.join(CACHE, "host", ident.replace("/", "_") + "-" + variant)
    so = os.path.join(d, "lib.so")
    stamp = os.path.join(d, "stamp")
    if os.path.exists(stamp) and os.path.exists(so):
        with open(stamp) as f:
            if f.read() == h.hexdigest():
                return so
    shutil.rmtree(d, ignore_errors=True)
    src = os.path.join(d, "src")
    materialise(files, src)
    srcs, flags = makefile_sources(src)
    if variant == "port":
        flags = [f for f in flags if not f.startswith("-march")] + ["-march=haswell", "-maes", "-mpclmul"]
    opt = ["-O3" if variant != "asan" else "-O1", "-fPIC", "-fno-semantic-interposition", "-w", "-g1"] + flags
    if conf["fam"] in ("vavx", "x4"):
        opt.append("-fcommon")
    if variant == "asan":
        opt += ["-fsanitize=address", "-fno-omit-frame-pointer"]
    def comp(s):
        o = os.path.join(d, os.path.basename(s) if s.startswith("/") else s.replace("/", "_")) + ".o"
        sh(["gcc"] + opt + ["-I" + src, "-c", s, "-o", o], cwd=src)
        return o
    with ThreadPoolExecutor(4) as ex:
        objs = list(ex.map(comp, srcs + [os.path.join(SHIM, "shim.c")]))
    defined = set()
    for ob in objs:
        defined |= nm_defined(ob)
    # internal wrappers: only those whose target exists with exactly the expected type
    fam = conf["fam"]
    wf = os.path.join(SHIM, "int_%s.c" % fam)
    have = []
    if os.path.exists(wf):
        with open(wf) as f:
            names = re.findall(r"^#ifdef W_(\w+)\s*//\s*needs:(.*)$", f.read(), flags=re.M)
        names = [(n, needs) for n, needs in names if set(needs.split()) <= defined]
        strict = [x for x in opt if x not in ("-w", "-O3")] + ["-O1", "-Werror=incompatible-pointer-types",
                  "-Werror=implicit-function-declaration", "-Werror=int-conversion", "-I" + src]
        o = os.path.join(d, "w_all.o")
        rc, out = sh(["gcc"] + strict + ["-DW_" + n for n, _ in names] + ["-c", wf, "-o", o], cwd=src, ok=False)
        if rc == 0:
            objs.append(o)
            have = [n for n, _ in names]
        else:
            for name, _ in names:
                o = os.path.join(d, "w_%s.o" % name)
                rc, out = sh(["gcc"] + strict + ["-DW_" + name, "-c", wf, "-o", o], cwd=src, ok=False)
                if rc == 0:
                    objs.append(o)
                    have.append(name)
    wraps = [s for s in ("randombytes", "randombytes0", "randombytes1", "randombytes2", "randombytes3") if s in defined]
    sh(["gcc", "-shared", "-o", so] + objs + ["-Wl,--wrap=%s" % s for s in wraps[:1]] +
       ["-Wl,-Bsymbolic", "-lcrypto", "-lpthread"] + (["-fsanitize=address"] if variant == "asan" else []), cwd=src)
    with open(os.path.join(d, "have"), "w") as f:
        f.write(" ".join(have))
    with open(stamp, "w") as f:
        f.write(h.hexdigest())
    return so


def build_all(idents, variant="std"):
    idents = list(idents)
    with ThreadPoolExecutor(JOBS) as ex:
        return dict(zip(idents, ex.map(lambda i: build(i, variant), idents)))
