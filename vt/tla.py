"""Running TLC: trace validation and exhaustive / simulation runs of the models."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

from .repo import VERIF, CACHE, CheckError, JOBS

SPEC = os.path.join(VERIF, "spec")
JAVA = os.path.join(VERIF, "java")
JARS = ["/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"]


def classes():
    """Compiled module overrides (built by setup_cmd, or here)."""
    src = [os.path.join(JAVA, f) for f in sorted(os.listdir(JAVA)) if f.endswith(".java")]
    h = hashlib.sha256()
    for s in src:
        with open(s, "rb") as f:
            h.update(f.read())
    d = os.path.join(CACHE, "classes-" + h.hexdigest()[:16])
    if not os.path.exists(os.path.join(d, "ok")):
        tmp = tempfile.mkdtemp(dir=_cachedir())
        r = subprocess.run(["javac", "-nowarn", "-cp", JARS[0], "-d", tmp] + src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise CheckError("javac: " + r.stdout.decode(errors="replace"))
        open(os.path.join(tmp, "ok"), "w").close()
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return d


def _cachedir():
    os.makedirs(CACHE, exist_ok=True)
    return CACHE


class Result:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"^([\d,]+) states generated[^,]*, ([\d,]+) distinct states found", out, flags=re.M)
        if not m:
            m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        m = re.search(r"depth of the complete state graph search is ([\d,]+)", out)
        self.depth = int(m.group(1).replace(",", "")) if m else None
        self.ok = rc == 0 and "No error has been found" in out


def tlc(module, cfg=None, env=None, workers=1, timeout=800, extra=(), heap="3g", cwd=SPEC, fast=True):
    meta = tempfile.mkdtemp(prefix="tlc")
    cp = ([classes()] if fast else []) + JARS
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + heap, "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + meta]
    if fast:
        cmd.append("-Dtlc2.overrides.TLCOverrides=SaberFast:tlc2.overrides.TLCOverrides")
    cmd += ["-cp", ":".join(cp), "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
            "-config", cfg or module + ".cfg"] + list(extra) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out, rc = r.stdout.decode(errors="replace"), r.returncode
    except subprocess.TimeoutExpired as ex:
        raise CheckError("TLC timed out on %s after %d s" % (module, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return Result(out, rc)


def model(module, cfg=None, **kw):
    """An exhaustive run that must find no error: a failure is a defect of the specification itself
    (exit 2), not a violation by the code."""
    r = tlc(module, cfg, **kw)
    if not r.ok:
        tail = [x for x in r.out.splitlines() if not re.match(r"(Semantic|Linting|Parsing)", x)]
        raise CheckError("model %s (%s) failed:\n%s" % (module, cfg, "\n".join(tail[-40:])))
    return r


class Verdict:
    def __init__(self, accepted, index, result):
        self.accepted, self.index, self.result = accepted, index, result


def validate(events, module="Conform", cfg=None, timeout=800, keep=None):
    """Checks one trace (list of dicts). index: 0-based position of the first event that is no step."""
    fd, path = tempfile.mkstemp(suffix=".ndjson")
    with os.fdopen(fd, "w") as f:
        for e in events:
            f.write(json.dumps(e) + "\n")
    try:
        r = tlc(module, cfg, env={"TRACE": path}, timeout=timeout)
    finally:
        os.unlink(path)
    if r.ok and r.depth == len(events) + 1:
        return Verdict(True, None, r)
    if "TraceAccepted" in r.out and r.depth is not None and r.depth <= len(events):
        return Verdict(False, r.depth - 1, r)
    tail = [x[:600] for x in r.out.splitlines() if not re.match(r"(Semantic|Linting|Parsing)", x)]
    # evaluation error: which event? TLC reports it while extending the state l = n
    m = re.findall(r"^/\\ l = (\d+)", r.out, flags=re.M)
    raise CheckError("TLC could not judge the trace (near event %s):\n%s" % (m[-1] if m else "?", "\n".join(tail[-25:])))


def validate_all(traces, module="Conform", cfg=None, jobs=None, timeout=800):
    """traces: {name: events}. Returns {name: Verdict}."""
    traces = {k: v for k, v in traces.items() if v}
    classes()
    with ThreadPoolExecutor(jobs or JOBS) as ex:
        return dict(zip(traces, ex.map(lambda k: validate(traces[k], module, cfg, timeout), traces)))
