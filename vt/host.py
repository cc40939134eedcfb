"""Client side of worker.py: one Impl object per running instance of a configuration."""
import json
import os
import re
import subprocess
import sys
import threading

from . import repo


class Crash(Exception):
    def __init__(self, what):
        self.what = what


class Impl:
    def __init__(self, ident, so=None, timeout=120):
        self.ident = ident
        self.conf = repo.CONFIGS[ident]
        self.param = self.conf["param"]
        self.x4 = self.conf["fam"] == "x4"
        self.so = so or repo.build(ident)
        self.timeout = timeout
        with open(os.path.join(os.path.dirname(self.so), "have")) as f:
            self.wrappers = set(f.read().split())
        self.p = None
        self.start()
        self.info = self.ask(op="info")
        d = repo.param_info(self.param)
        k = 4 if self.x4 else 1
        self.dim = d
        want = {"pk": k * d["pk"], "sk": k * d["sk"], "ct": k * d["ct"], "ss": k * 32}
        self.sizes_ok = all(self.info[x] == want[x] for x in want)
        self.size = want

    def start(self):
        env = dict(os.environ)
        if os.path.basename(os.path.dirname(self.so)).endswith("-asan"):
            lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE).stdout.decode().strip()
            env.update(LD_PRELOAD=lib, ASAN_OPTIONS="detect_leaks=0:verify_asan_link_order=0:exitcode=99:allocator_may_return_null=1")
        self.p = subprocess.Popen([sys.executable, os.path.join(repo.VERIF, "vt", "worker.py"), self.so],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)

    def restart(self):
        self.close()
        self.start()

    def close(self):
        if self.p:
            try:
                self.p.kill()
            except OSError:
                pass
            self.p.wait()
            for f in (self.p.stdin, self.p.stdout, self.p.stderr):
                f.close()
            self.p = None

    def ask(self, **q):
        timer = threading.Timer(self.timeout, self.p.kill)
        timer.start()
        try:
            try:
                self.p.stdin.write(json.dumps(q).encode() + b"\n")
                self.p.stdin.flush()
                line = self.p.stdout.readline()
            except BrokenPipeError:
                line = b""
        finally:
            timer.cancel()
        if not line:
            self.p.wait()
            rc = self.p.returncode
            err = self.p.stderr.read().decode(errors="replace")
            m = re.search(r"ERROR: AddressSanitizer: .*|(?<=#0 ).*", err)
            err = (m.group(0) + " " + " ".join(re.findall(r"#[0-3] 0x\w+ in (\w+)", err)[:4])) if m else err[-400:]
            raise Crash("process died (status %d) in %s %s" % (rc, q.get("fn", q["op"]), err))
        r = json.loads(line)
        if "error" in r:
            raise repo.CheckError("worker of %s: %s" % (self.ident, r["error"]))
        return r

    def call(self, fn, args, **kw):
        return self.ask(op="call", fn=fn, args=args, **kw)

    def has(self, *names):
        return self.ask(op="has", names=list(names))["has"]

    # ---- public KEM interface; each returns the raw answer plus named fields
    def init(self, seed, pers=None):
        return self.call("randombytes_init", [{"in": seed.hex()}, {"in": pers.hex()} if pers else {"null": 1},
                                              {"i": 256}], ret="void")

    def keygen(self, feed=None, **kw):
        r = self.call("crypto_kem_keypair", [{"out": self.size["pk"]}, {"out": self.size["sk"]}],
                      feed=feed.hex() if feed is not None else None, **kw)
        r["pk"], r["sk"] = r["outs"]
        return r

    def enc(self, pk, feed=None, **kw):
        r = self.call("crypto_kem_enc", [{"out": self.size["ct"]}, {"out": self.size["ss"]}, {"in": pk}],
                      feed=feed.hex() if feed is not None else None, **kw)
        r["ct"], r["k"] = r["outs"]
        return r

    def dec(self, ct, sk, **kw):
        r = self.call("crypto_kem_dec", [{"out": self.size["ss"]}, {"in": ct}, {"in": sk}], **kw)
        r["k"] = r["outs"][0]
        return r
