"""S27: the Cortex-M0 board's cycle counter and serial port, in the interpreter with time."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

from .. import arm, host, repo
from ..core import CheckError, Stop

WRAP = 1 << 24
REGISTERS = {0x4800000c: "KSCFG", 0x48000010: "FDR", 0x48000014: "BRG", 0x48000034: "SCTR", 0x48000038: "TCSR", 0x4800003c: "PCR",
             0x48000040: "CCR", 0x48000108: "TBCTR", 0x4800010c: "RBCTR", 0x4800001c: "DX0CR", 0x48000028: "DX3CR",
             0x40040210: "P2_IOCR0", 0x40040260: "P2_PDISC", 0x40010024: "PASSWD", 0x40010310: "CGATCLR0"}


def limbs(v):
    return [v & 0xFFFF, v >> 16 & 0xFFFF]


class Board:
    """a machine that records into a trace"""

    def __init__(self, t, lag=0, drain=arm.CHARACTER):
        self.t, self.s = t, arm.Timed(lag, drain)
        self.seen = 0

    def call(self, fn, args=()):
        return self.s.call(fn, list(args))

    def measure(self, n):
        self.call("start_tick_count")
        t = self.s.wait(n)
        r = self.call("end_tick_count")["rc"]
        self.t.add(0.02, op="measure", t=limbs(t), r=limbs(r))

    def new(self):
        b = self.s.sent()
        n, self.seen = b[self.seen:], len(b)
        return n

    def uart(self, r, received=()):
        before = {k: r.randrange(1 << 32) for k in REGISTERS}
        for k, v in before.items():
            self.s.lib.arm_setio(self.s.m, k, v)
        self.s.receive(received)
        self.s.lib.arm_logging(self.s.m, 1)
        self.call("UART_Init")
        l, m = self.s.lib, self.s.m
        w = [(l.arm_log(m, i, 0), l.arm_log(m, i, 1)) for i in range(l.arm_nlog(m)) if l.arm_log(m, i, 2)]
        l.arm_logging(m, 0)
        self.t.add(0.1, op="uart", before={n: limbs(before[a]) for a, n in REGISTERS.items()},
                   writes=[[REGISTERS[a], limbs(v)] for a, v in w if a in REGISTERS], given=list(received), new=self.new(), lost=self.s.lost())

    def send(self, f, label=b"", v=0):
        if f == "word":
            v &= 0xFFFF
        args = {"trace": [{"in": label.hex()}, {"i": len(label)}, {"i": v}], "addr": [{"i": v}], "word": [{"i": v}],
                "write": [{"in": label.hex()}, {"i": len(label)}]}[f]
        self.call({"trace": "UART_SendTrace", "addr": "UART_SendAddr", "word": "UART_SendWord", "write": "UART_Write"}[f], args)
        self.t.add(0.03, op="call", f=f, label=list(label), v=limbs(v) if f != "word" else [v], new=self.new(), lost=self.s.lost())

    def read(self, data, room, off):
        self.s.receive(data)
        q = self.s.call("UART_Read", [{"inout": (b"\xa5" * room).hex()}], off=off)
        b = list(bytes.fromhex(q["outs"][0]))
        self.t.add(0.03, op="read", given=list(data), n=q["rc"] & 0xFF, got=b[:len(data)], rest=b[len(data):] == [0xA5] * (room - len(data)))


def on(c, name, body, *needs, **kw):
    def run(t):
        try:
            b = Board(t, **kw)
            try:
                body(b)
            finally:
                b.s.close()
        except host.Crash as e:
            t.add(op="crash", i=name, what=e.what)
            raise Stop()
    return (name, run)


def values(r, n):
    out = [0, 0xFFFFFFFF, 0x9ABCDEF0, 0x0000000A, 0x90000000, 0x01234567, 0x89ABCDEF, 9, 10, 15, 16]
    return out + [r.randrange(1 << 32) >> r.choice([0, 0, 8, 16, 24]) for _ in range(n)]


def evaluate(lines):
    """the evaluation script in a copy of the board's directory; what it did, and the main.c of every build"""
    d = tempfile.mkdtemp(prefix="vt-eval-")
    try:
        repo.materialise(repo.tree(arm.M0DIR), d)
        try:
            r = subprocess.run([sys.executable, os.path.join(repo.VERIF, "vt", "evalworker.py"), d], input=json.dumps({"lines": lines}),
                               capture_output=True, text=True, timeout=120)
            return json.loads(r.stdout)
        except subprocess.TimeoutExpired:
            raise host.Crash("the evaluation script hangs")
        except ValueError:
            raise host.Crash("the evaluation script fails: " + r.stderr[-300:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def steps(ev, kinds):
    """the script's events in the words of the specification"""
    out, printed, baud = [], [], 0
    for e in ev["events"]:
        if e["e"] == "open":
            out.append("open")
            baud = e["baud"]
        elif e["e"] == "run":
            if re.search(r"\bmake\b(?!\s+(clean|flash))", e["cmd"]):
                out.append("make " + kinds.get(e["main"], "other"))
            if re.search(r"\bmake\s+flash\b", e["cmd"]):
                out.append("flash")
        elif e["e"] == "print" and "=" in e["text"]:
            out.append("print")
            a, b = e["text"].lower().rsplit("=", 1)
            name = [n for n in ("key", "enc", "dec", "total") if n in a]
            n = re.match(r"\s*(\d+)\s*(.*)$", b)
            printed.append([name[0] if name else a, "bytes" if n and "byte" in n.group(2) else "cycles" if n and "cycle" in n.group(2) else b,
                            limbs(int(n.group(1))) if n and int(n.group(1)) < 1 << 32 else []])
        elif e["e"] in ("read", "starved", "error"):
            out.append(e["e"])
    return out, printed, baud


def benchmarks(c, t):
    """the evaluation script with the board: the programs it selects, what they send, what it prints"""
    first = evaluate(["label 0x%08X\r\n" % k for k in range(20)])
    mains = []
    for e in first["events"]:
        if e["e"] == "run" and e["main"] not in mains and re.search(r"\bmake\b(?!\s+(clean|flash))", e["cmd"]):
            mains.append(e["main"])
    kinds, sent = {}, []
    for n, text in enumerate(mains[:2]):
        for k in range(c.pick(2, 5)):
            r = c.rng("benchmark", n, k)
            try:
                q = arm.board([r.randrange(1 << 16) for _ in range(3000)], r.randrange(3), drain=arm.CHARACTER, lag=k, slow=1 + k,
                              edits={"src/main.c": text.encode("latin-1")})
            except CheckError as e:
                raise host.Crash("the program the script selects does not build or run: " + str(e)[-300:])
            hits = dict(q["hits"])
            kinds[text] = "memory" if len(q["stack"]) > 3 else "speed"
            if kinds[text] == "memory":
                t.add(1, op="memory", stack=q["stack"], new=q["sent"], lost=q["lost"])
            else:
                t.add(1, op="program", times=[limbs(hits[-i] - hits[i]) for i in (1, 2, 3) if i in hits and -i in hits], new=q["sent"], lost=q["lost"], slow=1 + k)
        sent.append(q["sent"])
    sent = [x for s in sent for x in s]
    second = evaluate([l + "\n" for l in bytes(sent).decode("latin-1").split("\n")[:-1]])
    st, printed, baud = steps(second, kinds)
    t.add(1, op="script", steps=st, printed=printed, baud=baud, sent=sent)


def s27(c):
    arm.build(arm.M0, "board")
    rounds = c.behaviours("SysTick", workers=4)
    for k in range(1, 5):
        c.mutant("SysTick", "SysTickMutant%d.cfg" % k)
    reports = c.behaviours("Uart", workers=4)
    for k in range(1, 4):
        c.mutant("Uart", "UartMutant%d.cfg" % k)
    c.model("StackMeter")
    for k in range(1, 4):
        c.mutant("StackMeter", "StackMeterMutant%d.cfg" % k)
    c.rng("r").shuffle(rounds)
    c.rng("u").shuffle(reports)
    sc = []
    for lag in (0, 1, 2, 4):
        def wrap(b, lag=lag):
            b.call("setup_tick_count")
            for k in (0, 1, 2) if lag < 2 or not c.quick else (1,):
                for d in range(-70, 30):
                    b.measure(max(0, k * WRAP + d))
        sc.append(on(c, "wraps at every point of the driver, exceptions %d steps late" % lag, wrap, lag=lag))
    def long(b):
        r = c.rng("long")
        b.call("setup_tick_count")
        for k in [0, 1, 2, 7, 100, 254, 255] + [r.randrange(256) for _ in range(c.pick(10, 60))]:
            b.measure(k * WRAP + r.randrange(1 << 24))
            b.s.wait(r.choice([0, 1, 1000, WRAP, r.randrange(1 << 26)]))
            if r.randrange(4) == 0:
                if r.randrange(2):      # while the counter runs
                    b.call("start_tick_count")
                    b.s.wait(r.choice([5, 1000, WRAP - 3, 3 * WRAP]))
                b.call("setup_tick_count")
    sc.append(on(c, "long durations", long))
    # histories of the model; its period stands for 2^24 cycles
    for j in range(c.pick(4, 16)):
        def hist(b, j=j):
            r = c.rng("hist", j)
            b.call("setup_tick_count")
            for h in rounds[j::c.pick(4, 16)]:
                for k, d in h:
                    b.measure(max(0, k * WRAP + (d if d < 2 else d - 5) * r.choice([1, 2, 5, 9, 1000]) - r.choice([0, 8, 9, 10, 11, 12, 13, 14])))
                    if r.randrange(3) == 0:
                        b.s.wait(r.randrange(100))
        sc.append(on(c, "rounds %d" % j, hist, lag=j % 4))
    # reports
    for j in range(c.pick(6, 24)):
        def rep(b, j=j):
            r = c.rng("reports", j)
            b.uart(r)
            vs = values(r, 40)
            for h in reports[j::c.pick(40, 48)]:
                for k, waiting in h:
                    # the queue holds about so many characters of the last report (of 32, the model's five)
                    n = {0: 0, 1: r.randrange(1, 8), 3: r.choice([20, 20, 19, 13])}[k]
                    b.s.wait(max(0, (32 - min(32, 7 * waiting)) * b.s.drain - r.randrange(2) * b.s.drain // 2))
                    lab = bytes(r.choice(b"abcxyz =:019\0\xff") for _ in range(n))
                    b.send(r.choice(["trace", "trace", "trace", "word"]), lab, r.choice(vs)) if r.randrange(4) else \
                        b.send("word", b"", r.choice(vs) & 0xFFFF)
            b.s.wait(40 * b.s.drain)
        sc.append(on(c, "reports %d" % j, rep, drain=[arm.CHARACTER, 1, 50, 5000, 200, 2 * arm.CHARACTER][j % 6]))

    def pieces(b):
        r = c.rng("pieces")
        b.uart(r)
        for k in range(c.pick(33, 33)):
            b.send("write", r.randbytes(k))
            b.s.wait(33 * b.s.drain)
        for v in values(r, c.pick(40, 400)):
            b.send("addr", v=v)
            b.s.wait(13 * b.s.drain)
            b.send("word", v=v & 0xFFFF)
            b.send("trace", b"x" * (v % 21), v)
            b.s.wait(33 * b.s.drain)
        for v in range(0, 65536, c.pick(997, 61)):
            b.send("word", v=v)
        for k in list(range(34)) + [63, 64, 100]:
            b.read(r.randbytes(k), 128, k % 4)
    sc.append(on(c, "pieces", pieces))

    def ports(b):
        r = c.rng("ports")
        for k in (0, 1, 2, 16, 31, 32, 0, 5):
            b.uart(r, r.randbytes(k))
            b.s.wait(40 * b.s.drain)
            b.send("trace", b"after", 0x12345678)
            b.s.wait(40 * b.s.drain)
    sc.append(on(c, "initialisation", ports))

    def program(t):
        for k in range(c.pick(3, 8)):
            r = c.rng("program", k)
            slow = [1, 3, 8, 50][k % 4]
            try:
                q = arm.board([r.randrange(1 << 16) for _ in range(1000)], k, drain=arm.CHARACTER, lag=k, slow=slow)
            except host.Crash as e:
                t.add(op="crash", i="board", what=e.what)
                raise Stop()
            hits = dict(q["hits"])
            t.add(1, op="program", times=[limbs(hits[-i] - hits[i]) for i in (1, 2, 3) if i in hits and -i in hits], new=q["sent"], lost=q["lost"], slow=slow)
    sc.append(("the board's program", program))

    def script(t):
        try:
            benchmarks(c, t)
        except host.Crash as e:
            t.add(op="crash", i="benchmarks", what=e.what)
            raise Stop()
    sc.append(("the evaluation script and its programs", script))
    c.run(sc, module="BoardConform")
    c.assumptions.append("the timer, the exception and the serial port behave as the models SysTick and Uart; instructions take about the Cortex-M0's cycles")


TABLE = {"S27": s27}
