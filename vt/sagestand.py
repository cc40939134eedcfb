"""sagestand.py SCRIPT OUT PLAN ARGS...: runs a Sage script on a small stand-in for the parts of Sage it uses.
Polynomials, quotient rings, integer matrices and parallel calls (forked, finishing in any order) are exact;
lattice reduction is the environment's choice: some basis of the same lattice, as the plan wants it.
OUT gets the reductions of every parallel call, as JSON lines."""
import io
import json
import os
import pickle
import random
import re
import sys
import tokenize
import types

rnd = random.Random(os.urandom(8))


class Poly:
    """an integer polynomial, or (with mod) one modulo x^n + 1 given as the list of its lower coefficients, negated"""

    def __init__(self, ring, c):
        self.ring = ring
        n = ring.n
        if n is None:
            while c and c[-1] == 0:
                c.pop()
        else:
            while len(c) > n:
                t = c.pop()
                for i, a in enumerate(ring.low):
                    c[len(c) - n + i] += t * a
            c += [0] * (n - len(c))
        self.c = c

    def lift(self, o):
        return o if isinstance(o, Poly) and o.ring is self.ring else self.ring(o)

    def __add__(self, o):
        o = self.lift(o)
        a, b = self.c, o.c
        k = max(len(a), len(b))
        return Poly(self.ring, [(a[i] if i < len(a) else 0) + (b[i] if i < len(b) else 0) for i in range(k)])
    __radd__ = __add__

    def __neg__(self):
        return Poly(self.ring, [-x for x in self.c])

    def __sub__(self, o):
        return self + -self.lift(o)

    def __rsub__(self, o):
        return -self + o

    def __mul__(self, o):
        if isinstance(o, Vec):
            return NotImplemented
        o = self.lift(o)
        r = [0] * max(0, len(self.c) + len(o.c) - 1)
        for i, a in enumerate(self.c):
            for j, b in enumerate(o.c):
                r[i + j] += a * b
        return Poly(self.ring, r)
    __rmul__ = __mul__

    def __pow__(self, k):
        r = self.ring(1)
        for _ in range(k):
            r = r * self
        return r

    def __getitem__(self, i):
        return self.c[i] if not isinstance(i, int) or i < len(self.c) else 0

    def __iter__(self):
        return iter(self.c)

    def __len__(self):
        return len(self.c)

    def list(self):
        return list(self.c)
    coefficients = lift_list = list

    def __eq__(self, o):
        return self.c == self.lift(o).c

    def __lt__(self, o):
        return self.c < o.c

    def __hash__(self):
        return hash(tuple(self.c))

    def __reduce__(self):
        return (again, (self.ring.n, self.c))


def again(n, c):
    return Poly(RINGS[n], c)


RINGS = {}


class Ring:
    def __init__(self, n=None, low=None):
        self.n, self.low = n, low
        RINGS[n] = self

    def __call__(self, v):
        if isinstance(v, Poly):
            return Poly(self, list(v.c))
        if isinstance(v, (list, tuple)):
            return Poly(self, [ZZ(x) for x in v])
        return Poly(self, [ZZ(v)])

    def gen(self):
        return Poly(self, [0, 1])

    def quotient(self, f, *_):
        assert f.c[-1] == 1
        return Ring(len(f.c) - 1, [-a for a in f.c[:-1]])
    quo = quotient

    def __contains__(self, v):
        return isinstance(v, Poly) and v.ring is self or v in ZZ


class Integers:
    def __call__(self, v):
        if v != int(v):
            raise TypeError("no conversion of %r to an integer" % (v,))
        return int(v)

    def __getitem__(self, name):
        return Ring()

    def __contains__(self, v):
        return isinstance(v, int) or isinstance(v, float) and v == int(v)


ZZ = Integers()


class Vec(list):
    def __mul__(self, o):
        if isinstance(o, list):
            assert len(self) == len(o)
            return sum(a * b for a, b in zip(self, o))
        return Vec(a * o for a in self)
    __rmul__ = __mul__

    def __neg__(self):
        return Vec(-a for a in self)

    def __add__(self, o):
        return Vec(a + b for a, b in zip(self, o))

    def __sub__(self, o):
        return Vec(a - b for a, b in zip(self, o))

    def __getitem__(self, i):
        v = list.__getitem__(self, i)
        return Vec(v) if isinstance(i, slice) else v

    def dot_product(self, o):
        return self * o
    inner_product = dot_product

    def norm(self):
        return (self * self) ** 0.5

    def list(self):
        return list(self)


def det(m):
    a = [list(r) for r in m.rows()]
    n, sign, prev = len(a), 1, 1
    for k in range(n - 1):
        p = next((i for i in range(k, n) if a[i][k]), None)
        if p is None:
            return 0
        if p != k:
            a[p], a[k], sign = a[k], a[p], -sign
        for i in range(k + 1, n):
            for j in range(k + 1, n):
                a[i][j] = (a[i][j] * a[k][k] - a[i][k] * a[k][j]) // prev
        prev = a[k][k]
    return sign * a[-1][-1]


def lll(b):
    """LLL with exact rows and floating-point orthogonalisation"""
    b = [list(r) for r in b]
    n = len(b)
    mu = [[0.0] * n for _ in range(n)]
    star, nrm = [None] * n, [0.0] * n

    def gso(i):
        v = [float(x) for x in b[i]]
        for j in range(i):
            mu[i][j] = sum(x * y for x, y in zip(b[i], star[j])) / nrm[j]
            v = [x - mu[i][j] * y for x, y in zip(v, star[j])]
        star[i], nrm[i] = v, sum(x * x for x in v)
    gso(0)
    k, steps = 1, 0
    while k < n and steps < 20000:
        steps += 1
        gso(k)
        for j in range(k - 1, -1, -1):
            t = round(mu[k][j])
            if t:
                b[k] = [x - t * y for x, y in zip(b[k], b[j])]
                for i in range(j):
                    mu[k][i] -= t * mu[j][i]
                mu[k][j] -= t
        gso(k)
        if nrm[k] >= (0.99 - mu[k][k - 1] ** 2) * nrm[k - 1]:
            k += 1
        else:
            b[k], b[k - 1] = b[k - 1], b[k]
            gso(k - 1)
            k = max(1, k - 1)
    return b


class Env:
    """what the reductions do, and how long they take"""
    plan, chain, calls, records, clock, r, loaded = [], [], 0, [], 0, random.Random(1), None

    @classmethod
    def load(cls, path):
        path = path.decode() if isinstance(path, bytes) else path
        OUT.write(json.dumps({"loaded": path}) + "\n")
        cls.loaded = [path]
        return cls.loaded

    @classmethod
    def reduce(cls, m, how, strategies=None):
        fresh = how == "LLL"
        if fresh:
            cls.chain = cls.plan[cls.calls % len(cls.plan)] if cls.plan else []
            cls.calls += 1
            cls.step = 0
        what = cls.chain[cls.step] if cls.step < len(cls.chain) else ["as", 0, 0, 1]
        cls.step += 1
        kind, pos, sign, dur = what
        b = [list(r) for r in m.rows()]
        if kind != "as":
            b = lll(b)
            b.sort(key=lambda v: sum(x * x for x in v))
            s = b.pop(0)
            if kind == "hidden":       # its shortest vector only in sums with others
                s = [x + y for x, y in zip(s, b[0])]
                b = [[x + y for x, y in zip(v, s)] if i == 0 else v for i, v in enumerate(b)]
            if sign:
                s = [-x for x in s]
            cls.r.shuffle(b)
            b.insert(min(pos, len(b)), s)
        cls.clock += dur
        cls.records.append({"how": how, "given": [list(map(int, r)) for r in m.rows()], "out": b, "dur": dur,
                            "strategies": strategies is not None and strategies is cls.loaded})
        return matrix(b)


class Matrix:
    def __init__(self, rows):
        self.r = [Vec(int(x) for x in r) for r in rows]

    def rows(self):
        return list(self.r)

    def nrows(self):
        return len(self.r)

    def ncols(self):
        return len(self.r[0])

    def __getitem__(self, i):
        return self.r[i]

    def __iter__(self):
        return iter(self.r)

    def row(self, i):
        return self.r[i]

    def det(self):
        return det(self)
    determinant = det

    def LLL(self, **kw):
        return Env.reduce(self, "LLL")

    def BKZ(self, block_size=10, **kw):
        return Env.reduce(self, block_size, kw.get("strategies"))


def matrix(*a):
    return Matrix(a[-1])


def vector(*a):
    return Vec(a[-1])


def parallel(*a, **kw):
    def deco(f):
        def g(inputs):
            calls = [x if isinstance(x, tuple) else (x,) for x in inputs]
            order = list(range(len(calls)))
            Env.r.shuffle(order)
            for n in order:
                p, q = os.pipe()
                if os.fork() == 0:
                    try:
                        Env.records, Env.calls, Env.clock = [], n * 3, Env.r.randrange(100)
                        try:
                            out = ("ok", f(*calls[n]))
                        except BaseException as x:
                            out = ("failed", "%s: %s" % (type(x).__name__, x))
                        with os.fdopen(q, "wb") as h:
                            pickle.dump((out, Env.records), h)
                    finally:
                        os._exit(0)
                os.close(q)
                with os.fdopen(p, "rb") as h:
                    (st, v), rec = pickle.load(h)
                os.wait()
                OUT.write(json.dumps({"call": n, "status": st, "what": v if st != "ok" else "", "reductions": rec}) + "\n")
                yield ((calls[n], {}), v if st == "ok" else "NO DATA")
        return g
    if len(a) == 1 and callable(a[0]) and not kw:
        return parallel()(a[0])
    return deco


def preparse(src):
    lines = []
    for l in src.split("\n"):
        m = re.match(r"^(\s*)(\w+)\.<(\w+)>\s*=\s*(.*)$", l)
        if m:
            rhs = m.group(4).split("#")[0].replace("[]", "['%s']" % m.group(3))
            l = "%s%s = %s; %s = %s.gen()" % (m.group(1), m.group(2), rhs, m.group(3), m.group(2))
        lines.append(l)
    src = "\n".join(lines)
    out = []
    for t in tokenize.generate_tokens(io.StringIO(src).readline):
        if t.type == tokenize.OP and t.string in ("^", "^="):
            out.append((t.start, t.string))
    ls = src.split("\n")
    for (row, col), s in reversed(out):
        l = ls[row - 1]
        ls[row - 1] = l[:col] + s.replace("^", "**") + l[col + 1 + len(s) - 1:]
    return "\n".join(ls)


class Timer:
    def start(self):
        self.at = Env.clock
        return self

    def stop(self):
        self.cputime = self.walltime = (Env.clock - self.at) / 64
        return self


def fake(name, **kw):
    parts = name.split(".")
    for k in range(1, len(parts) + 1):
        n = ".".join(parts[:k])
        if n not in sys.modules:
            sys.modules[n] = types.ModuleType(n)
            sys.modules[n].__path__ = []
    for k, v in kw.items():
        setattr(sys.modules[name], k, v)


if __name__ == "__main__":
    script, out, plan = sys.argv[1:4]
    OUT = open(out, "w", buffering=1)
    cfg = json.loads(plan)
    Env.plan, Env.r = cfg["plan"], random.Random(cfg["seed"])
    kind = (lambda x: x.encode()) if cfg.get("bytes") else (lambda x: x)     # fpylll has had both
    bkz = types.SimpleNamespace(DEFAULT_STRATEGY=kind(cfg.get("strategy", "default.json")), DEFAULT_STRATEGY_PATH=kind("/nowhere"))
    fake("fpylll", BKZ=bkz, load_strategies_json=Env.load)
    fake("sage.doctest.util", Timer=Timer)
    sys.argv = [script] + sys.argv[4:]
    ns = {"__name__": "__main__", "sys": sys, "os": os, "ZZ": ZZ, "matrix": matrix, "Matrix": matrix, "vector": vector, "det": det, "Integer": ZZ, "parallel": parallel,
          "set_random_seed": lambda s=None: rnd.seed(os.urandom(8) if s is None else int(s)), "randrange": rnd.randrange, "randint": rnd.randint, "random": rnd.random,
          "shuffle": rnd.shuffle, "sample": rnd.sample, "choice": rnd.choice, "cpu_count": lambda: 2,
          "proof": types.SimpleNamespace(all=lambda *a: None), "PolynomialRing": lambda *a, **k: Ring(), "QuotientRing": lambda r, f, *a: r.quotient(f), "prod": lambda v: __import__("functools").reduce(lambda x, y: x * y, v, 1)}
    with open(script) as f:
        code = compile(preparse(f.read()), script, "exec")
    exec(code, ns)
