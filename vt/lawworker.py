"""Executes law computations on the scripts' probability utilities.
argv: directory of proba_util.py; stdin: JSON list of commands; stdout: JSON list of results."""
import copy
import json
import sys
from fractions import Fraction

sys.dont_write_bytecode = True


def scaled(v, den):
    """(v * den as an integer, is it one up to floating-point noise?)"""
    f = Fraction(v) * den
    n = round(f)
    return n, abs(f - n) * 10**7 <= max(1, abs(n)) and abs(n) < 1 << 31


def law(D, q, e):
    den = q * Fraction(2) ** e
    rows, ok = [], True
    for x, p in sorted(D.items()):
        n, good = scaled(p, den)
        ok = ok and good and int(x) == x and abs(x) < 1 << 30
        rows.append([int(x), n if good else 0])
    return rows, ok


def main():
    sys.path.insert(0, sys.argv[1])
    import proba_util as u
    reg, meta, out = {}, {}, []
    for c in json.load(sys.stdin):
        op = c["op"]
        if op == "fresh":
            reg, meta = {}, {}
            out.append(c)
            continue
        before = copy.deepcopy(reg)
        try:
            if op == "law":
                f = c["f"]
                a, b = c.get("s"), c.get("t")
                if f == "binom":
                    D, q, e = u.build_centered_binomial_law(c["k"]), 1, 2 * c["k"]
                elif f == "given":
                    q, e = c["q"], c["e"]
                    D = {x: float(Fraction(n, q) / Fraction(2) ** e) for x, n in c["w"]}
                elif f == "errlaw":
                    D, q, e = u.build_mod_switching_error_law(c["m"], c["n"]), c["m"], 0
                elif f in ("conv", "prod"):
                    D = (u.law_convolution if f == "conv" else u.law_product)(reg[a], reg[b])
                    q, e = meta[a][0] * meta[b][0], meta[a][1] + meta[b][1]
                elif f == "iter":
                    D = u.iter_law_convolution(reg[a], c["k"])
                    q, e = meta[a][0] ** c["k"], meta[a][1] * c["k"]
                elif f == "clean":
                    D = u.clean_dist(reg[a])
                    q, e = meta[a]
                elif f == "diff":
                    D = u.convolution_remove_dependency(reg[a], reg[a], 64, 64 // c["k"])
                    q0, e = meta[a]
                    cl = {}
                    for x, p in before[a].items():
                        cl[x % c["k"]] = cl.get(x % c["k"], 0) + Fraction(p) * q0 * 2 ** e
                    q = q0
                    for v in cl.values():
                        q *= round(v) or 1
                w, ok = law(D, q, e)
                ev = dict(c, q=q, e=e, w=w, exact=ok)
                if c["r"]:
                    kept = all(reg[k] == before[k] for k in reg)
                    reg[c["r"]], meta[c["r"]] = D, (q, e)
                    ev["kept"] = kept
                else:
                    ev["kept"] = reg == before
            elif op == "tail":
                q, e = meta[c["s"]]
                v, ok = scaled(u.tail_probability(reg[c["s"]], c["t2"] / 2. if c["t2"] % 2 or c.get("float") else c["t2"] // 2),
                               q * Fraction(2) ** e)
                ev = dict(c, v=v, exact=ok, kept=reg == before)
            elif op == "stat":
                q, e = meta[c["s"]]
                d = q * Fraction(2) ** e
                m, ok1 = scaled(u.distmean(reg[c["s"]]), d)
                v, ok2 = scaled(u.distvariance(reg[c["s"]]), d * d)
                ev = dict(c, mean=m, var=v, exact=ok1 and ok2, kept=reg == before)
            elif op == "table":
                rows, ok = [], True
                for r in c["args"]:
                    if c["f"] == "pdf":
                        v, good = scaled(u.centered_binomial_pdf(*r), Fraction(4) ** r[0])
                    else:
                        v = {"binomial": u.binomial, "switch": u.mod_switch, "centred": u.mod_centered}[c["f"]](*r)
                        good = int(v) == v and abs(v) < 1 << 31
                    rows.append(r + [int(v) if good else 0])
                    ok = ok and good
                ev = {"op": op, "f": c["f"], "rows": rows, "exact": ok}
        except Exception as x:
            ev = {"op": "crash", "i": "scripts", "what": "%s: %r" % (c.get("f", op), x)}
        out.append(ev)
        if ev["op"] == "crash":
            break
    json.dump(out, sys.stdout)


main()
