------------------------- MODULE SanityConform --------------------------
(* Runs of the sanity check: the instances it reports are noisy products  *)
(* in Z[x]/(x^n+1) modulo q, the bases it gives to lattice reduction are  *)
(* bases of the lattices of these instances, and its report says exactly  *)
(* what the reductions have shown (Sanity).                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, seen      \* next line; instances of the last run with these arguments
Holds(b) == IF b THEN TRUE ELSE FALSE
RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
\* coefficient i (from 0) of a product modulo x^n + 1 and q
Coef(a, b, n, q, i) == Sum([j \in 1 .. n |-> IF j - 1 <= i THEN (a[j] * b[i - j + 2]) % q ELSE -((a[j] * b[n + i - j + 2]) % q)], n) % q
Within(v, n, lo, hi) == Len(v) = n /\ \A i \in 1 .. n : v[i] >= lo /\ v[i] <= hi
Instance(e, x) ==
    /\ Within(x.a1, e.n, -2, 2) /\ Within(x.a2, e.n, -2, 2) /\ Within(x.e1, e.n, -4, 3) /\ Within(x.e2, e.n, -4, 3)
    /\ \A f \in {"G11", "G12", "G21", "G22", "A1", "A2"} : Within(x[f], e.n, 0, e.q - 1)
    /\ \A i \in 0 .. e.n - 1 :
         /\ x.A1[i + 1] = (Coef(x.a1, x.G11, e.n, e.q, i) + Coef(x.a2, x.G21, e.n, e.q, i) + x.e1[i + 1]) % e.q
         /\ x.A2[i + 1] = (Coef(x.a1, x.G12, e.n, e.q, i) + Coef(x.a2, x.G22, e.n, e.q, i) + x.e2[i + 1]) % e.q
         /\ x.rounding /\ e.q % 8 = 0 => x.A1[i + 1] % 8 = 0 /\ x.A2[i + 1] % 8 = 0
Core(x) == << x.a1, x.a2, x.G11, x.G12, x.G21, x.G22 >>
Range(s) == {s[i] : i \in 1 .. Len(s)}

\* ---- lattices: rows (w, z, a1, a2) with w_j the coefficient S_j of z A - a1 G - a2 G' modulo q
Target(x, n, q, row, m, p) ==
    LET z == row[m + 1]
        a1 == [i \in 1 .. n |-> row[m + 1 + i]]
        a2 == [i \in 1 .. n |-> row[m + 1 + n + i]]
        i == p % n
    IN IF p < n THEN (z * x.A1[i + 1] - Coef(a1, x.G11, n, q, i) - Coef(a2, x.G21, n, q, i)) % q
       ELSE (z * x.A2[i + 1] - Coef(a1, x.G12, n, q, i) - Coef(a2, x.G22, n, q, i)) % q
\* the least choice of increasing coefficients for columns 1 .. j (-1 none yet, 2n: impossible)
RECURSIVE Places(_, _, _, _, _)
Places(x, n, q, rows, j) ==
    IF j = 0 THEN -1
    ELSE LET before == Places(x, n, q, rows, j - 1)
             m == Len(rows[1]) - 1 - 2 * n
             fits == {p \in before + 1 .. 2 * n - 1 : \A r \in 1 .. Len(rows) : Target(x, n, q, rows[r], m, p) = rows[r][j] % q}
         IN IF fits = {} THEN 2 * n ELSE CHOOSE p \in fits : \A o \in fits : p <= o
\* determinant modulo a prime
RECURSIVE PowMod(_, _, _)
PowMod(b, k, p) == IF k = 0 THEN 1 ELSE (b * PowMod(b, k - 1, p)) % p
RECURSIVE Inv(_, _, _, _, _)      \* extended Euclid
Inv(a, b, s, t, p) == IF b = 0 THEN s % p ELSE Inv(b, a % b, t, s - (a \div b) * t, p)
RECURSIVE DetMod(_, _, _, _)
DetMod(m, k, p, acc) ==
    IF k > Len(m) THEN acc
    ELSE LET piv == {i \in k .. Len(m) : m[i][k] # 0}
         IN IF piv = {} THEN 0
            ELSE LET i == CHOOSE i \in piv : TRUE
                     sw == [r \in 1 .. Len(m) |-> IF r = k THEN m[i] ELSE IF r = i THEN m[k] ELSE m[r]]
                     inv == Inv(sw[k][k], p, 1, 0, p)
                     f == TLCEval([r \in 1 .. Len(m) |-> IF r > k THEN (sw[r][k] * inv) % p ELSE 0])
                     next == TLCEval([r \in 1 .. Len(m) |-> IF r <= k \/ f[r] = 0 THEN sw[r]
                                       ELSE [c \in 1 .. Len(m) |-> IF c < k THEN 0 ELSE (sw[r][c] - f[r] * sw[k][c]) % p]])
                 IN DetMod(next, k + 1, p, (acc * sw[k][k] * (IF i = k THEN 1 ELSE -1)) % p)
Volume(rows, q, m) ==
    \E sign \in {1, -1} : \A p \in {32749, 32719, 29989} :
        DetMod(TLCEval([r \in 1 .. Len(rows) |-> [c \in 1 .. Len(rows) |-> rows[r][c] % p]]), 1, p, 1) = (sign * PowMod(q % p, m, p)) % p
Basis(x, e, rows, m) ==
    /\ Len(rows) = m + 1 + 2 * e.n /\ \A r \in 1 .. Len(rows) : Len(rows[r]) = Len(rows)
    /\ Places(x, e.n, e.q, rows, m) < 2 * e.n
    /\ Volume(rows, e.q, m)

\* ---- what a reduced basis shows
Norm(v) == Sum([i \in 1 .. Len(v) |-> v[i] * v[i]], Len(v))
Shows(x, n, m, v) ==
    LET s == IF v[m + 1] < 0 THEN -1 ELSE 1
    IN \A i \in 1 .. n : s * v[m + 1 + i] = x.a1[i] /\ s * v[m + 1 + n + i] = x.a2[i]
Least(rows) == LET norms == TLCEval([r \in 1 .. Len(rows) |-> Norm(rows[r])])
               IN {r \in 1 .. Len(rows) : \A o \in 1 .. Len(rows) : norms[r] <= norms[o]}
MayShow(x, n, m, rows) == \E r \in Least(rows) : Shows(x, n, m, rows[r])
MayHide(x, n, m, rows) == \E r \in Least(rows) : ~Shows(x, n, m, rows[r])
Betas == 10
Chain(x, e, g, c) ==
    LET n == e.n
        m == g.m
        last == Len(c)
        spent(b) == Sum([i \in 1 .. last |-> c[i].dur], IF b < last THEN b ELSE last)
    IN /\ Basis(x, e, c[1].given, m)
       /\ last <= Betas
       /\ \A b \in 1 .. last : /\ c[b].how = IF b = 1 THEN 0 ELSE 2 * b
                               /\ b > 1 => c[b].given = c[b - 1].out /\ c[b].strategies
                               /\ b < last => MayHide(x, n, m, c[b].out)
       /\ Len(g.lines) = Betas
       /\ \A b \in 1 .. Betas : /\ g.lines[b].beta = 2 * b /\ g.lines[b].d = m + 1 + 2 * n
                                /\ g.lines[b].time = spent(b)
                                /\ b < last => ~g.lines[b].success
                                /\ b >= last => g.lines[b].success = g.lines[Betas].success
       /\ IF g.lines[Betas].success THEN MayShow(x, n, m, c[last].out) ELSE last = Betas /\ MayHide(x, n, m, c[last].out)

Run(e) ==
    /\ Len(e.inst) = 2 * e.num
    /\ \A i \in 1 .. Len(e.inst) : Instance(e, e.inst[i])
    \* both kinds of noise on the same secrets and matrices
    /\ Cardinality({i \in 1 .. Len(e.inst) : e.inst[i].rounding}) = e.num
    /\ \A c \in {Core(e.inst[i]) : i \in 1 .. Len(e.inst)} :
         Cardinality({i \in 1 .. Len(e.inst) : Core(e.inst[i]) = c /\ e.inst[i].rounding}) = Cardinality({i \in 1 .. Len(e.inst) : Core(e.inst[i]) = c /\ ~e.inst[i].rounding})
    \* every number of samples for every instance, each with reductions of its own
    /\ {<< g.inst, g.m >> : g \in Range(e.groups)} = (1 .. Len(e.inst)) \X {m \in e.n .. 2 * e.n : (m - e.n) % 2 = 0}
    /\ Cardinality({<< g.inst, g.m >> : g \in Range(e.groups)}) = Len(e.groups)
    /\ Len(e.chains) = Len(e.groups)
    /\ \E used \in {TLCEval([k \in 1 .. Len(e.groups) |-> {c \in 1 .. Len(e.chains) :
                       Len(e.chains[c][1].given) = e.groups[k].m + 1 + 2 * e.n /\ Chain(e.inst[e.groups[k].inst], e, e.groups[k], e.chains[c])}])} :
         /\ \A k \in DOMAIN used : used[k] # {}
         /\ UNION {used[k] : k \in DOMAIN used} = 1 .. Len(e.chains)
         \* samples are taken anywhere (many lattices, places that are clear)
         /\ e.n >= 4 /\ e.q >= 1024 /\ e.num >= 2 =>
              \E k \in DOMAIN used : \E c \in used[k] :
                 e.groups[k].m < 2 * e.n /\ Places(e.inst[e.groups[k].inst], e.n, e.q, e.chains[c][1].given, e.groups[k].m) # e.groups[k].m - 1
    \* the summary counts the successes
    /\ Len(e.stats) = Cardinality({<< s.m, s.beta, s.rounding >> : s \in Range(e.stats)})
    /\ {<< s.m, s.beta, s.rounding >> : s \in Range(e.stats)} = {m \in e.n .. 2 * e.n : (m - e.n) % 2 = 0} \X {2 * b : b \in 1 .. Betas} \X BOOLEAN
    /\ \A s \in Range(e.stats) : /\ s.d = s.m + 1 + 2 * e.n /\ s.num = e.num
                                 /\ s.hits = Cardinality({k \in 1 .. Len(e.groups) : e.groups[k].m = s.m /\ e.inst[e.groups[k].inst].rounding = s.rounding
                                                                                     /\ e.groups[k].lines[s.beta \div 2].success})
    /\ e.loaded = e.strategy
    \* random choices of the same seed
    /\ LET key == << e.n, e.q, e.num >> IN key \in DOMAIN seen => seen[key] = Range(e.inst)
\* many coefficients: every value of a secret and of a noise is taken
Spread(e) == /\ Len(e.inst) = 2 * e.num
             /\ \A i \in 1 .. Len(e.inst) : Instance(e, e.inst[i])
             /\ \A v \in -2 .. 2 : \E x \in Range(e.inst) : v \in Range(x.a1) \cup Range(x.a2)
             /\ \A v \in -4 .. 3 : \A k \in BOOLEAN : \E x \in Range(e.inst) : x.rounding = k /\ v \in Range(x.e1) \cup Range(x.e2)
Init == l = 1 /\ seen = << >>
Next == /\ l <= Len(Trace)
        /\ Trace[l].op \in {"run", "spread"}
        /\ \E e \in {Trace[l]} :
             /\ IF e.op = "run" THEN Holds(Run(e)) ELSE Holds(Spread(e))
             /\ seen' = [k \in DOMAIN seen \cup {<< e.n, e.q, e.num >>} |-> IF k = << e.n, e.q, e.num >> THEN Range(e.inst) ELSE seen[k]]
        /\ l' = l + 1
Spec == Init /\ [][Next]_<< l, seen >>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
========================================================================
