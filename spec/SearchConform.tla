------------------------- MODULE SearchConform --------------------------
(* Conformance of the parameter search: one line of the trace is one run   *)
(* of search_params with what it printed, or the run for the published     *)
(* parameter sets. Failure probabilities are computed here from the law of *)
(* the secret, exactly.                                                    *)
EXTENDS Laws, Json, IOUtils
S == INSTANCE Saber
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == << l >>
Init == l = 1
Holds(b) == IF b THEN TRUE ELSE FALSE
\* error of rounding from modulus 2^a to 2^b (half of the ties go up, half down)
Half(a, b) == 2 ^ (a - b - 1)
ErrorLaw(a, b) == LET h == Half(a, b) IN [q |-> 1, e |-> a - b + 1, w |-> [d \in (0 - h) .. h |-> IF Abs(d) = h THEN 1 ELSE 2]]
\* weight of the errors larger than x: the sum of ErrorLaw's weights, in closed form
Above(h, x) == IF x >= h THEN 0 ELSE IF x < 0 - h THEN 4 * h ELSE 2 * (h - x) - 1
ASSUME \A a \in 1 .. 4 : \A x \in -20 .. 20 : LET L == ErrorLaw(a, 0) IN Above(Half(a, 0), x) = SumF(L.w, {d \in Supp(L) : d > x})
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RECURSIVE LcmS(_, _)
LcmS(f, D) == IF D = {} THEN 1 ELSE LET x == CHOOSE x \in D : TRUE
                                        r == LcmS(f, D \ {x}) IN (r \div Gcd(r, f[x])) * f[x]
\* difference of two sums with the same residue modulo m (both were rounded from the same value)
SameClass(A, m) ==
    LET cl == Classes(A, m)
        N == LcmS(cl, {r \in 0 .. m - 1 : cl[r] > 0})
        D == TLCEval({p[1] - p[2] : p \in {p \in Supp(A) \X Supp(A) : (p[1] - p[2]) % m = 0}})
    IN [q |-> A.q * N, e |-> A.e,
        w |-> TLCEval([c \in D |-> LET X == {x \in Supp(A) : x - c \in Supp(A)}
                                   IN SumF([x \in X |-> A.w[x] * A.w[x - c] * (N \div cl[x % m])], X)])]
ErrorSum(ds, a, b, kn) == SameClass(Iterate(Product(ds, ErrorLaw(a, b)), kn), 2 ^ (a - b))
\* weight of |s + e| > q / 4, over q * 2^e * 2^(a - T + 1)
TailNum(E, a, T) == LET h == Half(a, T)
                        t == 2 ^ (a - 2)
                    IN SumF([s \in Supp(E) |-> E.w[s] * (Above(h, t - s) + Above(h, t + s))], Supp(E))
Den(E, a, T) == E.q * 2 ^ (E.e + a - T + 1)
LawOf(e) == [q |-> 1, e |-> e.e, w |-> TLCEval([x \in {e.w[j][1] : j \in 1 .. Len(e.w)} |-> e.w[CHOOSE j \in 1 .. Len(e.w) : e.w[j][1] = x][2]])]
\* 256 * num / den <= 2^err (err <= 0)
GoodEnough(num, den, err) == num <= den \div 2 ^ (8 - err)
Secure(beta, minsec) == 292 * beta >= minsec      \* in thousandths
Range(r) == {r[i] : i \in 1 .. Len(r)}
(* a run: all p, in order, as long as they are secure; the smallest T each *)
DoSearch(e) == Holds(
    LET a == e.lq
        Ps == 10 .. a - 1
        Safe == {x \in Ps : \A y \in 10 .. x : Secure(e.beta[y - 9], e.minsec)}
        ds == LawOf(e)
        E == TLCEval([x \in Safe |-> ErrorSum(ds, a, x, e.k * e.n)])
        num == TLCEval([x \in Safe |-> TLCEval([T \in 1 .. 2 * x - a |-> TailNum(E[x], a, T)])])
        Ok(x, T) == GoodEnough(num[x][T], Den(E[x], a, T), e.err)
        Found == TLCEval({x \in Safe : \E T \in 1 .. 2 * x - a : Ok(x, T)})
        Best(x) == CHOOSE T \in 1 .. 2 * x - a : Ok(x, T) /\ \A U \in 1 .. T - 1 : ~Ok(x, U)
        Row(r) == /\ r.lq = a /\ r.l = e.k /\ r.n = e.n /\ r.ds
                  /\ r.T = Best(r.p)
                  /\ r.b8 = r.p * e.k * e.n /\ r.c8 = e.n * r.T
                  /\ r.total8 = 2 * r.b8 + r.c8 + 256
                  /\ r.pk8 = << r.b8 + 256, r.b8 + 256 >> /\ r.send8 = << r.b8 + r.c8, r.b8 + r.c8 >>
                  /\ r.quantum = 265 * e.beta[r.p - 9] /\ r.classical = 292 * e.beta[r.p - 9]
                  /\ r.num = num[r.p][r.T] /\ r.den = Den(E[r.p], a, r.T)
        Asked(r) == r.n = e.k * e.n /\ r.lq = a /\ r.ds
    IN /\ {e.rows[i].p : i \in 1 .. Len(e.rows)} = Found /\ Len(e.rows) = Cardinality(Found)
       /\ \A i, j \in 1 .. Len(e.rows) : i < j => e.rows[i].p < e.rows[j].p
       /\ \A r \in Range(e.rows) : Row(r)
       /\ \A r \in Range(e.asked) : Asked(r))
(* the published parameter sets: what is printed is what the KEM implements *)
Sets == << "LightSaber", "Saber", "FireSaber" >>
Failure == << -120, -136, -165 >>
DoPublished(e) == Holds(
    /\ Len(e.rows) = 3
    /\ \A i \in 1 .. 3 :
         LET r == e.rows[i]
             p == S!ParamTable[Sets[i]]
         IN /\ r.lq = p.eq /\ r.p = p.ep /\ r.T = p.et /\ r.l = p.l /\ r.n = 256
            /\ 8 * S!PkBytes(p) = r.pk8[1] /\ 8 * S!PkBytes(p) = r.pk8[2]
            /\ 8 * S!CtBytes(p) = r.send8[1] /\ 8 * S!CtBytes(p) = r.send8[2]
            /\ r.total8 = 8 * (S!PkBytes(p) + S!CtBytes(p))
            /\ r.fail = Failure[i]                       \* rounded towards zero
            /\ Same(LawOf(r.ds), CentredBinomial(p.mu \div 2)))
StepOf(e) == CASE e.op = "search" -> DoSearch(e)
               [] e.op = "published" -> DoPublished(e)
               [] OTHER -> FALSE
Next == l <= Len(Trace) /\ StepOf(Trace[l]) /\ l' = l + 1
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=========================================================================
