------------------------------ MODULE Laws ------------------------------
(* Finite laws (distributions) with exact weights: a law is a record       *)
(*   [q, e, w]: value x has the weight w[x] / (q * 2^e), x in DOMAIN w     *)
(* and the operations the parameter-selection scripts document on them.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Mod(x, m) == x % m
Abs(x) == IF x < 0 THEN -x ELSE x
Max(S) == CHOOSE m \in S : \A x \in S : x <= m
RECURSIVE SumF(_, _)
SumF(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumF(f, S \ {x})
Supp(L) == DOMAIN L.w
Wt(L, x) == IF x \in Supp(L) THEN L.w[x] ELSE 0
Mass(L) == SumF(L.w, Supp(L))
\* the same law: weights agree, absent values weigh nothing
Same(L, M) == L.q = M.q /\ L.e = M.e /\ \A x \in Supp(L) \cup Supp(M) : Wt(L, x) = Wt(M, x)

RECURSIVE Binomial(_, _)
Binomial(n, k) == IF k < 0 \/ k > n THEN 0 ELSE IF k = 0 \/ k = n THEN 1
                  ELSE IF 2 * k > n THEN Binomial(n, n - k) ELSE (Binomial(n - 1, k - 1) * n) \div k
CentredBinomial(k) == [q |-> 1, e |-> 2 * k, w |-> [x \in -k .. k |-> Binomial(2 * k, x + k)]]

\* all pairs (a, b), combined by Op
Combine(A, B, Op(_, _)) ==
    LET P == TLCEval({<< a, b >> : a \in Supp(A), b \in Supp(B)})
        D == TLCEval({Op(p[1], p[2]) : p \in P})
        f == TLCEval([p \in P |-> A.w[p[1]] * B.w[p[2]]])
    IN [q |-> A.q * B.q, e |-> A.e + B.e,
        w |-> TLCEval([c \in D |-> SumF(f, {p \in P : Op(p[1], p[2]) = c})])]
Convolution(A, B) == Combine(A, B, LAMBDA a, b : a + b)
Product(A, B) == Combine(A, B, LAMBDA a, b : a * b)
Point == [q |-> 1, e |-> 0, w |-> [x \in {0} |-> 1]]
RECURSIVE Iterate(_, _)
Iterate(A, i) == IF i = 0 THEN Point ELSE Convolution(Iterate(A, i - 1), A)

\* weight beyond t = t2 / 2, strictly, in absolute value
Beyond(L, t2) == SumF(L.w, {x \in Supp(L) : 2 * Abs(x) > t2})

\* the nearest multiples: all integers y with |y - rq*x/q| <= 1/2 (two of them at a tie), modulo rq
Nearest(x, q, rq) == {y \in (rq * x) \div q .. (rq * x) \div q + 1 : Abs(2 * (y * q - rq * x)) <= q}
Switched(x, q, rq) == {Mod(y, rq) : y \in Nearest(x, q, rq)}
\* representatives of x modulo q in -q/2 .. q/2 (both ends for an even q)
Centred(x, q) == {a \in {Mod(x, q), Mod(x, q) - q} : 2 * Abs(a) <= q}
Errors(x, q, rq) == UNION {UNION {Centred(x - z, q) : z \in Switched(y, rq, q)} : y \in Switched(x, q, rq)}
\* L is a law of the rounding error: each of the q inputs contributes 1/q to one of its possible errors
IsErrorLaw(L, q, rq) ==
    /\ L.q = q /\ L.e = 0
    /\ Mass(L) = q
    /\ \E E \in {TLCEval([x \in 0 .. q - 1 |-> Errors(x, q, rq)])} :
          \A d \in Supp(L) \cup UNION {E[x] : x \in 0 .. q - 1} :
             /\ Wt(L, d) >= Cardinality({x \in 0 .. q - 1 : E[x] = {d}})
             /\ Wt(L, d) <= Cardinality({x \in 0 .. q - 1 : d \in E[x]})

\* a - b for a, b drawn from the same law conditioned on a = b mod m: weight c, over the common
\* denominator N (a multiple of all class weights)
Classes(A, m) == TLCEval([r \in 0 .. m - 1 |-> SumF(A.w, {x \in Supp(A) : x % m = r})])
RECURSIVE ProdF(_, _)
ProdF(f, S) == IF S = {} THEN 1 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] * ProdF(f, S \ {x})
Differences(A, m) ==
    LET cl == Classes(A, m)
        N == ProdF(cl, {r \in 0 .. m - 1 : cl[r] > 0})
        P == TLCEval({p \in Supp(A) \X Supp(A) : (p[1] - p[2]) % m = 0 /\ cl[p[1] % m] > 0})
        f == TLCEval([p \in P |-> A.w[p[1]] * A.w[p[2]] * (N \div cl[p[1] % m])])
        D == TLCEval({p[1] - p[2] : p \in P})
    IN [q |-> A.q * N, e |-> A.e, w |-> TLCEval([c \in D |-> SumF(f, {p \in P : p[1] - p[2] = c})])]

\* weights below 2^-300 go
Cleaned(L, B) ==     \* is B the cleaned law L?
    /\ B.q = L.q /\ B.e = L.e
    /\ Supp(B) \subseteq Supp(L)
    /\ \A x \in Supp(B) : B.w[x] = L.w[x]
    /\ \A x \in Supp(L) \ Supp(B) : L.e >= 300 /\ (L.e - 300 > 30 \/ L.w[x] <= L.q * 2 ^ (L.e - 300))
    /\ \A x \in Supp(B) : L.e < 300 \/ (L.e - 300 <= 30 /\ L.w[x] >= L.q * 2 ^ (L.e - 300))
MeanNum(L) == SumF([x \in Supp(L) |-> x * L.w[x]], Supp(L))
SquareNum(L) == SumF([x \in Supp(L) |-> x * x * L.w[x]], Supp(L))
=========================================================================
