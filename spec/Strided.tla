---------------------------- MODULE Strided -----------------------------
(* The striding variant of the multiplication (Cortex-M4): with y = x^4,  *)
(* an operand is four polynomials in y; the seven-point evaluation acts   *)
(* on them, products are taken modulo y^K+1, and the coefficients of      *)
(* x^4 .. x^6 are folded back as y, one place up, with the sign change at *)
(* the end. Here K = 2; every pair of operands with at most two nonzero   *)
(* coefficients, taken from V, is compared with the schoolbook product.   *)
EXTENDS Toom

K == 2
Limbs(x, j) == [i \in 1 .. 4 |-> x[4 * j + i]]          \* j = 0 .. K-1
Neg16(x) == W(-x)
\* product of two polynomials in y, modulo y^2+1
MulY(u, v) == << W(Mul16(u[1], v[1]) - Mul16(u[2], v[2])), W(Mul16(u[1], v[2]) + Mul16(u[2], v[1])) >>
StridedMul(x, z) ==
    LET p == [j \in 1 .. K |-> Eval(Limbs(x, j - 1))]
        q == [j \in 1 .. K |-> Eval(Limbs(z, j - 1))]
        w == [n \in 1 .. 7 |-> MulY(<< p[1][n], p[2][n] >>, << q[1][n], q[2][n] >>)]
        c == [j \in 1 .. K |-> Interpolate([n \in 1 .. 7 |-> w[n][j]])]
        \* what comes back from x^4 .. x^6: the coefficient one place below, negated for place 0
        back(j, i) == IF i > 3 THEN 0 ELSE IF j = 1 THEN -c[K][i + 4] ELSE c[j - 1][i + 4]
    IN [n \in 1 .. 4 * K |-> LET j == ((n - 1) \div 4) + 1
                                 i == ((n - 1) % 4) + 1
                             IN W(c[j][i] + back(j, i)) % 8192]
NegaC(x, z) == [k \in 1 .. 4 * K |->
    LET t[i \in 0 .. 4 * K] ==
          IF i = 0 THEN 0
          ELSE t[i - 1] + (IF i <= k THEN Mul16(x[i], z[k + 1 - i]) ELSE -Mul16(x[i], z[4 * K + k + 1 - i]))
    IN t[4 * K] % 8192]

Zero8 == [n \in 1 .. 4 * K |-> 0]
Sparse == {Zero8} \cup {[Zero8 EXCEPT ![n] = v, ![m] = u] : n \in 1 .. 4 * K, m \in 1 .. 4 * K, v \in V, u \in V}
SInit == a \in Sparse /\ b = << >> /\ ok = TRUE
SNext == /\ b = << >>
         /\ \E z \in Sparse : b' = z
         /\ ok' = (StridedMul(a, b') = NegaC(a, b'))
         /\ UNCHANGED a
SSpec == SInit /\ [][SNext]_vars
\* for the simulator: dense operands of extreme values
DInit == a = << >> /\ b = << >> /\ ok = TRUE
DNext == \/ Len(a) < 4 * K /\ (\E v \in V : a' = Append(a, v)) /\ UNCHANGED << b, ok >>
         \/ /\ Len(a) = 4 * K /\ Len(b) < 4 * K
            /\ \E v \in V : b' = Append(b, v)
            /\ ok' = (Len(b') = 4 * K => StridedMul(a, b') = NegaC(a, b'))
            /\ UNCHANGED a
DSpec == DInit /\ [][DNext]_vars
EmitS == Len(b) = 4 * K => PrintT("BEHAVIOUR " \o ToJson(<< a, b >>))
========================================================================
