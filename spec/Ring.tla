----------------------------- MODULE Ring ------------------------------
(* Z_q[x]/(x^n+1), q a power of two <= 2^16; polynomials are sequences of *)
(* n integers 0..q-1, coefficient of x^i at position i+1.                 *)
EXTENDS Bytes

PolyZero(n) == Zeros(n)
PolyAdd(a, b, q) == TLCEval([i \in 1 .. Len(a) |-> (a[i] + b[i]) % q])
PolyMod(a, q) == TLCEval([i \in 1 .. Len(a) |-> a[i] % q])
\* coefficient k of the negacyclic product: sum_{i<=k} a_i b_{k-i} - sum_{i>k} a_i b_{n+k-i}
RECURSIVE MulCoef(_, _, _, _, _)
MulCoef(a, b, k, i, q) ==
    IF i = Len(a) THEN 0
    ELSE LET t == IF i <= k THEN (a[i + 1] * b[k - i + 1]) % q
                  ELSE (q - ((a[i + 1] * b[Len(a) + k - i + 1]) % q)) % q
         IN (t + MulCoef(a, b, k, i + 1, q)) % q
\* (operands below 2^13, so that a product stays within TLC's integers)
PolyMul(a, b, q) == LET x == PolyMod(a, MinOf(q, 8192))
                        y == PolyMod(b, MinOf(q, 8192))
                    IN TLCEval([k \in 1 .. Len(a) |-> MulCoef(x, y, k - 1, 0, q)])
\* inner product of two vectors of polynomials
RECURSIVE InnerFrom(_, _, _, _)
InnerFrom(u, v, i, q) == IF i > Len(u) THEN PolyZero(Len(u[1]))
                         ELSE PolyAdd(PolyMul(u[i], v[i], q), InnerFrom(u, v, i + 1, q), q)
Inner(u, v, q) == InnerFrom(u, v, 1, q)
MatVec(A, s, q) == TLCEval([i \in 1 .. Len(A) |-> Inner(A[i], s, q)])
Transpose(A) == [i \in 1 .. Len(A) |-> [j \in 1 .. Len(A) |-> A[j][i]]]

(* Serialization: coefficient c of width w occupies bits w*c .. w*c+w-1   *)
(* of the little-endian bit string.                                       *)
Pack(w, a) ==
    TLCEval([j \in 1 .. ((w * Len(a)) \div 8) |->
        SumTo([k \in 1 .. 8 |-> LET b == 8 * (j - 1) + k - 1
                                IN ((a[(b \div w) + 1] \div Pow2[b % w]) % 2) * Pow2[k - 1]], 8)])
Unpack(w, bytes) ==
    TLCEval([c \in 1 .. ((8 * Len(bytes)) \div w) |->
        SumTo([k \in 1 .. w |-> BitAt(bytes, w * (c - 1) + k - 1) * Pow2[k - 1]], w)])
========================================================================
