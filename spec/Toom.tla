----------------------------- MODULE Toom ------------------------------
(* The library's multiplication algorithm at limb size one: Toom-Cook in  *)
(* seven points over 16-bit words (whose exact divisions lose up to three *)
(* bits), two levels of Karatsuba inside, folding by x^4 = -1 outside.    *)
(* Every operand with limbs in V is checked against the schoolbook        *)
(* product; a polynomial of the real code carries such an operand in each *)
(* of its 64 limb positions, and the operands are replayed there.         *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS V, Inv3, Inv9, Inv15, Algorithm
VARIABLES a, b, ok
vars == << a, b, ok >>

W(x) == x % 65536
Mul16(x, y) == (x * (y % 256) + ((x * (y \div 256)) % 256) * 256) % 65536
Mul19(x, y) == (x * (y % 256) + ((x * (y \div 256)) % 2048) * 256) % 524288
\* bits k .. k+15 of x * inv (32-bit product)
DivBy(x, inv, k) == W(Mul19(x % 524288, inv) \div (2 ^ k))
HalfS(x) == W(x \div 2)     \* arithmetic shift of the (signed) difference

\* values of the operand at infinity, 2, 1, -1, 1/2, -1/2, 0 (the halves scaled by 8)
Eval(x) == LET e1 == 2 * (4 * x[1] + x[3])
               o1 == 4 * x[2] + x[4]
           IN << W(x[4]), W(8 * x[4] + 4 * x[3] + 2 * x[2] + x[1]), W(x[1] + x[3] + x[2] + x[4]),
                 W(x[1] + x[3] - x[2] - x[4]), W(e1 + o1), W(e1 - o1), W(x[1]) >>
\* seven product values to the seven coefficients, as the code does it
Interpolate(w) ==
    LET r0 == w[1]
        r1a == W(w[2] + w[5])
        r5a == W(w[6] - w[5])
        r3a == HalfS(w[4] - w[3])
        r4a == W(w[5] - r0)
        r4b == W(r4a - 64 * w[7])
        r4c == W(2 * r4b + r5a)
        r2a == W(w[3] + r3a)
        r1b == W(r1a - 64 * r2a - r2a)
        r2b == W(r2a - w[7])
        r2c == W(r2b - r0)
        r1c == W(r1b + 45 * r2c)
        r4d == DivBy(r4c - 8 * r2c, Inv3, 3)
        r5b == W(r5a + r1c)
        r1d == DivBy(r1c + 16 * r3a, Inv9, 1)
        r3b == W(-(r3a + r1d))
        r5c == DivBy(30 * r1d - r5b, Inv15, 2)
        r2d == W(r2c - r4d)
        r1e == W(r1d - r5c)
    IN << w[7], r5c, r4d, r3b, r2d, r1e, r0 >>
ToomCook(x, y) == LET p == Eval(x)
                      q == Eval(y)
                  IN Interpolate([i \in 1 .. 7 |-> Mul16(p[i], q[i])])

\* two-level Karatsuba on four limbs
Kara2(x, y) == LET lo == Mul16(x[1], y[1])
                   hi == Mul16(x[2], y[2])
                   mid == Mul16(W(x[1] + x[2]), W(y[1] + y[2]))
               IN << lo, W(mid - lo - hi), hi >>
Kara4(x, y) ==
    LET lo == Kara2(<< x[1], x[2] >>, << y[1], y[2] >>)
        hi == Kara2(<< x[3], x[4] >>, << y[3], y[4] >>)
        md == Kara2(<< W(x[1] + x[3]), W(x[2] + x[4]) >>, << W(y[1] + y[3]), W(y[2] + y[4]) >>)
        m == [i \in 1 .. 3 |-> W(md[i] - lo[i] - hi[i])]
    IN << lo[1], lo[2], W(lo[3] + m[1]), m[2], W(m[3] + hi[1]), hi[2], hi[3] >>

School(x, y) == [k \in 1 .. 7 |->
    LET t(i) == IF k + 1 - i \in 1 .. 4 THEN Mul16(x[i], y[k + 1 - i]) ELSE 0
    IN W(t(1) + t(2) + t(3) + t(4))]
Fold4(c, m) == [i \in 1 .. 4 |-> (c[i] - (IF i < 4 THEN c[i + 4] ELSE 0)) % m]
NegaCyclic(x, y, m) == [k \in 1 .. 4 |->
    LET t(i) == IF k + 1 - i >= 1 THEN Mul16(x[i], y[k + 1 - i]) ELSE -Mul16(x[i], y[k + 5 - i])
    IN (t(1) + t(2) + t(3) + t(4)) % m]

\* operands are chosen limb by limb
Init == a = << >> /\ b = << >> /\ ok = TRUE
Right(y) == IF Algorithm = "toom" THEN Fold4(ToomCook(a, y), 8192) = NegaCyclic(a, y, 8192)
            ELSE Kara4(a, y) = School(a, y)
Next == \/ /\ Len(a) < 4 /\ \E v \in V : a' = Append(a, v)
           /\ UNCHANGED << b, ok >>
        \/ /\ Len(a) = 4 /\ Len(b) < 4
           /\ \E v \in V : b' = Append(b, v)
           /\ ok' = (Len(b') = 4 => Right(b'))
           /\ UNCHANGED a
Spec == Init /\ [][Next]_vars
Exact == ok
Emit == Len(b) = 4 => PrintT("BEHAVIOUR " \o ToJson(<< a, b >>))
========================================================================
