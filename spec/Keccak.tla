---------------------------- MODULE Keccak ----------------------------
(* FIPS 202: Keccak-f[1600], the sponge, SHA3-256, SHA3-512, SHAKE128.   *)
EXTENDS Bytes

\* lane (x,y) is element 5*y+x (0-based) of the state: a word of four limbs
L(s, x, y) == s[5 * (y % 5) + (x % 5) + 1]

RhoOffset == << 0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43, 25, 39, 41, 45, 15, 21, 8, 18, 2, 61, 56, 14 >>

RoundConst == <<
 <<1,0,0,0>>, <<32898,0,0,0>>, <<32906,0,0,32768>>, <<32768,32768,0,32768>>, <<32907,0,0,0>>,
 <<1,32768,0,0>>, <<32897,32768,0,32768>>, <<32777,0,0,32768>>, <<138,0,0,0>>, <<136,0,0,0>>,
 <<32777,32768,0,0>>, <<10,32768,0,0>>, <<32907,32768,0,0>>, <<139,0,0,32768>>, <<32905,0,0,32768>>,
 <<32771,0,0,32768>>, <<32770,0,0,32768>>, <<128,0,0,32768>>, <<32778,0,0,0>>, <<10,32768,0,32768>>,
 <<32897,32768,0,32768>>, <<32896,0,0,32768>>, <<1,32768,0,0>>, <<32776,32768,0,32768>> >>

Theta(s) ==
    LET c == TLCEval([x \in 0 .. 4 |-> WXor(L(s,x,0), WXor(L(s,x,1), WXor(L(s,x,2), WXor(L(s,x,3), L(s,x,4)))))])
        d == TLCEval([x \in 0 .. 4 |-> WXor(c[(x + 4) % 5], WRotL(c[(x + 1) % 5], 1))])
    IN TLCEval([i \in 1 .. 25 |-> WXor(s[i], d[(i - 1) % 5])])
\* rho and pi: B[y, 2x+3y] = rot(A[x,y])
RhoPi(s) ==
    TLCEval([i \in 1 .. 25 |->
        LET X == (i - 1) % 5
            Y == (i - 1) \div 5
            x == (X + 3 * Y) % 5        \* source column: y = X, 2x+3y = Y (mod 5)
            y == X
        IN WRotL(L(s, x, y), RhoOffset[5 * y + x + 1])])
Chi(s) ==
    TLCEval([i \in 1 .. 25 |->
        LET x == (i - 1) % 5
            y == (i - 1) \div 5
        IN WXor(L(s, x, y), WAnd(WNot(L(s, x + 1, y)), L(s, x + 2, y)))])
Iota(s, r) == [s EXCEPT ![1] = WXor(@, RoundConst[r])]
Round(s, r) == Iota(Chi(RhoPi(Theta(s))), r)
Rounds(s) == Fold(Round, s, UpTo(24))
StateOfBytes(b) == TLCEval([i \in 1 .. 25 |-> WFromLE(Slice(b, 8 * (i - 1), 8))])
BytesOfState(s) == TLCEval([j \in 1 .. 200 |->
    LET w == s[((j - 1) \div 8) + 1][(((j - 1) % 8) \div 2) + 1]
    IN IF j % 2 = 1 THEN w % 256 ELSE w \div 256])
\* the permutation on 200-byte strings
KeccakF(b) == BytesOfState(Rounds(StateOfBytes(b)))
\* Keccak-p[1600, n]: the last n rounds only
KeccakP(b, n) == BytesOfState(Fold(Round, StateOfBytes(b), [i \in 1 .. n |-> 24 - n + i]))

(* The sponge as an incremental machine: one record per block.           *)
Padded(rate, suffix, msg) ==
    LET n == Len(msg)
        k == (n \div rate) + 1
        q == k * rate
    IN TLCEval([i \in 1 .. q |->
          LET v == IF i <= n THEN msg[i] ELSE IF i = n + 1 THEN suffix ELSE 0
          IN IF i = q THEN v ^^ 128 ELSE v])
AbsorbBlock(st, block, rate) == KeccakF(TLCEval([i \in 1 .. 200 |-> IF i <= rate THEN st[i] ^^ block[i] ELSE st[i]]))
Absorb(st, m, rate) == Fold(LAMBDA s, i : AbsorbBlock(s, Slice(m, rate * (i - 1), rate), rate), st, UpTo(Len(m) \div rate))
\* squeezing: the first block is read before any further permutation
Squeeze(st, rate, n) ==
    LET k == (n + rate - 1) \div rate
        r == Fold(LAMBDA a, i : LET s == IF i = 1 THEN a.s ELSE KeccakF(a.s)
                                    IN [s |-> s, out |-> a.out \o Take(s, MinOf(rate, n - rate * (i - 1)))],
                      [s |-> st, out |-> <<>>], UpTo(k))
    IN r.out
Sponge(rate, suffix, msg, n) == Squeeze(Absorb(Zeros(200), Padded(rate, suffix, msg), rate), rate, n)

Shake128(m, n) == Sponge(168, 31, m, n)
Sha3_256(m) == Sponge(136, 6, m, 32)
Sha3_512(m) == Sponge(72, 6, m, 64)
=======================================================================
