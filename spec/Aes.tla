------------------------------ MODULE Aes ------------------------------
(* FIPS 197 AES-256 (forward cipher) and counter mode.                    *)
EXTENDS Bytes

XTime(a) == ((2 * a) % 256) ^^ (IF a >= 128 THEN 27 ELSE 0)
RECURSIVE GMul(_, _)
GMul(a, b) == IF b = 0 THEN 0 ELSE (IF b % 2 = 1 THEN a ELSE 0) ^^ GMul(XTime(a), b \div 2)
\* multiplicative inverse in GF(2^8) by a^254, and the affine map of the S-box
RECURSIVE GPow(_, _)
GPow(a, e) == IF e = 0 THEN 1 ELSE IF e % 2 = 1 THEN GMul(a, GPow(a, e - 1)) ELSE LET h == GPow(a, e \div 2) IN GMul(h, h)
RotL8(a, r) == ((a * Pow2[r]) % 256) + (a \div Pow2[8 - r])
SBoxDef == TLCEval([a \in 0 .. 255 |->
    LET x == IF a = 0 THEN 0 ELSE GPow(a, 254)
    IN (((((x ^^ RotL8(x, 1)) ^^ RotL8(x, 2)) ^^ RotL8(x, 3)) ^^ RotL8(x, 4)) ^^ 99)])
SBox == SBoxDef
Rcon == << 1, 2, 4, 8, 16, 32, 64 >>
SubW(w) == TLCEval([i \in 1 .. 4 |-> SBox[w[i]]])
RotW(w) == << w[2], w[3], w[4], w[1] >>
\* 60 words of key schedule
ExpandWord(w, i) == \* i words so far; the next one
    LET t == w[i]
        u == IF i % 8 = 0 THEN LET s == SubW(RotW(t)) IN << s[1] ^^ Rcon[i \div 8], s[2], s[3], s[4] >>
             ELSE IF i % 8 = 4 THEN SubW(t) ELSE t
    IN Append(w, XorB(w[i - 7], u))
KeySchedule(key) == Fold(ExpandWord, [i \in 1 .. 8 |-> Slice(key, 4 * (i - 1), 4)], [i \in 1 .. 52 |-> i + 7])
RoundKey(ks, r) == ks[4 * r + 1] \o ks[4 * r + 2] \o ks[4 * r + 3] \o ks[4 * r + 4]
SubBytes(s) == TLCEval([i \in 1 .. 16 |-> SBox[s[i]]])
\* byte r of column c is element 4c+r (0-based); row r rotates left by r
ShiftRows(s) == TLCEval([i \in 1 .. 16 |-> LET r == (i - 1) % 4
                                       c == (i - 1) \div 4
                                   IN s[4 * ((c + r) % 4) + r + 1]])
MixColumns(s) == TLCEval([i \in 1 .. 16 |->
    LET r == (i - 1) % 4
        c == 4 * ((i - 1) \div 4)
        at(k) == s[c + ((r + k) % 4) + 1]
    IN ((XTime(at(0)) ^^ (XTime(at(1)) ^^ at(1))) ^^ (at(2) ^^ at(3)))])
AesRounds(s0, ks) ==
    LET s == Fold(LAMBDA t, r : XorB(MixColumns(ShiftRows(SubBytes(t))), RoundKey(ks, r)), XorB(s0, RoundKey(ks, 0)), UpTo(13))
    IN XorB(ShiftRows(SubBytes(s)), RoundKey(ks, 14))
Aes256(key, block) == LET ks == TLCEval(KeySchedule(key)) IN AesRounds(block, ks)

\* big-endian counter of n bytes at the end of a block, incremented with carry (wrapping)
RECURSIVE IncAt(_, _, _)
IncAt(b, i, lo) == IF i < lo THEN b
                   ELSE IF b[i] = 255 THEN IncAt([b EXCEPT ![i] = 0], i - 1, lo)
                   ELSE [b EXCEPT ![i] = @ + 1]
Inc(block, n) == IncAt(block, 16, 17 - n)
\* keystream of len bytes, first block encrypted is ctr itself, counter width n bytes
CtrStream(key, ctr, n, len) ==
    LET ks == TLCEval(KeySchedule(key))
        r == Fold(LAMBDA a, i : [c |-> TLCEval(Inc(a.c, n)), out |-> a.out \o Take(AesRounds(a.c, ks), MinOf(16, len - 16 * (i - 1)))],
                      [c |-> ctr, out |-> <<>>], UpTo((len + 15) \div 16))
    IN r.out
========================================================================
