---------------------------- MODULE Bytes ----------------------------
(* Byte strings, bit strings and fixed-width words.                     *)
(* A byte string is a sequence (1-based) of integers 0..255.            *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, TLC
LOCAL INSTANCE SequencesExt
Fold(op(_, _), base, s) == FoldLeft(op, base, s)

\* TLCEval(x) = x; it only makes TLC evaluate x once instead of at every use.
Byte == 0 .. 255
UpTo(n) == [i \in 1 .. n |-> i]
Zeros(n) == [i \in 1 .. n |-> 0]
Const(n, c) == [i \in 1 .. n |-> c]
XorB(a, b) == TLCEval([i \in 1 .. Len(a) |-> a[i] ^^ b[i]])
Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
\* n bytes starting at 0-based offset o
Slice(s, o, n) == SubSeq(s, o + 1, o + n)
Pow2 == [i \in 0 .. 30 |-> 2 ^ i]
\* bit i (0-based) of the little-endian bit string of a byte string
BitAt(bytes, i) == (bytes[(i \div 8) + 1] \div Pow2[i % 8]) % 2
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
RECURSIVE PopCount(_)
PopCount(x) == IF x = 0 THEN 0 ELSE (x % 2) + PopCount(x \div 2)
MinOf(a, b) == IF a < b THEN a ELSE b

\* Hexadecimal text of the recorded traces
HexDigits == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
HexVal(c) == CHOOSE v \in 0 .. 15 : HexDigits[v + 1] = c
HexToBytes(s) == TLCEval([i \in 1 .. (Len(s) \div 2) |->
    16 * HexVal(SubSeq(s, 2 * i - 1, 2 * i - 1)) + HexVal(SubSeq(s, 2 * i, 2 * i))])
RECURSIVE BytesToHex(_)
BytesToHex(b) == IF b = <<>> THEN ""
    ELSE HexDigits[(b[1] \div 16) + 1] \o HexDigits[(b[1] % 16) + 1] \o BytesToHex(Tail(b))

(***********************************************************************)
(* Words of 16*k bits as k limbs of 16 bits, least significant first    *)
(* (TLC integers are 32 bits wide).                                     *)
(***********************************************************************)
WXor(a, b) == TLCEval([i \in 1 .. Len(a) |-> a[i] ^^ b[i]])
WAnd(a, b) == TLCEval([i \in 1 .. Len(a) |-> a[i] & b[i]])
WNot(a) == TLCEval([i \in 1 .. Len(a) |-> 65535 - a[i]])
WAdd(a, b) ==
    LET n == Len(a)
        c[i \in 0 .. n] == IF i = 0 THEN 0 ELSE (a[i] + b[i] + c[i - 1]) \div 65536
    IN TLCEval([i \in 1 .. n |-> (a[i] + b[i] + c[i - 1]) % 65536])
\* rotate left by r bits
WRotL(a, r) ==
    LET n == Len(a)
        w == (r \div 16) % n
        b == r % 16
        at(i) == a[((i - 1 - w + 2 * n) % n) + 1]
    IN TLCEval([i \in 1 .. n |-> ((at(i) * Pow2[b]) % 65536) + (at(IF i = 1 THEN n ELSE i - 1) \div Pow2[16 - b])])
WRotR(a, r) == WRotL(a, 16 * Len(a) - r)
\* logical shift right by r bits
WShR(a, r) ==
    LET n == Len(a)
        w == r \div 16
        b == r % 16
        at(i) == IF i + w <= n THEN a[i + w] ELSE 0
    IN TLCEval([i \in 1 .. n |-> (at(i) \div Pow2[b]) + (IF b = 0 THEN 0 ELSE (at(i + 1) * Pow2[16 - b]) % 65536)])
\* words from / to bytes
WFromLE(b) == TLCEval([i \in 1 .. (Len(b) \div 2) |-> b[2 * i - 1] + 256 * b[2 * i]])
WToLE(w) == TLCEval([i \in 1 .. (2 * Len(w)) |-> IF i % 2 = 1 THEN w[(i + 1) \div 2] % 256 ELSE w[i \div 2] \div 256])
RevB(s) == TLCEval([i \in 1 .. Len(s) |-> s[Len(s) + 1 - i]])
WFromBE(b) == WFromLE(RevB(b))
WToBE(w) == RevB(WToLE(w))
\* natural number n as a big-endian string of k bytes (n < 2^31)
NatBE(n, k) == [i \in 1 .. k |-> IF k - i > 3 THEN 0 ELSE (n \div (256 ^ (k - i))) % 256]
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
=======================================================================
