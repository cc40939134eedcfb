----------------------------- MODULE Fast ------------------------------
(* Evaluation front end: each operator below IS the pure definition; TLC  *)
(* may evaluate it through java/SaberFast.java instead. FastCheck.tla     *)
(* compares the two on every setup and in every thorough run.             *)
EXTENDS Keccak, Sha2, Aes, Ring

FHex(s) == HexToBytes(s)
FToHex(b) == BytesToHex(b)
FSponge(rate, suffix, m, n) == Sponge(rate, suffix, m, n)
FKeccakF(b) == KeccakF(b)
FKeccakP(b, n) == KeccakP(b, n)
FSha256(m) == Sha256(m)
FSha512(m) == Sha512(m)
\* the hash of a long periodic message: n bytes, pat again and again
Repeated(pat, n) == TLCEval([i \in 1 .. n |-> pat[((i - 1) % Len(pat)) + 1]])
FRepSponge(rate, suffix, pat, len, n) == Sponge(rate, suffix, Repeated(pat, len), n)
FRepSha256(pat, len) == Sha256(Repeated(pat, len))
FRepSha512(pat, len) == Sha512(Repeated(pat, len))
FAes256(key, block) == Aes256(key, block)
FCtrStream(key, ctr, n, len) == CtrStream(key, ctr, n, len)
FPolyMul(a, b, q) == PolyMul(a, b, q)
FPack(w, a) == Pack(w, a)
FUnpack(w, b) == Unpack(w, b)

FShake128(m, n) == FSponge(168, 31, m, n)
FSha3_256(m) == FSponge(136, 6, m, 32)
FSha3_512(m) == FSponge(72, 6, m, 64)
FInner(u, v, q) == Inner(u, v, q)
\* the changes [lane, 0-based position, xor mask] of one lane applied to a byte string
FFlip(b, fs, lane) == TLCEval(Fold(LAMBDA c, f : IF f[1] = lane THEN [c EXCEPT ![f[2] + 1] = @ ^^ f[3]] ELSE c, b, fs))
FMatVec(A, s, q) == TLCEval([i \in 1 .. Len(A) |-> FInner(A[i], s, q)])
========================================================================
