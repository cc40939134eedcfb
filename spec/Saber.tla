----------------------------- MODULE Saber -----------------------------
(* The Saber public-key encryption scheme and KEM, from bytes to bytes,   *)
(* for every parameter set and implementation profile of the repository.  *)
EXTENDS Fast

N == 256

(* Parameter sets. eq, ep, et: bit widths of the three moduli; mu: noise  *)
(* bits per coefficient; h1 is added before rounding to p, hv before      *)
(* rounding v' to T, h2 before extracting a message bit; skw: width of a  *)
(* secret coefficient in the secret key (signed iff it is below eq).      *)
Base(name, l, mu, et) ==
    [name |-> name, l |-> l, mu |-> mu, eq |-> 13, ep |-> 10, et |-> et,
     sym |-> "sha3", noise |-> "cbd", h1 |-> 4, hv |-> 4,
     h2 |-> 256 - Pow2[10 - et - 1] + 4, skw |-> 13]
\* uniform-secret variants: q = 2^12, hence h1 = 2, two noise bits
Uniform(p) == [p EXCEPT !.eq = 12, !.mu = 2, !.noise = "uniform", !.h1 = 2, !.hv = 2,
                        !.h2 = 256 - Pow2[10 - p.et - 1] + 2, !.skw = 12]
Nineties(p) == [p EXCEPT !.sym = "sha2"]
LightSaber == Base("LightSaber", 2, 10, 3)
SaberP == Base("Saber", 3, 8, 4)
FireSaber == Base("FireSaber", 4, 6, 6)
\* the Cortex-M4 code stores secrets in 4 bits
M4(p) == [p EXCEPT !.skw = 4]
\* the Cortex-M0 code implements the earlier-round scheme: v' is truncated, not rounded
M0(p) == [p EXCEPT !.hv = 0, !.h2 = 256 - Pow2[10 - p.et - 1]]

ParamTable == [
  LightSaber |-> LightSaber, Saber |-> SaberP, FireSaber |-> FireSaber,
  uLightSaber |-> Uniform(LightSaber), uSaber |-> Uniform(SaberP), uFireSaber |-> Uniform(FireSaber),
  LightSaber_90s |-> Nineties(LightSaber), Saber_90s |-> Nineties(SaberP), FireSaber_90s |-> Nineties(FireSaber),
  uLightSaber_90s |-> Nineties(Uniform(LightSaber)), uSaber_90s |-> Nineties(Uniform(SaberP)), uFireSaber_90s |-> Nineties(Uniform(FireSaber)),
  M4_LightSaber |-> M4(LightSaber), M4_Saber |-> M4(SaberP), M4_FireSaber |-> M4(FireSaber),
  M0_Saber |-> M0(SaberP) ]

Q(p) == Pow2[p.eq]
P(p) == Pow2[p.ep]

(* Sizes in bytes *)
PolyQBytes(p) == (p.eq * N) \div 8
PolyPBytes(p) == (p.ep * N) \div 8
ScaleBytes(p) == (p.et * N) \div 8
PkVecBytes(p) == p.l * PolyPBytes(p)
PkBytes(p) == PkVecBytes(p) + 32
SkVecBytes(p) == (p.l * p.skw * N) \div 8
SkBytes(p) == SkVecBytes(p) + PkBytes(p) + 64
CtBytes(p) == PkVecBytes(p) + ScaleBytes(p)

(* Symmetric primitives of the variant *)
HashH(p, m) == IF p.sym = "sha3" THEN FSha3_256(m) ELSE FSha256(m)
HashG(p, m) == IF p.sym = "sha3" THEN FSha3_512(m) ELSE FSha512(m)
Prf(p, seed, n) == IF p.sym = "sha3" THEN FShake128(seed, n) ELSE FCtrStream(seed, Zeros(16), 4, n)

(* Secret sampling: coefficient c uses the noise bits mu*c .. mu*c+mu-1   *)
Sample(p, v) == \* v: the mu-bit integer of one coefficient
    IF p.noise = "uniform" THEN IF v >= 2 THEN v - 4 ELSE v
    ELSE PopCount(v % Pow2[p.mu \div 2]) - PopCount(v \div Pow2[p.mu \div 2])
SampleTable(p) == TLCEval([v \in 0 .. Pow2[p.mu] - 1 |-> (Sample(p, v) + Q(p)) % Q(p)])
SamplePoly(p, bytes) == LET t == SampleTable(p)
                            u == FUnpack(p.mu, bytes)
                        IN TLCEval([c \in 1 .. Len(u) |-> t[u[c]]])
NoiseBytes(p) == (p.mu * N) \div 8
GenSecretFrom(p, bytes) == TLCEval([i \in 1 .. p.l |-> SamplePoly(p, Slice(bytes, (i - 1) * NoiseBytes(p), NoiseBytes(p)))])
GenSecret(p, seed) == GenSecretFrom(p, Prf(p, seed, p.l * NoiseBytes(p)))

(* Public matrix, row by row *)
GenMatrix(p, seed) ==
    LET b == Prf(p, seed, p.l * p.l * PolyQBytes(p))
    IN TLCEval([i \in 1 .. p.l |-> [j \in 1 .. p.l |-> FUnpack(p.eq, Slice(b, ((i - 1) * p.l + j - 1) * PolyQBytes(p), PolyQBytes(p)))]])

(* Vectors of polynomials *)
PackVec(w, v) == Flatten([i \in 1 .. Len(v) |-> FPack(w, v[i])])
UnpackVec(w, l, b) == TLCEval([i \in 1 .. l |-> FUnpack(w, Slice(b, (i - 1) * ((w * N) \div 8), (w * N) \div 8))])
RoundVec(p, v) == TLCEval([i \in 1 .. Len(v) |-> [c \in 1 .. N |-> ((v[i][c] + p.h1) % Q(p)) \div Pow2[p.eq - p.ep]]])
\* secret coefficients as stored in the secret key
SkField(p, x) == x % Pow2[p.skw]
SkValue(p, y) == IF p.skw = p.eq THEN y ELSE IF y >= Pow2[p.skw - 1] THEN (y - Pow2[p.skw] + Q(p)) % Q(p) ELSE y
PackSk(p, s) == PackVec(p.skw, [i \in 1 .. p.l |-> [c \in 1 .. N |-> SkField(p, s[i][c])]])
UnpackSk(p, b) == LET u == UnpackVec(p.skw, p.l, b)
                  IN TLCEval([i \in 1 .. p.l |-> [c \in 1 .. N |-> SkValue(p, u[i][c])]])

(* IND-CPA scheme *)
PkeKeyGen(p, rawSeedA, seedS) ==
    LET seedA == Prf(p, rawSeedA, 32)
        s == GenSecret(p, seedS)
        b == RoundVec(p, FMatVec(Transpose(GenMatrix(p, seedA)), s, Q(p)))
    IN [pk |-> PackVec(p.ep, b) \o seedA, sk |-> PackSk(p, s)]
PkeEnc(p, m, coins, pk) ==
    LET sp == GenSecret(p, coins)
        A == GenMatrix(p, Slice(pk, PkVecBytes(p), 32))
        bp == RoundVec(p, FMatVec(A, sp, Q(p)))
        b == UnpackVec(p.ep, p.l, pk)
        vp == FInner(b, sp, P(p))
        mb == FUnpack(1, m)
        cm == [c \in 1 .. N |-> ((vp[c] + mb[c] * Pow2[p.ep - 1] + p.hv) % P(p)) \div Pow2[p.ep - p.et]]
    IN PackVec(p.ep, bp) \o FPack(p.et, cm)
PkeDec(p, sk, ct) ==
    LET s == UnpackSk(p, Take(sk, SkVecBytes(p)))
        bp == UnpackVec(p.ep, p.l, ct)
        v == FInner(bp, s, P(p))
        cm == FUnpack(p.et, Slice(ct, PkVecBytes(p), ScaleBytes(p)))
    IN FPack(1, [c \in 1 .. N |-> ((v[c] + p.h2 + P(p) - (cm[c] * Pow2[p.ep - p.et])) % P(p)) \div Pow2[p.ep - 1]])

(* KEM: Fujisaki-Okamoto transform with implicit rejection *)
SkPk(p, sk) == Slice(sk, SkVecBytes(p), PkBytes(p))
SkHash(p, sk) == Slice(sk, SkVecBytes(p) + PkBytes(p), 32)
SkZ(p, sk) == Slice(sk, SkVecBytes(p) + PkBytes(p) + 32, 32)

KemKeyGen(p, rawSeedA, seedS, z) ==
    LET k == PkeKeyGen(p, rawSeedA, seedS)
    IN [pk |-> k.pk, sk |-> k.sk \o k.pk \o HashH(p, k.pk) \o z]
KemEnc(p, r, pk) ==
    LET m == HashH(p, r)
        kr == HashG(p, m \o HashH(p, pk))
        ct == PkeEnc(p, m, Slice(kr, 32, 32), pk)
    IN [ct |-> ct, k |-> HashH(p, Take(kr, 32) \o HashH(p, ct))]
\* acc: the ciphertext is its own re-encryption
KemDec(p, ct, sk) ==
    LET m == PkeDec(p, sk, ct)
        kr == HashG(p, m \o SkHash(p, sk))
        acc == PkeEnc(p, m, Slice(kr, 32, 32), SkPk(p, sk)) = ct
        pre == IF acc THEN Take(kr, 32) ELSE SkZ(p, sk)
    IN [acc |-> acc, k |-> HashH(p, pre \o HashH(p, ct)), m |-> m]
RejectKey(p, ct, sk) == HashH(p, SkZ(p, sk) \o HashH(p, ct))
========================================================================
