----------------------------- MODULE Sha2 -----------------------------
(* FIPS 180-4: SHA-256 (words of two limbs) and SHA-512 (four limbs).    *)
EXTENDS Bytes

(* Constants: fractional parts of square/cube roots of primes, as bytes. *)
HexW(s) == WFromBE(HexToBytes(s))
H256 == << HexW("6a09e667"), HexW("bb67ae85"), HexW("3c6ef372"), HexW("a54ff53a"), HexW("510e527f"), HexW("9b05688c"), HexW("1f83d9ab"), HexW("5be0cd19") >>
H512 == << HexW("6a09e667f3bcc908"), HexW("bb67ae8584caa73b"), HexW("3c6ef372fe94f82b"), HexW("a54ff53a5f1d36f1"), HexW("510e527fade682d1"), HexW("9b05688c2b3e6c1f"), HexW("1f83d9abfb41bd6b"), HexW("5be0cd19137e2179") >>
K512 == TLCEval(<< HexW("428a2f98d728ae22"), HexW("7137449123ef65cd"), HexW("b5c0fbcfec4d3b2f"), HexW("e9b5dba58189dbbc"),
  HexW("3956c25bf348b538"), HexW("59f111f1b605d019"), HexW("923f82a4af194f9b"), HexW("ab1c5ed5da6d8118"),
  HexW("d807aa98a3030242"), HexW("12835b0145706fbe"), HexW("243185be4ee4b28c"), HexW("550c7dc3d5ffb4e2"),
  HexW("72be5d74f27b896f"), HexW("80deb1fe3b1696b1"), HexW("9bdc06a725c71235"), HexW("c19bf174cf692694"),
  HexW("e49b69c19ef14ad2"), HexW("efbe4786384f25e3"), HexW("0fc19dc68b8cd5b5"), HexW("240ca1cc77ac9c65"),
  HexW("2de92c6f592b0275"), HexW("4a7484aa6ea6e483"), HexW("5cb0a9dcbd41fbd4"), HexW("76f988da831153b5"),
  HexW("983e5152ee66dfab"), HexW("a831c66d2db43210"), HexW("b00327c898fb213f"), HexW("bf597fc7beef0ee4"),
  HexW("c6e00bf33da88fc2"), HexW("d5a79147930aa725"), HexW("06ca6351e003826f"), HexW("142929670a0e6e70"),
  HexW("27b70a8546d22ffc"), HexW("2e1b21385c26c926"), HexW("4d2c6dfc5ac42aed"), HexW("53380d139d95b3df"),
  HexW("650a73548baf63de"), HexW("766a0abb3c77b2a8"), HexW("81c2c92e47edaee6"), HexW("92722c851482353b"),
  HexW("a2bfe8a14cf10364"), HexW("a81a664bbc423001"), HexW("c24b8b70d0f89791"), HexW("c76c51a30654be30"),
  HexW("d192e819d6ef5218"), HexW("d69906245565a910"), HexW("f40e35855771202a"), HexW("106aa07032bbd1b8"),
  HexW("19a4c116b8d2d0c8"), HexW("1e376c085141ab53"), HexW("2748774cdf8eeb99"), HexW("34b0bcb5e19b48a8"),
  HexW("391c0cb3c5c95a63"), HexW("4ed8aa4ae3418acb"), HexW("5b9cca4f7763e373"), HexW("682e6ff3d6b2b8a3"),
  HexW("748f82ee5defb2fc"), HexW("78a5636f43172f60"), HexW("84c87814a1f0ab72"), HexW("8cc702081a6439ec"),
  HexW("90befffa23631e28"), HexW("a4506cebde82bde9"), HexW("bef9a3f7b2c67915"), HexW("c67178f2e372532b"),
  HexW("ca273eceea26619c"), HexW("d186b8c721c0c207"), HexW("eada7dd6cde0eb1e"), HexW("f57d4f7fee6ed178"),
  HexW("06f067aa72176fba"), HexW("0a637dc5a2c898a6"), HexW("113f9804bef90dae"), HexW("1b710b35131c471b"),
  HexW("28db77f523047d84"), HexW("32caab7b40c72493"), HexW("3c9ebe0a15c9bebc"), HexW("431d67c49c100d4c"),
  HexW("4cc5d4becb3e42b6"), HexW("597f299cfc657e2a"), HexW("5fcb6fab3ad6faec"), HexW("6c44198c4a475817") >>)
\* SHA-256 uses the upper 32 bits of the first 64 constants of SHA-512
K256 == TLCEval([i \in 1 .. 64 |-> << K512[i][3], K512[i][4] >>])

WXor3(a, b, c) == WXor(a, WXor(b, c))
Ch(x, y, z) == WXor(WAnd(x, y), WAnd(WNot(x), z))
Maj(x, y, z) == WXor3(WAnd(x, y), WAnd(x, z), WAnd(y, z))
\* (rotations of Sigma0, Sigma1, sigma0, sigma1; the last entry of sigma is a shift)
Rot256 == << <<2, 13, 22>>, <<6, 11, 25>>, <<7, 18, 3>>, <<17, 19, 10>> >>
Rot512 == << <<28, 34, 39>>, <<14, 18, 41>>, <<1, 8, 7>>, <<19, 61, 6>> >>
BigS(x, r) == WXor3(WRotR(x, r[1]), WRotR(x, r[2]), WRotR(x, r[3]))
SmallS(x, r) == WXor3(WRotR(x, r[1]), WRotR(x, r[2]), WShR(x, r[3]))

Schedule(w0, n, rot) ==
    Fold(LAMBDA w, t : Append(w, WAdd(WAdd(SmallS(w[t - 2], rot[4]), w[t - 7]), WAdd(SmallS(w[t - 15], rot[3]), w[t - 16]))),
             w0, [i \in 1 .. (n - 16) |-> i + 16])
Step(v, kw, rot) ==
    LET t1 == WAdd(WAdd(v[8], BigS(v[5], rot[2])), WAdd(Ch(v[5], v[6], v[7]), kw))
        t2 == WAdd(BigS(v[1], rot[1]), Maj(v[1], v[2], v[3]))
    IN TLCEval(<< WAdd(t1, t2), v[1], v[2], v[3], WAdd(v[4], t1), v[5], v[6], v[7] >>)
Steps(v0, w, n, k, rot) == Fold(LAMBDA v, t : Step(v, WAdd(k[t], w[t]), rot), v0, UpTo(n))
Compress(h, block, wb, n, k, rot) ==
    LET w == TLCEval(Schedule(TLCEval([i \in 1 .. 16 |-> WFromBE(Slice(block, wb * (i - 1), wb))]), n, rot))
        v == TLCEval(Steps(h, w, n, k, rot))
    IN TLCEval([i \in 1 .. 8 |-> WAdd(h[i], v[i])])
\* padding: 0x80, zeros, message length in bits as an integer of lb bytes
MdPad(m, bb, lb) ==
    LET n == Len(m)
        k == (n + 1 + lb + bb - 1) \div bb
        z == k * bb - n - 1 - lb
        \* bits = 8*n, written so that no intermediate exceeds 31 bits for n < 2^28
    IN TLCEval(m \o <<128>> \o Zeros(z) \o NatBE(8 * n, lb))
MdRun(h0, m, bb, wb, n, k, rot) ==
    LET h == Fold(LAMBDA a, i : Compress(a, Slice(m, bb * (i - 1), bb), wb, n, k, rot), h0, UpTo(Len(m) \div bb))
    IN Flatten([i \in 1 .. 8 |-> WToBE(h[i])])
Sha256(m) == MdRun(H256, MdPad(m, 64, 8), 64, 4, 64, K256, Rot256)
Sha512(m) == MdRun(H512, MdPad(m, 128, 16), 128, 8, 80, K512, Rot512)
=======================================================================
