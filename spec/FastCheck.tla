--------------------------- MODULE FastCheck ---------------------------
(* The accelerated operators agree with the pure TLA+ definitions, and    *)
(* the definitions agree with published test vectors.                     *)
EXTENDS Saber, Drbg, TLC
CONSTANT Seed
VARIABLE n
\* deterministic pseudorandom test data
Rnd(k, len) == [i \in 1 .. len |-> ((Seed * 7919 + k * 104729 + i * 8191 + i * i * 131 + k * i * 17) \div 7) % 256]
RndQ(k, len, q) == [i \in 1 .. len |-> ((Seed * 7919 + k * 104729 + i * 8191 + i * i * 331 + k * i * 17) \div 5) % q]
Abc == << 97, 98, 99 >>
Vectors ==
  /\ Sha3_256(<<>>) = HexToBytes("a7ffc6f8bf1ed76651c14756a061d662f580ff4de43b49fa82d80a4b80f8434a")
  /\ Sha3_512(Abc) = HexToBytes("b751850b1a57168a5693cd924b6b096e08f621827444f70d884f5d0240d2712e10e116e9192af3c91a7ec57647e3934057340b4cf408d5a56592f8274eec53f0")
  /\ Shake128(<<>>, 32) = HexToBytes("7f9c2ba4e88f827d616045507605853ed73b8093f6efbc88eb1a6eacfa66ef26")
  /\ Sha256(Abc) = HexToBytes("ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad")
  /\ Sha512(Abc) = HexToBytes("ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f")
  /\ Aes256([i \in 1 .. 32 |-> i - 1], HexToBytes("00112233445566778899aabbccddeeff")) = HexToBytes("8ea2b7ca516745bfeafc49904b496089")
NChecks == 12
Check(c) ==
  CASE c = 1 -> (Vectors)
    [] c = 2 -> (LET b == Rnd(1, 200) IN FKeccakF(b) = KeccakF(b) /\ \A r \in {0, 1, 12, 23, 24} : FKeccakP(b, r) = KeccakP(b, r))
    [] c = 3 -> (\A k \in {0, 1, 71, 72, 73, 135, 136, 137, 143, 144, 167, 168, 169, 272} :
      /\ FSha3_256(Rnd(k, k)) = Sha3_256(Rnd(k, k))
      /\ FSha3_512(Rnd(k, k)) = Sha3_512(Rnd(k, k))
      /\ FShake128(Rnd(k, k), k) = Shake128(Rnd(k, k), k))
    [] c = 4 -> (\A k \in {0, 1, 55, 56, 63, 64, 65, 111, 112, 119, 120, 127, 128, 129, 240} :
      /\ FSha256(Rnd(k, k)) = Sha256(Rnd(k, k))
      /\ FSha512(Rnd(k, k)) = Sha512(Rnd(k, k)))
    [] c = 5 -> (\A k \in {0, 1, 15, 16, 17, 33, 64} :
      /\ FCtrStream(Rnd(k, 32), Const(16, 255), 4, k) = CtrStream(Rnd(k, 32), Const(16, 255), 4, k)
      /\ FCtrStream(Rnd(k, 32), Zeros(14) \o <<255, 254>>, 16, k) = CtrStream(Rnd(k, 32), Zeros(14) \o <<255, 254>>, 16, k)
      /\ FAes256(Rnd(k, 32), Rnd(k + 1, 16)) = Aes256(Rnd(k, 32), Rnd(k + 1, 16)))
    [] c = 6 -> (LET a == RndQ(3, 256, 8192)
      b == RndQ(4, 256, 8192)
  IN FPolyMul(a, b, 8192) = PolyMul(a, b, 8192) /\ FInner(<<a, b>>, <<b, b>>, 8192) = Inner(<<a, b>>, <<b, b>>, 8192) /\ FPolyMul(a, b, 1024) = PolyMul(a, b, 1024))
    [] c = 7 -> (FPolyMul(Const(256, 8191), Const(256, 8191), 8192) = PolyMul(Const(256, 8191), Const(256, 8191), 8192))
    [] c = 8 -> (\A w \in {1, 2, 3, 4, 6, 8, 10, 11, 12, 13, 14} :
      LET a == RndQ(w, 256, Pow2[w])
      IN /\ FPack(w, a) = Pack(w, a) /\ FUnpack(w, Pack(w, a)) = a /\ Unpack(w, Pack(w, a)) = a
         /\ FUnpack(w, Rnd(w, w * 32)) = Unpack(w, Rnd(w, w * 32)))
    [] c = 9 -> (\A k \in {0, 1, 5, 33} : FHex(BytesToHex(Rnd(k, k))) = Rnd(k, k) /\ FToHex(Rnd(k, k)) = BytesToHex(Rnd(k, k)))
    [] c = 10 -> (\* stepping the counter by hand equals the closed form
  \A k \in {0, 1, 2, 255} : LET v == Zeros(13) \o <<255, 255, 254>> IN IncBy(v, k + 1) = Inc(IncBy(v, k), 16))
    [] c = 11 -> (LET b == Rnd(9, 40)
                      fs == << <<1, 0, 255>>, <<2, 3, 1>>, <<1, 39, 128>>, <<1, 0, 1>> >>
                  IN FFlip(b, fs, 1) = [b EXCEPT ![1] = @ ^^ 254, ![40] = @ ^^ 128] /\ FFlip(b, fs, 2) = [b EXCEPT ![4] = @ ^^ 1] /\ FFlip(b, fs, 3) = b /\ FFlip(b, << >>, 1) = b)
    [] c = 12 -> (\A k \in {0, 1, 16, 55, 150, 300} :
      LET m == Repeated(Rnd(k + 1, 7), k)
      IN /\ Len(m) = k
         /\ FRepSponge(136, 6, Rnd(k + 1, 7), k, 40) = Sponge(136, 6, m, 40) /\ FRepSponge(72, 6, Rnd(k + 1, 7), k, 64) = Sponge(72, 6, m, 64)
         /\ FRepSha256(Rnd(k + 1, 7), k) = Sha256(m) /\ FRepSha512(Rnd(k + 1, 7), k) = Sha512(m))
Init == n = 1
Next == n <= NChecks /\ Assert(Check(n), <<"acceleration disagrees with the definition", n>>) /\ n' = n + 1
Spec == Init /\ [][Next]_n
========================================================================
