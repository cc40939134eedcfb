From 3e99acb441dbb525dd30834e502f9180fb88b442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:07 +0000
Subject: [PATCH 01/17] fix: carry the AES-NI counter when its low half wraps
 at the end of a batch

---
 Variants/uSaber-90s/avx2/crypto_stream_aes256ctr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Variants/uSaber-90s/avx2/crypto_stream_aes256ctr.c b/Variants/uSaber-90s/avx2/crypto_stream_aes256ctr.c
index b363ecc..88d0012 100644
--- a/Variants/uSaber-90s/avx2/crypto_stream_aes256ctr.c
+++ b/Variants/uSaber-90s/avx2/crypto_stream_aes256ctr.c
@@ -183,7 +183,7 @@ static inline void incle(unsigned char n[16]) {
     long long nl = *(long long*)&n[8];                                  \
     MAKEN(NVxV_DEC);                                                    \
     /* check for nonce wraparound */                                    \
-    if ((nl < 0) && (nl + (N-1)) >= 0) {                                \
+    if ((nl < 0) && (nl + N) >= 0) {                                    \
       int wrapnumber = (int)(N - (nl+N));                               \
       MAKEN(NVxV_WRAP);                                                 \
       _mm_storeu_si128((__m128i*)n, _mm_add_epi64(nv0i, _mm_set_epi64x(N,1))); \
-- 
2.43.0


From ed66b13f4b371894b4ee5466189786a9cca78bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:33 +0000
Subject: [PATCH 02/17] fix: SaberX4 accepts caller buffers of any alignment

---
 Variants/SaberX4_avx2/SABER_indcpa.c | 16 +++++-----
 Variants/SaberX4_avx2/pack_unpack.c  | 48 ++++++++++++++--------------
 2 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/Variants/SaberX4_avx2/SABER_indcpa.c b/Variants/SaberX4_avx2/SABER_indcpa.c
index 4b724bf..22224ad 100644
--- a/Variants/SaberX4_avx2/SABER_indcpa.c
+++ b/Variants/SaberX4_avx2/SABER_indcpa.c
@@ -156,16 +156,16 @@ void BS2POLq4x(unsigned char * bs0, unsigned char * bs1, unsigned char * bs2, un
 	//num/32   (32 8-bit) 
 	for(i = 0;i<13;i++){
 		//Load 128 bit from bs0, bs1, bs2, bs3
-		l0 = _mm_load_ps(cfbs0+p*4); //0
-		l1 = _mm_load_ps(cfbs1+p*4); //160
-		l2 = _mm_load_ps(cfbs2+p*4); //64
-		l3 = _mm_load_ps(cfbs3+p*4); //224
+		l0 = _mm_loadu_ps(cfbs0+p*4); //0
+		l1 = _mm_loadu_ps(cfbs1+p*4); //160
+		l2 = _mm_loadu_ps(cfbs2+p*4); //64
+		l3 = _mm_loadu_ps(cfbs3+p*4); //224
 		
 		//Load 128 bit from middle of bs0, bs1, bs2, bs3
-		l4 = _mm_load_ps(cfbs4+p*4); //208
-		l5 = _mm_load_ps(cfbs5+p*4); //112
-		l6 = _mm_load_ps(cfbs6+p*4); //16
-		l7 = _mm_load_ps(cfbs7+p*4); //176
+		l4 = _mm_loadu_ps(cfbs4+p*4); //208
+		l5 = _mm_loadu_ps(cfbs5+p*4); //112
+		l6 = _mm_loadu_ps(cfbs6+p*4); //16
+		l7 = _mm_loadu_ps(cfbs7+p*4); //176
 
 		//Transpose 4x4 matrix
 		_MM_TRANSPOSE4_PS(l0,l1,l2,l3);
diff --git a/Variants/SaberX4_avx2/pack_unpack.c b/Variants/SaberX4_avx2/pack_unpack.c
index 1e97d02..a3cb93e 100644
--- a/Variants/SaberX4_avx2/pack_unpack.c
+++ b/Variants/SaberX4_avx2/pack_unpack.c
@@ -21,16 +21,16 @@ void avx_load_16bit_8bit(const float * cfbs0, const float * cfbs1,
 	// i = size/32
 	for(i = 0;i<SABER_K*SABER_N*16/(128*2);i++){
 		//Load 128 bit from bs0, bs1, bs2, bs3
-		l0 = _mm_load_ps(cfbs0+p*4); 
-		l1 = _mm_load_ps(cfbs1+p*4); 
-		l2 = _mm_load_ps(cfbs2+p*4); 
-		l3 = _mm_load_ps(cfbs3+p*4); 
+		l0 = _mm_loadu_ps(cfbs0+p*4); 
+		l1 = _mm_loadu_ps(cfbs1+p*4); 
+		l2 = _mm_loadu_ps(cfbs2+p*4); 
+		l3 = _mm_loadu_ps(cfbs3+p*4); 
 		
 		//Load 128 bit from middle of bs0, bs1, bs2, bs3
-		l4 = _mm_load_ps(cfbs4+p*4); 
-		l5 = _mm_load_ps(cfbs5+p*4); 
-		l6 = _mm_load_ps(cfbs6+p*4); 
-		l7 = _mm_load_ps(cfbs7+p*4); 
+		l4 = _mm_loadu_ps(cfbs4+p*4); 
+		l5 = _mm_loadu_ps(cfbs5+p*4); 
+		l6 = _mm_loadu_ps(cfbs6+p*4); 
+		l7 = _mm_loadu_ps(cfbs7+p*4); 
 		
 		//Transpose 4x4 matrix
 		_MM_TRANSPOSE4_PS(l0,l1,l2,l3);
@@ -119,10 +119,10 @@ void avx_store_8bit_bs(__m256i * avx_bytes, uint16_t size,
 		
 		
 		//do the same thing to back half(4 number) from 256-bit avx to 128bit
-		_mm_store_si128(bs0+k,ph0);
-		_mm_store_si128(bs1+k,ph1);
-		_mm_store_si128(bs2+k,ph2);
-		_mm_store_si128(bs3+k,ph3);
+		_mm_storeu_si128(bs0+k,ph0);
+		_mm_storeu_si128(bs1+k,ph1);
+		_mm_storeu_si128(bs2+k,ph2);
+		_mm_storeu_si128(bs3+k,ph3);
 		
 		//pack second half
 		l0 = _mm256_extractf128_ps((__m256)avx_bytes[offset0+0],1);
@@ -173,10 +173,10 @@ void avx_store_8bit_bs(__m256i * avx_bytes, uint16_t size,
 		//(128 every store bit)/(8 bit/number)=32number
 		//pointer space 128bit 
 		
-		_mm_store_si128(bs4+k,ph0);
-		_mm_store_si128(bs5+k,ph1);
-		_mm_store_si128(bs6+k,ph2);
-		_mm_store_si128(bs7+k,ph3);
+		_mm_storeu_si128(bs4+k,ph0);
+		_mm_storeu_si128(bs5+k,ph1);
+		_mm_storeu_si128(bs6+k,ph2);
+		_mm_storeu_si128(bs7+k,ph3);
 		
 		//depend on how many lines in this part
 		offset0 += 16;
@@ -206,16 +206,16 @@ void avx_load_8bit_16bit(const float * cfbs0, const float * cfbs1,
 	// i = size/32
 	for(i = 0;i<(size)/32;i++){
 		//Load 128 bit from bs0, bs1, bs2, bs3
-		l0 = _mm_load_ps(cfbs0+p*4); //0
-		l1 = _mm_load_ps(cfbs1+p*4); //160
-		l2 = _mm_load_ps(cfbs2+p*4); //64
-		l3 = _mm_load_ps(cfbs3+p*4); //224
+		l0 = _mm_loadu_ps(cfbs0+p*4); //0
+		l1 = _mm_loadu_ps(cfbs1+p*4); //160
+		l2 = _mm_loadu_ps(cfbs2+p*4); //64
+		l3 = _mm_loadu_ps(cfbs3+p*4); //224
 		
 		//Load 128 bit from middle of bs0, bs1, bs2, bs3
-		l4 = _mm_load_ps(cfbs4+p*4); //208
-		l5 = _mm_load_ps(cfbs5+p*4); //112
-		l6 = _mm_load_ps(cfbs6+p*4); //16
-		l7 = _mm_load_ps(cfbs7+p*4); //176
+		l4 = _mm_loadu_ps(cfbs4+p*4); //208
+		l5 = _mm_loadu_ps(cfbs5+p*4); //112
+		l6 = _mm_loadu_ps(cfbs6+p*4); //16
+		l7 = _mm_loadu_ps(cfbs7+p*4); //176
 
 		//Transpose 4x4 matrix
 		_MM_TRANSPOSE4_PS(l0,l1,l2,l3);
-- 
2.43.0


From 7c4dbd31e955d44822fc6bef4c9c37adb95120e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:23 +0000
Subject: [PATCH 03/17] fix: shake128x4 block buffers hold a whole SHAKE128
 block

---
 Variants/SaberX4_avx2/fips202x4.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Variants/SaberX4_avx2/fips202x4.c b/Variants/SaberX4_avx2/fips202x4.c
index 88e61fc..7712d8a 100644
--- a/Variants/SaberX4_avx2/fips202x4.c
+++ b/Variants/SaberX4_avx2/fips202x4.c
@@ -152,10 +152,10 @@ void shake128x4(unsigned char *out0,
                        const unsigned char *in3, unsigned long long inlen)
 {
   __m256i s[25];
-  unsigned char t0[SHAKE256_RATE];
-  unsigned char t1[SHAKE256_RATE];
-  unsigned char t2[SHAKE256_RATE];
-  unsigned char t3[SHAKE256_RATE];
+  unsigned char t0[SHAKE128_RATE];
+  unsigned char t1[SHAKE128_RATE];
+  unsigned char t2[SHAKE128_RATE];
+  unsigned char t3[SHAKE128_RATE];
   unsigned int i;
 
   // zero state 
-- 
2.43.0


From 5bfd2113014a76da9e93004a071f1fa326b8a4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:04 +0000
Subject: [PATCH 04/17] fix: tail_probability counts exactly the values
 strictly beyond the bound

The sum started at ceil(t), counting values equal to an integer t (and zero
twice), stopped before the largest value, and looked only at positive values
when it chose its range.
---
 Scripts/Python_Scripts/select_params/proba_util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Scripts/Python_Scripts/select_params/proba_util.py b/Scripts/Python_Scripts/select_params/proba_util.py
index 53f9cbc..d7b6763 100644
--- a/Scripts/Python_Scripts/select_params/proba_util.py
+++ b/Scripts/Python_Scripts/select_params/proba_util.py
@@ -7,7 +7,7 @@
 #----------------------------------------------------------------------*/ 
 
 from math import factorial as fac
-from math import log, ceil, erf, sqrt
+from math import log, ceil, floor, erf, sqrt
 
 
 def gaussian_center_weight(sigma, t):
@@ -165,10 +165,10 @@ def tail_probability(D, t):
     :param t: tail parameter (integer)
     '''
     s = 0
-    ma = max(D.keys())
+    ma = max(abs(x) for x in D.keys())
     if t >= ma:
         return 0
-    for i in reversed(range(int(ceil(t)), ma)):  # Summing in reverse for better numerical precision (assuming tails are decreasing)
+    for i in reversed(range(int(floor(t)) + 1, ma + 1)):  # Summing in reverse for better numerical precision (assuming tails are decreasing)
         s += D.get(i, 0) + D.get(-i, 0)
     return s
 
-- 
2.43.0


From dcb9ba6a0a6dd344081db715f383fc266d1e69c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:36 +0000
Subject: [PATCH 05/17] fix: Cortex-M0 decryption packs the message it
 recovered

indcpa_kem_dec handed ExtractKeyBits the caller's 32-byte message buffer as
the place for 256 unpacked 16-bit coefficients: it wrote 512 bytes there and
never packed the bits into the message, so decapsulation never returned the
encapsulated key.
---
 .../Cortex-M0/saber-ref-mem/src/SABER_indcpa.c                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/SABER_indcpa.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/SABER_indcpa.c
index 38d4ed0..72ad28a 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/SABER_indcpa.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/SABER_indcpa.c
@@ -346,11 +346,11 @@ void indcpa_kem_dec(const unsigned char *sk, const unsigned char *ciphertext, un
 
 	VectorMul(ciphertext, sksv,v);
 
-	ExtractKeyBits(v,ciphertext+SABER_POLYVECCOMPRESSEDBYTES,message_dec);
+	ExtractKeyBits(v,ciphertext+SABER_POLYVECCOMPRESSEDBYTES,v);
 
 
 	// pack decrypted message
-	//POL2MSG(message_dec_unpacked, message_dec);
+	POL2MSG(v, message_dec);
 }
 
 
-- 
2.43.0


From 2ebdc251c135b1a7ee47d0218f3f5d713cd87298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:36 +0000
Subject: [PATCH 06/17] fix: Cortex-M0 randombytes uses both bytes of each
 generated word

The halves of the 32-bit read were taken as two 16-bit numbers and cut to
bytes: every other output byte was the constant upper half of the 16-bit
data register.
---
 Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/prng.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/prng.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/prng.c
index 3ad8581..268448e 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/prng.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/prng.c
@@ -37,7 +37,7 @@ void randombytes(unsigned char *x,unsigned long long xlen)
 {
     union
     {
-        uint16_t aschar[2];
+        uint8_t aschar[2];
         uint32_t asint;
     } random;
 
-- 
2.43.0


From f1814df06a32a74bb64aaea5626b2a9959facfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:58 +0000
Subject: [PATCH 07/17] fix: Cortex-M0 hash functions pass bytes through the
 bit-interleaved Keccak state

---
 .../Cortex-M0/saber-ref-mem/src/fips202.c     | 53 +++----------------
 1 file changed, 8 insertions(+), 45 deletions(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c
index c502789..63ed73b 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c
@@ -12,42 +12,11 @@
 #define NROUNDS 24
 #define ROL(a, offset) ((a << offset) ^ (a >> (64-offset)))
 
-/*************************************************
-* Name:        load64
-*
-* Description: Load 8 bytes into uint64_t in little-endian order
-*
-* Arguments:   - const unsigned char *x: pointer to input byte array
-*
-* Returns the loaded 64-bit unsigned integer
-**************************************************/
-static uint64_t load64(const unsigned char *x)
-{
-  unsigned long long r = 0, i;
-
-  for (i = 0; i < 8; ++i) {
-    r |= (unsigned long long)x[i] << 8 * i;
-  }
-  return r;
-}
-
-/*************************************************
-* Name:        store64
-*
-* Description: Store a 64-bit integer to a byte array in little-endian order
-*
-* Arguments:   - uint8_t *x: pointer to the output byte array
-*              - uint64_t u: input 64-bit unsigned integer
-**************************************************/
-static void store64(uint8_t *x, uint64_t u)
-{
-  unsigned int i;
-
-  for(i=0; i<8; ++i) {
-    x[i] = u;
-    u >>= 8;
-  }
-}
+/* asm_KeccakF-1600.S keeps the state bit-interleaved: bytes go in and out of it only
+ * through these functions. */
+void KeccakF1600_StatePermute(void *state);
+void KeccakF1600_StateXORBytes(void *state, const unsigned char *data, unsigned int offset, unsigned int length);
+void KeccakF1600_StateExtractBytes(void *state, unsigned char *data, unsigned int offset, unsigned int length);
 
 #include <string.h>
 #define MIN(a, b) ((a) < (b) ? (a) : (b))
@@ -79,8 +48,7 @@ void keccak_absorb(uint64_t *s,
 
   while (mlen >= r)
   {
-    for (i = 0; i < r / 8; ++i)
-      s[i] ^= load64(m + 8 * i);
+    KeccakF1600_StateXORBytes(s, m, 0, r);
 
     KeccakF1600_StatePermute(s);
     mlen -= r;
@@ -93,8 +61,7 @@ void keccak_absorb(uint64_t *s,
     t[i] = m[i];
   t[i] = p;
   t[r - 1] |= 128;
-  for (i = 0; i < r / 8; ++i)
-    s[i] ^= load64(t + 8 * i);
+  KeccakF1600_StateXORBytes(s, t, 0, r);
 }
 
 
@@ -114,14 +81,10 @@ void keccak_squeezeblocks(unsigned char *h, unsigned long long int nblocks,
                                  uint64_t *s,
                                  unsigned int r)
 {
-  unsigned int i;
   while(nblocks > 0)
   {
     KeccakF1600_StatePermute(s);
-    for(i=0;i<(r>>3);i++)
-    {
-      store64(h+8*i, s[i]);
-    }
+    KeccakF1600_StateExtractBytes(s, h, 0, r);
     h += r;
     nblocks--;
   }
-- 
2.43.0


From 03a60f94d58cd60ae148c5519af62edc61fa398b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:07 +0000
Subject: [PATCH 08/17] fix: Cortex-M0 cSHAKE keeps the customisation string it
 absorbed

---
 .../Cortex-M0/saber-ref-mem/src/fips202.c     | 58 ++++++++++++-------
 1 file changed, 36 insertions(+), 22 deletions(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c
index 63ed73b..097c255 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c
@@ -22,6 +22,34 @@ void KeccakF1600_StateExtractBytes(void *state, unsigned char *data, unsigned in
 #define MIN(a, b) ((a) < (b) ? (a) : (b))
 
 
+/* Absorbs a whole message into the state as it is */
+static void keccak_absorb_on(uint64_t *s,
+                             unsigned int r,
+                             const unsigned char *m, unsigned long long int mlen,
+                             unsigned char p)
+{
+  unsigned long long i;
+  unsigned char t[200];
+
+  while (mlen >= r)
+  {
+    KeccakF1600_StateXORBytes(s, m, 0, r);
+
+    KeccakF1600_StatePermute(s);
+    mlen -= r;
+    m += r;
+  }
+
+  for (i = 0; i < r; ++i)
+    t[i] = 0;
+  for (i = 0; i < mlen; ++i)
+    t[i] = m[i];
+  t[i] = p;
+  t[r - 1] |= 128;
+  KeccakF1600_StateXORBytes(s, t, 0, r);
+}
+
+
 /*************************************************
 * Name:        keccak_absorb
 *
@@ -39,29 +67,13 @@ void keccak_absorb(uint64_t *s,
                           const unsigned char *m, unsigned long long int mlen,
                           unsigned char p)
 {
-  unsigned long long i;
-  unsigned char t[200];
+  unsigned int i;
 
   // Zero state
   for (i = 0; i < 25; ++i)
     s[i] = 0;
 
-  while (mlen >= r)
-  {
-    KeccakF1600_StateXORBytes(s, m, 0, r);
-
-    KeccakF1600_StatePermute(s);
-    mlen -= r;
-    m += r;
-  }
-
-  for (i = 0; i < r; ++i)
-    t[i] = 0;
-  for (i = 0; i < mlen; ++i)
-    t[i] = m[i];
-  t[i] = p;
-  t[r - 1] |= 128;
-  KeccakF1600_StateXORBytes(s, t, 0, r);
+  keccak_absorb_on(s, r, m, mlen, p);
 }
 
 
@@ -94,7 +106,7 @@ void keccak_squeezeblocks(unsigned char *h, unsigned long long int nblocks,
 
 void cshake128_simple_absorb(uint64_t s[25], uint16_t cstm, const unsigned char *in, unsigned long long inlen)
 {
-  unsigned char *sep = (unsigned char*)s;
+  unsigned char sep[8];
   unsigned int i;
 
   for (i = 0; i < 25; i++)
@@ -110,10 +122,11 @@ void cshake128_simple_absorb(uint64_t s[25], uint16_t cstm, const unsigned char
   sep[6] = cstm & 0xff;
   sep[7] = cstm >> 8;
 
+  KeccakF1600_StateXORBytes(s, sep, 0, 8);
   KeccakF1600_StatePermute(s);
 
   /* Absorb input */
-  keccak_absorb(s, SHAKE128_RATE, in, inlen, 0x04);
+  keccak_absorb_on(s, SHAKE128_RATE, in, inlen, 0x04);
 }
 
 
@@ -301,7 +314,7 @@ void sha3_512(unsigned char *output, const unsigned char *input,  unsigned long
 
 void cshake256_simple_absorb(uint64_t s[25], uint16_t cstm, const unsigned char *in, unsigned long long inlen)
 {
-  unsigned char *sep = (unsigned char*)s;
+  unsigned char sep[8];
   unsigned int i;
 
   for (i = 0; i < 25; i++)
@@ -317,10 +330,11 @@ void cshake256_simple_absorb(uint64_t s[25], uint16_t cstm, const unsigned char
   sep[6] = cstm & 0xff;
   sep[7] = cstm >> 8;
 
+  KeccakF1600_StateXORBytes(s, sep, 0, 8);
   KeccakF1600_StatePermute(s);
 
   /* Absorb input */
-  keccak_absorb(s, SHAKE256_RATE, in, inlen, 0x04);
+  keccak_absorb_on(s, SHAKE256_RATE, in, inlen, 0x04);
 }
 
 
-- 
2.43.0


From d9d282c41d8d5b15513f00b6e1a6a9054f6e6521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:07 +0000
Subject: [PATCH 09/17] fix: Cortex-M0 SABER_pack_3bit keeps bit 0 of every
 sixth value

---
 .../Cortex-M0/saber-ref-mem/src/pack_unpack.c                   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/pack_unpack.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/pack_unpack.c
index ff27aa4..2462cf0 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/pack_unpack.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/pack_unpack.c
@@ -10,7 +10,7 @@ void SABER_pack_3bit(uint8_t *bytes, uint16_t *data){
 		offset_byte=3*j;
 		offset_data=8*j;
 		bytes[offset_byte + 0]= (data[offset_data + 0] & 0x7) | ( (data[offset_data + 1] & 0x7)<<3 ) | ((data[offset_data + 2] & 0x3)<<6);
-		bytes[offset_byte + 1]= ((data[offset_data + 2] >> 2 ) & 0x01)  | ( (data[offset_data + 3] & 0x7)<<1 ) | ( (data[offset_data + 4] & 0x7)<<4 ) | (((data[offset_data + 5] >> 2 ) & 0x01)<<7);
+		bytes[offset_byte + 1]= ((data[offset_data + 2] >> 2 ) & 0x01)  | ( (data[offset_data + 3] & 0x7)<<1 ) | ( (data[offset_data + 4] & 0x7)<<4 ) | ((data[offset_data + 5] & 0x01)<<7);
 		bytes[offset_byte + 2]= ((data[offset_data + 5] >> 1 ) & 0x03) | ( (data[offset_data + 6] & 0x7)<<2 ) | ( (data[offset_data + 7] & 0x7)<<5 );
 	}
 }
-- 
2.43.0


From a5fe5668a2e2d5ff0177fe6a2cc17f195a9bc25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:16 +0000
Subject: [PATCH 10/17] fix: the parameter search accepts parameters that never
 fail

---
 Scripts/Python_Scripts/select_params/select_params.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Scripts/Python_Scripts/select_params/select_params.py b/Scripts/Python_Scripts/select_params/select_params.py
index 855a20c..db56361 100644
--- a/Scripts/Python_Scripts/select_params/select_params.py
+++ b/Scripts/Python_Scripts/select_params/select_params.py
@@ -59,6 +59,8 @@ def search_params(D_s, q, k, n, minsec, maxerror):
             prob = tail_probability(D, q/4.)
             if prob!=0:
     	        prob = log(256*prob,2)
+            else:
+                prob = -float('inf')
 
             # if too low, search for a bigger T
             if prob > maxerror:
-- 
2.43.0


From 55b090579e748ade4f5610152bcd10f3af79f357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:24 +0000
Subject: [PATCH 11/17] fix: assembly Toom-Cook multiplication evaluates the
 right coefficients

The evaluation exchanged the coefficients of x and x^2, and the
accumulation started from uninitialised registers (r8, r9 instead of the
registers that hold the carried coefficients). The C version of the same
function, which the KEM uses, is right.
---
 .../m4-striding/generate-multiplication.py    |  12 +-
 .../Cortex-M4/src/saber/m4-striding/tc.s      | 260 +++++++++---------
 2 files changed, 136 insertions(+), 136 deletions(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/generate-multiplication.py b/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/generate-multiplication.py
index c8fdd96..ab9e0ed 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/generate-multiplication.py
+++ b/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/generate-multiplication.py
@@ -26,8 +26,8 @@ def toomcook_256_64(pntA, pntB, pntC):
 		yield f"ldr {r1},[{pntA},#{i*16+4}]"
 		yield f"ldr {r3},[{pntA},#{i*16+12}]"
 		yield f"pkhbt {r8}, {r0}, {r2}, lsl #16"
-		yield f"pkhtb {r2}, {r2}, {r0}, asr #16"
-		yield f"pkhbt {r9}, {r1}, {r3}, lsl #16"
+		yield f"pkhtb {r9}, {r2}, {r0}, asr #16"
+		yield f"pkhbt {r2}, {r1}, {r3}, lsl #16"
 		yield f"pkhtb {r3}, {r3}, {r1}, asr #16"
 		yield f"uadd16 {r4}, {r8}, {r2}"
 		yield f"uadd16 {r5}, {r9}, {r3}"
@@ -63,8 +63,8 @@ def toomcook_256_64(pntA, pntB, pntC):
 		yield f"ldr {r1},[{pntB},#{i*16+4}]"
 		yield f"ldr {r3},[{pntB},#{i*16+12}]"
 		yield f"pkhbt {r8}, {r0}, {r2}, lsl #16"
-		yield f"pkhtb {r2}, {r2}, {r0}, asr #16"
-		yield f"pkhbt {r9}, {r1}, {r3}, lsl #16"
+		yield f"pkhtb {r9}, {r2}, {r0}, asr #16"
+		yield f"pkhbt {r2}, {r1}, {r3}, lsl #16"
 		yield f"pkhtb {r3}, {r3}, {r1}, asr #16"
 		yield f"uadd16 {r4}, {r8}, {r2}"
 		yield f"uadd16 {r5}, {r9}, {r3}"
@@ -129,8 +129,8 @@ def toomcook_256_64(pntA, pntB, pntC):
 	#yield f"add {sp}, {sp}, #{896}"
 	for i in range(32):
 		if i == 0:
-			yield f"eor r9, r9, r9"
-			yield f"eor r8, r8, r8"
+			yield f"eor {r9}, {r9}, {r9}"
+			yield f"eor {r8}, {r8}, {r8}"
 		yield f"ldr {r0},[{pntB},#{128+i*4}]"
 		yield f"ldr {r1},[{pntB},#{i*4}]"
 		yield f"ldr {r2},[{sp},#{896+i*4}]"
diff --git a/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/tc.s b/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/tc.s
index 5445855..03e0e7c 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/tc.s
+++ b/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/tc.s
@@ -11,8 +11,8 @@ ldr r6, [r0, #8]
 ldr r5, [r0, #4]
 ldr r7, [r0, #12]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -45,8 +45,8 @@ ldr r6, [r0, #24]
 ldr r5, [r0, #20]
 ldr.w r7, [r0, #28]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -79,8 +79,8 @@ ldr r6, [r0, #40]
 ldr r5, [r0, #36]
 ldr.w r7, [r0, #44]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -113,8 +113,8 @@ ldr r6, [r0, #56]
 ldr r5, [r0, #52]
 ldr.w r7, [r0, #60]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -147,8 +147,8 @@ ldr r6, [r0, #72]
 ldr r5, [r0, #68]
 ldr.w r7, [r0, #76]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -181,8 +181,8 @@ ldr r6, [r0, #88]
 ldr r5, [r0, #84]
 ldr.w r7, [r0, #92]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -215,8 +215,8 @@ ldr r6, [r0, #104]
 ldr r5, [r0, #100]
 ldr.w r7, [r0, #108]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -249,8 +249,8 @@ ldr r6, [r0, #120]
 ldr r5, [r0, #116]
 ldr.w r7, [r0, #124]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -283,8 +283,8 @@ ldr.w r6, [r0, #136]
 ldr.w r5, [r0, #132]
 ldr.w r7, [r0, #140]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -317,8 +317,8 @@ ldr.w r6, [r0, #152]
 ldr.w r5, [r0, #148]
 ldr.w r7, [r0, #156]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -351,8 +351,8 @@ ldr.w r6, [r0, #168]
 ldr.w r5, [r0, #164]
 ldr.w r7, [r0, #172]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -385,8 +385,8 @@ ldr.w r6, [r0, #184]
 ldr.w r5, [r0, #180]
 ldr.w r7, [r0, #188]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -419,8 +419,8 @@ ldr.w r6, [r0, #200]
 ldr.w r5, [r0, #196]
 ldr.w r7, [r0, #204]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -453,8 +453,8 @@ ldr.w r6, [r0, #216]
 ldr.w r5, [r0, #212]
 ldr.w r7, [r0, #220]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -487,8 +487,8 @@ ldr.w r6, [r0, #232]
 ldr.w r5, [r0, #228]
 ldr.w r7, [r0, #236]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -521,8 +521,8 @@ ldr.w r6, [r0, #248]
 ldr.w r5, [r0, #244]
 ldr.w r7, [r0, #252]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -555,8 +555,8 @@ ldr.w r6, [r0, #264]
 ldr.w r5, [r0, #260]
 ldr.w r7, [r0, #268]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -589,8 +589,8 @@ ldr.w r6, [r0, #280]
 ldr.w r5, [r0, #276]
 ldr.w r7, [r0, #284]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -623,8 +623,8 @@ ldr.w r6, [r0, #296]
 ldr.w r5, [r0, #292]
 ldr.w r7, [r0, #300]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -657,8 +657,8 @@ ldr.w r6, [r0, #312]
 ldr.w r5, [r0, #308]
 ldr.w r7, [r0, #316]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -691,8 +691,8 @@ ldr.w r6, [r0, #328]
 ldr.w r5, [r0, #324]
 ldr.w r7, [r0, #332]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -725,8 +725,8 @@ ldr.w r6, [r0, #344]
 ldr.w r5, [r0, #340]
 ldr.w r7, [r0, #348]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -759,8 +759,8 @@ ldr.w r6, [r0, #360]
 ldr.w r5, [r0, #356]
 ldr.w r7, [r0, #364]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -793,8 +793,8 @@ ldr.w r6, [r0, #376]
 ldr.w r5, [r0, #372]
 ldr.w r7, [r0, #380]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -827,8 +827,8 @@ ldr.w r6, [r0, #392]
 ldr.w r5, [r0, #388]
 ldr.w r7, [r0, #396]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -861,8 +861,8 @@ ldr.w r6, [r0, #408]
 ldr.w r5, [r0, #404]
 ldr.w r7, [r0, #412]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -895,8 +895,8 @@ ldr.w r6, [r0, #424]
 ldr.w r5, [r0, #420]
 ldr.w r7, [r0, #428]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -929,8 +929,8 @@ ldr.w r6, [r0, #440]
 ldr.w r5, [r0, #436]
 ldr.w r7, [r0, #444]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -963,8 +963,8 @@ ldr.w r6, [r0, #456]
 ldr.w r5, [r0, #452]
 ldr.w r7, [r0, #460]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -997,8 +997,8 @@ ldr.w r6, [r0, #472]
 ldr.w r5, [r0, #468]
 ldr.w r7, [r0, #476]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1031,8 +1031,8 @@ ldr.w r6, [r0, #488]
 ldr.w r5, [r0, #484]
 ldr.w r7, [r0, #492]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1065,8 +1065,8 @@ ldr.w r6, [r0, #504]
 ldr.w r5, [r0, #500]
 ldr.w r7, [r0, #508]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1099,8 +1099,8 @@ ldr r6, [r1, #8]
 ldr r5, [r1, #4]
 ldr.w r7, [r1, #12]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1133,8 +1133,8 @@ ldr r6, [r1, #24]
 ldr r5, [r1, #20]
 ldr.w r7, [r1, #28]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1167,8 +1167,8 @@ ldr r6, [r1, #40]
 ldr r5, [r1, #36]
 ldr.w r7, [r1, #44]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1201,8 +1201,8 @@ ldr r6, [r1, #56]
 ldr r5, [r1, #52]
 ldr.w r7, [r1, #60]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1235,8 +1235,8 @@ ldr r6, [r1, #72]
 ldr r5, [r1, #68]
 ldr.w r7, [r1, #76]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1269,8 +1269,8 @@ ldr r6, [r1, #88]
 ldr r5, [r1, #84]
 ldr.w r7, [r1, #92]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1303,8 +1303,8 @@ ldr r6, [r1, #104]
 ldr r5, [r1, #100]
 ldr.w r7, [r1, #108]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1337,8 +1337,8 @@ ldr r6, [r1, #120]
 ldr r5, [r1, #116]
 ldr.w r7, [r1, #124]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1371,8 +1371,8 @@ ldr.w r6, [r1, #136]
 ldr.w r5, [r1, #132]
 ldr.w r7, [r1, #140]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1405,8 +1405,8 @@ ldr.w r6, [r1, #152]
 ldr.w r5, [r1, #148]
 ldr.w r7, [r1, #156]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1439,8 +1439,8 @@ ldr.w r6, [r1, #168]
 ldr.w r5, [r1, #164]
 ldr.w r7, [r1, #172]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1473,8 +1473,8 @@ ldr.w r6, [r1, #184]
 ldr.w r5, [r1, #180]
 ldr.w r7, [r1, #188]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1507,8 +1507,8 @@ ldr.w r6, [r1, #200]
 ldr.w r5, [r1, #196]
 ldr.w r7, [r1, #204]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1541,8 +1541,8 @@ ldr.w r6, [r1, #216]
 ldr.w r5, [r1, #212]
 ldr.w r7, [r1, #220]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1575,8 +1575,8 @@ ldr.w r6, [r1, #232]
 ldr.w r5, [r1, #228]
 ldr.w r7, [r1, #236]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1609,8 +1609,8 @@ ldr.w r6, [r1, #248]
 ldr.w r5, [r1, #244]
 ldr.w r7, [r1, #252]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1643,8 +1643,8 @@ ldr.w r6, [r1, #264]
 ldr.w r5, [r1, #260]
 ldr.w r7, [r1, #268]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1677,8 +1677,8 @@ ldr.w r6, [r1, #280]
 ldr.w r5, [r1, #276]
 ldr.w r7, [r1, #284]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1711,8 +1711,8 @@ ldr.w r6, [r1, #296]
 ldr.w r5, [r1, #292]
 ldr.w r7, [r1, #300]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1745,8 +1745,8 @@ ldr.w r6, [r1, #312]
 ldr.w r5, [r1, #308]
 ldr.w r7, [r1, #316]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1779,8 +1779,8 @@ ldr.w r6, [r1, #328]
 ldr.w r5, [r1, #324]
 ldr.w r7, [r1, #332]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1813,8 +1813,8 @@ ldr.w r6, [r1, #344]
 ldr.w r5, [r1, #340]
 ldr.w r7, [r1, #348]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1847,8 +1847,8 @@ ldr.w r6, [r1, #360]
 ldr.w r5, [r1, #356]
 ldr.w r7, [r1, #364]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1881,8 +1881,8 @@ ldr.w r6, [r1, #376]
 ldr.w r5, [r1, #372]
 ldr.w r7, [r1, #380]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1915,8 +1915,8 @@ ldr.w r6, [r1, #392]
 ldr.w r5, [r1, #388]
 ldr.w r7, [r1, #396]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1949,8 +1949,8 @@ ldr.w r6, [r1, #408]
 ldr.w r5, [r1, #404]
 ldr.w r7, [r1, #412]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1983,8 +1983,8 @@ ldr.w r6, [r1, #424]
 ldr.w r5, [r1, #420]
 ldr.w r7, [r1, #428]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -2017,8 +2017,8 @@ ldr.w r6, [r1, #440]
 ldr.w r5, [r1, #436]
 ldr.w r7, [r1, #444]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -2051,8 +2051,8 @@ ldr.w r6, [r1, #456]
 ldr.w r5, [r1, #452]
 ldr.w r7, [r1, #460]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -2085,8 +2085,8 @@ ldr.w r6, [r1, #472]
 ldr.w r5, [r1, #468]
 ldr.w r7, [r1, #476]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -2119,8 +2119,8 @@ ldr.w r6, [r1, #488]
 ldr.w r5, [r1, #484]
 ldr.w r7, [r1, #492]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -2153,8 +2153,8 @@ ldr.w r6, [r1, #504]
 ldr.w r5, [r1, #500]
 ldr.w r7, [r1, #508]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -2213,8 +2213,8 @@ add.w r1, r1, #128
 add.w r0, r0, #128
 bl kara_strd_mem_asm
 ldmia.w sp!, {r0, r1, r2}
-eor.w r9, r9, r9
-eor.w r8, r8, r8
+eor.w lr, lr, lr
+eor.w ip, ip, ip
 ldr.w r4, [r1, #128]
 ldr r5, [r1, #0]
 ldr r6, [sp, #896]
-- 
2.43.0


From a86235f34f3135e477fd921adc0516ec372a074f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:18 +0000
Subject: [PATCH 12/17] fix: fix-alignment keeps a narrow instruction in front
 of the last bx

The width of a function's last instruction is not determined, and a
narrow instruction followed by one of undetermined width was not copied
to the output.
---
 .../Cortex-M4/src/saber/m4-striding/fix-alignment.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/fix-alignment.py b/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/fix-alignment.py
index d32f261..d9b2b9a 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/fix-alignment.py
+++ b/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/fix-alignment.py
@@ -93,7 +93,7 @@ for func in funcs:
             nextins = funcs[func][i+1]  # nextins exists, since we halt at bx
             if ins['width'] == 4 or not can_widen(ins['ins']):  # cannot do anything
                 alignedfuncs[func].append(ins['ins'])
-            elif nextins['width'] == 2:  # delay the decision
+            elif nextins['width'] in (2, None):  # delay the decision (the last bx is narrow)
                 aligned = not aligned  # flip alignment
                 alignedfuncs[func].append(ins['ins'])
             elif nextins['width'] == 4:
-- 
2.43.0


From ee022b4c8fbe0edb35821f7de63d2ccaf99b1ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:18 +0000
Subject: [PATCH 13/17] fix: fix-alignment tracks alignment over functions and
 unwidened instructions

The alignment at the end of one function was carried into the next, which
starts aligned, and narrow instructions that cannot be widened were not
counted.
---
 .../Cortex-M4/src/saber/m4-striding/fix-alignment.py        | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/fix-alignment.py b/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/fix-alignment.py
index d9b2b9a..c637761 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/fix-alignment.py
+++ b/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/fix-alignment.py
@@ -85,13 +85,17 @@ def can_widen(ins):
 
 
 for func in funcs:
+    aligned = True  # every function starts at an aligned address
     for i, ins in enumerate(funcs[func]):
         if ins['ins'][:2] == 'bx' or ins['width'] is None:
             alignedfuncs[func].append(ins['ins'])
             break
         else:
             nextins = funcs[func][i+1]  # nextins exists, since we halt at bx
-            if ins['width'] == 4 or not can_widen(ins['ins']):  # cannot do anything
+            if ins['width'] == 4:  # cannot do anything
+                alignedfuncs[func].append(ins['ins'])
+            elif not can_widen(ins['ins']):  # stays narrow
+                aligned = not aligned
                 alignedfuncs[func].append(ins['ins'])
             elif nextins['width'] in (2, None):  # delay the decision (the last bx is narrow)
                 aligned = not aligned  # flip alignment
-- 
2.43.0


From 2cda60754fa814fded405d0dcaf18c088d9dda29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:01 +0000
Subject: [PATCH 14/17] fix: the multiplication generator's 32-coefficient
 variant computes products

Its second partial product was written over half of the first one (offset
32 instead of 64 bytes), and the last coefficient of a block spilled its
high half into the next coefficient.
---
 .../Cortex-M4/src/saber/m4-striding/generate-multiplication.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/generate-multiplication.py b/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/generate-multiplication.py
index ab9e0ed..88b3192 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/generate-multiplication.py
+++ b/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/generate-multiplication.py
@@ -485,6 +485,7 @@ def schoolbook_from_next_8x8(SRC1, SRC2, DEST, n):
 			# c14
 			if ((index+28) % (2*n) in is_initialized) and ((index+28) % (2*n) == (index+28)):
 				yield f"smlatt {tmp0},{a3},{b3},{c}"
+				yield f"pkhbt {tmp0}, {tmp0}, {c}"
 				yield f"str {tmp0}, [{DEST}, #{(index+28) % (2*n)}]"
 			else:
 				yield f"smultt {tmp0},{a3},{b3}"
@@ -1110,7 +1111,7 @@ def karatsuba_64_32(pntA, pntB, pntC, pntX):
 	yield f"bl schoolbook_gen"
 	#yield f"pop {{r0-r12, r14}}"
 	yield f"ldr {pntB}, [sp, #8]"
-	yield f"add {pntA}, {pntA}, #{32}"
+	yield f"add {pntA}, {pntA}, #{64}"
 	#yield f"push {{r0-r12, r14}}"
 	yield f"bl schoolbook_gen"
 	#yield f"pop {{r0-r12, r14}}"
-- 
2.43.0


From 06bd3cec117edf28a5b1b1f370a5d960b698f8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:21 +0000
Subject: [PATCH 15/17] fix: the M0 cycle counter doubles or loses cycles when
 the timer wraps

The exception handler wrote the current value register, which clears the
counter: every overflow lost the handler's latency, and an overflow that
was served between stopping and reading the counter added 2^24 cycles.
Let the counter reload itself, count 2^24 cycles per overflow, and count
an overflow that is pending but no longer served.
---
 .../Cortex-M0/saber-ref-mem/include/xmc1100.h      |  1 +
 .../Cortex-M0/saber-ref-mem/src/benchmark.c        | 14 ++++++++------
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/include/xmc1100.h b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/include/xmc1100.h
index 1ac5d5f..c81720b 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/include/xmc1100.h
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/include/xmc1100.h
@@ -94,6 +94,7 @@
 
 // SCS
 #define CPUID			REGISTER_32(SCS_BASE + 0)
+#define SCB_ICSR		REGISTER_32(SCS_BASE + 0x04)
 // STK
 #define SYST_CSR		REGISTER_32(STK_BASE + 0)
 #define SYST_RVR		REGISTER_32(STK_BASE + 4)
diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/benchmark.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/benchmark.c
index fa4ffc4..3b94283 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/benchmark.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/benchmark.c
@@ -4,12 +4,11 @@
 #include "xmc1100.h"
 
 static uint32_t calibration_value = 0;
-static uint32_t timer_overflow = 0;
+static volatile uint32_t timer_overflow = 0;
 
 void SysTick_Handler()
 {
-	timer_overflow++;
-	SYST_CVR = 0x00FFFFFF;
+	timer_overflow++; // the counter reloads itself, writing it would clear it
 }
 
 void
@@ -33,6 +32,7 @@ start_tick_count (void)
 	disable_interrupts();
 	timer_overflow = 0;
 	SYST_CVR = 0x00FFFFFF;
+	SCB_ICSR = BIT25; // PENDSTCLR
 	enable_interrupts();
 	SYST_CSR ^= BIT0;
 }
@@ -44,9 +44,11 @@ end_tick_count (void)
 	uint32_t ticks;
 	SYST_CSR ^= BIT0;
 	disable_interrupts();
-	ticks = 0x00FFFFFF - SYST_CVR;
-	while (timer_overflow--) {
-		ticks += 0x00FFFFFF;
+	// the counter counts down from 2^24 to 0
+	ticks = (0 - SYST_CVR) & 0x00FFFFFF;
+	ticks += timer_overflow << 24;
+	if (SCB_ICSR & BIT26) { // PENDSTSET: an overflow that was not served any more
+		ticks += BIT24;
 	}
 	//enable_interrupts();
 	return ticks - calibration_value;
-- 
2.43.0


From 5c42aeeb293f4f67f82bb06b58bceebc43deef7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:45 +0000
Subject: [PATCH 16/17] fix: the M0 memory benchmark overwrites its own stack
 frame

The canaries started at a local variable and ran down over whatever else the
compiler had put below it in main's frame (with GCC 13 a saved pointer, so the
program faults before the second report). They now start below the stack
pointer, and the reported number is the exact depth.
---
 .../Cortex-M0/saber-ref-mem/src/main.c        | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/main.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/main.c
index f4ae16d..e224f34 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/main.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/main.c
@@ -126,7 +126,7 @@ static unsigned int stack_count(unsigned char canaryv,volatile unsigned char *a)
   return c;
 } 
 
-#define WRITE_CANARY(X) {p=X;while(p>= (X-MAXSTACK)) *(p--) = canary;}
+#define WRITE_CANARY(X) {p=X;while(p> (X-MAXSTACK)) *(--p) = canary;}
  
 int main(void)
 {
@@ -135,37 +135,38 @@ int main(void)
 	rng_enable();
 
 
-	volatile unsigned char a; /* Mark the beginning of the stack */
+	volatile unsigned char *a; /* Mark the beginning of the stack: nothing of this function lies below */
+	__asm volatile ("mov %0, sp" : "=r" (a));
 	//int i;
 	//poly sk;
 	canary = 42;
 
-	WRITE_CANARY(&a);
+	WRITE_CANARY(a);
 	crypto_kem_keypair(pk, sk_a);
-	ctr = MAXSTACK - stack_count(canary,&a);
+	ctr = MAXSTACK - stack_count(canary,a);
 	// sprintf((char *)output, "RAM usage of keygen: %d",ctr);
 	//   send_USART_str(output);
 	UART_SendTrace("RAM keygen", 10, ctr);
 
-	WRITE_CANARY(&a);
+	WRITE_CANARY(a);
 	crypto_kem_enc(sendb, key_b, pk);
-	ctr = MAXSTACK - stack_count(canary,&a);
+	ctr = MAXSTACK - stack_count(canary,a);
 	// sprintf((char *)output, "RAM usage of sharedb: %d",ctr);
 	//   send_USART_str(output);
 	UART_SendTrace("RAM encaps", 10, ctr);
 
-	WRITE_CANARY(&a);   
+	WRITE_CANARY(a);   
 	crypto_kem_dec(key_a, sendb, sk_a);
-	ctr = MAXSTACK - stack_count(canary,&a);
+	ctr = MAXSTACK - stack_count(canary,a);
 	// sprintf((char *)output, "RAM usage of shareda: %d",ctr);
 	//   send_USART_str(output);
 	UART_SendTrace("RAM decaps", 10, ctr);
 
-	WRITE_CANARY(&a);
+	WRITE_CANARY(a);
 	crypto_kem_keypair(pk, sk_a);
 	crypto_kem_enc(sendb, key_b, pk);
 	crypto_kem_dec(key_a, sendb, sk_a);
-	ctr = MAXSTACK - stack_count(canary,&a);
+	ctr = MAXSTACK - stack_count(canary,a);
 	// sprintf((char *)output, "RAM usage of KEM: %d",ctr);
 	//   send_USART_str(output);
 	UART_SendTrace("RAM total", 9, ctr);
-- 
2.43.0


From 3ddfa61d717f2c75f257b37cce7ae15c23d24637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:13 +0000
Subject: [PATCH 17/17] fix: old_POLVECq2BSX4 packs every group of eight
 coefficients, not the first one again

---
 Variants/SaberX4_avx2/pack_unpack.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/Variants/SaberX4_avx2/pack_unpack.c b/Variants/SaberX4_avx2/pack_unpack.c
index a3cb93e..e65b49a 100644
--- a/Variants/SaberX4_avx2/pack_unpack.c
+++ b/Variants/SaberX4_avx2/pack_unpack.c
@@ -953,29 +953,29 @@ void old_POLVECq2BSX4(uint8_t *bytes0, uint8_t *bytes1, uint8_t *bytes2, uint8_t
 			offset_data=8*j;
 			avx_bytes[offset_byte + 0]= _mm256_and_si256(avx_data[SABER_N *i + offset_data + 0 ],(avx_epi64_ff));
 
-			avx_bytes[offset_byte + 1]= _mm256_or_si256(_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + 0 ],8),avx_epi64_1f ),_mm256_slli_epi64(_mm256_and_si256(avx_data[SABER_N *i + 1 ],avx_epi64_07),5));
+			avx_bytes[offset_byte + 1]= _mm256_or_si256(_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + offset_data + 0 ],8),avx_epi64_1f ),_mm256_slli_epi64(_mm256_and_si256(avx_data[SABER_N *i + offset_data + 1 ],avx_epi64_07),5));
 
-			avx_bytes[offset_byte + 2]= (_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + 1 ],3),avx_epi64_ff ));
+			avx_bytes[offset_byte + 2]= (_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + offset_data + 1 ],3),avx_epi64_ff ));
 
-			avx_bytes[offset_byte + 3]= _mm256_or_si256(_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + 1 ],11),avx_epi64_03 ),_mm256_slli_epi64(_mm256_and_si256(avx_data[SABER_N *i + 2 ],avx_epi64_3f),2));
+			avx_bytes[offset_byte + 3]= _mm256_or_si256(_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + offset_data + 1 ],11),avx_epi64_03 ),_mm256_slli_epi64(_mm256_and_si256(avx_data[SABER_N *i + offset_data + 2 ],avx_epi64_3f),2));
 
-			avx_bytes[offset_byte + 4]= _mm256_or_si256(_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + 2 ],6),avx_epi64_7f ),_mm256_slli_epi64(_mm256_and_si256(avx_data[SABER_N *i + 3 ],avx_epi64_01),7));
+			avx_bytes[offset_byte + 4]= _mm256_or_si256(_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + offset_data + 2 ],6),avx_epi64_7f ),_mm256_slli_epi64(_mm256_and_si256(avx_data[SABER_N *i + offset_data + 3 ],avx_epi64_01),7));
 
-			avx_bytes[offset_byte + 5]= (_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + 3 ],1),avx_epi64_ff ));
+			avx_bytes[offset_byte + 5]= (_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + offset_data + 3 ],1),avx_epi64_ff ));
 
-			avx_bytes[offset_byte + 6]= _mm256_or_si256(_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + 3 ],9),avx_epi64_0f ),_mm256_slli_epi64(_mm256_and_si256(avx_data[SABER_N *i + 4 ],avx_epi64_0f),4));
+			avx_bytes[offset_byte + 6]= _mm256_or_si256(_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + offset_data + 3 ],9),avx_epi64_0f ),_mm256_slli_epi64(_mm256_and_si256(avx_data[SABER_N *i + offset_data + 4 ],avx_epi64_0f),4));
 
-			avx_bytes[offset_byte + 7]= (_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + 4],4),avx_epi64_ff ));
+			avx_bytes[offset_byte + 7]= (_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + offset_data + 4 ],4),avx_epi64_ff ));
 
-			avx_bytes[offset_byte + 8]= _mm256_or_si256(_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + 4 ],12),avx_epi64_01 ),_mm256_slli_epi64(_mm256_and_si256(avx_data[SABER_N *i + 5 ],avx_epi64_7f),1));
+			avx_bytes[offset_byte + 8]= _mm256_or_si256(_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + offset_data + 4 ],12),avx_epi64_01 ),_mm256_slli_epi64(_mm256_and_si256(avx_data[SABER_N *i + offset_data + 5 ],avx_epi64_7f),1));
 
-			avx_bytes[offset_byte + 9]= _mm256_or_si256(_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + 5 ],7),avx_epi64_3f ),_mm256_slli_epi64(_mm256_and_si256(avx_data[SABER_N *i + 6 ],avx_epi64_03),6));
+			avx_bytes[offset_byte + 9]= _mm256_or_si256(_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + offset_data + 5 ],7),avx_epi64_3f ),_mm256_slli_epi64(_mm256_and_si256(avx_data[SABER_N *i + offset_data + 6 ],avx_epi64_03),6));
 
-			avx_bytes[offset_byte + 10]= (_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + 6 ],2),avx_epi64_ff ));
+			avx_bytes[offset_byte + 10]= (_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + offset_data + 6 ],2),avx_epi64_ff ));
 
-			avx_bytes[offset_byte + 11]= _mm256_or_si256(_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + 6 ],10),avx_epi64_07 ),_mm256_slli_epi64(_mm256_and_si256(avx_data[SABER_N *i + 7 ],avx_epi64_1f),3));
+			avx_bytes[offset_byte + 11]= _mm256_or_si256(_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + offset_data + 6 ],10),avx_epi64_07 ),_mm256_slli_epi64(_mm256_and_si256(avx_data[SABER_N *i + offset_data + 7 ],avx_epi64_1f),3));
 
-			avx_bytes[offset_byte + 12]= (_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + 7 ],5),avx_epi64_ff));
+			avx_bytes[offset_byte + 12]= (_mm256_and_si256( _mm256_srli_epi64(avx_data[SABER_N *i + offset_data + 7 ],5),avx_epi64_ff));
 
 		}
 	}
-- 
2.43.0

