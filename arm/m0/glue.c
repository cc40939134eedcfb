/* internal functions of the Cortex-M0 code under stable names and argument orders */
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include "api.h"
#include "SABER_params.h"
#define L SABER_K
#define N SABER_N
typedef uint16_t row[N];
typedef unsigned long long ull;
#ifndef ONLY
const unsigned shim_sizes[4] = { CRYPTO_PUBLICKEYBYTES, CRYPTO_SECRETKEYBYTES, CRYPTO_CIPHERTEXTBYTES, CRYPTO_BYTES };
#endif
#include "pack_unpack.h"
#include "poly_mul.h"
#include "cbd.h"
#include "poly.h"
#include "fips202.h"
#ifdef W_polymul // needs: pol_mul
void pol_mul(uint16_t *a, uint16_t *b, uint16_t *res);
void w_polymul(const uint16_t *a, const uint16_t *b, uint16_t *r)
{
    uint16_t x[N], y[N], z[N];
    memcpy(x, a, 512); memcpy(y, b, 512); memset(z, 0, 512);
    pol_mul(x, y, z);
    memcpy(r, z, 512);
}
#endif
#ifdef W_polymulacc // needs: pol_mul
void pol_mul(uint16_t *a, uint16_t *b, uint16_t *res);
void w_polymulacc(const uint16_t *a, const uint16_t *b, const uint16_t *c, uint16_t *r)
{
    uint16_t x[N], y[N], z[N];
    memcpy(x, a, 512); memcpy(y, b, 512); memcpy(z, c, 512);
    pol_mul(x, y, z);
    memcpy(r, z, 512);
}
#endif
#ifdef W_cbd // needs: cbd
void cbd(uint16_t start, uint16_t *r, uint16_t use_bytes, const unsigned char *buf);
void w_cbd(const uint8_t *b, uint16_t *r) { cbd(0, r, N, b); }
#endif
#ifdef W_gensecret // needs: GenSecret
void GenSecret(uint16_t r[L][N], const unsigned char *seed);
void w_gensecret(const uint8_t *seed, uint16_t *r) { GenSecret((row *)r, seed); }
#endif
#ifdef W_genmatrix // needs: GenMatrix_poly
void GenMatrix_poly(uint16_t t[], const unsigned char *seed, uint16_t n);
void w_genmatrix(const uint8_t *seed, uint16_t *r) /* row by row; the generator delivers one polynomial per call */
{
    for (int n = 0; n < L * L; n++) GenMatrix_poly(r + N * n, seed, n);
}
#endif
#ifdef W_genmatrix_one // needs: GenMatrix_poly
void GenMatrix_poly(uint16_t t[], const unsigned char *seed, uint16_t n);
void w_genmatrix_one(const uint8_t *seed, uint16_t *r, uint32_t n) { GenMatrix_poly(r, seed, n); }
#endif
#ifdef W_pack_T // needs: SABER_pack_4bit
void SABER_pack_4bit(uint8_t *bytes, uint16_t *data);
void w_pack_T(const uint16_t *a, uint8_t *b) { SABER_pack_4bit(b, (uint16_t *)a); }
#endif
#ifdef W_unpack_T // needs: SABER_un_pack4bit
void SABER_un_pack4bit(const unsigned char *bytes, uint16_t *a);
void w_unpack_T(const uint8_t *b, uint16_t *a) { SABER_un_pack4bit(b, a); }
#endif
#ifdef W_pack_3 // needs: SABER_pack_3bit
void SABER_pack_3bit(uint8_t *bytes, uint16_t *data);
void w_pack_3(const uint16_t *a, uint8_t *b) { SABER_pack_3bit(b, (uint16_t *)a); }
#endif
#ifdef W_unpack_3 // needs: SABER_un_pack3bit
void SABER_un_pack3bit(uint8_t *bytes, uint16_t *a);
void w_unpack_3(const uint8_t *b, uint16_t *a) { SABER_un_pack3bit((uint8_t *)b, a); }
#endif
#ifdef W_pack_6 // needs: SABER_pack_6bit
void SABER_pack_6bit(uint8_t *bytes, uint16_t *data);
void w_pack_6(const uint16_t *a, uint8_t *b) { SABER_pack_6bit(b, (uint16_t *)a); }
#endif
#ifdef W_unpack_6 // needs: SABER_un_pack6bit
void SABER_un_pack6bit(const unsigned char *bytes, uint16_t *a);
void w_unpack_6(const uint8_t *b, uint16_t *a) { SABER_un_pack6bit(b, a); }
#endif
#ifdef W_pack_q // needs: POLVECq2BS
void POLVECq2BS(uint8_t *b, uint16_t a[L][N]);
void w_pack_q(const uint16_t *a, uint8_t *b) { POLVECq2BS(b, (row *)a); }
#endif
#ifdef W_unpack_q // needs: BS2POLVECq
void BS2POLVECq(const unsigned char *b, uint16_t a[L][N]);
void w_unpack_q(const uint8_t *b, uint16_t *a) { BS2POLVECq(b, (row *)a); }
#endif
#ifdef W_unpack_q1 // needs: BS2POLq
void BS2POLq(const unsigned char *b, uint16_t a[N]);
void w_unpack_q1(const uint8_t *b, uint16_t *a) { BS2POLq(b, a); }
#endif
#ifdef W_pack_p // needs: POLVECp2BS
void POLVECp2BS(uint8_t *b, uint16_t a[L][N]);
void w_pack_p(const uint16_t *a, uint8_t *b) { POLVECp2BS(b, (row *)a); }
#endif
#ifdef W_unpack_p // needs: BS2POLVECp
void BS2POLVECp(const unsigned char *b, uint16_t a[L][N]);
void w_unpack_p(const uint8_t *b, uint16_t *a) { BS2POLVECp(b, (row *)a); }
#endif
#ifdef W_pack_p1 // needs: POLp2BS
void POLp2BS(uint8_t *b, uint16_t a[N], uint16_t n);
void w_pack_p1(const uint16_t *a, uint8_t *b) { for (int n = L; n--;) POLp2BS(b, (uint16_t *)a + N * n, n); }
#endif
#ifdef W_unpack_p1 // needs: BS2POLp
void BS2POLp(uint16_t n, const unsigned char *b, uint16_t a[]);
void w_unpack_p1(const uint8_t *b, uint16_t *a) { for (int n = L; n--;) BS2POLp(n, b, a + N * n); }
#endif
#ifdef W_pack_msg // needs: POL2MSG
void POL2MSG(uint16_t *a, unsigned char *b);
void w_pack_msg(const uint16_t *a, uint8_t *b) { POL2MSG((uint16_t *)a, b); }
#endif
#ifdef W_pke_enc // needs: indcpa_kem_enc
void indcpa_kem_enc(unsigned char *m, unsigned char *r, const unsigned char *pk, unsigned char *ct);
void w_pke_enc(const uint8_t *m, const uint8_t *r, const uint8_t *pk, uint8_t *ct) { indcpa_kem_enc((uint8_t *)m, (uint8_t *)r, pk, ct); }
#endif
#ifdef W_pke_dec // needs: indcpa_kem_dec
void indcpa_kem_dec(const unsigned char *sk, const unsigned char *ct, unsigned char *m);
void w_pke_dec(const uint8_t *sk, const uint8_t *ct, uint8_t *m) { indcpa_kem_dec(sk, ct, m); }
#endif
#ifdef W_sha3_256 // needs: sha3_256
void w_sha3_256(uint8_t *out, const uint8_t *in, uint32_t n) { sha3_256(out, in, n); }
#endif
#ifdef W_sha3_512 // needs: sha3_512
void w_sha3_512(uint8_t *out, const uint8_t *in, uint32_t n) { sha3_512(out, in, n); }
#endif
#ifdef W_shake128 // needs: shake128
void w_shake128(uint8_t *out, uint32_t k, const uint8_t *in, uint32_t n) { shake128(out, k, in, n); }
#endif
#ifdef W_shake256 // needs: shake256
void w_shake256(uint8_t *out, uint32_t k, const uint8_t *in, uint32_t n) { shake256(out, k, in, n); }
#endif
#ifdef W_shake128_inc // needs: shake128_absorb shake128_squeezeblocks
/* whole blocks, a few at a time; the state holds anything before */
void w_shake128_inc(uint8_t *out, uint32_t k, const uint8_t *in, uint32_t n)
{
    uint64_t s[25];
    memset(s, 0x5a, sizeof s);
    shake128_absorb(s, in, n);
    for (uint32_t a = 0, b = 1; a < k; a += b, b = b % 3 + 1) {
        if (b > k - a) b = k - a;
        shake128_squeezeblocks(out + 168 * a, b, s);
    }
}
#endif
#ifdef W_shake256_inc // needs: shake256_absorb shake256_squeezeblocks
void w_shake256_inc(uint8_t *out, uint32_t k, const uint8_t *in, uint32_t n)
{
    uint64_t s[25];
    memset(s, 0x5a, sizeof s);
    shake256_absorb(s, in, n);
    for (uint32_t a = 0, b = 1; a < k; a += b, b = b % 3 + 1) {
        if (b > k - a) b = k - a;
        shake256_squeezeblocks(out + 136 * a, b, s);
    }
}
#endif
#ifdef W_cshake128 // needs: cshake128_simple
void w_cshake128(uint8_t *out, uint32_t k, uint32_t c, const uint8_t *in, uint32_t n) { cshake128_simple(out, k, c, in, n); }
#endif
#ifdef W_cshake256 // needs: cshake256_simple
void w_cshake256(uint8_t *out, uint32_t k, uint32_t c, const uint8_t *in, uint32_t n) { cshake256_simple(out, k, c, in, n); }
#endif
#ifdef W_verify // needs: verify
int verify(const unsigned char *a, const unsigned char *b, size_t len);
int w_verify(const uint8_t *a, const uint8_t *b, uint32_t n) { return verify(a, b, n); }
#endif
#ifdef W_cmov // needs: cmov
void cmov(unsigned char *r, const unsigned char *x, size_t len, unsigned char b);
void w_cmov(uint8_t *r, const uint8_t *x, uint32_t n, uint32_t b) { cmov(r, x, n, b); }
#endif
