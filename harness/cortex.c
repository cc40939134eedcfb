/* The C code of the Cortex-M directories on the host, every access checked by the address
 * sanitizer: commands on stdin, results on stdout. The assembly parts are replaced: Keccak,
 * and for the M4 the product of two polynomials. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "api.h"
#include "SABER_params.h"

static uint8_t feed[256]; static size_t nfeed, pfeed;
static unsigned reqs[64], nreq;
static int take(uint8_t *x, size_t n)
{
    if (nreq < 64) reqs[nreq++] = n;
    for (size_t i = 0; i < n; i++) x[i] = pfeed < nfeed ? feed[pfeed++] : 0xA5;
    return 0;
}

#define ROL(x, n) ((n) ? (x) << (n) | (x) >> (64 - (n)) : (x))
void KeccakF1600_StatePermute(uint64_t *a)
{
    uint8_t lfsr = 1;
    for (int r = 0; r < 24; r++) {
        uint64_t c[5], b[25];
        for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        for (int x = 0; x < 5; x++) { uint64_t d = c[(x + 4) % 5] ^ ROL(c[(x + 1) % 5], 1); for (int y = 0; y < 25; y += 5) a[x + y] ^= d; }
        int x = 1, y = 0; b[0] = a[0];
        for (int t = 0; t < 24; t++) {
            int n = ((t + 1) * (t + 2) / 2) % 64;
            int u = y, v = (2 * x + 3 * y) % 5;
            b[u + 5 * v] = ROL(a[x + 5 * y], n);
            x = u; y = v;
        }
        for (y = 0; y < 25; y += 5) for (x = 0; x < 5; x++) a[x + y] = b[x + y] ^ (~b[(x + 1) % 5 + y] & b[(x + 2) % 5 + y]);
        for (int j = 0; j < 7; j++) {
            if (lfsr & 1) a[0] ^= 1ull << ((1 << j) - 1);
            lfsr = lfsr << 1 ^ (lfsr >> 7) * 0x71;
        }
    }
}
#ifdef M0
void KeccakF1600_StateXORBytes(uint64_t *s, const unsigned char *d, unsigned o, unsigned n) { while (n--) { s[o / 8] ^= (uint64_t)*d++ << 8 * (o % 8); o++; } }
void KeccakF1600_StateExtractBytes(uint64_t *s, unsigned char *d, unsigned o, unsigned n) { while (n--) { *d++ = s[o / 8] >> 8 * (o % 8); o++; } }
void KeccakF1600_StateInitialize(uint64_t *s) { memset(s, 0, 200); }
void KeccakF1600_Initialize(void) { }
void randombytes(unsigned char *x, unsigned long long n) { take(x, n); }
#else
#include "fips202.h"
#include "randombytes.h"
int randombytes(uint8_t *x, size_t n) { return take(x, n); }
static void initc(uint64_t *s) { memset(s, 0, 26 * 8); }
static void xorb(uint64_t *s, size_t i, uint8_t v) { s[i / 8] ^= (uint64_t)v << 8 * (i % 8); }
static void absorb(uint64_t *s, unsigned r, const uint8_t *in, size_t n)
{
    while (n--) { xorb(s, s[25]++, *in++); if (s[25] == r) { KeccakF1600_StatePermute(s); s[25] = 0; } }
}
static void finish(uint64_t *s, unsigned r, uint8_t p) { xorb(s, s[25], p); xorb(s, r - 1, 128); s[25] = 0; }
static void squeeze(uint8_t *o, size_t n, uint64_t *s, unsigned r)
{
    while (n--) {
        if (!s[25]) { KeccakF1600_StatePermute(s); s[25] = r; }
        *o++ = s[(r - s[25]) / 8] >> 8 * ((r - s[25]) % 8);
        s[25]--;
    }
}
static void sponge(uint8_t *o, size_t k, const uint8_t *in, size_t n, unsigned r, uint8_t p)
{
    uint64_t s[26]; initc(s); absorb(s, r, in, n); finish(s, r, p); squeeze(o, k, s, r);
}
#define X(name, r) \
void name##_inc_init(name##incctx *s) { initc(s->ctx); } \
void name##_inc_absorb(name##incctx *s, const uint8_t *in, size_t n) { absorb(s->ctx, r, in, n); } \
void name##_inc_finalize(name##incctx *s) { finish(s->ctx, r, 0x1f); } \
void name##_inc_squeeze(uint8_t *o, size_t n, name##incctx *s) { squeeze(o, n, s->ctx, r); } \
void name##_inc_ctx_release(name##incctx *s) { (void)s; } \
void name(uint8_t *o, size_t k, const uint8_t *in, size_t n) { sponge(o, k, in, n, r, 0x1f); }
X(shake128, 168)
X(shake256, 136)
void sha3_256(uint8_t *o, const uint8_t *in, size_t n) { sponge(o, 32, in, n, 136, 6); }
void sha3_512(uint8_t *o, const uint8_t *in, size_t n) { sponge(o, 64, in, n, 72, 6); }
#ifdef PRODUCT
static void product(const uint16_t *a, const uint16_t *b, uint16_t *r)
{
    for (int i = 0; i < 256; i++) for (int j = 0; j < 256; j++) {
        uint32_t t = (uint32_t)a[i] * b[j];
        if (i + j < 256) r[i + j] += t; else r[i + j - 256] -= t;
    }
}
void poly_mul_acc(uint16_t a[256], uint16_t b[256], uint16_t r[256]) { product(a, b, r); }
void poly_mul(uint16_t a[256], uint16_t b[256], uint16_t r[256]) { uint16_t t[256] = {0}; product(a, b, t); memcpy(r, t, 512); }
#endif
#endif

int crypto_kem_keypair(unsigned char *pk, unsigned char *sk);
int crypto_kem_enc(unsigned char *ct, unsigned char *ss, const unsigned char *pk);
int crypto_kem_dec(unsigned char *ss, const unsigned char *ct, const unsigned char *sk);
static uint8_t *in(size_t n) { uint8_t *x = malloc(n); if (fread(x, 1, n, stdin) != n) exit(0); return x; }
static uint8_t *out(size_t n) { uint8_t *x = malloc(n); memset(x, 0xCC, n); return x; }
static void put(const uint8_t *x, size_t n) { for (size_t i = 0; i < n; i++) printf("%02x", x[i]); putchar(' '); }
int main(void)
{
    enum { PK = CRYPTO_PUBLICKEYBYTES, SK = CRYPTO_SECRETKEYBYTES, CT = CRYPTO_CIPHERTEXTBYTES, SS = CRYPTO_BYTES };
    printf("%d %d %d %d\n", PK, SK, CT, SS); fflush(stdout);
    for (int c; (c = getchar()) != EOF;) {
        uint8_t *pk = 0, *sk = 0, *ct = 0, *k = 0; int rc = 99;
        nfeed = getchar(); if (fread(feed, 1, nfeed, stdin) != nfeed) return 0;
        pfeed = nreq = 0;
        if (c == 'k') { pk = out(PK); sk = out(SK); rc = crypto_kem_keypair(pk, sk); put(pk, PK); put(sk, SK); }
        if (c == 'e') { pk = in(PK); ct = out(CT); k = out(SS); rc = crypto_kem_enc(ct, k, pk); put(ct, CT); put(k, SS); }
        if (c == 'd') { ct = in(CT); sk = in(SK); k = out(SS); rc = crypto_kem_dec(k, ct, sk); put(k, SS); }
        printf("%d ", rc); for (unsigned i = 0; i < nreq; i++) printf("%u,", reqs[i]); printf("\n"); fflush(stdout);
        free(pk); free(sk); free(ct); free(k);
    }
}
