#include <immintrin.h>
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include "api.h"
#include "SABER_params.h"
#include "poly.h"
#include "pack_unpack.h"
#include "cbd.h"
#include "SABER_indcpa.h"
#define L SABER_K
#define N SABER_N
#define AL __attribute__((aligned(64)))
typedef uint16_t row[N];
static inline void ld(const uint16_t *a, __m256i *v, int n) { for (int i = 0; i < n * 16; i++) v[i] = _mm256_loadu_si256((const __m256i *)(a + 16 * i)); }
static inline void st(uint16_t *a, const __m256i *v, int n) { for (int i = 0; i < n * 16; i++) _mm256_storeu_si256((__m256i *)(a + 16 * i), v[i]); }
void init_aux_avx(void);
#ifdef W_inner // needs: vector_vector_mul TC_eval load_values
void load_values(void);
void TC_eval(__m256i *b_avx, __m256i *b_bucket);
void vector_vector_mul(__m256i a[L][16], __m256i b_bucket[L][64], __m256i res[16]);
void w_inner(const uint16_t *b, const uint16_t *s, uint16_t *r)
{
    __m256i av[L][16], sv[L][16], bb[L][64], res[16];
    ld(b, av[0], L); ld(s, sv[0], L); memset(res, 0, sizeof res);
    load_values();
    for (int j = 0; j < L; j++) TC_eval(sv[j], bb[j]);
    vector_vector_mul(av, bb, res);
    st(r, res, 1);
}
#endif
#ifdef W_matvec // needs: matrix_vector_mul TC_eval load_values
void load_values(void);
void TC_eval(__m256i *b_avx, __m256i *b_bucket);
void matrix_vector_mul(__m256i a[L][L][16], __m256i b_bucket[L][64], __m256i res[L][16], int t);
void w_matvec(const uint16_t *a, const uint16_t *s, uint16_t *r, int t)
{
    __m256i av[L][L][16], sv[L][16], bb[L][64], res[L][16];
    ld(a, av[0][0], L * L); ld(s, sv[0], L); memset(res, 0, sizeof res);
    load_values();
    for (int j = 0; j < L; j++) TC_eval(sv[j], bb[j]);
    matrix_vector_mul(av, bb, res, t);
    st(r, res[0], L);
}
#endif
#ifdef W_cbd // needs: cbd
void cbd(uint16_t *r, const unsigned char *buf);
void w_cbd(const uint8_t *b, uint16_t *r) { cbd(r, b); }
#endif
#ifdef W_gensecret4 // needs: GenSecret4x
void GenSecret4x(uint16_t r0[L][N], uint16_t r1[L][N], uint16_t r2[L][N], uint16_t r3[L][N],
                 const unsigned char *s0, const unsigned char *s1, const unsigned char *s2, const unsigned char *s3);
void w_gensecret4(const uint8_t *seed, uint16_t *r)
{
    AL uint16_t d[4][L][N];
    GenSecret4x(d[0], d[1], d[2], d[3], seed, seed + 32, seed + 64, seed + 96);
    memcpy(r, d, sizeof d);
}
#endif
#ifdef W_genmatrix4 // needs: GenMatrix4x init_aux_avx
void GenMatrix4x(polyvecNew *a0, polyvecNew *a1, polyvecNew *a2, polyvecNew *a3,
                 const unsigned char *s0, const unsigned char *s1, const unsigned char *s2, const unsigned char *s3);
void w_genmatrix4(const uint8_t *seed, uint16_t *r)
{
    polyvecNew a[4][L];
    init_aux_avx();
    GenMatrix4x(a[0], a[1], a[2], a[3], seed, seed + 32, seed + 64, seed + 96);
    for (int l = 0; l < 4; l++) for (int i = 0; i < L; i++) for (int j = 0; j < L; j++)
        memcpy(r + ((l * L + i) * L + j) * N, &a[l][i].vec[j], 512);
}
#endif
#if defined(W_pack_q4) || defined(W_pack_p4)
static void pack4(const uint16_t *a, uint8_t *b, int w, uint16_t mod)
{
    AL uint16_t d[4][L][N]; AL uint8_t o[4][L * 13 * N / 8 + 64];
    int n = L * w * N / 8;
    memcpy(d, a, sizeof d);
    init_aux_avx();
    POLVEC2BSX4(o[0], o[1], o[2], o[3], d[0], d[1], d[2], d[3], mod);
    for (int i = 0; i < 4; i++) memcpy(b + i * n, o[i], n);
}
#endif
#ifdef W_pack_q4 // needs: POLVEC2BSX4 init_aux_avx
void w_pack_q4(const uint16_t *a, uint8_t *b) { pack4(a, b, 13, SABER_Q); }
#endif
#ifdef W_pack_p4 // needs: POLVEC2BSX4 init_aux_avx
void w_pack_p4(const uint16_t *a, uint8_t *b) { pack4(a, b, 10, SABER_P); }
#endif
#if defined(W_unpack_q4) || defined(W_unpack_p4)
static void unpack4(const uint8_t *b, uint16_t *a, int w, uint16_t mod)
{
    AL uint8_t d[4][L * 13 * N / 8 + 64]; __m256i o[4][L][N / 16];
    int n = L * w * N / 8;
    for (int i = 0; i < 4; i++) memcpy(d[i], b + i * n, n);
    init_aux_avx();
    BS2POLVECX4(d[0], d[1], d[2], d[3], o[0], o[1], o[2], o[3], mod);
    memcpy(a, o, sizeof o);
}
#endif
#ifdef W_unpack_q4 // needs: BS2POLVECX4 init_aux_avx
void w_unpack_q4(const uint8_t *b, uint16_t *a) { unpack4(b, a, 13, SABER_Q); }
#endif
#ifdef W_unpack_p4 // needs: BS2POLVECX4 init_aux_avx
void w_unpack_p4(const uint8_t *b, uint16_t *a) { unpack4(b, a, 10, SABER_P); }
#endif
#ifdef W_unpack_T4 // needs: SABER_un_pack4bitX4
void w_unpack_T4(const uint8_t *b, uint16_t *a)
{
    AL uint8_t d[4][128]; AL uint16_t o[4][N];
    memcpy(d, b, sizeof d);
    SABER_un_pack4bitX4(d[0], d[1], d[2], d[3], o[0], o[1], o[2], o[3]);
    memcpy(a, o, sizeof o);
}
#endif
#ifdef W_pack_msg // needs: POL2MSG
void POL2MSG(uint16_t *message_dec_unpacked, unsigned char *message_dec);
void w_pack_msg(const uint16_t *a, uint8_t *b) { uint16_t d[N]; memcpy(d, a, sizeof d); POL2MSG(d, b); }
#endif
#ifdef W_pke_enc4 // needs: indcpa_kem_enc init_aux_avx
void w_pke_enc4(const uint8_t *m, const uint8_t *r, const uint8_t *pk, uint8_t *ct)
{
    AL uint8_t mm[4][32], rr[4][32], p[4][SABER_INDCPA_PUBLICKEYBYTES], c[4][CRYPTO_CIPHERTEXTBYTES / 4];
    memcpy(mm, m, 128); memcpy(rr, r, 128); memcpy(p, pk, sizeof p);
    init_aux_avx();
    indcpa_kem_enc(mm[0], mm[1], mm[2], mm[3], rr[0], rr[1], rr[2], rr[3], p[0], c[0], p[1], c[1], p[2], c[2], p[3], c[3]);
    memcpy(ct, c, sizeof c);
}
#endif
#ifdef W_pack_3 // needs: SABER_pack_3bit
void w_pack_3(const uint16_t *a, uint8_t *b) { uint16_t d[N]; memcpy(d, a, sizeof d); SABER_pack_3bit(b, d); }
#endif
#ifdef W_unpack_3 // needs: SABER_un_pack3bit
void w_unpack_3(const uint8_t *b, uint16_t *a) { uint8_t d[3 * 32]; memcpy(d, b, sizeof d); SABER_un_pack3bit(d, a); }
#endif
#ifdef W_pack_4 // needs: SABER_pack_4bit
void w_pack_4(const uint16_t *a, uint8_t *b) { uint16_t d[N]; memcpy(d, a, sizeof d); SABER_pack_4bit(b, d); }
#endif
#ifdef W_unpack_4 // needs: SABER_un_pack4bit
void w_unpack_4(const uint8_t *b, uint16_t *a) { uint8_t d[4 * 32]; memcpy(d, b, sizeof d); SABER_un_pack4bit(d, a); }
#endif
#ifdef W_pack_6 // needs: SABER_pack_6bit
void w_pack_6(const uint16_t *a, uint8_t *b) { uint16_t d[N]; memcpy(d, a, sizeof d); SABER_pack_6bit(b, d); }
#endif
#ifdef W_unpack_6 // needs: SABER_un_pack6bit
void w_unpack_6(const uint8_t *b, uint16_t *a) { uint8_t d[6 * 32]; memcpy(d, b, sizeof d); SABER_un_pack6bit(d, a); }
#endif
#ifdef W_pack_10 // needs: SABER_pack10bit
void w_pack_10(const uint16_t *a, uint8_t *b) { uint16_t d[L][N]; memcpy(d, a, sizeof d); SABER_pack10bit(b, d); }
#endif
#ifdef W_unpack_10 // needs: SABER_un_pack10bit
void w_unpack_10(const uint8_t *b, uint16_t *a) { uint8_t d[10 * 32 * L]; memcpy(d, b, sizeof d); SABER_un_pack10bit(d, (row *)a); }
#endif
#ifdef W_pack_11 // needs: SABER_pack11bit
void w_pack_11(const uint16_t *a, uint8_t *b) { uint16_t d[L][N]; memcpy(d, a, sizeof d); SABER_pack11bit(b, d); }
#endif
#ifdef W_unpack_11 // needs: SABER_un_pack11bit
void w_unpack_11(const uint8_t *b, uint16_t *a) { uint8_t d[11 * 32 * L]; memcpy(d, b, sizeof d); SABER_un_pack11bit(d, (row *)a); }
#endif
#ifdef W_pack_13 // needs: SABER_pack13bit
void w_pack_13(const uint16_t *a, uint8_t *b) { uint16_t d[L][N]; memcpy(d, a, sizeof d); SABER_pack13bit(b, d); }
#endif
#ifdef W_unpack_13 // needs: SABER_un_pack13bit
void w_unpack_13(const uint8_t *b, uint16_t *a) { uint8_t d[13 * 32 * L]; memcpy(d, b, sizeof d); SABER_un_pack13bit(d, (row *)a); }
#endif
#ifdef W_pack_14 // needs: SABER_pack14bit
void w_pack_14(const uint16_t *a, uint8_t *b) { uint16_t d[L][N]; memcpy(d, a, sizeof d); SABER_pack14bit(b, d); }
#endif
#ifdef W_unpack_14 // needs: SABER_un_pack14bit
void w_unpack_14(const uint8_t *b, uint16_t *a) { uint8_t d[14 * 32 * L]; memcpy(d, b, sizeof d); SABER_un_pack14bit(d, (row *)a); }
#endif
#ifdef W_unpack_13p // needs: SABER_poly_un_pack13bit
void w_unpack_13p(const uint8_t *b, uint16_t *a) { SABER_poly_un_pack13bit(b, a); }
#endif
#ifdef W_pack_vp // needs: POLVECp2BS
void POLVECp2BS(uint8_t *bytes, uint16_t data[L][N]);
void w_pack_vp(const uint16_t *a, uint8_t *b) { uint16_t d[L][N]; memcpy(d, a, sizeof d); POLVECp2BS(b, d); }
#endif
#ifdef W_unpack_vp // needs: BS2POLVECp
void BS2POLVECp(const unsigned char *bytes, uint16_t data[L][N]);
void w_unpack_vp(const uint8_t *b, uint16_t *a) { BS2POLVECp(b, (row *)a); }
#endif
#ifdef W_pack_vq // needs: POLVECq2BS
void POLVECq2BS(uint8_t *bytes, uint16_t data[L][N]);
void w_pack_vq(const uint16_t *a, uint8_t *b) { uint16_t d[L][N]; memcpy(d, a, sizeof d); POLVECq2BS(b, d); }
#endif
#ifdef W_unpack_vq // needs: BS2POLVECq
void BS2POLVECq(const unsigned char *bytes, uint16_t data[L][N]);
void w_unpack_vq(const uint8_t *b, uint16_t *a) { BS2POLVECq(b, (row *)a); }
#endif
#ifdef W_pack_q // needs: POLVEC2BS
void w_pack_q(const uint16_t *a, uint8_t *b) { uint16_t d[L][N]; memcpy(d, a, sizeof d); POLVEC2BS(b, d, SABER_Q); }
#endif
#ifdef W_pack_p // needs: POLVEC2BS
void w_pack_p(const uint16_t *a, uint8_t *b) { uint16_t d[L][N]; memcpy(d, a, sizeof d); POLVEC2BS(b, d, SABER_P); }
#endif
#ifdef W_unpack_q // needs: BS2POLVEC
void w_unpack_q(const uint8_t *b, uint16_t *a) { BS2POLVEC(b, (row *)a, SABER_Q); }
#endif
#ifdef W_unpack_p // needs: BS2POLVEC
void w_unpack_p(const uint8_t *b, uint16_t *a) { BS2POLVEC(b, (row *)a, SABER_P); }
#endif
#ifdef W_unpack_q1 // needs: BS2POLq
void BS2POLq(const unsigned char *bytes, uint16_t data[N]);
void w_unpack_q1(const uint8_t *b, uint16_t *a) { BS2POLq(b, a); }
#endif
#ifdef W_pack_T4 // needs: SABER_pack_4bitX4 init_aux_avx
void w_pack_T4(const uint16_t *a, uint8_t *b)
{
    AL uint16_t d[4][N]; AL uint8_t o[4][128 + 64];
    memcpy(d, a, sizeof d);
    init_aux_avx();
    SABER_pack_4bitX4(o[0], o[1], o[2], o[3], d[0], d[1], d[2], d[3]);
    for (int i = 0; i < 4; i++) memcpy(b + 128 * i, o[i], 128);
}
#endif
#ifdef W_pack_13x4 // needs: SABER_pack13bitX4 init_aux_avx
void SABER_pack13bitX4(uint8_t *, uint8_t *, uint8_t *, uint8_t *, uint16_t [L][N], uint16_t [L][N], uint16_t [L][N], uint16_t [L][N]);
void w_pack_13x4(const uint16_t *a, uint8_t *b)
{
    AL uint16_t d[4][L][N]; AL uint8_t o[4][L * 13 * N / 8 + 64];
    int n = L * 13 * N / 8;
    memcpy(d, a, sizeof d);
    init_aux_avx();
    SABER_pack13bitX4(o[0], o[1], o[2], o[3], d[0], d[1], d[2], d[3]);
    for (int i = 0; i < 4; i++) memcpy(b + i * n, o[i], n);
}
#endif
#ifdef W_pack_oq4 // needs: old_POLVECq2BSX4 init_aux_avx
void old_POLVECq2BSX4(uint8_t *, uint8_t *, uint8_t *, uint8_t *, uint16_t [L][N], uint16_t [L][N], uint16_t [L][N], uint16_t [L][N]);
void w_pack_oq4(const uint16_t *a, uint8_t *b)
{
    AL uint16_t d[4][L][N]; AL uint8_t o[4][L * 13 * N / 8 + 64];
    int n = L * 13 * N / 8;
    memcpy(d, a, sizeof d);
    init_aux_avx();
    old_POLVECq2BSX4(o[0], o[1], o[2], o[3], d[0], d[1], d[2], d[3]);
    for (int i = 0; i < 4; i++) memcpy(b + i * n, o[i], n);
}
#endif
#ifdef W_pack_op4 // needs: old_POLVECp2BSX4 init_aux_avx
void old_POLVECp2BSX4(uint8_t *, uint8_t *, uint8_t *, uint8_t *, uint16_t [L][N], uint16_t [L][N], uint16_t [L][N], uint16_t [L][N]);
void w_pack_op4(const uint16_t *a, uint8_t *b)
{
    AL uint16_t d[4][L][N]; AL uint8_t o[4][L * 10 * N / 8 + 64];
    int n = L * 10 * N / 8;
    memcpy(d, a, sizeof d);
    init_aux_avx();
    old_POLVECp2BSX4(o[0], o[1], o[2], o[3], d[0], d[1], d[2], d[3]);
    for (int i = 0; i < 4; i++) memcpy(b + i * n, o[i], n);
}
#endif
#ifdef W_unpack_oq4 // needs: old_BS2POLVECqX4 init_aux_avx
void old_BS2POLVECqX4(const unsigned char *, const unsigned char *, const unsigned char *, const unsigned char *, __m256i [L][N / 16], __m256i [L][N / 16], __m256i [L][N / 16], __m256i [L][N / 16]);
void w_unpack_oq4(const uint8_t *b, uint16_t *a)
{
    AL uint8_t d[4][L * 13 * N / 8 + 64]; __m256i o[4][L][N / 16];
    int n = L * 13 * N / 8;
    for (int i = 0; i < 4; i++) memcpy(d[i], b + i * n, n);
    init_aux_avx();
    old_BS2POLVECqX4(d[0], d[1], d[2], d[3], o[0], o[1], o[2], o[3]);
    memcpy(a, o, sizeof o);
}
#endif
#ifdef W_unpack_op4 // needs: old_BS2POLVECpX4 init_aux_avx
void old_BS2POLVECpX4(const unsigned char *, const unsigned char *, const unsigned char *, const unsigned char *, __m256i [L][N / 16], __m256i [L][N / 16], __m256i [L][N / 16], __m256i [L][N / 16]);
void w_unpack_op4(const uint8_t *b, uint16_t *a)
{
    AL uint8_t d[4][L * 10 * N / 8 + 64]; __m256i o[4][L][N / 16];
    int n = L * 10 * N / 8;
    for (int i = 0; i < 4; i++) memcpy(d[i], b + i * n, n);
    init_aux_avx();
    old_BS2POLVECpX4(d[0], d[1], d[2], d[3], o[0], o[1], o[2], o[3]);
    memcpy(a, o, sizeof o);
}
#endif
#ifdef W_addbyte // needs: KeccakP1600times4_AddBytes
#include "keccak4x/KeccakP-1600-times4-SnP.h"
void w_addbyte(void *s, unsigned int k, unsigned int v, unsigned int off) { KeccakP1600times4_AddByte(s, k, (unsigned char)v, off); }
#endif
