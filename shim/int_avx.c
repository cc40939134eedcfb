#include <immintrin.h>
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include "api.h"
#include "SABER_params.h"
#include "poly.h"
#include "pack_unpack.h"
#include "cbd.h"
#include "SABER_indcpa.h"
#define L SABER_K
#define N SABER_N
typedef uint16_t row[N];
typedef __m256i arow[16];
static inline void ld(const uint16_t *a, __m256i *v, int n) { for (int i = 0; i < n * 16; i++) v[i] = _mm256_loadu_si256((const __m256i *)(a + 16 * i)); }
static inline void st(uint16_t *a, const __m256i *v, int n) { for (int i = 0; i < n * 16; i++) _mm256_storeu_si256((__m256i *)(a + 16 * i), v[i]); }
#ifdef W_inner // needs: vector_vector_mul TC_eval load_values
void load_values(void);
void TC_eval(__m256i *b_avx, __m256i *b_bucket);
void vector_vector_mul(__m256i a[L][16], __m256i b_bucket[L][64], __m256i res[16]);
void w_inner(const uint16_t *b, const uint16_t *s, uint16_t *r)
{
    __m256i av[L][16], sv[L][16], bb[L][64], res[16];
    ld(b, av[0], L); ld(s, sv[0], L); memset(res, 0, sizeof res);
    load_values();
    for (int j = 0; j < L; j++) TC_eval(sv[j], bb[j]);
    vector_vector_mul(av, bb, res);
    st(r, res, 1);
}
#endif
#ifdef W_matvec // needs: matrix_vector_mul TC_eval load_values
void load_values(void);
void TC_eval(__m256i *b_avx, __m256i *b_bucket);
void matrix_vector_mul(__m256i a[L][L][16], __m256i b_bucket[L][64], __m256i res[L][16], int t);
void w_matvec(const uint16_t *a, const uint16_t *s, uint16_t *r, int t)
{
    __m256i av[L][L][16], sv[L][16], bb[L][64], res[L][16];
    ld(a, av[0][0], L * L); ld(s, sv[0], L); memset(res, 0, sizeof res);
    load_values();
    for (int j = 0; j < L; j++) TC_eval(sv[j], bb[j]);
    matrix_vector_mul(av, bb, res, t);
    st(r, res[0], L);
}
#endif
#ifdef W_cbd // needs: cbd
void cbd(uint16_t *r, const unsigned char *buf);
void w_cbd(const uint8_t *b, uint16_t *r) { cbd(r, b); }
#endif
#ifdef W_gensecret // needs: GenSecret
void GenSecret(uint16_t r[L][N], const unsigned char *seed);
void w_gensecret(const uint8_t *seed, uint16_t *r) { GenSecret((row *)r, seed); }
#endif
#ifdef W_genmatrix // needs: GenMatrix
void GenMatrix(polyvec *a, const unsigned char *seed);
void w_genmatrix(const uint8_t *seed, uint16_t *r)
{
    polyvec a[L];
    GenMatrix(a, seed);
    for (int i = 0; i < L; i++) for (int j = 0; j < L; j++) memcpy(r + (i * L + j) * N, a[i].vec[j].coeffs, 512);
}
#endif
#ifdef W_pack_q // needs: POLVEC2BS
void POLVEC2BS(uint8_t *bytes, uint16_t data[L][N], uint16_t modulus);
void w_pack_q(const uint16_t *a, uint8_t *b) { uint16_t d[L][N]; memcpy(d, a, sizeof d); POLVEC2BS(b, d, SABER_Q); }
#endif
#ifdef W_pack_p // needs: POLVEC2BS
void POLVEC2BS(uint8_t *bytes, uint16_t data[L][N], uint16_t modulus);
void w_pack_p(const uint16_t *a, uint8_t *b) { uint16_t d[L][N]; memcpy(d, a, sizeof d); POLVEC2BS(b, d, SABER_P); }
#endif
#ifdef W_unpack_q // needs: BS2POLVEC
void BS2POLVEC(const unsigned char *bytes, uint16_t data[L][N], uint16_t modulus);
void w_unpack_q(const uint8_t *b, uint16_t *a) { BS2POLVEC(b, (row *)a, SABER_Q); }
#endif
#ifdef W_unpack_p // needs: BS2POLVEC
void BS2POLVEC(const unsigned char *bytes, uint16_t data[L][N], uint16_t modulus);
void w_unpack_p(const uint8_t *b, uint16_t *a) { BS2POLVEC(b, (row *)a, SABER_P); }
#endif
#ifdef W_pack_T // needs: SABER_pack_3bit SABER_pack_4bit SABER_pack_6bit
void SABER_pack_3bit(uint8_t *bytes, uint16_t *data);
void SABER_pack_4bit(uint8_t *bytes, uint16_t *data);
void SABER_pack_6bit(uint8_t *bytes, uint16_t *data);
void w_pack_T(const uint16_t *a, uint8_t *b)
{
    uint16_t d[N]; memcpy(d, a, sizeof d);
    if (SABER_ET == 3) SABER_pack_3bit(b, d); else if (SABER_ET == 4) SABER_pack_4bit(b, d); else SABER_pack_6bit(b, d);
}
#endif
#ifdef W_unpack_T // needs: SABER_un_pack3bit SABER_un_pack4bit SABER_un_pack6bit
void SABER_un_pack3bit(uint8_t *bytes, uint16_t *data);
void SABER_un_pack4bit(const unsigned char *bytes, uint16_t *Mask_ar);
void SABER_un_pack6bit(const unsigned char *bytes, uint16_t *data);
void w_unpack_T(const uint8_t *b, uint16_t *a)
{
    uint8_t d[SABER_ET * 32]; memcpy(d, b, sizeof d);
    if (SABER_ET == 3) SABER_un_pack3bit(d, a); else if (SABER_ET == 4) SABER_un_pack4bit(d, a); else SABER_un_pack6bit(d, a);
}
#endif
#ifdef W_pack_msg // needs: POL2MSG
void POL2MSG(uint16_t *message_dec_unpacked, unsigned char *message_dec);
void w_pack_msg(const uint16_t *a, uint8_t *b) { uint16_t d[N]; memcpy(d, a, sizeof d); POL2MSG(d, b); }
#endif
#ifdef W_pke_enc // needs: indcpa_kem_enc
void indcpa_kem_enc(unsigned char *message, unsigned char *noiseseed, const unsigned char *pk, unsigned char *ciphertext);
void w_pke_enc(const uint8_t *m, const uint8_t *r, const uint8_t *pk, uint8_t *ct) { uint8_t mm[32], rr[32]; memcpy(mm, m, 32); memcpy(rr, r, 32); indcpa_kem_enc(mm, rr, pk, ct); }
#endif
#ifdef W_pke_dec // needs: indcpa_kem_dec
void indcpa_kem_dec(const unsigned char *sk, const unsigned char *ciphertext, unsigned char *message_dec);
void w_pke_dec(const uint8_t *sk, const uint8_t *ct, uint8_t *m) { indcpa_kem_dec(sk, ct, m); }
#endif
#ifdef W_pack_3 // needs: SABER_pack_3bit
void w_pack_3(const uint16_t *a, uint8_t *b) { uint16_t d[N]; memcpy(d, a, sizeof d); SABER_pack_3bit(b, d); }
#endif
#ifdef W_unpack_3 // needs: SABER_un_pack3bit
void w_unpack_3(const uint8_t *b, uint16_t *a) { uint8_t d[3 * 32]; memcpy(d, b, sizeof d); SABER_un_pack3bit(d, a); }
#endif
#ifdef W_pack_4 // needs: SABER_pack_4bit
void w_pack_4(const uint16_t *a, uint8_t *b) { uint16_t d[N]; memcpy(d, a, sizeof d); SABER_pack_4bit(b, d); }
#endif
#ifdef W_unpack_4 // needs: SABER_un_pack4bit
void w_unpack_4(const uint8_t *b, uint16_t *a) { uint8_t d[4 * 32]; memcpy(d, b, sizeof d); SABER_un_pack4bit(d, a); }
#endif
#ifdef W_pack_6 // needs: SABER_pack_6bit
void w_pack_6(const uint16_t *a, uint8_t *b) { uint16_t d[N]; memcpy(d, a, sizeof d); SABER_pack_6bit(b, d); }
#endif
#ifdef W_unpack_6 // needs: SABER_un_pack6bit
void w_unpack_6(const uint8_t *b, uint16_t *a) { uint8_t d[6 * 32]; memcpy(d, b, sizeof d); SABER_un_pack6bit(d, a); }
#endif
#ifdef W_pack_10 // needs: SABER_pack10bit
void w_pack_10(const uint16_t *a, uint8_t *b) { uint16_t d[L][N]; memcpy(d, a, sizeof d); SABER_pack10bit(b, d); }
#endif
#ifdef W_unpack_10 // needs: SABER_un_pack10bit
void w_unpack_10(const uint8_t *b, uint16_t *a) { uint8_t d[10 * 32 * L]; memcpy(d, b, sizeof d); SABER_un_pack10bit(d, (row *)a); }
#endif
#ifdef W_pack_11 // needs: SABER_pack11bit
void w_pack_11(const uint16_t *a, uint8_t *b) { uint16_t d[L][N]; memcpy(d, a, sizeof d); SABER_pack11bit(b, d); }
#endif
#ifdef W_unpack_11 // needs: SABER_un_pack11bit
void w_unpack_11(const uint8_t *b, uint16_t *a) { uint8_t d[11 * 32 * L]; memcpy(d, b, sizeof d); SABER_un_pack11bit(d, (row *)a); }
#endif
#ifdef W_pack_13 // needs: SABER_pack13bit
void w_pack_13(const uint16_t *a, uint8_t *b) { uint16_t d[L][N]; memcpy(d, a, sizeof d); SABER_pack13bit(b, d); }
#endif
#ifdef W_unpack_13 // needs: SABER_un_pack13bit
void w_unpack_13(const uint8_t *b, uint16_t *a) { uint8_t d[13 * 32 * L]; memcpy(d, b, sizeof d); SABER_un_pack13bit(d, (row *)a); }
#endif
#ifdef W_pack_14 // needs: SABER_pack14bit
void w_pack_14(const uint16_t *a, uint8_t *b) { uint16_t d[L][N]; memcpy(d, a, sizeof d); SABER_pack14bit(b, d); }
#endif
#ifdef W_unpack_14 // needs: SABER_un_pack14bit
void w_unpack_14(const uint8_t *b, uint16_t *a) { uint8_t d[14 * 32 * L]; memcpy(d, b, sizeof d); SABER_un_pack14bit(d, (row *)a); }
#endif
#ifdef W_unpack_13p // needs: SABER_poly_un_pack13bit
void w_unpack_13p(const uint8_t *b, uint16_t *a) { SABER_poly_un_pack13bit(b, a); }
#endif
#ifdef W_pack_vp // needs: POLVECp2BS
void POLVECp2BS(uint8_t *bytes, uint16_t data[L][N]);
void w_pack_vp(const uint16_t *a, uint8_t *b) { uint16_t d[L][N]; memcpy(d, a, sizeof d); POLVECp2BS(b, d); }
#endif
#ifdef W_unpack_vp // needs: BS2POLVECp
void BS2POLVECp(const unsigned char *bytes, uint16_t data[L][N]);
void w_unpack_vp(const uint8_t *b, uint16_t *a) { BS2POLVECp(b, (row *)a); }
#endif
#ifdef W_pack_vq // needs: POLVECq2BS
void POLVECq2BS(uint8_t *bytes, uint16_t data[L][N]);
void w_pack_vq(const uint16_t *a, uint8_t *b) { uint16_t d[L][N]; memcpy(d, a, sizeof d); POLVECq2BS(b, d); }
#endif
#ifdef W_unpack_vq // needs: BS2POLVECq
void BS2POLVECq(const unsigned char *bytes, uint16_t data[L][N]);
void w_unpack_vq(const uint8_t *b, uint16_t *a) { BS2POLVECq(b, (row *)a); }
#endif
