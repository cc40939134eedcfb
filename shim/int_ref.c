#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include "SABER_params.h"
#include "poly.h"
#include "poly_mul.h"
#include "pack_unpack.h"
#include "cbd.h"
#include "SABER_indcpa.h"
#define L SABER_L
#define N SABER_N
typedef uint16_t row[N];
#ifdef W_polymul // needs: poly_mul_acc
void poly_mul_acc(const uint16_t a[N], const uint16_t b[N], uint16_t res[N]);
void w_polymul(const uint16_t *a, const uint16_t *b, uint16_t *r) { memset(r, 0, 512); poly_mul_acc(a, b, r); }
#endif
#ifdef W_inner // needs: InnerProd
void InnerProd(const uint16_t b[L][N], const uint16_t s[L][N], uint16_t res[N]);
void w_inner(const uint16_t *b, const uint16_t *s, uint16_t *r) { memset(r, 0, 512); InnerProd((const row *)b, (const row *)s, r); }
#endif
#ifdef W_matvec // needs: MatrixVectorMul
void MatrixVectorMul(const uint16_t a[L][L][N], const uint16_t s[L][N], uint16_t res[L][N], int16_t transpose);
void w_matvec(const uint16_t *a, const uint16_t *s, uint16_t *r, int t) { memset(r, 0, 512 * L); MatrixVectorMul((const row (*)[L])a, (const row *)s, (row *)r, t); }
#endif
#ifdef W_cbd // needs: cbd
void cbd(uint16_t s[N], const uint8_t buf[SABER_POLYCOINBYTES]);
void w_cbd(const uint8_t *b, uint16_t *r) { cbd(r, b); }
#endif
#ifdef W_gensecret // needs: GenSecret
void GenSecret(uint16_t s[L][N], const uint8_t seed[SABER_NOISE_SEEDBYTES]);
void w_gensecret(const uint8_t *seed, uint16_t *r) { GenSecret((row *)r, seed); }
#endif
#ifdef W_genmatrix // needs: GenMatrix
void GenMatrix(uint16_t a[L][L][N], const uint8_t seed[SABER_SEEDBYTES]);
void w_genmatrix(const uint8_t *seed, uint16_t *r) { GenMatrix((row (*)[L])r, seed); }
#endif
#ifdef W_pack_T // needs: POLT2BS
void POLT2BS(uint8_t bytes[SABER_SCALEBYTES_KEM], const uint16_t data[N]);
void w_pack_T(const uint16_t *a, uint8_t *b) { POLT2BS(b, a); }
#endif
#ifdef W_unpack_T // needs: BS2POLT
void BS2POLT(const uint8_t bytes[SABER_SCALEBYTES_KEM], uint16_t data[N]);
void w_unpack_T(const uint8_t *b, uint16_t *a) { BS2POLT(b, a); }
#endif
#ifdef W_pack_q // needs: POLVECq2BS
void POLVECq2BS(uint8_t bytes[SABER_POLYVECBYTES], const uint16_t data[L][N]);
void w_pack_q(const uint16_t *a, uint8_t *b) { POLVECq2BS(b, (const row *)a); }
#endif
#ifdef W_pack_p // needs: POLVECp2BS
void POLVECp2BS(uint8_t bytes[SABER_POLYVECCOMPRESSEDBYTES], const uint16_t data[L][N]);
void w_pack_p(const uint16_t *a, uint8_t *b) { POLVECp2BS(b, (const row *)a); }
#endif
#ifdef W_unpack_q // needs: BS2POLVECq
void BS2POLVECq(const uint8_t bytes[SABER_POLYVECBYTES], uint16_t data[L][N]);
void w_unpack_q(const uint8_t *b, uint16_t *a) { BS2POLVECq(b, (row *)a); }
#endif
#ifdef W_unpack_p // needs: BS2POLVECp
void BS2POLVECp(const uint8_t bytes[SABER_POLYVECCOMPRESSEDBYTES], uint16_t data[L][N]);
void w_unpack_p(const uint8_t *b, uint16_t *a) { BS2POLVECp(b, (row *)a); }
#endif
#ifdef W_pack_msg // needs: POLmsg2BS
void POLmsg2BS(uint8_t bytes[SABER_KEYBYTES], const uint16_t data[N]);
void w_pack_msg(const uint16_t *a, uint8_t *b) { POLmsg2BS(b, a); }
#endif
#ifdef W_unpack_msg // needs: BS2POLmsg
void BS2POLmsg(const uint8_t bytes[SABER_KEYBYTES], uint16_t data[N]);
void w_unpack_msg(const uint8_t *b, uint16_t *a) { BS2POLmsg(b, a); }
#endif
#ifdef W_pke_enc // needs: indcpa_kem_enc
void indcpa_kem_enc(const uint8_t m[SABER_KEYBYTES], const uint8_t seed_sp[SABER_NOISE_SEEDBYTES], const uint8_t pk[SABER_INDCPA_PUBLICKEYBYTES], uint8_t ciphertext[SABER_BYTES_CCA_DEC]);
void w_pke_enc(const uint8_t *m, const uint8_t *r, const uint8_t *pk, uint8_t *ct) { indcpa_kem_enc(m, r, pk, ct); }
#endif
#ifdef W_pke_dec // needs: indcpa_kem_dec
void indcpa_kem_dec(const uint8_t sk[SABER_INDCPA_SECRETKEYBYTES], const uint8_t ciphertext[SABER_BYTES_CCA_DEC], uint8_t m[SABER_KEYBYTES]);
void w_pke_dec(const uint8_t *sk, const uint8_t *ct, uint8_t *m) { indcpa_kem_dec(sk, ct, m); }
#endif
