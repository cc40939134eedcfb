/* internal functions of the Cortex-M4 code under stable names and argument orders */
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include "api.h"
#include "SABER_params.h"
#define L SABER_L
#define N SABER_N
typedef uint16_t row[N];
#ifndef ONLY
const unsigned shim_sizes[4] = { CRYPTO_PUBLICKEYBYTES, CRYPTO_SECRETKEYBYTES, CRYPTO_CIPHERTEXTBYTES, CRYPTO_BYTES };
#endif
#include "SABER_indcpa.h"
#include "poly.h"
#include "poly_mul.h"
#include "pack_unpack.h"
#include "cbd.h"
#ifdef W_polymul // needs: poly_mul
void poly_mul(uint16_t a[N], uint16_t b[N], uint16_t res[N]);
void w_polymul(const uint16_t *a, const uint16_t *b, uint16_t *r)
{
    uint16_t x[N], y[N], z[N]; /* the multiplication may use its operands as scratch space and wants them aligned */
    memcpy(x, a, 512); memcpy(y, b, 512); memset(z, 0x5a, 512);
    poly_mul(x, y, z);
    memcpy(r, z, 512);
}
#endif
#ifdef W_polymulacc // needs: poly_mul_acc
void poly_mul_acc(uint16_t a[N], uint16_t b[N], uint16_t res[N]);
void w_polymulacc(const uint16_t *a, const uint16_t *b, const uint16_t *c, uint16_t *r)
{
    uint16_t x[N], y[N], z[N];
    memcpy(x, a, 512); memcpy(y, b, 512); memcpy(z, c, 512);
    poly_mul_acc(x, y, z);
    memcpy(r, z, 512);
}
#endif
#ifdef W_cbd // needs: cbd
void cbd(uint16_t s[N], const uint8_t buf[SABER_POLYCOINBYTES]);
void w_cbd(const uint8_t *b, uint16_t *r) { cbd(r, b); }
#endif
#ifdef W_gensecret // needs: GenSecret
void GenSecret(uint16_t s[L][N], uint8_t seed_s[SABER_NOISE_SEEDBYTES], int keypair);
void w_gensecret(const uint8_t *seed, uint16_t *r) { uint8_t t[32]; memcpy(t, seed, 32); GenSecret((row *)r, t, 0); }
#endif
#ifdef W_pack_T // needs: POLT2BS
void POLT2BS(uint8_t bytes[SABER_SCALEBYTES_KEM], const uint16_t data[N]);
void w_pack_T(const uint16_t *a, uint8_t *b) { POLT2BS(b, a); }
#endif
#ifdef W_unpack_T // needs: BS2POLT
void BS2POLT(const uint8_t bytes[SABER_SCALEBYTES_KEM], uint16_t data[N]);
void w_unpack_T(const uint8_t *b, uint16_t *a) { BS2POLT(b, a); }
#endif
#ifdef W_pack_q // needs: POLVECq2BS
void POLVECq2BS(uint8_t bytes[SABER_POLYVECBYTES], const uint16_t data[L][N]);
void w_pack_q(const uint16_t *a, uint8_t *b) { POLVECq2BS(b, (const row *)a); }
#endif
#ifdef W_pack_p // needs: POLVECp2BS
void POLVECp2BS(uint8_t bytes[SABER_POLYVECCOMPRESSEDBYTES], const uint16_t data[L][N]);
void w_pack_p(const uint16_t *a, uint8_t *b) { POLVECp2BS(b, (const row *)a); }
#endif
#ifdef W_unpack_q // needs: BS2POLVECq
void BS2POLVECq(const uint8_t bytes[SABER_POLYVECBYTES], uint16_t data[L][N]);
void w_unpack_q(const uint8_t *b, uint16_t *a) { BS2POLVECq(b, (row *)a); }
#endif
#ifdef W_unpack_p // needs: BS2POLVECp
void BS2POLVECp(const uint8_t bytes[SABER_POLYVECCOMPRESSEDBYTES], uint16_t data[L][N]);
void w_unpack_p(const uint8_t *b, uint16_t *a) { BS2POLVECp(b, (row *)a); }
#endif
#ifdef W_pack_msg // needs: POLmsg2BS
void POLmsg2BS(uint8_t bytes[SABER_KEYBYTES], const uint16_t data[N]);
void w_pack_msg(const uint16_t *a, uint8_t *b) { POLmsg2BS(b, a); }
#endif
#ifdef W_unpack_msg // needs: BS2POLmsg
void BS2POLmsg(const uint8_t bytes[SABER_KEYBYTES], uint16_t data[N]);
void w_unpack_msg(const uint8_t *b, uint16_t *a) { BS2POLmsg(b, a); }
#endif
#ifdef SABER_COMPRESS_SECRETKEY
#ifdef W_pack_mu // needs: POLVECmu2BS
void POLVECmu2BS(uint8_t bytes[L * N / 2], const uint16_t data[L][N]);
void w_pack_mu(const uint16_t *a, uint8_t *b) { POLVECmu2BS(b, (const row *)a); }
#endif
#ifdef W_unpack_mu // needs: BS2POLVECmu
void BS2POLVECmu(const uint8_t bytes[L * N / 2], uint16_t data[L][N]);
void w_unpack_mu(const uint8_t *b, uint16_t *a) { BS2POLVECmu(b, (row *)a); }
#endif
#endif
#ifdef W_cmp_T // needs: POLT2BS_cmp
uint32_t POLT2BS_cmp(const uint8_t bytes[SABER_SCALEBYTES_KEM], const uint16_t data[N]);
uint32_t w_cmp_T(const uint8_t *b, const uint16_t *a) { return POLT2BS_cmp(b, a); }
#endif
#ifdef W_cmp_p // needs: POLVECp2BS_cmp
uint32_t POLVECp2BS_cmp(const uint8_t bytes[SABER_POLYVECCOMPRESSEDBYTES], const uint16_t data[L][N]);
uint32_t w_cmp_p(const uint8_t *b, const uint16_t *a) { return POLVECp2BS_cmp(b, (const row *)a); }
#endif
#ifdef W_pke_enc // needs: indcpa_kem_enc
void indcpa_kem_enc(const uint8_t m[SABER_KEYBYTES], const uint8_t seed_sp[SABER_NOISE_SEEDBYTES], const uint8_t pk[SABER_INDCPA_PUBLICKEYBYTES], uint8_t ciphertext[SABER_BYTES_CCA_DEC]);
void w_pke_enc(const uint8_t *m, const uint8_t *r, const uint8_t *pk, uint8_t *ct) { indcpa_kem_enc(m, r, pk, ct); }
#endif
#ifdef W_pke_cmp // needs: indcpa_kem_enc_cmp
uint8_t indcpa_kem_enc_cmp(const uint8_t m[SABER_KEYBYTES], const uint8_t seed_sp[SABER_NOISE_SEEDBYTES], const uint8_t pk[SABER_INDCPA_PUBLICKEYBYTES], const uint8_t ciphertext[SABER_BYTES_CCA_DEC]);
int w_pke_cmp(const uint8_t *m, const uint8_t *r, const uint8_t *pk, const uint8_t *ct) { return indcpa_kem_enc_cmp(m, r, pk, ct); }
#endif
#ifdef W_pke_dec // needs: indcpa_kem_dec
void indcpa_kem_dec(const uint8_t sk[SABER_INDCPA_SECRETKEYBYTES], const uint8_t ciphertext[SABER_BYTES_CCA_DEC], uint8_t m[SABER_KEYBYTES]);
void w_pke_dec(const uint8_t *sk, const uint8_t *ct, uint8_t *m) { indcpa_kem_dec(sk, ct, m); }
#endif
