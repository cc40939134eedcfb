/* Sizes, a recording random source and bulk helpers linked into every host configuration. */
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include "api.h"
#include "rng.h"

int shim_pkbytes(void) { return CRYPTO_PUBLICKEYBYTES; }
int shim_skbytes(void) { return CRYPTO_SECRETKEYBYTES; }
int shim_ctbytes(void) { return CRYPTO_CIPHERTEXTBYTES; }
int shim_ssbytes(void) { return CRYPTO_BYTES; }
int shim_xofsize(void) { return sizeof(AES_XOF_struct); }

/* randombytes as called by the KEM code: recorded, and in feed mode answered from a script */
extern int __real_randombytes(unsigned char *x, unsigned long long xlen);
static int feeding;
static const unsigned char *feed; static size_t feed_len, feed_pos;
static unsigned char rec[1 << 16]; static size_t rec_len;
static uint32_t req[4096]; static size_t nreq; static int starved;

void shim_feed(const unsigned char *b, size_t n) { feeding = 1; feed = b; feed_len = n; feed_pos = 0; }
void shim_nofeed(void) { feeding = 0; feed = 0; feed_len = feed_pos = 0; }
void shim_reset(void) { rec_len = 0; nreq = 0; starved = 0; }
size_t shim_nreq(void) { return nreq; }
uint32_t shim_req(size_t i) { return req[i]; }
const unsigned char *shim_rec(void) { return rec; }
size_t shim_reclen(void) { return rec_len; }
int shim_starved(void) { return starved; }

int __wrap_randombytes(unsigned char *x, unsigned long long xlen)
{
    int rc = 0;
    if (feeding) {
        unsigned long long i;
        for (i = 0; i < xlen; i++) {
            if (feed_pos < feed_len) x[i] = feed[feed_pos++];
            else { x[i] = (unsigned char)(0xA5 + i); starved = 1; }
        }
    } else
        rc = __real_randombytes(x, xlen);
    if (nreq < 4096) req[nreq++] = (uint32_t)xlen;
    if (rec_len + xlen <= sizeof rec) { memcpy(rec + rec_len, x, xlen); rec_len += xlen; }
    return rc;
}
/* the generator itself, not through the recording wrapper */
int shim_randombytes(unsigned char *x, unsigned long long xlen) { return __real_randombytes(x, xlen); }
/* the test programs bring this one along (they include cpucycles.c); time is not observable here */
__attribute__((weak)) uint64_t cpucycles(void) { static uint64_t t; return t += 1000; }
