/* the random source with its initialisation under a stable name */
#include "prng.c"
#include <string.h>
int w_prng_init(const uint16_t *key, uint32_t size)
{
    PRNG_INIT p;
    for (int i = 0; i < 5; i++) p.key_words[i] = key[i];
    p.block_size = size;
    return PRNG_Init(&p);
}
