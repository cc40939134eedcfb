/* the same computation on the host and in the interpreter: must give the same words */
#include <stdint.h>
#include <stddef.h>
#include <string.h>

static uint32_t rs;
static uint32_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 17; rs ^= rs << 5; return rs; }
static uint32_t acc;
static void mix(uint32_t x) { acc = (acc ^ x) * 0x9E3779B1u; acc ^= acc >> 15; }
static void mix64(uint64_t x) { mix((uint32_t)x); mix((uint32_t)(x >> 32)); }

struct bits { unsigned a : 3; int b : 7; unsigned c : 13; int d : 9; uint16_t h[5]; int8_t e[7]; uint64_t w; };
static volatile uint32_t vol;
static uint16_t tab[64];
static const int16_t ctab[8] = { -3, 7, -32768, 32767, 0, 1, -1, 255 };

__attribute__((noinline)) static uint32_t pick(uint32_t k, uint32_t x, uint32_t y)
{
    switch (k % 23) {
    case 0: return x + y; case 1: return x - y; case 2: return x * y; case 3: return x & ~y; case 4: return x | ~y;
    case 5: return x ^ y; case 6: return x << (y & 31); case 7: return x >> (y & 31); case 8: return (uint32_t)((int32_t)x >> (y & 31));
    case 9: return (x >> (y & 31)) | (x << ((32 - (y & 31)) & 31)); case 10: return y ? x / y : 7; case 11: return y ? x % y : 9;
    case 12: return y && !(x == 0x80000000u && y == ~0u) ? (uint32_t)((int32_t)x / (int32_t)y) : 1;
    case 13: return (uint32_t)(int16_t)x * (uint32_t)(int16_t)(y >> 16) + x; case 14: return x < y ? x : y; case 15: return (int32_t)x < (int32_t)y ? x : y;
    case 16: return __builtin_bswap32(x) ^ (uint16_t)y; case 17: return x ? (uint32_t)__builtin_clz(x) : 32; case 18: return (uint32_t)(int8_t)x + (uint8_t)y;
    case 19: return ((x & 0xFFFF) | (y << 16)) + ((x >> 16) | (y & 0xFFFF0000u)); case 20: return x == y ? 1 : (x > y ? 2 : 3);
    case 21: return (x >> 5 & 0x3FF) | (y & 7) << 13; default: return ~x + (uint32_t)ctab[y & 7];
    }
}
__attribute__((noinline)) static uint64_t pick64(uint32_t k, uint64_t x, uint64_t y)
{
    switch (k % 15) {
    case 0: return x + y; case 1: return x - y; case 2: return x * y; case 3: return x << (y & 63); case 4: return x >> (y & 63);
    case 5: return (uint64_t)((int64_t)x >> (y & 63)); case 6: return (x << (y & 63)) | (x >> ((64 - (y & 63)) & 63)); case 7: return y ? x / y : 1;
    case 8: return y ? x % y : 1; case 9: return (uint64_t)((int64_t)(int32_t)x * (int32_t)y) + x; case 10: return (uint64_t)(uint32_t)x * (uint32_t)y - y;
    case 11: return x < y ? x : y; case 12: return (int64_t)x < (int64_t)y; case 13: return ~x & (y ^ x);
    default: return x ^ (x << 1) ^ ((x >> 63) * 0x1B);
    }
}
__attribute__((noinline)) static int six(int a, int b, int c, int d, int64_t e, int f) { return a - b * 3 + (c ^ d) - (int)(e >> 7) + f; }

__attribute__((noinline)) static void arrays(void)
{
    uint16_t a[64], b[64]; uint8_t s[300], t[300]; struct bits x, y; int i, j;
    for (i = 0; i < 64; i++) { a[i] = rnd(); b[i] = rnd(); tab[i] += a[i]; }
    for (i = 0; i < 300; i++) s[i] = rnd();
    for (i = 0; i < 64; i++) { uint16_t r = 0; for (j = 0; j <= i; j++) r += a[j] * b[i - j]; mix(r & 0x1FFF); }
    memcpy(t, s + 3, 280); memmove(t + 5, t + 1, 250); memset(t + 200, 0x5a, 31);
    for (i = 0; i < 300 - 20; i++) mix(t[i] ^ s[(i * 7) % 300]);
    for (i = 0; i < 30; i++) { /* 13-bit packing and unpacking at odd addresses */
        uint32_t v = s[i + 1] | s[i + 2] << 8 | (uint32_t)s[i + 3] << 16 | (uint32_t)s[i + 4] << 24;
        mix((v >> (i & 7)) & 0x1FFF); mix((uint32_t)(int32_t)(int16_t)(a[i] << 3) >> 3);
    }
    memset(&x, 0, sizeof x);
    x.a = s[0]; x.b = s[1]; x.c = s[2] * 77; x.d = -s[3]; x.w = 0x123456789ull * s[4];
    for (i = 0; i < 5; i++) x.h[i] = a[i]; for (i = 0; i < 7; i++) x.e[i] = s[i];
    y = x; y.c += y.b; y.d -= y.e[3];
    mix(y.a + y.b + y.c + y.d); mix64(y.w >> y.a); for (i = 0; i < 7; i++) mix(y.e[i] * y.h[i % 5]);
    vol = a[5]; for (i = 0; i < 5; i++) vol += vol << 1; mix(vol);
    for (i = 63; i >= 0; i--) mix(tab[i] + (a[i] > b[i] ? a[i] - b[i] : b[i] >> 1));
}

#ifdef __ARM_FEATURE_DSP
#define D2(n) static uint32_t n(uint32_t x, uint32_t y) { uint32_t r; __asm__(#n " %0, %1, %2" : "=r"(r) : "r"(x), "r"(y)); return r; }
#define D3(n) static uint32_t n(uint32_t x, uint32_t y, uint32_t z) { uint32_t r; __asm__(#n " %0, %1, %2, %3" : "=r"(r) : "r"(x), "r"(y), "r"(z)); return r; }
#define LO(x) ((int32_t)(int16_t)(x))
#define HI(x) ((int32_t)(int16_t)((x) >> 16))
#else
#define D2(n) static uint32_t n(uint32_t x, uint32_t y)
#define D3(n) static uint32_t n(uint32_t x, uint32_t y, uint32_t z)
#define LO(x) ((int32_t)(int16_t)(x))
#define HI(x) ((int32_t)(int16_t)((x) >> 16))
#define PK(h, l) (((uint32_t)(h) << 16) | ((uint32_t)(l) & 0xFFFF))
static int32_t s16(int32_t v) { return v > 32767 ? 32767 : v < -32768 ? -32768 : v; }
static uint32_t sat32(int64_t v) { return v > 2147483647ll ? 2147483647u : v < -2147483648ll ? 0x80000000u : (uint32_t)v; }
#endif
D2(uadd16)
#ifndef __ARM_FEATURE_DSP
{ return PK((x >> 16) + (y >> 16), x + y); }
#endif
D2(usub16)
#ifndef __ARM_FEATURE_DSP
{ return PK((x >> 16) - (y >> 16), x - y); }
#endif
D2(sadd16)
#ifndef __ARM_FEATURE_DSP
{ return uadd16(x, y); }
#endif
D2(ssub16)
#ifndef __ARM_FEATURE_DSP
{ return usub16(x, y); }
#endif
D2(sasx)
#ifndef __ARM_FEATURE_DSP
{ return PK(HI(x) + LO(y), LO(x) - HI(y)); }
#endif
D2(ssax)
#ifndef __ARM_FEATURE_DSP
{ return PK(HI(x) - LO(y), LO(x) + HI(y)); }
#endif
D2(uhadd16)
#ifndef __ARM_FEATURE_DSP
{ return PK(((x >> 16) + (y >> 16)) >> 1, ((x & 0xFFFF) + (y & 0xFFFF)) >> 1); }
#endif
D2(shsub16)
#ifndef __ARM_FEATURE_DSP
{ return PK((HI(x) - HI(y)) >> 1, (LO(x) - LO(y)) >> 1); }
#endif
D2(qadd16)
#ifndef __ARM_FEATURE_DSP
{ return PK(s16(HI(x) + HI(y)), s16(LO(x) + LO(y))); }
#endif
D2(qadd)
#ifndef __ARM_FEATURE_DSP
{ return sat32((int64_t)(int32_t)x + (int32_t)y); }
#endif
D2(qsub)
#ifndef __ARM_FEATURE_DSP
{ return sat32((int64_t)(int32_t)x - (int32_t)y); }
#endif
D2(uadd8)
#ifndef __ARM_FEATURE_DSP
{ uint32_t r = 0; for (int i = 0; i < 32; i += 8) r |= (((x >> i) + (y >> i)) & 255) << i; return r; }
#endif
D2(smulbb)
#ifndef __ARM_FEATURE_DSP
{ return LO(x) * LO(y); }
#endif
D2(smulbt)
#ifndef __ARM_FEATURE_DSP
{ return LO(x) * HI(y); }
#endif
D2(smultb)
#ifndef __ARM_FEATURE_DSP
{ return HI(x) * LO(y); }
#endif
D2(smultt)
#ifndef __ARM_FEATURE_DSP
{ return HI(x) * HI(y); }
#endif
D2(smuad)
#ifndef __ARM_FEATURE_DSP
{ return (uint32_t)(LO(x) * LO(y)) + (uint32_t)(HI(x) * HI(y)); }
#endif
D2(smuadx)
#ifndef __ARM_FEATURE_DSP
{ return (uint32_t)(LO(x) * HI(y)) + (uint32_t)(HI(x) * LO(y)); }
#endif
D2(smusd)
#ifndef __ARM_FEATURE_DSP
{ return (uint32_t)(LO(x) * LO(y)) - (uint32_t)(HI(x) * HI(y)); }
#endif
D2(smusdx)
#ifndef __ARM_FEATURE_DSP
{ return (uint32_t)(LO(x) * HI(y)) - (uint32_t)(HI(x) * LO(y)); }
#endif
D2(smmul)
#ifndef __ARM_FEATURE_DSP
{ return ((uint64_t)((int64_t)(int32_t)x * (int32_t)y)) >> 32; }
#endif
D2(smulwb)
#ifndef __ARM_FEATURE_DSP
{ return (uint32_t)(((int64_t)(int32_t)x * LO(y)) >> 16); }
#endif
D2(smulwt)
#ifndef __ARM_FEATURE_DSP
{ return (uint32_t)(((int64_t)(int32_t)x * HI(y)) >> 16); }
#endif
D2(sxtab16)
#ifndef __ARM_FEATURE_DSP
{ return PK((x >> 16) + (int8_t)(y >> 16), x + (int8_t)y); }
#endif
D2(uxtab16)
#ifndef __ARM_FEATURE_DSP
{ return PK((x >> 16) + (uint8_t)(y >> 16), x + (uint8_t)y); }
#endif
D2(uxtah)
#ifndef __ARM_FEATURE_DSP
{ return x + (uint16_t)y; }
#endif
D2(sxtab)
#ifndef __ARM_FEATURE_DSP
{ return x + (int8_t)y; }
#endif
D3(smlabb)
#ifndef __ARM_FEATURE_DSP
{ return (uint32_t)(LO(x) * LO(y)) + z; }
#endif
D3(smlatt)
#ifndef __ARM_FEATURE_DSP
{ return (uint32_t)(HI(x) * HI(y)) + z; }
#endif
D3(smlabt)
#ifndef __ARM_FEATURE_DSP
{ return (uint32_t)(LO(x) * HI(y)) + z; }
#endif
D3(smlad)
#ifndef __ARM_FEATURE_DSP
{ return smuad(x, y) + z; }
#endif
D3(smladx)
#ifndef __ARM_FEATURE_DSP
{ return smuadx(x, y) + z; }
#endif
D3(smlsd)
#ifndef __ARM_FEATURE_DSP
{ return smusd(x, y) + z; }
#endif
D3(smmla)
#ifndef __ARM_FEATURE_DSP
{ return ((uint64_t)((int64_t)(int32_t)x * (int32_t)y) + ((uint64_t)z << 32)) >> 32; }
#endif
D3(mls)
#ifndef __ARM_FEATURE_DSP
{ return z - x * y; }
#endif
D3(usada8)
#ifndef __ARM_FEATURE_DSP
{ for (int i = 0; i < 32; i += 8) { int d = (int)(x >> i & 255) - (int)(y >> i & 255); z += d < 0 ? -d : d; } return z; }
#endif
static uint32_t packs(uint32_t x, uint32_t y)
{
#ifdef __ARM_FEATURE_DSP
    uint32_t r, s, t, u, v;
    __asm__("pkhbt %0, %1, %2, lsl #5" : "=r"(r) : "r"(x), "r"(y)); __asm__("pkhtb %0, %1, %2, asr #9" : "=r"(s) : "r"(x), "r"(y));
    __asm__("pkhbt %0, %1, %2" : "=r"(t) : "r"(x), "r"(y)); __asm__("uxth %0, %1, ror #8" : "=r"(u) : "r"(x)); __asm__("sxtb16 %0, %1, ror #16" : "=r"(v) : "r"(x));
    return r ^ s * 3 ^ t * 5 ^ u * 7 ^ v * 9;
#else
    uint32_t r = (x & 0xFFFF) | ((y << 5) & 0xFFFF0000u), s = (x & 0xFFFF0000u) | (((int32_t)y >> 9) & 0xFFFF), t = (x & 0xFFFF) | (y & 0xFFFF0000u);
    uint32_t u = (uint16_t)(x >> 8), z = (x >> 16) | (x << 16), v = PK((int8_t)(z >> 16), (int8_t)z);
    return r ^ s * 3 ^ t * 5 ^ u * 7 ^ v * 9;
#endif
}
static uint32_t sats(uint32_t x)
{
#ifdef __ARM_FEATURE_DSP
    uint32_t r, s, t;
    __asm__("ssat %0, #13, %1" : "=r"(r) : "r"(x)); __asm__("usat %0, #9, %1, asr #4" : "=r"(s) : "r"(x)); __asm__("ssat %0, #17, %1, lsl #3" : "=r"(t) : "r"(x));
    return r ^ s * 3 ^ t * 5;
#else
    int32_t a = (int32_t)x, b = (int32_t)x >> 4, c = (int32_t)(x << 3);
    a = a > 4095 ? 4095 : a < -4096 ? -4096 : a; b = b > 511 ? 511 : b < 0 ? 0 : b; c = c > 65535 ? 65535 : c < -65536 ? -65536 : c;
    return (uint32_t)a ^ (uint32_t)b * 3 ^ (uint32_t)c * 5;
#endif
}
static uint64_t longs(uint32_t x, uint32_t y, uint64_t z)
{
#ifdef __ARM_FEATURE_DSP
    uint32_t l = (uint32_t)z, h = z >> 32, m = l, n = h, o = l, p = h;
    __asm__("smlald %0, %1, %2, %3" : "+r"(l), "+r"(h) : "r"(x), "r"(y)); __asm__("smlalbt %0, %1, %2, %3" : "+r"(m), "+r"(n) : "r"(x), "r"(y));
    __asm__("umaal %0, %1, %2, %3" : "+r"(o), "+r"(p) : "r"(x), "r"(y));
    return ((uint64_t)h << 32 | l) ^ 3 * ((uint64_t)n << 32 | m) ^ 5 * ((uint64_t)p << 32 | o);
#else
    uint64_t a = z + (uint64_t)((int64_t)LO(x) * LO(y) + (int64_t)HI(x) * HI(y)), b = z + (uint64_t)(int64_t)(LO(x) * HI(y));
    uint64_t c = (uint64_t)x * y + (uint32_t)z + (z >> 32);
    return a ^ 3 * b ^ 5 * c;
#endif
}
static void dsp(uint32_t x, uint32_t y, uint32_t z)
{
    mix(uadd16(x, y)); mix(usub16(x, y)); mix(sadd16(x, y)); mix(ssub16(x, y)); mix(sasx(x, y)); mix(ssax(x, y)); mix(uhadd16(x, y)); mix(shsub16(x, y));
    mix(qadd16(x, y)); mix(qadd(x, y)); mix(qsub(x, y)); mix(uadd8(x, y)); mix(smulbb(x, y)); mix(smulbt(x, y)); mix(smultb(x, y)); mix(smultt(x, y));
    mix(smuad(x, y)); mix(smuadx(x, y)); mix(smusd(x, y)); mix(smusdx(x, y)); mix(smmul(x, y)); mix(smulwb(x, y)); mix(smulwt(x, y));
    mix(sxtab16(x, y)); mix(uxtab16(x, y)); mix(uxtah(x, y)); mix(sxtab(x, y)); mix(smlabb(x, y, z)); mix(smlatt(x, y, z)); mix(smlabt(x, y, z));
    mix(smlad(x, y, z)); mix(smladx(x, y, z)); mix(smlsd(x, y, z)); mix(smmla(x, y, z)); mix(mls(x, y, z)); mix(usada8(x, y, z));
    mix(packs(x, y)); mix(sats(x)); mix64(longs(x, y, (uint64_t)z << 32 | (x ^ y)));
}

void selftest(uint32_t seed, uint32_t n, uint32_t withdsp, uint32_t *out)
{
    static const uint32_t special[12] = { 0, 1, ~0u, 0x80000000u, 0x7FFFFFFF, 0xFFFF, 0x8000, 0xFFFF0000u, 0x80008000u, 0x7FFF7FFF, 31, 32 };
    uint32_t i;
    rs = seed | 1; acc = seed; memset(tab, 0, sizeof tab);
    for (i = 0; i < n; i++) {
        uint32_t k = rnd(), x = k & 0x100 ? special[(k >> 9) % 12] : rnd(), y = k & 0x10000 ? special[(k >> 17) % 12] : rnd();
        uint64_t a = (uint64_t)rnd() << 32 | x, b = (uint64_t)(k & 0x200 ? 0 : rnd()) << 32 | y;
        mix(pick(k, x, y)); mix64(pick64(k, a, b)); mix(six(x & 0xFFFF, y & 0xFFF, (int)x, (int)y, (int64_t)(a >> 8), 5));
        if (withdsp) dsp(x, y, rnd());
        if (i % 16 == 0) arrays();
        if (i % (n / 8) == n / 8 - 1) out[i / (n / 8)] = acc;
    }
}
