/* An interpreter for the ARMv6-M and ARMv7E-M (Thumb, Thumb-2, DSP; no floating point)
 * instruction sets, with per-byte access rights, a scriptable random source, a Keccak
 * service for the code's fips202.h and a model of the XMC1100's peripherals. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

enum { OK = 0, UNSUPPORTED = 1, FAULT = 2, LIMIT = 3 };
enum { PR = 1, PW = 2, PX = 4 };
#define NREG 16
#define STOP 0xFFFFFFFEu

typedef struct { uint32_t base, size; uint8_t *mem, *perm; } region;
typedef struct {
    uint32_t r[16];
    int n, z, c, v, q, ge;
    uint8_t it;
    int m0;
    region reg[NREG]; int nreg, last;
    int status; uint32_t fault_addr, fault_pc; char what[96];
    uint64_t count; uint32_t minsp;
    /* random source of the KEM */
    const uint8_t *feed; size_t nfeed, pfeed; int starved;
    uint32_t req[64]; size_t nreq; uint8_t rec[8192]; size_t nrec;
    /* peripherals */
    uint16_t *words; size_t nwords, pwords; size_t taken;
    uint32_t ctrl; int busy, latency; 
    struct { uint32_t addr, val; int wr; } log[65536]; size_t nlog; int logging;
    struct { uint32_t addr, val; } io[256]; int nio; uint32_t tick;
    /* time (when it is modelled): SysTick, interrupt mask, serial port */
    int timing, slow, primask, handling, pending, lag, lagging; uint64_t now, seen, wake; uint32_t vector, csr, rvr, cvr;
    uint32_t drain; uint64_t shifter; uint32_t fifo; uint8_t line[1 << 18]; size_t nline, lost;
    const uint8_t *rx; size_t nrx, prx;
    struct { uint32_t addr; int id, leave; uint32_t sp; } probe[16]; int nprobe;
    struct { int id; uint64_t at; uint32_t sp, low; } hit[256]; size_t nhit;
    uint32_t floor, low;   /* lowest address written at or above floor since the last entry */
    uint64_t obs; int watching;     /* what an observer of instruction and data addresses has seen */
    uint64_t *mark; size_t nmark, cmark;
} arm;
#define SEE(x) do { if (a->watching) a->obs = (a->obs ^ (x)) * 0x9E3779B97F4A7C15ull, a->obs ^= a->obs >> 29; } while (0)

#define T(x) (a->status ? (x) : 0)
static void stop(arm *a, int st, const char *w, uint32_t addr)
{
    if (a->status) return;
    a->status = st; a->fault_addr = addr;
    snprintf(a->what, sizeof a->what, "%s", w);
}

arm *arm_new(int m0) { arm *a = calloc(1, sizeof *a); a->m0 = m0; return a; }
void arm_map(arm *a, uint32_t base, uint32_t size, int perm)
{
    region *g = &a->reg[a->nreg++];
    g->base = base; g->size = size; g->mem = calloc(1, size + 8); g->perm = malloc(size + 8);
    memset(g->perm, perm, size); memset(g->perm + size, 0, 8);
}
static region *find(arm *a, uint32_t addr)
{
    region *g = &a->reg[a->last];
    if (addr - g->base < g->size) return g;
    for (int i = 0; i < a->nreg; i++)
        if (addr - a->reg[i].base < a->reg[i].size) { a->last = i; return &a->reg[i]; }
    return 0;
}
void arm_free(arm *a)
{
    for (int i = 0; i < a->nreg; i++) { free(a->reg[i].mem); free(a->reg[i].perm); }
    free(a->mark); free(a);
}
void arm_rights(arm *a, uint32_t addr, uint32_t n, int perm)
{
    region *g = find(a, addr);
    if (g) memset(g->perm + (addr - g->base), perm, n);
}
void arm_put(arm *a, uint32_t addr, const uint8_t *b, uint32_t n)
{
    region *g = find(a, addr);
    if (g) memcpy(g->mem + (addr - g->base), b, n);
}
void arm_get(arm *a, uint32_t addr, uint8_t *b, uint32_t n)
{
    region *g = find(a, addr);
    if (g) memcpy(b, g->mem + (addr - g->base), n);
}

/* ------------------------------------------------------------------ peripherals */
/* the random generator: 80 bits of key, 64 bits of warm-up, then words */
static void note(arm *a, uint32_t addr, uint32_t v, int wr)
{
    if (a->logging && a->nlog < 65536) { a->log[a->nlog].addr = addr; a->log[a->nlog].val = v; a->log[a->nlog++].wr = wr; }
}
static uint32_t *io(arm *a, uint32_t addr)
{
    for (int i = 0; i < a->nio; i++) if (a->io[i].addr == addr) return &a->io[i].val;
    int i = a->nio < 255 ? a->nio++ : 255;
    a->io[i].addr = addr; a->io[i].val = 0;
    return &a->io[i].val;
}
/* the counter up to now: counts down when enabled, reloads on the clock after zero, pends its exception on reaching zero */
static void count_down(arm *a)
{
    uint64_t n = a->now - a->seen;
    a->seen = a->now;
    if (!(a->csr & 1)) return;
    while (n) {
        if (a->cvr == 0) { a->cvr = a->rvr; n--; if (!a->rvr) return; continue; }
        if (n < a->cvr) { a->cvr -= n; return; }
        n -= a->cvr; a->cvr = 0; a->csr |= 1u << 16;
        if (a->csr & 2) a->pending = 1;
    }
}
/* the serial port: a queue of characters in front of a shift register */
static uint32_t queue_size(uint32_t ctr) { uint32_t k = ctr >> 24 & 7; return k ? k < 7 ? 1u << k : 64 : 0; }
static void send_off(arm *a)
{
    while (a->fifo && a->now >= a->shifter) { a->fifo--; a->shifter += a->drain; }
}
static uint32_t timed_read(arm *a, uint32_t addr, int *mine)
{
    uint32_t v;
    *mine = 1;
    switch (addr) {
    case 0xE000E010: count_down(a); v = a->csr; a->csr &= ~(1u << 16); return v;
    case 0xE000E014: return a->rvr;
    case 0xE000E018: count_down(a); return a->cvr;
    case 0xE000ED04: count_down(a); return (a->pending ? 1u << 26 : 0) | (a->pending ? 15u << 12 : 0) | (a->handling ? 15 : 0);
    case 0x48000114: send_off(a);
        v = queue_size(*io(a, 0x48000108));
        return (a->prx == a->nrx ? 1u << 3 : 0) | (a->fifo == 0 ? 1u << 11 : 0) | (a->fifo >= v ? 1u << 12 : 0) | a->fifo << 24;
    case 0x4800011C: return a->prx < a->nrx ? a->rx[a->prx++] : 0;
    }
    *mine = 0;
    return 0;
}
static int timed_write(arm *a, uint32_t addr, uint32_t v)
{
    switch (addr) {
    case 0xE000E010: count_down(a); a->csr = (a->csr & 1u << 16) | (v & 7); return 1;
    case 0xE000E014: count_down(a); a->rvr = v & 0xFFFFFF; return 1;
    case 0xE000E018: count_down(a); a->cvr = 0; a->csr &= ~(1u << 16); return 1;
    case 0xE000ED04: count_down(a); if (v >> 26 & 1) a->pending = 1; else if (v >> 25 & 1) a->pending = 0; return 1;
    }
    if (addr >= 0x48000180 && addr < 0x48000200) {
        send_off(a);
        if (a->fifo >= queue_size(*io(a, 0x48000108))) { a->lost++; return 1; }
        if (!a->fifo++ && a->shifter < a->now) a->shifter = a->now;
        if (a->nline < sizeof a->line) a->line[a->nline++] = v;
        send_off(a);
        return 1;
    }
    return 0;
}
static uint32_t io_read(arm *a, uint32_t addr)
{
    uint32_t v = 0;
    int mine;
    if (a->timing) { v = timed_read(a, addr, &mine); if (mine) return v; v = 0; }
    switch (addr) {
    case 0x48020000: /* data */
        if (a->pwords < a->nwords) v = a->words[a->pwords++];
        else v = 0xA5A5;
        a->taken++;
        if (((a->ctrl >> 1) & 3) != 2) v &= ((a->ctrl >> 1) & 3) == 1 ? 0xFF : 0;
        break;
    case 0x48020004: v = a->busy > 0 ? (a->busy--, 0) : 1; break;
    case 0x4802000c: v = a->ctrl; break;
    case 0xE000E018: v = a->tick = (a->tick - 7) & 0xFFFFFF; return v;
    case 0x40010300: return 0x3FF00400u & ~(1u << 30);          /* clock: settled */
    default:
        if ((addr & 0xFFFF0000u) == 0x48000000u && (addr & 0xFFF) == 0x114) return ~0u; /* UART: nothing received, all sent */
        return *io(a, addr);
    }
    note(a, addr, v, 0);
    return v;
}
static void io_write(arm *a, uint32_t addr, uint32_t v)
{
    if ((addr & 0xFFFF0000u) == 0x48020000u) {
        note(a, addr, v, 1);
        if (addr == 0x48020000u) a->busy = a->latency;
        if (addr == 0x4802000cu) a->ctrl = v & 0xFFFF;
        return;
    }
    if (a->timing) note(a, addr, v, 1);
    if (a->timing && timed_write(a, addr, v)) return;
    *io(a, addr) = v;
}
static int is_io(arm *a, uint32_t addr) { return a->m0 && ((addr >> 28) == 4 || (addr >> 28) == 5 || (addr >> 28) == 0xE); }

/* ------------------------------------------------------------------ memory */
static uint32_t load(arm *a, uint32_t addr, int n)
{
    if (a->status) return 0;
    SEE(addr | (uint64_t)n << 32);
    if ((addr & (n - 1)) && a->m0) { stop(a, FAULT, "unaligned load", addr); return 0; }
    region *g = find(a, addr);
    if (!g || addr - g->base + n > g->size) {
        if (is_io(a, addr) && !(addr & (n - 1))) return io_read(a, addr) & (n == 4 ? ~0u : n == 2 ? 0xFFFF : 0xFF);
        stop(a, FAULT, "load outside of memory", addr); return 0;
    }
    uint32_t o = addr - g->base;
    for (int i = 0; i < n; i++)
        if (!(g->perm[o + i] & PR)) { stop(a, FAULT, "load from forbidden memory", addr + i); return 0; }
    uint32_t v = 0;
    memcpy(&v, g->mem + o, n);
    return v;
}
static void store(arm *a, uint32_t addr, uint32_t v, int n)
{
    if (a->status) return;
    SEE(addr | (uint64_t)(n | 8) << 32);
    if ((addr & (n - 1)) && a->m0) { stop(a, FAULT, "unaligned store", addr); return; }
    region *g = find(a, addr);
    if (!g || addr - g->base + n > g->size) {
        if (is_io(a, addr) && !(addr & (n - 1))) { io_write(a, addr, v); return; }
        stop(a, FAULT, "store outside of memory", addr); return;
    }
    uint32_t o = addr - g->base;
    if (a->floor && addr >= a->floor && addr < a->low) a->low = addr;
    for (int i = 0; i < n; i++)
        if (!(g->perm[o + i] & PW)) { stop(a, FAULT, "store to forbidden memory", addr + i); return; }
    memcpy(g->mem + o, &v, n);
}
static uint32_t aligned4(arm *a, uint32_t addr)
{
    if (addr & 3) stop(a, FAULT, "unaligned multiple access", addr);
    return addr;
}

/* ------------------------------------------------------------------ services (fips202.h, randombytes.h) */
#define ROTL(x, n) ((n) ? ((x) << (n) | (x) >> (64 - (n))) : (x))
static void keccakf(uint64_t s[25])
{
    static const int rot[25] = {0,1,62,28,27,36,44,6,55,20,3,10,43,25,39,41,45,15,21,8,18,2,61,56,14};
    uint8_t lfsr = 1;
    for (int rd = 0; rd < 24; rd++) {
        uint64_t c[5], b[25];
        for (int x = 0; x < 5; x++) c[x] = s[x] ^ s[x + 5] ^ s[x + 10] ^ s[x + 15] ^ s[x + 20];
        for (int x = 0; x < 5; x++) { uint64_t d = c[(x + 4) % 5] ^ ROTL(c[(x + 1) % 5], 1); for (int y = 0; y < 25; y += 5) s[x + y] ^= d; }
        for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) b[y + 5 * ((2 * x + 3 * y) % 5)] = ROTL(s[x + 5 * y], rot[x + 5 * y]);
        for (int y = 0; y < 25; y += 5) for (int x = 0; x < 5; x++) s[x + y] = b[x + y] ^ (~b[(x + 1) % 5 + y] & b[(x + 2) % 5 + y]);
        for (int j = 0; j < 7; j++) { if (lfsr & 1) s[0] ^= 1ull << ((1 << j) - 1); lfsr = (lfsr << 1) ^ ((lfsr >> 7) * 0x71); }
    }
}
typedef struct { uint64_t s[25]; uint64_t pos; } sponge; /* the caller's context object: 26 words */
static void absorb(sponge *k, int rate, const uint8_t *m, size_t n)
{
    while (n--) { ((uint8_t *)k->s)[k->pos++] ^= *m++; if (k->pos == (uint64_t)rate) { keccakf(k->s); k->pos = 0; } }
}
static void final(sponge *k, int rate, int suffix)
{
    ((uint8_t *)k->s)[k->pos] ^= suffix; ((uint8_t *)k->s)[rate - 1] ^= 0x80; k->pos = 0;
}
static void squeeze(sponge *k, int rate, uint8_t *o, size_t n)
{   /* pos: bytes of the current block still to give */
    while (n--) { if (!k->pos) { keccakf(k->s); k->pos = rate; } *o++ = ((uint8_t *)k->s)[rate - k->pos]; k->pos--; }
}
static uint8_t *copyin(arm *a, uint32_t addr, size_t n)
{
    uint8_t *b = malloc(n + 1);
    for (size_t i = 0; i < n; i++) b[i] = load(a, addr + i, 1);
    return b;
}
static void copyout(arm *a, uint32_t addr, const uint8_t *b, size_t n) { for (size_t i = 0; i < n; i++) store(a, addr + i, b[i], 1); }
static void getk(arm *a, uint32_t addr, sponge *k) { for (int i = 0; i < 208; i++) ((uint8_t *)k)[i] = load(a, addr + i, 1); if (k->pos > 200) k->pos = 0; }
static void putk(arm *a, uint32_t addr, sponge *k) { copyout(a, addr, (uint8_t *)k, 208); }

static void randomness(arm *a, uint32_t addr, size_t n)
{
    if (a->nreq < 64) a->req[a->nreq++] = n;
    for (size_t i = 0; i < n; i++) {
        uint8_t b;
        if (a->pfeed < a->nfeed) b = a->feed[a->pfeed++];
        else { b = 0xA5 + i; a->starved = 1; }
        store(a, addr + i, b, 1);
        if (a->nrec < sizeof a->rec) a->rec[a->nrec++] = b;
        if (a->status) return;
    }
}
static void service(arm *a, int n)
{
    uint32_t *r = a->r; sponge k; uint8_t *b;
    int rate = (n & 1) ? 136 : 168;
    memset(&k, 0, sizeof k);
    if (((n == 1 || n == 8 || n == 9) && r[1] > 1 << 20) || ((n == 2 || n == 3) && r[2] > 1 << 20)) { stop(a, FAULT, "service with an absurd length", n < 2 || n > 3 ? r[1] : r[2]); return; }
    switch (n) {
    case 1: randomness(a, r[0], r[1]); r[0] = 0; break;
    case 4: if (r[3] || r[2] > 1 << 20) { stop(a, FAULT, "service with an absurd length", r[2]); return; } randomness(a, r[0], r[2]); break;  /* (buf, unsigned long long) */
    case 2: case 3: /* sha3_256 / sha3_512 (out, in, inlen) */
        rate = n == 2 ? 136 : 72;
        b = copyin(a, r[1], r[2]); absorb(&k, rate, b, r[2]); free(b);
        final(&k, rate, 6);
        { uint8_t o[64]; squeeze(&k, rate, o, n == 2 ? 32 : 64); copyout(a, r[0], o, n == 2 ? 32 : 64); }
        break;
    case 8: case 9: /* shake128 / shake256 (out, outlen, in, inlen) */
        if (r[3] > 1 << 20) { stop(a, FAULT, "service with an absurd length", r[3]); return; }
        b = copyin(a, r[2], r[3]); absorb(&k, rate, b, r[3]); free(b);
        final(&k, rate, 31);
        b = malloc(r[1] + 1); squeeze(&k, rate, b, r[1]); copyout(a, r[0], b, r[1]); free(b);
        break;
    case 16: case 17: putk(a, r[0], &k); break;                                   /* init(ctx) */
    case 18: case 19: getk(a, r[0], &k); b = copyin(a, r[1], r[2] & 0xFFFFF); absorb(&k, rate, b, r[2] & 0xFFFFF); free(b); putk(a, r[0], &k); break;
    case 20: case 21: getk(a, r[0], &k); final(&k, rate, 31); putk(a, r[0], &k); break;
    case 22: case 23: getk(a, r[2], &k); b = malloc((r[1] & 0xFFFFF) + 1); squeeze(&k, rate, b, r[1] & 0xFFFFF); copyout(a, r[0], b, r[1] & 0xFFFFF); free(b); putk(a, r[2], &k); break;
    default: stop(a, UNSUPPORTED, "unknown service", n);
    }
}

/* ------------------------------------------------------------------ the core */
static uint32_t addc(arm *a, uint32_t x, uint32_t y, int c, int s)
{
    uint64_t u = (uint64_t)x + y + c;
    uint32_t r = u;
    if (s) { a->n = r >> 31; a->z = !r; a->c = u >> 32; a->v = ((x ^ r) & (y ^ r)) >> 31; }
    return r;
}
static void nz(arm *a, uint32_t r) { a->n = r >> 31; a->z = !r; }
static uint32_t shift(arm *a, uint32_t x, int type, int n, int *c)
{   /* n: amount; types lsl lsr asr ror; carry in/out through c */
    (void)a;
    if (!n) return x;
    switch (type) {
    case 0: *c = n > 32 ? 0 : (x >> (32 - n)) & 1; return n > 31 ? 0 : x << n;
    case 1: *c = n > 32 ? 0 : (x >> (n - 1)) & 1; return n > 31 ? 0 : x >> n;
    case 2: if (n > 31) { *c = x >> 31; return (int32_t)x >> 31; } *c = (x >> (n - 1)) & 1; return (int32_t)x >> n;
    default: n &= 31; if (!n) { *c = x >> 31; return x; } x = x >> n | x << (32 - n); *c = x >> 31; return x;
    }
}
static uint32_t shift_imm(arm *a, uint32_t x, int type, int imm, int *c)
{
    if (type == 0) return shift(a, x, 0, imm, c);
    if (type == 3 && !imm) { int o = *c; *c = x & 1; return x >> 1 | (uint32_t)o << 31; } /* rrx */
    return shift(a, x, type, imm ? imm : 32, c);
}
static int cond(arm *a, int k)
{
    int r;
    switch (k >> 1) {
    case 0: r = a->z; break; case 1: r = a->c; break; case 2: r = a->n; break; case 3: r = a->v; break;
    case 4: r = a->c && !a->z; break; case 5: r = a->n == a->v; break; case 6: r = a->n == a->v && !a->z; break;
    default: return 1;
    }
    return k & 1 ? !r : r;
}
static void branch(arm *a, uint32_t t) /* bx */
{
    if (t >= 0xFFFFFFF0u) { a->r[15] = a->handling ? t & ~1u : STOP; return; }
    if (!(t & 1)) stop(a, FAULT, "branch to ARM state", t);
    a->r[15] = t & ~1u;
}
static uint32_t rd(arm *a, int n, uint32_t pc) { return n == 15 ? pc + 4 : a->r[n]; }
static void wr(arm *a, int n, uint32_t v) { if (n == 15) a->r[15] = v & ~1u; else a->r[n] = v; }
#define SX(x, b) ((int32_t)((uint32_t)(x) << (32 - (b))) >> (32 - (b)))
static uint32_t expand(arm *a, uint32_t i12, int *c)
{
    uint32_t b = i12 & 0xFF;
    if (!(i12 & 0xC00))
        switch ((i12 >> 8) & 3) { case 0: return b; case 1: return b << 16 | b; case 2: return b << 24 | b << 8; default: return b * 0x01010101u; }
    uint32_t x = 0x80 | (i12 & 0x7F); int n = i12 >> 7;
    x = x >> n | x << (32 - n);
    *c = x >> 31; (void)a;
    return x;
}
static uint32_t dp(arm *a, int op, uint32_t x, uint32_t y, int sc, int s, int rn, int rdn, int *write)
{
    uint32_t r = 0; *write = 1;
    switch (op) {
    case 0: r = x & y; if (rdn == 15 && s) *write = 0; break;
    case 1: r = x & ~y; break;
    case 2: r = rn == 15 ? y : x | y; break;
    case 3: r = rn == 15 ? ~y : x | ~y; break;
    case 4: r = x ^ y; if (rdn == 15 && s) *write = 0; break;
    case 8: if (rdn == 15 && s) *write = 0; return addc(a, x, y, 0, s);
    case 10: return addc(a, x, y, a->c, s);
    case 11: return addc(a, x, ~y, a->c, s);
    case 13: if (rdn == 15 && s) *write = 0; return addc(a, x, ~y, 1, s);
    case 14: return addc(a, ~x, y, 1, s);
    default: stop(a, UNSUPPORTED, "data-processing operation", op); *write = 0; return 0;
    }
    if (s) { nz(a, r); a->c = sc; }
    return r;
}
static uint32_t ssat(arm *a, int64_t v, int b) { int64_t m = (1ll << (b - 1)) - 1; if (v > m) { a->q = 1; return m; } if (v < -m - 1) { a->q = 1; return -m - 1; } return v; }
static uint32_t usat(arm *a, int64_t v, int b) { int64_t m = (1ll << b) - 1; if (v > m) { a->q = 1; return m; } if (v < 0) { a->q = 1; return 0; } return v; }
static uint32_t par(arm *a, int op1, int op2, uint32_t x, uint32_t y)
{   /* parallel addition and subtraction */
    uint32_t out = 0; int un = op2 & 4, kind = op2 & 3, w = (op1 & 3) == 0 ? 8 : 16, ge = 0;
    for (int i = 0; i < 32; i += w) {
        int j = i, sub = 0;
        if (op1 == 4 || op1 == 5) sub = 1;
        if (op1 == 2) { j = 16 - i; sub = i == 0; }        /* asx */
        if (op1 == 6) { j = 16 - i; sub = i != 0; }        /* sax */
        uint32_t xa = (x >> i) & ((1u << w) - 1), ya = (y >> j) & ((1u << w) - 1);
        int32_t p = un ? (int32_t)xa : SX(xa, w), q = un ? (int32_t)ya : SX(ya, w), r = sub ? p - q : p + q;
        int g = un ? (sub ? r >= 0 : r >> w) : r >= 0;
        if (g) ge |= (w == 8 ? 1 : 3) << (i / 8);
        if (kind == 2) r >>= 1;
        if (kind == 1) { int32_t lo = un ? 0 : -(1 << (w - 1)), hi = un ? (1 << w) - 1 : (1 << (w - 1)) - 1; if (r < lo) r = lo; if (r > hi) r = hi; }
        out |= ((uint32_t)r & ((1u << w) - 1)) << i;
    }
    if (kind == 0) a->ge = ge;
    return out;
}

static void op16(arm *a, uint32_t pc, uint32_t w, int setf)
{
    uint32_t *r = a->r; int c = a->c, d = w & 7, m = (w >> 3) & 7, n = (w >> 3) & 7;
    switch (w >> 12) {
    case 0: case 1:
        if (((w >> 11) & 3) < 3) {
            uint32_t v = shift_imm(a, r[m], (w >> 11) & 3, (w >> 6) & 31, &c);
            r[d] = v; if (setf) { nz(a, v); a->c = c; }
        } else {
            uint32_t y = w & 0x400 ? (w >> 6) & 7 : r[(w >> 6) & 7];
            r[d] = w & 0x200 ? addc(a, r[n], ~y, 1, setf) : addc(a, r[n], y, 0, setf);
        }
        return;
    case 2: case 3:
        d = (w >> 8) & 7;
        switch ((w >> 11) & 3) {
        case 0: r[d] = w & 255; if (setf) nz(a, r[d]); return;
        case 1: addc(a, r[d], ~(w & 255), 1, 1); return;
        case 2: r[d] = addc(a, r[d], w & 255, 0, setf); return;
        default: r[d] = addc(a, r[d], ~(w & 255), 1, setf); return;
        }
    case 4:
        if (w & 0x800) { uint32_t v = load(a, ((pc + 4) & ~3u) + (w & 255) * 4, 4); r[(w >> 8) & 7] = v; return; }
        if (w & 0x400) {
            int D = d | ((w >> 4) & 8), M = (w >> 3) & 15;
            switch ((w >> 8) & 3) {
            case 0: { uint32_t v = rd(a, D, pc) + rd(a, M, pc); wr(a, D, v); return; }
            case 1: addc(a, rd(a, D, pc), ~rd(a, M, pc), 1, 1); return;
            case 2: wr(a, D, rd(a, M, pc)); return;
            default: { uint32_t t = rd(a, M, pc); if (w & 0x80) r[14] = (pc + 2) | 1; branch(a, t); return; }
            }
        }
        {
            uint32_t x = r[d], y = r[m], v;
            switch ((w >> 6) & 15) {
            case 0: v = x & y; break; case 1: v = x ^ y; break;
            case 2: v = shift(a, x, 0, y & 255, &c); r[d] = v; if (setf) { nz(a, v); a->c = c; } return;
            case 3: v = shift(a, x, 1, y & 255, &c); r[d] = v; if (setf) { nz(a, v); a->c = c; } return;
            case 4: v = shift(a, x, 2, y & 255, &c); r[d] = v; if (setf) { nz(a, v); a->c = c; } return;
            case 5: r[d] = addc(a, x, y, a->c, setf); return;
            case 6: r[d] = addc(a, x, ~y, a->c, setf); return;
            case 7: v = shift(a, x, 3, y & 255, &c); r[d] = v; if (setf) { nz(a, v); a->c = c; } return;
            case 8: nz(a, x & y); return;
            case 9: r[d] = addc(a, ~y, 0, 1, setf); return;
            case 10: addc(a, x, ~y, 1, 1); return;
            case 11: addc(a, x, y, 0, 1); return;
            case 12: v = x | y; break; case 13: v = x * y; break; case 14: v = x & ~y; break;
            default: v = ~y;
            }
            r[d] = v; if (setf) nz(a, v);
            return;
        }
    case 5: {
        uint32_t ad = r[n] + r[(w >> 6) & 7];
        switch ((w >> 9) & 7) {
        case 0: store(a, ad, r[d], 4); return; case 1: store(a, ad, r[d], 2); return; case 2: store(a, ad, r[d], 1); return;
        case 3: r[d] = SX(load(a, ad, 1), 8); return; case 4: r[d] = load(a, ad, 4); return; case 5: r[d] = load(a, ad, 2); return;
        case 6: r[d] = load(a, ad, 1); return; default: r[d] = SX(load(a, ad, 2), 16); return;
        } }
    case 6: case 7: case 8: {
        uint32_t i = (w >> 6) & 31; int sz = (w >> 12) == 6 ? 4 : (w >> 12) == 7 ? 1 : 2;
        if (w & 0x800) r[d] = load(a, r[n] + i * sz, sz); else store(a, r[n] + i * sz, r[d], sz);
        return; }
    case 9:
        if (w & 0x800) r[(w >> 8) & 7] = load(a, r[13] + (w & 255) * 4, 4); else store(a, r[13] + (w & 255) * 4, r[(w >> 8) & 7], 4);
        return;
    case 10: r[(w >> 8) & 7] = (w & 0x800 ? r[13] : (pc + 4) & ~3u) + (w & 255) * 4; return;
    case 11:
        switch ((w >> 8) & 15) {
        case 0: if (w & 0x80) r[13] -= (w & 127) * 4; else r[13] += (w & 127) * 4; return;
        case 1: case 3: case 9: case 11: /* cbz, cbnz */
            if ((r[d] != 0) == ((w >> 11) & 1)) r[15] = pc + 4 + ((w >> 3) & 31) * 2 + ((w >> 9) & 1) * 64;
            return;
        case 2: switch ((w >> 6) & 3) { case 0: r[d] = SX(r[m], 16); return; case 1: r[d] = SX(r[m], 8); return; case 2: r[d] = r[m] & 0xFFFF; return; default: r[d] = r[m] & 0xFF; return; }
        case 4: case 5: { /* push */
            uint32_t l = (w & 255) | (w & 0x100 ? 1u << 14 : 0), ad = r[13] - 4 * __builtin_popcount(l); aligned4(a, ad); r[13] = ad;
            for (int i = 0; i < 16; i++) if (l >> i & 1) { store(a, ad, r[i], 4); ad += 4; }
            return; }
        case 6: if (w & 2) a->primask = w >> 4 & 1; return; /* cps */
        case 10: { uint32_t x = r[m]; switch ((w >> 6) & 3) {
            case 0: r[d] = __builtin_bswap32(x); return; case 1: x = __builtin_bswap32(x); r[d] = x >> 16 | x << 16; return;
            case 3: r[d] = SX(__builtin_bswap16(x), 16); return; } break; }
        case 12: case 13: { /* pop */
            uint32_t ad = aligned4(a, r[13]), t = 0;
            for (int i = 0; i < 8; i++) if (w >> i & 1) { r[i] = load(a, ad, 4); ad += 4; }
            if (w & 0x100) { t = load(a, ad, 4); ad += 4; }
            r[13] = ad; if (w & 0x100 && !a->status) branch(a, t);
            return; }
        case 15: if (w & 15) { a->it = w & 255; return; } return; /* it, hints */
        }
        break;
    case 12: {
        int b = (w >> 8) & 7; uint32_t ad = aligned4(a, r[b]), k = 4 * __builtin_popcount(w & 255), base = ad;
        int ld = w & 0x800, in = w >> b & 1;
        for (int i = 0; i < 8; i++) if (w >> i & 1) { if (ld) r[i] = load(a, ad, 4); else store(a, ad, r[i], 4); ad += 4; }
        if (!(ld && in)) r[b] = base + k;
        return; }
    case 13:
        if (((w >> 8) & 15) == 15) { service(a, w & 255); return; }
        if (((w >> 8) & 15) == 14) break;
        if (cond(a, (w >> 8) & 15)) r[15] = pc + 4 + SX(w & 255, 8) * 2;
        return;
    case 14: if (w & 0x800) break; r[15] = pc + 4 + SX(w & 0x7FF, 11) * 2; return;
    }
    stop(a, UNSUPPORTED, "16-bit instruction", w);
}

static void ldst(arm *a, uint32_t pc, uint32_t h, uint32_t w)
{
    uint32_t *r = a->r; int n = h & 15, t = w >> 12, sz = 1 << ((h >> 5) & 3), ld = h & 0x10, sg = h & 0x100, wb = 0;
    uint32_t ad, nb = 0;
    if (n == 15) { if (!ld) goto bad; ad = ((pc + 4) & ~3u); ad = h & 0x80 ? ad + (w & 0xFFF) : ad - (w & 0xFFF); }
    else if (h & 0x80) ad = r[n] + (w & 0xFFF);
    else if (w & 0x800) {
        uint32_t o = w & 0x200 ? r[n] + (w & 255) : r[n] - (w & 255);
        ad = w & 0x400 ? o : r[n]; nb = o; wb = (w & 0x100) || !(w & 0x400);
        if ((w & 0x700) == 0x600) wb = 0; /* unprivileged */
    } else { if (w & 0x7C0) goto bad; ad = r[n] + (r[w & 15] << ((w >> 4) & 3)); }
    if (sz == 8) goto bad;
    if (ld) {
        if (t == 15 && sz < 4) return; /* preload hints */
        uint32_t v = load(a, ad, sz);
        if (sg) v = sz == 1 ? (uint32_t)SX(v, 8) : (uint32_t)SX(v, 16);
        if (wb) r[n] = nb;
        if (t == 15) { if (!a->status) branch(a, v); } else r[t] = v;
    } else { store(a, ad, r[t], sz); if (wb) r[n] = nb; }
    return;
bad:
    stop(a, UNSUPPORTED, "load/store form", h << 16 | w);
}

static void op32(arm *a, uint32_t pc, uint32_t h, uint32_t w)
{
    uint32_t *r = a->r; int n = h & 15, d = (w >> 8) & 15, m = w & 15, c = a->c, wrt;
    uint32_t op = h << 16 | w;
    if ((h >> 11) == 0x1D) {
        if (!(h & 0x600) && !(h & 0x40)) { /* ldm, stm */
            int ld = h & 0x10, wb = h & 0x20, db = (h >> 7) & 3;
            uint32_t k = 4 * __builtin_popcount(w & 0xFFFF), base = r[n], ad = db == 2 ? base - k : base, t = 0;
            if (db != 1 && db != 2) goto bad;
            aligned4(a, ad);
            for (int i = 0; i < 16; i++) if (w >> i & 1) {
                if (ld) { uint32_t v = load(a, ad, 4); if (i == 15) t = v; else r[i] = v; } else store(a, ad, r[i], 4);
                ad += 4;
            }
            if (wb && !(ld && (w >> n & 1))) r[n] = db == 2 ? base - k : base + k;
            if (ld && w >> 15 && !a->status) branch(a, t);
            return;
        }
        if (!(h & 0x600)) {
            int P = h & 0x100, U = h & 0x80, W = h & 0x20;
            if (P || W) { /* ldrd, strd */
                uint32_t b = n == 15 ? (pc + 4) & ~3u : r[n], o = U ? b + (w & 255) * 4 : b - (w & 255) * 4, ad = P ? o : b;
                int t = w >> 12; aligned4(a, ad);
                if (h & 0x10) { uint32_t x = load(a, ad, 4), y = load(a, ad + 4, 4); if (W) r[n] = o; r[t] = x; r[d] = y; }
                else { store(a, ad, r[t], 4); store(a, ad + 4, r[d], 4); if (W) r[n] = o; }
                return;
            }
            if ((h & 0xFFF0) == 0xE8D0 && (w & 0xFFE0) == 0xF000) { /* tbb, tbh */
                uint32_t b = n == 15 ? pc + 4 : r[n];
                uint32_t v = w & 0x10 ? load(a, b + 2 * r[m], 2) : load(a, b + r[m], 1);
                r[15] = pc + 4 + 2 * v; return;
            }
            goto bad;
        }
        if ((h & 0x600) == 0x200) { /* shifted register */
            int o = (h >> 5) & 15, s = h & 0x10, imm = ((w >> 10) & 0x1C) | ((w >> 6) & 3), ty = (w >> 4) & 3;
            if (o == 6) { /* pkhbt, pkhtb */
                int cc = 0; uint32_t y = shift_imm(a, r[m], ty, imm, &cc);
                r[d] = ty == 2 ? (r[n] & 0xFFFF0000u) | (y & 0xFFFF) : (y & 0xFFFF0000u) | (r[n] & 0xFFFF);
                return;
            }
            uint32_t y = shift_imm(a, rd(a, m, pc), ty, imm, &c);
            uint32_t v = dp(a, o, n == 15 ? pc + 4 : r[n], y, c, s != 0, n, d, &wrt);
            if (wrt) wr(a, d, v);
            return;
        }
        goto bad;
    }
    if ((h >> 11) == 0x1E) {
        if (w & 0x8000) { /* branches */
            if ((w & 0x5000) == 0x1000 || (w & 0x5000) == 0x5000) { /* b.w, bl */
                uint32_t S = (h >> 10) & 1, j1 = (w >> 13) & 1, j2 = (w >> 11) & 1;
                uint32_t o = S << 24 | (!(j1 ^ S)) << 23 | (!(j2 ^ S)) << 22 | (h & 0x3FF) << 12 | (w & 0x7FF) << 1;
                if (w & 0x4000) r[14] = (pc + 4) | 1;
                r[15] = pc + 4 + SX(o, 25);
                return;
            }
            if (!(w & 0x5000) && (h & 0x380) != 0x380) {
                uint32_t o = ((h >> 10) & 1) << 20 | ((w >> 11) & 1) << 19 | ((w >> 13) & 1) << 18 | (h & 63) << 12 | (w & 0x7FF) << 1;
                if (cond(a, (h >> 6) & 15)) r[15] = pc + 4 + SX(o, 21);
                return;
            }
            if ((h & 0xFFF0) == 0xF3B0 || (h & 0xFFF0) == 0xF3A0) return; /* barriers, hints */
            if (h == 0xF3EF) { r[d] = (w & 255) == 16 ? a->primask : 0; return; }  /* mrs */
            if ((h & 0xFFF0) == 0xF380) { if ((w & 255) == 16) a->primask = r[n] & 1; return; }     /* msr */
            goto bad;
        }
        uint32_t i12 = (h & 0x400) << 1 | (w >> 4 & 0x700) | (w & 255);
        if (!(h & 0x200)) {
            int o = (h >> 5) & 15, s = h & 0x10;
            uint32_t y = expand(a, i12, &c);
            uint32_t v = dp(a, o, n == 15 ? pc + 4 : r[n], y, c, s != 0, n, d, &wrt);
            if (wrt) wr(a, d, v);
            return;
        }
        int lsb = ((w >> 10) & 0x1C) | ((w >> 6) & 3), wid = w & 31;
        switch ((h >> 4) & 31) {
        case 0: r[d] = (n == 15 ? (pc + 4) & ~3u : r[n]) + i12; return;
        case 10: r[d] = (n == 15 ? (pc + 4) & ~3u : r[n]) - i12; return;
        case 4: r[d] = i12 | n << 12; return;
        case 12: r[d] = (r[d] & 0xFFFF) | (i12 | n << 12) << 16; return;
        case 16: case 18:
            if ((h & 0x20) && !lsb) { r[d] = (ssat(a, SX(r[n] & 0xFFFF, 16), (w & 15) + 1) & 0xFFFF) | ssat(a, SX(r[n] >> 16, 16), (w & 15) + 1) << 16; return; }
            { int cc = 0; r[d] = ssat(a, (int32_t)shift_imm(a, r[n], h & 0x20 ? 2 : 0, lsb, &cc), wid + 1); return; }
        case 24: case 26:
            if ((h & 0x20) && !lsb) { r[d] = usat(a, SX(r[n] & 0xFFFF, 16), w & 15) | usat(a, SX(r[n] >> 16, 16), w & 15) << 16; return; }
            { int cc = 0; r[d] = usat(a, (int32_t)shift_imm(a, r[n], h & 0x20 ? 2 : 0, lsb, &cc), wid); return; }
        case 20: r[d] = SX(r[n] >> lsb, wid + 1); return;
        case 28: r[d] = wid == 31 ? r[n] >> lsb : (r[n] >> lsb) & ((2u << wid) - 1); return;
        case 22: { uint32_t k = wid - lsb == 31 ? ~0u : ((2u << (wid - lsb)) - 1) << lsb; r[d] = (r[d] & ~k) | (n == 15 ? 0 : (r[n] << lsb) & k); return; }
        }
        goto bad;
    }
    /* 0x1F */
    if (!(h & 0x600)) { ldst(a, pc, h, w); return; }
    if ((h & 0x700) == 0x200) { /* register data processing */
        int o1 = (h >> 4) & 15, o2 = (w >> 4) & 15;
        if ((w & 0xF000) != 0xF000) goto bad;
        if (o1 < 8 && !o2) { uint32_t v = shift(a, r[n], (o1 >> 1) & 3, r[m] & 255, &c); r[d] = v; if (o1 & 1) { nz(a, v); a->c = c; } return; }
        if (o1 < 8 && (o2 & 8)) {
            int k = (o2 & 3) * 8; uint32_t x = k ? r[m] >> k | r[m] << (32 - k) : r[m], y = n == 15 ? 0 : r[n];
            switch (o1) {
            case 0: r[d] = y + SX(x, 16); return; case 1: r[d] = y + (x & 0xFFFF); return;
            case 4: r[d] = y + SX(x, 8); return; case 5: r[d] = y + (x & 255); return;
            case 2: r[d] = ((y + SX(x, 8)) & 0xFFFF) | ((y >> 16) + SX(x >> 16, 8)) << 16; return;
            case 3: r[d] = ((y + (x & 255)) & 0xFFFF) | ((y >> 16) + ((x >> 16) & 255)) << 16; return;
            }
            goto bad;
        }
        if (o1 >= 8 && o2 < 8 && (o2 & 3) != 3) { r[d] = par(a, o1 & 7, o2, r[n], r[m]); return; }
        if (o1 >= 8 && (o2 & 12) == 8) {
            uint32_t x = r[m];
            switch ((o1 & 3) << 2 | (o2 & 3)) {
            case 0: r[d] = ssat(a, (int64_t)(int32_t)r[m] + (int32_t)r[n], 32); return;
            case 1: r[d] = ssat(a, (int64_t)(int32_t)r[m] + (int32_t)ssat(a, 2 * (int64_t)(int32_t)r[n], 32), 32); return;
            case 2: r[d] = ssat(a, (int64_t)(int32_t)r[m] - (int32_t)r[n], 32); return;
            case 3: r[d] = ssat(a, (int64_t)(int32_t)r[m] - (int32_t)ssat(a, 2 * (int64_t)(int32_t)r[n], 32), 32); return;
            case 4: r[d] = __builtin_bswap32(x); return;
            case 5: x = __builtin_bswap32(x); r[d] = x >> 16 | x << 16; return;
            case 6: { uint32_t y = 0; for (int i = 0; i < 32; i++) y |= (x >> i & 1) << (31 - i); r[d] = y; return; }
            case 7: r[d] = SX(__builtin_bswap16(x), 16); return;
            case 8: { uint32_t y = 0; for (int i = 0; i < 4; i++) y |= ((a->ge >> i & 1) ? r[n] : x) & (255u << (8 * i)); r[d] = y; return; }
            case 12: r[d] = x ? __builtin_clz(x) : 32; return;
            }
        }
        goto bad;
    }
    if ((h & 0x780) == 0x300) { /* multiply */
        int o1 = (h >> 4) & 7, o2 = (w >> 4) & 3, ra = w >> 12; uint32_t x = r[n], y = r[m], z = ra == 15 ? 0 : r[ra];
        int64_t s; int32_t p, q;
        switch (o1) {
        case 0: r[d] = o2 == 0 ? x * y + z : z - x * y; return;
        case 1: p = SX(o2 & 2 ? x >> 16 : x, 16); q = SX(o2 & 1 ? y >> 16 : y, 16); s = (int64_t)p * q + (ra == 15 ? 0 : (int32_t)z); if (s != (int32_t)s) a->q = 1; r[d] = s; return;
        case 2: if (o2 & 1) y = y >> 16 | y << 16; s = (int64_t)SX(x, 16) * SX(y, 16) + (int64_t)SX(x >> 16, 16) * SX(y >> 16, 16) + (ra == 15 ? 0 : (int32_t)z); if (s != (int32_t)s) a->q = 1; r[d] = s; return;
        case 3: s = ((int64_t)(int32_t)x * SX(o2 & 1 ? y >> 16 : y, 16)) >> 16; s += ra == 15 ? 0 : (int32_t)z; if (s != (int32_t)s) a->q = 1; r[d] = s; return;
        case 4: if (o2 & 1) y = y >> 16 | y << 16; s = (int64_t)SX(x, 16) * SX(y, 16) - (int64_t)SX(x >> 16, 16) * SX(y >> 16, 16) + (ra == 15 ? 0 : (int32_t)z); if (s != (int32_t)s) a->q = 1; r[d] = s; return;
        case 5: s = (int64_t)(int32_t)x * (int32_t)y + (int64_t)((uint64_t)z << 32) + (o2 & 1 ? 0x80000000ll : 0); r[d] = (uint64_t)s >> 32; return;
        case 6: s = (int64_t)((uint64_t)z << 32) - (int64_t)(int32_t)x * (int32_t)y + (o2 & 1 ? 0x80000000ll : 0); r[d] = (uint64_t)s >> 32; return;
        default: { uint32_t t = z; for (int i = 0; i < 32; i += 8) { int e = (int)(x >> i & 255) - (int)(y >> i & 255); t += e < 0 ? -e : e; } r[d] = t; return; }
        }
    }
    if ((h & 0x780) == 0x380) { /* long multiply, divide */
        int o1 = (h >> 4) & 7, o2 = (w >> 4) & 15, lo = w >> 12; uint32_t x = r[n], y = r[m]; uint64_t z = (uint64_t)r[d] << 32 | r[lo], u;
        switch (o1 << 4 | o2) {
        case 0x00: u = (int64_t)(int32_t)x * (int32_t)y; break;
        case 0x20: u = (uint64_t)x * y; break;
        case 0x40: u = z + (uint64_t)((int64_t)(int32_t)x * (int32_t)y); break;
        case 0x60: u = z + (uint64_t)x * y; break;
        case 0x66: u = (uint64_t)x * y + r[d] + r[lo]; break;
        case 0x48: case 0x49: case 0x4A: case 0x4B: u = z + (uint64_t)(int64_t)(SX(o2 & 2 ? x >> 16 : x, 16) * SX(o2 & 1 ? y >> 16 : y, 16)); break;
        case 0x4C: case 0x4D: if (o2 & 1) y = y >> 16 | y << 16; u = z + (uint64_t)((int64_t)SX(x, 16) * SX(y, 16) + (int64_t)SX(x >> 16, 16) * SX(y >> 16, 16)); break;
        case 0x5C: case 0x5D: if (o2 & 1) y = y >> 16 | y << 16; u = z + (uint64_t)((int64_t)SX(x, 16) * SX(y, 16) - (int64_t)SX(x >> 16, 16) * SX(y >> 16, 16)); break;
        case 0x1F: SEE((uint64_t)x << 32 | y); r[d] = !y ? 0 : (x == 0x80000000u && y == ~0u) ? x : (uint32_t)((int32_t)x / (int32_t)y); return;
        case 0x3F: SEE((uint64_t)x << 32 | y); r[d] = y ? x / y : 0; return;
        default: goto bad;
        }
        r[lo] = u; r[d] = u >> 32; return;
    }
bad:
    stop(a, UNSUPPORTED, "32-bit instruction", op);
}

#define IDLE 0xFFFFFFF4u
/* cycles of an instruction, about as on a Cortex-M0 */
static int cycles(arm *a, uint32_t w, int wide, uint32_t next)
{
    if (a->r[15] != next) return wide ? 4 : 3;
    if (wide) return 4;
    switch (w >> 12) {
    case 5: case 6: case 7: case 8: case 9: return 2;
    case 4: return w >> 11 == 9 ? 2 : 1;
    case 11: return (w & 0xF600) == 0xB400 ? 1 + __builtin_popcount(w & 0x1FF) : 1;
    case 12: return 1 + __builtin_popcount(w & 0xFF);
    }
    return 1;
}
static void probes(arm *a, uint32_t pc)
{
    for (int i = 0; i < a->nprobe; i++)
        if (a->probe[i].addr == pc && (!a->probe[i].leave || a->r[13] == a->probe[i].sp)) {
            if (!a->probe[i].leave) a->low = 0xFFFFFFFFu;
            if (a->nhit < 256) { a->hit[a->nhit].id = a->probe[i].id; a->hit[a->nhit].sp = a->r[13]; a->hit[a->nhit].low = a->low; a->hit[a->nhit++].at = a->now; }
            if (a->probe[i].leave) { a->probe[i--] = a->probe[--a->nprobe]; continue; }
            if (a->nprobe < 16) { /* and when it returns */
                a->probe[a->nprobe].addr = a->r[14] & ~1u; a->probe[a->nprobe].sp = a->r[13];
                a->probe[a->nprobe].id = -a->probe[i].id; a->probe[a->nprobe++].leave = 1;
                return;
            }
        }
}
/* between two instructions: exception return, exception entry, idling. 0: go on */
static int between(arm *a)
{
    uint32_t *r = a->r;
    if (r[15] >= 0xFFFFFFF8u && r[15] < STOP && a->handling) {
        uint32_t sp = r[13];
        for (int i = 0; i < 4; i++) r[i] = load(a, sp + 4 * i, 4);
        r[12] = load(a, sp + 16, 4); r[14] = load(a, sp + 20, 4); r[15] = load(a, sp + 24, 4);
        uint32_t p = load(a, sp + 28, 4);
        r[13] = sp + 32 + (p >> 9 & 1) * 4;
        a->n = p >> 31 & 1; a->z = p >> 30 & 1; a->c = p >> 29 & 1; a->v = p >> 28 & 1;
        a->handling = 0; a->now += 12;
        return 1;
    }
    count_down(a);
    if (!a->pending) a->lagging = a->lag;
    else if (!a->primask && !a->handling && a->lagging-- <= 0) {
        uint32_t odd = r[13] >> 2 & 1, sp = ((r[13] & ~7u)) - 32;
        a->lagging = a->lag; a->pending = 0; a->handling = 1; a->now += 16;
        for (int i = 0; i < 4; i++) store(a, sp + 4 * i, r[i], 4);
        store(a, sp + 16, r[12], 4); store(a, sp + 20, r[14], 4); store(a, sp + 24, r[15], 4);
        store(a, sp + 28, (uint32_t)a->n << 31 | (uint32_t)a->z << 30 | (uint32_t)a->c << 29 | (uint32_t)a->v << 28 | odd << 9 | 1u << 24, 4);
        r[13] = sp; r[14] = 0xFFFFFFF9u; r[15] = a->vector & ~1u;
        return 1;
    }
    if (r[15] == IDLE) {
        if (a->pending && !a->primask) { a->now++; return 1; }
        if (a->now >= a->wake) { r[15] = STOP; return 1; }
        uint64_t n = a->wake - a->now, k = (a->csr & 3) == 3 && (a->cvr || a->rvr) ? a->cvr ? a->cvr : (uint64_t)a->rvr + 1 : n;
        a->now += k < n ? k : n;
        return 1;
    }
    return 0;
}
static void steps(arm *a, uint64_t max)
{
    while (a->r[15] != STOP) {
        uint32_t pc = a->r[15];
        if (a->timing) {
            if (a->status) { a->fault_pc = pc; break; }
            if (between(a)) continue;
            if (a->nprobe) probes(a, pc);
        }
        if (a->watching) {
            SEE(pc | 1ull << 40);
            if (!(a->count & 255)) {
                if (a->nmark == a->cmark) { a->cmark = a->cmark ? 2 * a->cmark : 65536; a->mark = realloc(a->mark, 8 * a->cmark); }
                a->mark[a->nmark++] = a->obs;
            }
        }
        region *g = find(a, pc);
        if (!g || pc - g->base + 2 > g->size || !(g->perm[pc - g->base] & PX)) { stop(a, FAULT, "execution outside of code", pc); a->fault_pc = pc; break; }
        uint32_t w = g->mem[pc - g->base] | g->mem[pc - g->base + 1] << 8, w2 = 0;
        int wide = (w >> 11) >= 0x1D;
        if (wide) w2 = g->mem[pc - g->base + 2] | g->mem[pc - g->base + 3] << 8;
        a->r[15] = pc + (wide ? 4 : 2);
        uint64_t began = a->now;
        if (a->timing && !wide && w >> 12 >= 5 && w >> 12 <= 9) a->now++;    /* accesses happen in the last cycle */
        int in = a->it & 15, ok = 1;
        if (in) { ok = cond(a, a->it >> 4); }
        uint8_t it0 = a->it;
        if (ok) { if (wide) op32(a, pc, w, w2); else op16(a, pc, w, !in); }
        if (in && a->it == it0) { if (a->it & 7) a->it = (a->it & 0xE0) | ((a->it << 1) & 0x1F); else a->it = 0; }
        if (a->timing) a->now = began + cycles(a, w, wide, pc + (wide ? 4 : 2)) * a->slow;
        if (a->r[13] < a->minsp) a->minsp = a->r[13];
        a->count++;
        if (a->status) { a->fault_pc = pc; break; }
        if (a->count >= max) { stop(a, LIMIT, "too many instructions", pc); a->fault_pc = pc; break; }
    }
}
int arm_run(arm *a, uint32_t entry, const uint32_t *args, int nargs, uint32_t sp, uint64_t max)
{
    memset(a->r, 0, sizeof a->r);
    for (int i = 4; i < 12; i++) a->r[i] = 0x11111111u * i;   /* callee-saved registers must survive */
    for (int i = 0; i < nargs && i < 4; i++) a->r[i] = args[i];
    if (nargs > 4) { sp -= ((nargs - 4) * 4 + 7) & ~7; for (int i = 4; i < nargs; i++) arm_put(a, sp + 4 * (i - 4), (const uint8_t *)&args[i], 4); }
    a->r[13] = sp; a->r[14] = 0xFFFFFFFF; a->r[15] = entry & ~1u;
    a->status = 0; a->what[0] = 0; a->count = 0; a->it = 0; a->minsp = sp;
    uint32_t sp0 = sp;
    steps(a, max);
    if (!a->status) {
        if (a->r[13] != sp0) stop(a, FAULT, "stack pointer not restored", a->r[13]);
        for (int i = 4; i < 12; i++) if (a->r[i] != 0x11111111u * i) stop(a, FAULT, "callee-saved register not restored", i);
    }
    return a->status;
}
/* n cycles pass, spent by code that leaves the peripherals alone; interrupts are served */
int arm_pass(arm *a, uint32_t sp, uint64_t n)
{
    memset(a->r, 0, sizeof a->r);
    a->r[13] = sp; a->r[14] = 0xFFFFFFFF; a->r[15] = IDLE; a->wake = a->now + n;
    a->status = 0; a->what[0] = 0; a->count = 0; a->it = 0;
    steps(a, 1000000);
    return a->status;
}
void arm_timing(arm *a, uint32_t vector, int lag, uint32_t drain) { a->timing = a->slow = 1; a->vector = vector; a->lag = a->lagging = lag; a->drain = drain; }
void arm_slow(arm *a, int k) { a->slow = k; }   /* wait states: cycles take k times as long */
uint64_t arm_now(arm *a) { return a->now; }
void arm_probe(arm *a, uint32_t addr, int id) { a->probe[a->nprobe].addr = addr & ~1u; a->probe[a->nprobe].leave = 0; a->probe[a->nprobe++].id = id; }
size_t arm_nhit(arm *a) { return a->nhit; }
uint64_t arm_hit(arm *a, size_t i, int f) { return f == 1 ? a->hit[i].at : f == 2 ? a->hit[i].sp : f == 3 ? a->hit[i].low : (uint64_t)(int64_t)a->hit[i].id; }
void arm_floor(arm *a, uint32_t addr) { a->floor = addr; a->low = 0xFFFFFFFFu; }
const uint8_t *arm_line(arm *a) { return a->line; }
size_t arm_nline(arm *a) { return a->nline; }
size_t arm_lost(arm *a) { return a->lost; }
void arm_receive(arm *a, const uint8_t *b, size_t n) { a->rx = b; a->nrx = n; a->prx = 0; }
size_t arm_received(arm *a) { return a->prx; }
uint32_t arm_io(arm *a, uint32_t addr) { return *io(a, addr); }
void arm_setio(arm *a, uint32_t addr, uint32_t v) { *io(a, addr) = v; }
uint32_t arm_state(arm *a, int f) { return f == 0 ? a->csr : f == 1 ? a->rvr : f == 2 ? a->cvr : f == 3 ? a->primask : a->pending; }
void arm_watch(arm *a, int on) { a->watching = on; a->obs = 1; a->nmark = 0; }
uint64_t arm_obs(arm *a) { return a->obs; }
size_t arm_nmark(arm *a) { return a->nmark; }
const uint64_t *arm_marks(arm *a) { return a->mark; }
uint32_t arm_pc(arm *a) { return a->r[15]; }
uint32_t arm_r0(arm *a) { return a->r[0]; }
const char *arm_what(arm *a) { return a->what; }
uint32_t arm_fault(arm *a, int which) { return which ? a->fault_pc : a->fault_addr; }
uint64_t arm_count(arm *a) { return a->count; }
uint32_t arm_minsp(arm *a) { return a->minsp; }
void arm_feed(arm *a, const uint8_t *b, size_t n) { a->feed = b; a->nfeed = n; a->pfeed = 0; a->starved = 0; a->nreq = a->nrec = 0; }
size_t arm_nreq(arm *a) { return a->nreq; }
uint32_t arm_req(arm *a, size_t i) { return a->req[i]; }
const uint8_t *arm_rec(arm *a) { return a->rec; }
size_t arm_nrec(arm *a) { return a->nrec; }
void arm_words(arm *a, uint16_t *w, size_t n) { a->words = w; a->nwords = n; a->pwords = 0; a->taken = 0; }
size_t arm_taken(arm *a) { return a->taken; }
void arm_prng(arm *a, uint32_t ctrl, int latency) { a->ctrl = ctrl; a->latency = latency; a->busy = 0; }
void arm_logging(arm *a, int on) { a->logging = on; a->nlog = 0; }
size_t arm_nlog(arm *a) { return a->nlog; }
uint32_t arm_log(arm *a, size_t i, int f) { return f == 0 ? a->log[i].addr : f == 1 ? a->log[i].val : (uint32_t)a->log[i].wr; }
