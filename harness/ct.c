/* Marks the secret inputs of the KEM operations as undefined and runs them under valgrind memcheck:
   every branch or address that depends on a secret is then one of its errors.
   usage: ct lib.so lanes pk sk ct ss skv   (sizes per lane; skv: bytes of the packed secret vector)
   Without valgrind ("step" as eighth argument) it single-steps the operations instead and reports the
   number of executed instructions and a hash of their addresses.
   "prog OPS": runs a program of the abstract machine of spec/Leak.tla on two registers and a memory
   of two cells each of one secret and one public.
   stdin: lines "OP HEX...": keygen FEED | enc PK FEED | dec CT SK      stdout: "OP errors rc" */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <signal.h>
#include <stdint.h>
#include <ucontext.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <valgrind/memcheck.h>

static volatile int on;
static uint64_t steps, hash;
static void on_trap(int s, siginfo_t *si, void *uc)
{
    ucontext_t *u = uc;
    if (!on) { u->uc_mcontext.gregs[REG_EFL] &= ~0x100; return; }
    steps++;
    hash = (hash ^ (uint64_t)u->uc_mcontext.gregs[REG_RIP]) * 0x9E3779B97F4A7C15ull;
    hash ^= hash >> 29;
}
static int stepping;
static void begin(void)
{
    if (!stepping) return;
    steps = hash = 0; on = 1;
    __asm__ volatile("pushfq; orq $0x100,(%%rsp); popfq" ::: "memory", "cc");
}
static void end(void) { on = 0; if (stepping) __asm__ volatile("nop; nop"); }

/* the abstract machine: r0 starts secret, r1 public; m0, m1 start public */
static volatile unsigned char cell[8];
static void prog(const char *o)
{
    unsigned char *r = malloc(2);
    volatile unsigned char *m = malloc(2);
    static volatile int sink;
    r[0] = 1; r[1] = 1; m[0] = 0; m[1] = 1;
    VALGRIND_MAKE_MEM_UNDEFINED(r, 1);
    for (; *o; o++) switch (*o) {
        case 'x': r[0] ^= r[1]; break;                    /* r0 := r0 xor r1 */
        case 'a': r[1] &= r[0]; break;                    /* r1 := r1 and r0 */
        case 'm': r[1] = r[0]; break;                     /* r1 := r0 */
        case 'c': r[1] = 1; break;                        /* r1 := 1 */
        case 'z': r[0] ^= r[0]; r[0] = 0; break;          /* r0 := 0 */
        case 's': m[0] = r[0]; break;                     /* m[0] := r0 */
        case 'l': r[1] = m[0]; break;                     /* r1 := m[0] */
        case 'L': r[0] = m[r[1] & 1]; break;              /* r0 := m[r1] */
        case 'S': m[r[1] & 1] = r[0]; break;              /* m[r1] := r0 */
        case 'b': if (r[0]) sink++; break;                /* branch on r0 */
        case 'B': if (r[1]) sink++; break;                /* branch on r1 */
    }
    free(r); free((void *)m);
}
static unsigned char in[2][1 << 15] __attribute__((aligned(4096)));
static unsigned char *bytes(int slot, char *h, size_t *n)
{
    *n = strlen(h) / 2;
    unsigned char *b = in[slot];
    VALGRIND_MAKE_MEM_DEFINED(b, sizeof in[0]);
    for (size_t i = 0; i < *n; i++) { unsigned x; sscanf(h + 2 * i, "%2x", &x); b[i] = x; }
    return b;
}
int main(int argc, char **argv)
{
    if (argc < 8) return 2;
    void *h = dlopen(argv[1], RTLD_NOW);
    if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
    size_t L = atoi(argv[2]), pkn = atoi(argv[3]), skn = atoi(argv[4]), ctn = atoi(argv[5]), ssn = atoi(argv[6]), skv = atoi(argv[7]);
    int (*kp)(unsigned char *, unsigned char *) = dlsym(h, "crypto_kem_keypair");
    int (*enc)(unsigned char *, unsigned char *, const unsigned char *) = dlsym(h, "crypto_kem_enc");
    int (*dec)(unsigned char *, const unsigned char *, const unsigned char *) = dlsym(h, "crypto_kem_dec");
    void (*feed)(const unsigned char *, size_t) = dlsym(h, "shim_feed");
    if (!kp || !enc || !dec || !feed) return 2;
    int stepmode = argc > 8;
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_flags = SA_SIGINFO;
    sa.sa_sigaction = on_trap;
    if (stepmode) sigaction(SIGTRAP, &sa, 0);
    static char line[1 << 17], op[16];
    unsigned char *pk = malloc(L * pkn), *sk = malloc(L * skn), *ct = malloc(L * ctn), *k = malloc(L * ssn);
    while (fgets(line, sizeof line, stdin)) {
        char *t = strtok(line, " \n"), *a = strtok(0, " \n"), *b = strtok(0, " \n");
        size_t n, m;
        int rc = -1;
        stepping = stepmode && t[0] == '+';         /* others only warm up */
        if (*t == '+') t++;
        snprintf(op, sizeof op, "%s", t);
        unsigned long before = VALGRIND_COUNT_ERRORS;
        if (!strcmp(op, "prog")) { prog(a ? a : ""); rc = 0; }
        else if (!strcmp(op, "keygen")) {
            unsigned char *f = bytes(0, a, &n);
            /* per lane: seed of the public matrix (public), seed of the secret, rejection value; the order of the
               draws over the lanes is given as a mask string of s(ecret) and p(ublic) */
            for (size_t i = 0; i < strlen(b); i++) if (b[i] == 's') VALGRIND_MAKE_MEM_UNDEFINED(f + 32 * i, 32);
            feed(f, n);
            begin(); rc = kp(pk, sk); end();
        } else if (!strcmp(op, "enc")) {
            unsigned char *p = bytes(0, a, &n), *f = bytes(1, b, &m);
            VALGRIND_MAKE_MEM_UNDEFINED(f, m);
            feed(f, m);
            begin(); rc = enc(ct, k, p); end();
        } else {
            unsigned char *c = bytes(0, a, &n), *s = bytes(1, b, &m);
            for (size_t i = 0; i < L; i++) {
                VALGRIND_MAKE_MEM_UNDEFINED(s + i * skn, skv);
                VALGRIND_MAKE_MEM_UNDEFINED(s + (i + 1) * skn - 32, 32);
            }
            begin(); rc = dec(k, c, s); end();
        }
        VALGRIND_MAKE_MEM_DEFINED(&rc, sizeof rc);
        unsigned long after = VALGRIND_COUNT_ERRORS;
        if (stepping) printf("%s %lu %d %016lx\n", op, (unsigned long)steps, rc, (unsigned long)hash);
        else printf("%s %lu %d\n", op, after - before, rc);
        fflush(stdout);
    }
    return 0;
}
