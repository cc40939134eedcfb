/* Decapsulations in several threads.
   usage: threads lib.so ctsize sksize sssize jobs-file
   jobs-file: ct || sk per job. Commands on stdin, one answer line each:
     alone J              -> W KEY          (W: writes to the library's static storage)
     sched I J A B        -> KEYA KEYB S    A runs up to its I-th such write, B up to its J-th (or its end),
                                            then A to its end, then B; S: did both pauses happen
     stress T R           -> n, then per job the distinct results: J KEY COUNT ...
   Exactly one of the two threads of "sched" runs at a time, except when one of them waits for the
   other (then the schedule does not exist and they run freely). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <link.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

static int (*dec)(unsigned char *, const unsigned char *, const unsigned char *);
static size_t ctn, skn, ssn, njobs;
static unsigned char *jobs;

static struct { uintptr_t lo, hi; } seg[64];
static int nseg;
static volatile int armed;             /* pages are write-protected */

/* the writable segments of the library, without the part that is read-only after relocation */
static int each(struct dl_phdr_info *d, size_t sz, void *name)
{
    uintptr_t rlo = 0, rhi = 0;
    if (!d->dlpi_name || strcmp(d->dlpi_name, name)) return 0;
    for (int i = 0; i < d->dlpi_phnum; i++)
        if (d->dlpi_phdr[i].p_type == PT_GNU_RELRO) {
            rlo = d->dlpi_addr + d->dlpi_phdr[i].p_vaddr;
            rhi = (rlo + d->dlpi_phdr[i].p_memsz) & ~4095ul;
        }
    for (int i = 0; i < d->dlpi_phnum; i++)
        if (d->dlpi_phdr[i].p_type == PT_LOAD && (d->dlpi_phdr[i].p_flags & PF_W) && nseg < 64) {
            uintptr_t lo = (d->dlpi_addr + d->dlpi_phdr[i].p_vaddr) & ~4095ul;
            uintptr_t hi = (d->dlpi_addr + d->dlpi_phdr[i].p_vaddr + d->dlpi_phdr[i].p_memsz + 4095) & ~4095ul;
            if (lo < rhi && rlo <= lo + 4095) lo = rhi;
            if (lo < hi) { seg[nseg].lo = lo; seg[nseg].hi = hi; nseg++; }
        }
    return 0;
}
static void find_segments(const char *lib) { dl_iterate_phdr(each, (void *)lib); }
static int in_seg(uintptr_t a) { for (int i = 0; i < nseg; i++) if (a >= seg[i].lo && a < seg[i].hi) return 1; return 0; }
static void protect(int on)
{
    for (int i = 0; i < nseg; i++)
        mprotect((void *)seg[i].lo, seg[i].hi - seg[i].lo, on ? PROT_READ : PROT_READ | PROT_WRITE);
}

typedef struct { sem_t go, paused; long writes, stop; int done, hit, free; const unsigned char *ct, *sk; unsigned char *k; } T;
static __thread T *me;

static void on_segv(int s, siginfo_t *si, void *uc)
{
    ucontext_t *u = uc;
    if (!armed || !in_seg((uintptr_t)si->si_addr) || !me) { signal(SIGSEGV, SIG_DFL); return; }
    protect(0);
    u->uc_mcontext.gregs[REG_EFL] |= 0x100;
}
static void on_trap(int s, siginfo_t *si, void *uc)
{
    ucontext_t *u = uc;
    u->uc_mcontext.gregs[REG_EFL] &= ~0x100;
    if (!me) return;
    me->writes++;
    if (armed && !me->free) protect(1);
    if (me->writes == me->stop && !me->free) {
        me->hit = 1;
        sem_post(&me->paused);
        while (sem_wait(&me->go)) ;
    }
}
static void *body(void *p)
{
    me = p;
    while (sem_wait(&me->go)) ;
    dec(me->k, me->ct, me->sk);
    me->done = 1;
    sem_post(&me->paused);
    return 0;
}
static int wait_for(sem_t *s, int secs)
{
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    t.tv_sec += secs;
    while (sem_timedwait(s, &t)) if (errno != EINTR) return 0;
    return 1;
}
static void start(T *t, pthread_t *th, size_t j, long stop, unsigned char *k)
{
    memset(t, 0, sizeof *t);
    sem_init(&t->go, 0, 0); sem_init(&t->paused, 0, 0);
    t->ct = jobs + j * (ctn + skn); t->sk = t->ct + ctn; t->k = k; t->stop = stop;
    pthread_create(th, 0, body, t);
}
static void release(T *t) { t->free = 1; }
static void hex(const unsigned char *k) { for (size_t i = 0; i < ssn; i++) printf("%02x", k[i]); }

static void alone(size_t j)
{
    T t; pthread_t th; unsigned char k[256];
    start(&t, &th, j, -1, k);
    armed = 1; protect(1);
    sem_post(&t.go);
    wait_for(&t.paused, 60);
    armed = 0; protect(0);
    pthread_join(th, 0);
    printf("%ld ", t.writes); hex(k); printf("\n");
}
static int patience = 3;               /* schedules that turned out not to exist make later waits shorter */
static int wait_b(sem_t *s)
{
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    t.tv_nsec += 300000000;
    if (patience > 0) t.tv_sec += 3;
    if (t.tv_nsec >= 1000000000) { t.tv_nsec -= 1000000000; t.tv_sec++; }
    while (sem_timedwait(s, &t)) if (errno != EINTR) { patience--; return 0; }
    return 1;
}
static void sched(long i, long j, size_t a, size_t b)
{
    T ta, tb; pthread_t ha, hb; unsigned char ka[256], kb[256];
    int ok = 1;
    start(&ta, &ha, a, i, ka);
    start(&tb, &hb, b, j, kb);
    armed = 1; protect(1);
    if (i > 0) { sem_post(&ta.go); if (!wait_for(&ta.paused, 60)) exit(3); }
    sem_post(&tb.go);
    if (!wait_b(&tb.paused)) {          /* B waits for A: let both run */
        ok = 0;
        armed = 0; release(&ta); release(&tb); protect(0);
        sem_post(&ta.go); sem_post(&ta.go); sem_post(&tb.go);
    } else {
        if (!ta.done) {
            sem_post(&ta.go);
            if (!wait_b(&ta.paused)) {
                ok = 0;
                armed = 0; release(&ta); release(&tb); protect(0);
                sem_post(&tb.go);
            }
        }
        if (!tb.done && ok) sem_post(&tb.go);
    }
    pthread_join(ha, 0); pthread_join(hb, 0);
    armed = 0; protect(0);
    hex(ka); printf(" "); hex(kb); printf(" %d\n", ok && ta.hit == (i > 0) && tb.hit == (j > 0));
}

typedef struct { unsigned seed; long reps; unsigned char *out; int *which; } S;
static pthread_barrier_t bar;
static void *stresser(void *p)
{
    S *s = p;
    pthread_barrier_wait(&bar);
    for (long r = 0; r < s->reps; r++) {
        s->seed = s->seed * 1103515245u + 12345u;
        size_t j = (s->seed >> 12) % njobs;
        s->which[r] = (int)j;
        dec(s->out + r * ssn, jobs + j * (ctn + skn), jobs + j * (ctn + skn) + ctn);
    }
    return 0;
}
static void stress(int nt, long reps)
{
    S s[64]; pthread_t th[64];
    static unsigned seed = 1;
    if (nt > 64) nt = 64;
    pthread_barrier_init(&bar, 0, nt);
    for (int t = 0; t < nt; t++) {
        s[t].seed = seed++ * 2654435761u; s[t].reps = reps;
        s[t].out = malloc(reps * ssn); s[t].which = malloc(reps * sizeof(int));
        pthread_create(&th[t], 0, stresser, &s[t]);
    }
    for (int t = 0; t < nt; t++) pthread_join(th[t], 0);
    for (size_t j = 0; j < njobs; j++) {
        unsigned char *seen[16]; long cnt[16]; int n = 0;
        for (int t = 0; t < nt; t++) for (long r = 0; r < reps; r++) if ((size_t)s[t].which[r] == j) {
            unsigned char *k = s[t].out + r * ssn;
            int i;
            for (i = 0; i < n; i++) if (!memcmp(seen[i], k, ssn)) { cnt[i]++; break; }
            if (i == n && n < 16) { seen[n] = k; cnt[n++] = 1; }
        }
        for (int i = 0; i < n; i++) { printf("%zu ", j); hex(seen[i]); printf(" %ld ", cnt[i]); }
    }
    printf("\n");
    for (int t = 0; t < nt; t++) { free(s[t].out); free(s[t].which); }
}

int main(int argc, char **argv)
{
    if (argc < 6) return 2;
    ctn = atol(argv[2]); skn = atol(argv[3]); ssn = atol(argv[4]);
    FILE *f = fopen(argv[5], "rb");
    if (!f) return 2;
    fseek(f, 0, SEEK_END); long n = ftell(f); rewind(f);
    jobs = malloc(n); if (fread(jobs, 1, n, f) != (size_t)n) return 2;
    njobs = n / (ctn + skn);
    void *h = dlopen(argv[1], RTLD_NOW);
    if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
    dec = (int (*)(unsigned char *, const unsigned char *, const unsigned char *))dlsym(h, "crypto_kem_dec");
    if (!dec) return 2;
    find_segments(argv[1]);
    if (!nseg) return 4;
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sa.sa_sigaction = on_segv; sigaction(SIGSEGV, &sa, 0);
    sa.sa_sigaction = on_trap; sigaction(SIGTRAP, &sa, 0);
    char line[256];
    setvbuf(stdout, 0, _IOLBF, 0);
    while (fgets(line, sizeof line, stdin)) {
        long i, j, a, b;
        if (sscanf(line, "alone %ld", &a) == 1) alone(a);
        else if (sscanf(line, "sched %ld %ld %ld %ld", &i, &j, &a, &b) == 4) sched(i, j, a, b);
        else if (sscanf(line, "stress %ld %ld", &a, &b) == 2) stress((int)a, b);
        else return 2;
        fflush(stdout);
    }
    return 0;
}
