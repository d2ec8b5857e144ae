/* reent MODE seed maxl nthreads rounds
 * MODE alone: every call once, in a fresh process each (forked)
 *      seq:   one thread, random histories; the library's writable data is write-protected during the calls
 *      par:   several threads, random orders, sharing inputs
 * One JSON event per line. */
#define _GNU_SOURCE
#include <string.h>
#include <math.h>
#include <signal.h>
#include <pthread.h>
#include <unistd.h>
#include <link.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include "simint/simint.h"
#include "simint/shell/shell_screen.h"
#include <stdio.h>
#include <stdlib.h>
#define NCART(l) (((l)+1)*((l)+2)/2)
#define NV 3
typedef unsigned long long u64;
static double rndp(u64 *s) { *s = *s*6364136223846793005ull + 1442695040888963407ull; return ((*s >> 33) & 0xffffff) / 16777216.0; }
static int maxl, maxder;
static struct simint_shell SH[8][NV*2];                 /* shared inputs */
static struct simint_multi_shellpair PR[8][8][NV];
static double Zc[5], Xc[5], Yc[5], Wc[5];
static void setup(u64 seed)
{
    u64 s = seed*2 + 1; for(int i = 0; i < 5; i++) rndp(&s);
    for(int l = 0; l <= maxl; l++) for(int i = 0; i < NV*2; i++) {
        int np = 1 + (i + l) % 4; double a[4], c[4];
        for(int k = 0; k < np; k++) a[k] = 0.2 + 4*rndp(&s), c[k] = 0.2 + rndp(&s);
        simint_initialize_shell(&SH[l][i]);
        simint_create_shell(np, l, 3*(rndp(&s)-.5), 3*(rndp(&s)-.5), 3*(rndp(&s)-.5), a, c, &SH[l][i]);
    }
    for(int a = 0; a <= maxl; a++) for(int b = 0; b <= maxl; b++) for(int v = 0; v < NV; v++) {
        struct simint_shell ab[4] = { SH[a][2*v], SH[b][2*v+1], SH[a][(2*v+2) % (2*NV)], SH[b][(2*v+1) % (2*NV)] };
        simint_initialize_multi_shellpair(&PR[a][b][v]);
        simint_create_multi_shellpair2(1 + v % 2, ab, &PR[a][b][v], v == 2 ? SIMINT_SCREEN_SCHWARZ : v == 1 ? SIMINT_SCREEN_FASTSCHWARZ : SIMINT_SCREEN_NONE);
    }
    for(int i = 0; i < 5; i++) Zc[i] = 1 + i, Xc[i] = 4*(rndp(&s)-.5), Yc[i] = 4*(rndp(&s)-.5), Wc[i] = 4*(rndp(&s)-.5);
}
#define FNV(h, p, n) do { const unsigned char *q_ = (const void*)(p); for(size_t i_ = 0; i_ < (size_t)(n); i_++) h = (h ^ q_[i_])*1099511628211ull; } while(0)
static u64 inputs(void)
{
    u64 h = 14695981039346656037ull;
    for(int l = 0; l <= maxl; l++) for(int i = 0; i < 2*NV; i++) { FNV(h, &SH[l][i], sizeof(SH[l][i])); FNV(h, SH[l][i].ptr, SH[l][i].memsize); }
    for(int a = 0; a <= maxl; a++) for(int b = 0; b <= maxl; b++) for(int v = 0; v < NV; v++) { FNV(h, &PR[a][b][v], sizeof(PR[a][b][v])); FNV(h, PR[a][b][v].ptr, PR[a][b][v].memsize); }
    FNV(h, Zc, sizeof(Zc)); FNV(h, Xc, sizeof(Xc)); FNV(h, Yc, sizeof(Yc)); FNV(h, Wc, sizeof(Wc));
    return h;
}
/* the calls: 0..nE-1 integrals and gradients, then pairs of shells: one-electron, pair construction and shell functions */
static int nE, nS, nCalls;
#define KINDS 9
static void count(void) { int n4 = 1; for(int i = 0; i < 4; i++) n4 *= maxl + 1; nE = n4*(maxder + 1); nS = (maxl+1)*(maxl+1)*KINDS; nCalls = nE + nS; }
struct buf { double *work, *out; size_t nout; };
static void mkbuf(struct buf *b)
{
    size_t nc = NCART(maxl); nc = nc*nc*nc*nc;
    b->nout = nc*4*(maxder ? 12 : 1) + 100;
    if(posix_memalign((void**)&b->work, 64, simint_eri_workmem(maxder, maxl) + 64) || posix_memalign((void**)&b->out, 64, 8*b->nout)) exit(3);
}
static int call(int c, struct buf *b)
{
    u64 h = 14695981039346656037ull;
    int v = (c*7 + 3) % NV, w = (c*5 + 1) % NV, ret = 0; size_t n = 0;
    if(c < nE) {
        int k = c, am[4]; for(int i = 0; i < 4; i++) { am[i] = k % (maxl+1); k /= maxl+1; }
        struct simint_multi_shellpair *P = &PR[am[0]][am[1]][v], *Q = &PR[am[2]][am[3]][w];
        double tol = v && w ? 1e-6 : 0;
        ret = k ? simint_compute_eri_deriv(1, P, Q, tol, b->work, b->out) : simint_compute_eri(P, Q, tol, b->work, b->out);
        n = (size_t)P->nshell12*Q->nshell12*NCART(am[0])*NCART(am[1])*NCART(am[2])*NCART(am[3])*(k ? 12 : 1);
    } else {
        int k = c - nE, kind = k % KINDS, a = (k/KINDS) % (maxl+1), d = k/KINDS/(maxl+1);
        struct simint_shell *A = &SH[a][2*v], *B = &SH[d][2*w+1];
        n = NCART(a)*NCART(d);
        struct simint_shell T[4]; struct simint_multi_shellpair M[3];
        switch(kind) {
        case 0: ret = simint_compute_overlap(A, B, b->out); break;
        case 1: ret = simint_compute_ke(A, B, b->out); break;
        case 2: case 3: ret = simint_compute_potential(kind == 2 ? 5 : 1, Zc + (kind == 3), Xc, Yc, Wc, A, B, b->out); break;
        case 4:                                               /* shell: create, copy, normalise */
            simint_initialize_shells(2, T);
            simint_create_shell(A->nprim, a, A->x, A->y, A->z, A->alpha, A->coef, &T[0]);
            simint_normalize_shells(1, T);
            simint_copy_shell(T, &T[1]);
            n = T[1].nprim; memcpy(b->out, T[1].coef, 8*n);
            simint_free_shells(2, T);
            break;
        case 5: b->out[0] = simint_shellscreen(A, B, SIMINT_SCREEN_SCHWARZ); b->out[1] = simint_shellscreen(A, B, SIMINT_SCREEN_FASTSCHWARZ); n = 2; break;
        case 6: case 7: {                                     /* pairs: create, concatenate, prune, then use them */
            struct simint_shell ab[4] = { *A, *B, SH[a][(2*v+3) % (2*NV)], *B };
            for(int i = 0; i < 3; i++) simint_initialize_multi_shellpair(&M[i]);
            simint_create_multi_shellpair2(2, ab, &M[0], kind == 6 ? SIMINT_SCREEN_SCHWARZ : SIMINT_SCREEN_FASTSCHWARZ);
            simint_create_multi_shellpair(1, A, 2, &SH[d][2*w], &M[1], kind == 6 ? SIMINT_SCREEN_SCHWARZ : SIMINT_SCREEN_FASTSCHWARZ);
            simint_cat_multi_shellpair(2, (struct simint_multi_shellpair const **)(struct simint_multi_shellpair *[]){ &M[0], &M[1] }, &M[2], kind == 6 ? SIMINT_SCREEN_SCHWARZ : SIMINT_SCREEN_FASTSCHWARZ);
            struct simint_multi_shellpair *S = &PR[0][0][0];
            ret = simint_compute_eri(&M[2], S, 0.0, b->work, b->out);
            n *= 4*S->nshell12;
            if(n > b->nout - 1) n = b->nout - 1;
            b->out[n++] = M[2].screen_max;
            for(int i = 0; i < 3; i++) simint_free_multi_shellpair(&M[i]);
            break; }
        case 8: b->out[0] = simint_eri_worksize(a ? maxder : 0, d); b->out[1] = simint_eri_workmem(a ? maxder : 0, d); n = 2; break;
        }
    }
    FNV(h, &ret, 4); FNV(h, b->out, 8*n);
    return (int)((h ^ (h >> 32)) & 0x7fffffff);
}
/* --- write protection of the library's data */
static struct { uintptr_t a; size_t n; } seg[8]; static int nseg;
static volatile int hidden; static uintptr_t where;
static int find(struct dl_phdr_info *i, size_t s, void *d)
{
    if(!i->dlpi_name || !strstr(i->dlpi_name, "libsimint")) return 0;
    for(int k = 0; k < i->dlpi_phnum; k++) if(i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_W)) {
        uintptr_t a = (i->dlpi_addr + i->dlpi_phdr[k].p_vaddr) & ~4095ul, z = (i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz + 4095) & ~4095ul;
        seg[nseg].a = a; seg[nseg++].n = z - a;
    }
    return 0;
}
static void prot(int on) { for(int i = 0; i < nseg; i++) mprotect((void*)seg[i].a, seg[i].n, on ? PROT_READ : PROT_READ|PROT_WRITE); }
static void onsegv(int sig, siginfo_t *si, void *u)
{
    uintptr_t a = (uintptr_t)si->si_addr;
    for(int i = 0; i < nseg; i++) if(a >= seg[i].a && a < seg[i].a + seg[i].n) { if(!hidden) where = a; hidden++; mprotect((void*)(a & ~4095ul), 4096, PROT_READ|PROT_WRITE); return; }
    signal(sig, SIG_DFL); raise(sig);
}
/* --- threads */
struct ev { unsigned t; int th, c, v, kind; };
static unsigned ticket; static int nth, rounds; static u64 seed; static pthread_barrier_t bar;
static struct ev *evs[64]; static int nev[64];
static void *worker(void *x)
{
    int t = (int)(long)x, n = 0; u64 s = seed*977 + t*2 + 1; struct buf b;
    mkbuf(&b);
    int *order = malloc(sizeof(int)*nCalls);
    evs[t] = malloc(sizeof(struct ev)*2*nCalls*rounds);
    pthread_barrier_wait(&bar);
    for(int r = 0; r < rounds; r++) {
        for(int i = 0; i < nCalls; i++) order[i] = i;
        if(t & 1) for(int i = nCalls - 1; i > 0; i--) { int j = (int)(rndp(&s)*(i+1)), y = order[i]; order[i] = order[j]; order[j] = y; }
        for(int i = 0; i < nCalls; i++) {
            struct ev *e = &evs[t][n];
            e[0] = (struct ev){ __atomic_fetch_add(&ticket, 1, __ATOMIC_RELAXED), t + 1, order[i], 0, 0 };
            int v = call(order[i], &b);
            e[1] = (struct ev){ __atomic_fetch_add(&ticket, 1, __ATOMIC_RELAXED), t + 1, order[i], v, 1 };
            n += 2;
        }
    }
    nev[t] = n;
    return 0;
}
static int cmpev(const void *a, const void *b) { const struct ev *x = a, *y = b; return x->t < y->t ? -1 : x->t > y->t; }
int main(int argc, char **argv)
{
    seed = strtoull(argv[2], 0, 10); maxl = atoi(argv[3]); nth = atoi(argv[4]); rounds = atoi(argv[5]); maxder = SIMINT_OSTEI_MAXDER;
    simint_init(); setup(20260101); count();
    if(argv[1][0] == 'a') {
        fflush(stdout);
        int ran = nCalls;
        for(int c = 0; c < ran; c++) { int pd = fork(); if(!pd) { struct buf b; mkbuf(&b); int v = call(c, &b); printf("{\"ev\":\"alone\",\"c\":%d,\"v\":%d}\n", c + 1, v); fflush(stdout); _exit(0); }
            int st; waitpid(pd, &st, 0); if(st) { fprintf(stderr, "call %d: status %d\n", c + 1, st); return 5; } }
    } else if(argv[1][0] == 's') {
        struct buf b; mkbuf(&b); u64 s = seed*2 + 1;
        dl_iterate_phdr(find, 0);
        if(!nseg) return 6;
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onsegv; sa.sa_flags = SA_SIGINFO|SA_NODEFER; sigaction(SIGSEGV, &sa, 0);
        for(int c = nCalls - 1; c >= 0; c--) call(c, &b);            /* anything set up on first use is in place */
        u64 in0 = inputs();
        for(int k = 0; k < rounds*nCalls; k++) {
            int c = k < nCalls ? k : (int)(rndp(&s)*nCalls); hidden = 0;
            prot(1); int v = call(c, &b); prot(0);
            printf("{\"ev\":\"start\",\"t\":1,\"c\":%d}\n{\"ev\":\"end\",\"t\":1,\"c\":%d,\"v\":%d,\"hidden\":%d,\"inputs\":%d", c + 1, c + 1, v, hidden, inputs() != in0);
            if(hidden) { Dl_info di; printf(",\"at\":\"%s\"", dladdr((void*)where, &di) && di.dli_sname ? di.dli_sname : "static data"); }
            printf("}\n");
        }
    } else {
        pthread_t th[64]; u64 in0 = inputs();
        pthread_barrier_init(&bar, 0, nth);
        for(long t = 0; t < nth; t++) { pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 64 << 20); pthread_create(&th[t], &at, worker, (void*)t); }
        int n = 0; for(int t = 0; t < nth; t++) pthread_join(th[t], 0), n += nev[t];
        int bad = inputs() != in0;
        struct ev *all = malloc(sizeof(struct ev)*(n + 1)); int m = 0;
        for(int t = 0; t < nth; t++) for(int i = 0; i < nev[t]; i++) all[m++] = evs[t][i];
        qsort(all, n, sizeof(struct ev), cmpev);
        for(int i = 0; i < n; i++) if(all[i].kind) printf("{\"ev\":\"end\",\"t\":%d,\"c\":%d,\"v\":%d,\"hidden\":0,\"inputs\":%d}\n", all[i].th, all[i].c + 1, all[i].v, bad);
            else printf("{\"ev\":\"start\",\"t\":%d,\"c\":%d}\n", all[i].th, all[i].c + 1);
    }
    return 0;
}
