/* Integral calls with guarded buffers and write-protected inputs, by script.
 *   N id der m tol l1 l2 l3 l4 np nq cp cq seed   defines call number id (m: screening method of the pairs)
 *   W                                             writes the reported workspace sizes
 *   R                                             new history: both buffers are new
 *   X id fw fo                                    makes the call; fw, fo: what work and output hold before
 *        0 NaN, 1 zeros, 2 huge, 3 small numbers, 4 left as they are
 * Buffers are as large as the largest call of the script needs; each call is given buffers that end
 * (fw, fo even) or begin (odd) at an inaccessible page, apart from a few canaries. */
#define _GNU_SOURCE
#include <string.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <signal.h>
#include <setjmp.h>
#include <sys/mman.h>
#include "simint/simint.h"
#define NCART(l) (((l)+1)*((l)+2)/2)
#define MX 40
#define NC 4096
#define CAN 64          /* canaries: 512 bytes */
#define PG 4096
#define NOACC (256*PG)
static unsigned long long rs;
static double rnd(void) { rs = rs*6364136223846793005ull + 1442695040888963407ull; return ((rs >> 33) & 0xffffff) / 16777216.0; }
static sigjmp_buf jb; static volatile sig_atomic_t armed;
static void onsig(int s) { if(armed) siglongjmp(jb, s); _exit(99); }

struct call { int der, m, l[4], cp, cq, ml; double tol; struct simint_multi_shellpair P[2]; size_t nw, no; } *C[NC];

struct region { char *base; size_t len; };
static struct region reg(size_t bytes)      /* [no access][len][no access] */
{
    struct region r; r.len = (bytes + 2*CAN*8 + 2*PG - 1)/PG*PG;
    char *p = mmap(NULL, r.len + 2*NOACC, PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
    if(p == MAP_FAILED) exit(3);
    r.base = p + NOACC;
    mprotect(r.base, r.len, PROT_READ|PROT_WRITE);
    return r;
}
static void protect(struct simint_multi_shellpair *P)
{
    size_t n = (P->memsize + PG - 1)/PG*PG;
    char *p = mmap(NULL, n, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
    memcpy(p, P->ptr, P->memsize);
    char *old = P->ptr;
    #define MV(f) if(P->f) P->f = (void*)(p + ((char*)P->f - old))
    MV(x); MV(y); MV(z); MV(PA_x); MV(PA_y); MV(PA_z); MV(PB_x); MV(PB_y); MV(PB_z); MV(alpha); MV(prefac); MV(screen); MV(AB_x); MV(AB_y); MV(AB_z); MV(nprim12);
    #if SIMINT_OSTEI_MAXDER > 0
    MV(alpha2); MV(beta2);
    #endif
    free(old); P->ptr = p;
    mprotect(p, n, PROT_READ);
}
static void rshell(struct simint_shell *S, int am, int n)
{
    double a[16], c[16];
    for(int i = 0; i < n; i++) { a[i] = 0.2 + 3*rnd(); c[i] = 0.3 + rnd(); }
    simint_initialize_shell(S);
    simint_create_shell(n, am, 2*rnd()-1, 2*rnd()-1, 2*rnd()-1, a, c, S);
}
static void define(void)
{
    int id, n[2]; long seed; struct call *c = calloc(1, sizeof(*c));
    if(scanf("%d %d %d %lf %d %d %d %d %d %d %d %d %ld", &id, &c->der, &c->m, &c->tol, c->l, c->l+1, c->l+2, c->l+3, n, n+1, &c->cp, &c->cq, &seed) != 13) exit(4);
    C[id] = c; rs = seed*2654435761u + 17; for(int i = 0; i < 6; i++) rnd();
    struct simint_shell S[2*MX];
    for(int s = 0; s < 2; s++) {
        for(int a = 0; a < n[s]; a++) {
            rshell(S+2*a, c->l[2*s], 1 + (int)(3*rnd()));
            if(c->l[2*s] == c->l[2*s+1] && rnd() < 0.25) S[2*a+1] = S[2*a]; else rshell(S+2*a+1, c->l[2*s+1], 1 + (int)(2*rnd()));
        }
        simint_initialize_multi_shellpair(c->P+s);
        simint_create_multi_shellpair2(n[s], S, c->P+s, c->m);
        c->P[s].nshell12_clip = s ? c->cq : c->cp;
        protect(c->P+s);
    }
    for(int i = 0; i < 4; i++) if(c->l[i] > c->ml) c->ml = c->l[i];
    c->nw = simint_eri_worksize(c->der, c->ml);
    c->no = (size_t)c->cp*c->cq*NCART(c->l[0])*NCART(c->l[1])*NCART(c->l[2])*NCART(c->l[3])*(c->der ? 12 : 1);
}
static struct region RW, RO; static int have;
static const uint64_t cw = 0x7ff4deadbeef1234ull;
static double *place(struct region r, size_t n, int end)
{
    char *p = end ? (char*)(((uintptr_t)(r.base + r.len - CAN*8 - n*8)) & ~(uintptr_t)127) : r.base + CAN*8;
    return (double*)p;
}
static void fill(double *d, size_t n, int f)
{
    if(f == 4) return;
    for(size_t i = 0; i < n; i++) d[i] = f == 0 ? NAN : f == 1 ? 0.0 : f == 2 ? 1e300 : 1e-3*(double)(i % 97) - 0.05;
}
/* everything of the region outside the buffer must keep its value: remembered as a copy */
static int outside(struct region r, double *d, size_t n, char *copy)
{
    size_t a = (char*)d - r.base, b = a + n*8;
    return memcmp(r.base, copy, a) != 0 || memcmp(r.base + b, copy + b, r.len - b) != 0;
}
int main(void)
{
    char cmd[8];
    size_t mw = 0, mo = 0;
    simint_init();
    signal(SIGSEGV, onsig); signal(SIGBUS, onsig); signal(SIGFPE, onsig); signal(SIGILL, onsig);
    while(scanf("%7s", cmd) == 1) {
        if(cmd[0] == 'N') { define(); continue; }
        if(cmd[0] == 'W') {
            for(int d = 0; d <= SIMINT_OSTEI_MAXDER; d++) for(int a = 0; a <= SIMINT_OSTEI_MAXAM; a++)
                printf("{\"ev\":\"size\",\"der\":%d,\"am\":%d,\"n\":%ld,\"bytes\":%ld}\n", d, a, (long)simint_eri_worksize(d, a), (long)simint_eri_workmem(d, a));
            continue;
        }
        if(cmd[0] == 'R') {
            mw = mo = 0;
            for(int i = 0; i < NC; i++) if(C[i]) { if(C[i]->nw > mw) mw = C[i]->nw; if(C[i]->no > mo) mo = C[i]->no; }
            if(!have) { RW = reg(mw*8); RO = reg(mo*8); have = 1; }
            for(size_t i = 0; i < RW.len/8; i++) ((uint64_t*)RW.base)[i] = cw;
            for(size_t i = 0; i < RO.len/8; i++) ((uint64_t*)RO.base)[i] = cw;
            printf("{\"ev\":\"new\"}\n");
            continue;
        }
        int id, fw, fo;
        if(scanf("%d %d %d", &id, &fw, &fo) != 3) exit(4);
        struct call *c = C[id];
        /* fill 4 keeps the place at the front, so that old contents are really seen */
        double *w = place(RW, c->nw, fw % 2 == 0 && fw != 4), *o = place(RO, c->no, fo % 2 == 0 && fo != 4);
        fill(w, c->nw, fw); fill(o, c->no, fo);
        char *kw = malloc(RW.len), *ko = malloc(RO.len);
        memcpy(kw, RW.base, RW.len); memcpy(ko, RO.base, RO.len);
        struct simint_multi_shellpair before[2]; memcpy(before, c->P, sizeof(before));
        volatile int ret = -99, died = 0;
        armed = 1;
        int sg = sigsetjmp(jb, 1);
        if(sg == 0) ret = c->der ? simint_compute_eri_deriv(c->der, c->P, c->P+1, c->tol, w, o) : simint_compute_eri(c->P, c->P+1, c->tol, w, o);
        else died = sg;
        armed = 0;
        int guard = outside(RW, w, c->nw, kw) | (outside(RO, o, c->no, ko) << 1);
        int inp = memcmp(before, c->P, sizeof(before)) != 0, nan = 0;
        if(ret == -1) memset(o, 0, c->no*8);
        uint64_t h = 1469598103934665603ull;
        for(size_t i = 0; i < c->no; i++) { uint64_t u; memcpy(&u, o+i, 8); if(u == 0x8000000000000000ull) u = 0; h = (h ^ u)*1099511628211ull; h ^= h >> 29; if(isnan(o[i])) nan++; }
        printf("{\"ev\":\"call\",\"id\":%d,\"fw\":%d,\"fo\":%d,\"ret\":%d,\"expect\":%d,\"scr\":%d,\"died\":%d,\"guard\":%d,\"inputs\":%d,\"nan\":%d,\"h\":[%d,%d]}\n", id, fw, fo,
            ret, c->cp*c->cq, c->tol > 0, died, guard, inp, nan, (int)(h & 0x3fffffff), (int)(h >> 34));
        fflush(stdout);
        free(kw); free(ko);
    }
    return 0;
}
