/* Drives initialisation and dispatch of a library whose integral routines are replaced by stubs
   (stub_list.h, written by the check: STUB(name) for each routine). Input: I, F, C <seed> <all|n>. Output: events. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "simint/simint.h"

#define MAXAM SIMINT_OSTEI_MAXAM
#define MAXDER SIMINT_OSTEI_MAXDER

static int nran;
static const char * ran[8];
static double ran_tol2;
static int ran_same, ran_ret;
static struct simint_multi_shellpair eP, eQ;
static double * eWork, * eInts;

#define F(f) if(a->f != b->f) return 0;
static int same(const struct simint_multi_shellpair * a, const struct simint_multi_shellpair * b)
{
    F(am1) F(am2) F(nprim) F(nshell12) F(nshell12_clip) F(nprim12) F(AB_x) F(AB_y) F(AB_z) F(x) F(y) F(z)
    F(PA_x) F(PA_y) F(PA_z) F(PB_x) F(PB_y) F(PB_z) F(alpha)
    #if SIMINT_OSTEI_MAXDER > 0
    F(alpha2) F(beta2)
    #endif
    F(prefac) F(screen) F(screen_max) F(memsize) F(ptr)
    return 1;
}

static int stub(const char * name, struct simint_multi_shellpair P, struct simint_multi_shellpair Q, double tol2, double * work, double * ints)
{
    if(nran < 8) ran[nran] = name;
    nran++;
    ran_tol2 = tol2;
    ran_same = ran_same && same(&P, &eP) && same(&Q, &eQ) && work == eWork && ints == eInts;
    return ran_ret;
}

#define STUB(name) \
int name(struct simint_multi_shellpair const P, struct simint_multi_shellpair const Q, double screen_tol, \
         double * const restrict work, double * const restrict ints) \
{ return stub(#name, P, Q, screen_tol, work, ints); }
#include "stub_list.h"

static uint64_t s;
static uint32_t rnd(void) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return s >> 33; }
static void * mark(void) { return (void *)(uintptr_t)(0x100000 + 64 * (uint64_t)rnd()); }

static void fill(struct simint_multi_shellpair * P, int a, int b)
{
    memset(P, 0, sizeof *P);
    P->am1 = a; P->am2 = b;
    P->nprim = rnd() % 1000; P->nshell12 = rnd() % 1000; P->nshell12_clip = rnd() % 1000;
    void ** p[] = {(void **)&P->nprim12, (void **)&P->AB_x, (void **)&P->AB_y, (void **)&P->AB_z, (void **)&P->x, (void **)&P->y, (void **)&P->z,
        (void **)&P->PA_x, (void **)&P->PA_y, (void **)&P->PA_z, (void **)&P->PB_x, (void **)&P->PB_y, (void **)&P->PB_z, (void **)&P->alpha,
        #if SIMINT_OSTEI_MAXDER > 0
        (void **)&P->alpha2, (void **)&P->beta2,
        #endif
        (void **)&P->prefac, (void **)&P->screen, (void **)&P->ptr};
    for(unsigned i = 0; i < sizeof p / sizeof *p; i++) *p[i] = mark();
    P->memsize = rnd();
}

static int first;
static void call(int api, int der, int a, int b, int c, int d)
{
    struct simint_multi_shellpair P, Q;
    fill(&P, a, b); fill(&Q, c, d);
    if(rnd() % 4 == 0) { Q = P; Q.am1 = c; Q.am2 = d; }
    int tol = rnd() % 3 ? (int)(rnd() % 9) : 0;
    int mp = rnd() % 60, mq = rnd() % 60;
    P.screen_max = mp / 64.0; Q.screen_max = mq / 64.0;
    eP = P; eQ = Q; eWork = mark(); eInts = mark();
    ran_ret = (int)(rnd() % 4000) - 5;
    nran = 0; ran_same = 1; ran_tol2 = -1;
    int ret;
    double t = tol / 8.0;
    if(api == 0) ret = simint_compute_eri(&P, &Q, t, eWork, eInts);
    else if(api == 1) ret = simint_compute_eri_deriv(der, &P, &Q, t, eWork, eInts);
    else if(api == 2) ret = simint_compute_ostei(&P, &Q, t, eWork, eInts);
    else ret = simint_compute_ostei_deriv(der, &P, &Q, t, eWork, eInts);
    ran_same = ran_same && same(&P, &eP) && same(&Q, &eQ);
    double t2 = ran_tol2 * 64.0;
    if(!first) printf(",");
    first = 0;
    printf("{\"api\":%d,\"der\":%d,\"am\":[%d,%d,%d,%d],\"tol\":%d,\"maxp\":%d,\"maxq\":%d,\"ran\":[", api, der, a, b, c, d, tol, mp, mq);
    for(int i = 0; i < nran && i < 8; i++) printf("%s\"%s\"", i ? "," : "", ran[i]);
    printf("],\"tol2\":%d,\"same\":%s,\"ret\":%d,\"want\":%d}", t2 == (int)t2 ? (int)t2 : -77, ran_same ? "true" : "false", ret, ran_ret);
}

int main(void)
{
    char op;
    while(scanf(" %c", &op) == 1)
    {
        if(op == 'I') { simint_init(); printf("{\"ev\":\"I\"}\n"); }
        if(op == 'F') { simint_finalize(); printf("{\"ev\":\"F\"}\n"); }
        if(op == 'C')
        {
            unsigned long long seed; int n;
            if(scanf("%llu %d", &seed, &n) != 2) return 9;
            s = seed;
            const int N = MAXAM + 1;
            int k = 0;
            #define CALL(api, der, q) do { \
                if(k % 400 == 0) { if(k) printf("]}\n"); printf("{\"ev\":\"C\",\"calls\":["); first = 1; } k++; \
                call(api, der, (q) / (N*N*N), (q) / (N*N) % N, (q) / N % N, (q) % N); } while(0)
            if(n == 0)
            {
                for(int q = 0; q < N*N*N*N; q++)
                {
                    CALL(rnd() % 2 * 2, 0, q);
                    for(int der = 0; der <= MAXDER; der++) CALL(1 + rnd() % 2 * 2, der, q);
                }
            }
            else for(int i = 0; i < n; i++)
            {
                int q = rnd() % (N*N*N*N), api = rnd() % 4;
                CALL(api, api % 2 ? (int)(rnd() % (MAXDER + 1)) : 0, q);
            }
            printf("]}\n");
        }
        fflush(stdout);
    }
    return 0;
}
