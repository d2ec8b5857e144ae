/* isa SEED MAXL CALLS write FILE | compare FILE
 * Runs the same calls in every build (the inputs do not depend on the vector width). "compare" prints one event per call:
 * the largest difference to the recorded values, in units of 1e-12 of the largest value of the quartet. */
#include <string.h>
#include <math.h>
#include "simint/simint.h"
#include "guard.h"
#define NCART(l) (((l)+1)*((l)+2)/2)
static unsigned long long rs;
static double rnd(void) { rs = rs*6364136223846793005ull + 1442695040888963407ull; return ((rs >> 33) & 0xffffff) / 16777216.0; }
static int ri(int n) { return (int)(rnd()*n); }
static double spread;
static void list(struct simint_multi_shellpair *M, int am1, int am2, int n, int tight)
{
    struct simint_shell s[128];
    for(int i = 0; i < 2*n; i++) {
        double a[8], c[8]; int np = 1 + ri(4);
        for(int k = 0; k < np; k++) a[k] = tight ? pow(10.0, rnd()*1.6 - 0.4) : 0.15 + 3*rnd(), c[k] = 0.2 + rnd();
        simint_initialize_shell(s + i);
        simint_create_shell(np, i & 1 ? am2 : am1, spread*(rnd()-.5), spread*(rnd()-.5), spread*(rnd()-.5), a, c, s + i);
    }
    simint_initialize_multi_shellpair(M);
    simint_create_multi_shellpair2(n, s, M, 0);
    for(int i = 0; i < 2*n; i++) simint_free_shell(s + i);
}
int main(int argc, char **argv)
{
    int maxl = atoi(argv[2]), calls = atoi(argv[3]), cmp = argv[4][0] == 'c';
    FILE *f = fopen(argv[5], cmp ? "rb" : "wb");
    if(!f) return 3;
    simint_init();
    int maxder = SIMINT_OSTEI_MAXDER;
    for(int k = 0; k < calls; k++) {
        rs = strtoull(argv[1], 0, 10)*1000003ull + 2*k + 1; for(int i = 0; i < 5; i++) rnd();
        int nq4 = 1; for(int i = 0; i < 4; i++) nq4 *= maxl + 1;
        int cl = k % nq4, am[4]; for(int i = 0; i < 4; i++) { am[i] = cl % (maxl + 1); cl /= maxl + 1; }
        int der = (k / nq4) % (maxder + 1), tight = ri(2), nc = NCART(am[0])*NCART(am[1])*NCART(am[2])*NCART(am[3])*(der ? 12 : 1);
        spread = tight ? 3.0 : 2.5;
        int lim = nc > 2000 ? 3 : nc > 200 ? 6 : 19, np = 1 + ri(lim), nq = 1 + ri(lim);
        struct simint_multi_shellpair P, Q;
        list(&P, am[0], am[1], np, tight); list(&Q, am[2], am[3], nq, tight);
        size_t n = (size_t)np*nq*nc, nw = simint_eri_worksize(der, maxl);
        double *w = galloc(nw), *o = galloc(n), *r = malloc(8*n);
        int ret = der ? simint_compute_eri_deriv(der, &P, &Q, 0.0, w, o) : simint_compute_eri(&P, &Q, 0.0, w, o), ret0;
        if(!cmp) fwrite(&ret, 4, 1, f), fwrite(o, 8, n, f);
        else {
            if(fread(&ret0, 4, 1, f) != 1 || fread(r, 8, n, f) != n) return 4;
            double worst = 0; int bad = 0;
            for(int q = 0; q < np*nq; q++) {
                double mx = 0, d = 0;
                for(int i = 0; i < nc; i++) {
                    double x = o[(size_t)q*nc+i], y = r[(size_t)q*nc+i], e = fabs(x - y);
                    if(!(x - x == 0) || !(y - y == 0)) bad = 1;
                    if(fabs(y) > mx) mx = fabs(y);
                    if(e > d) d = e;
                }
                if(d > 0 && d/(mx*1e-12 + 1e-280) > worst) worst = d/(mx*1e-12 + 1e-280);
            }
            printf("{\"ev\":\"same\",\"am\":[%d,%d,%d,%d],\"der\":%d,\"np\":%d,\"nq\":%d,\"n\":%d,\"n0\":%d,\"res\":%d}\n", am[0], am[1], am[2], am[3], der, np, nq, ret, ret0,
                   bad || gcheck(w, nw) || gcheck(o, n) ? -1 : worst > 1e9 ? 1000000000 : (int)ceil(worst));
        }
        gfree(w); gfree(o); free(r);
        simint_free_multi_shellpair(&P); simint_free_multi_shellpair(&Q);
    }
    fclose(f);
    return 0;
}
