/* Screening as built into shell pairs.  stdin lines:
 *   V m l1 l2 same n1 n2 seed                    screening values of one pair against self-repulsion integrals
 *   B der m l1 l2 l3 l4 np nq cp cq tolexp seed  a screened call against the unscreened one (tolerance 10^-tolexp)
 */
#include <string.h>
#include <math.h>
#include "simint/simint.h"
#include "simint/shell/shell_screen.h"
#include "guard.h"
#define NCART(l) (((l)+1)*((l)+2)/2)
#define MX 40
static unsigned long long rs;
static double rnd(void) { rs = rs*6364136223846793005ull + 1442695040888963407ull; return ((rs >> 33) & 0xffffff) / 16777216.0; }
static void rshell(struct simint_shell *S, int am, int n, double spread)
{
    double a[16], c[16];
    for(int i = 0; i < n; i++) { a[i] = exp(log(0.15) + rnd()*log(200.)); c[i] = (rnd() < 0.3 ? -1 : 1)*exp(-4*rnd()); }
    simint_initialize_shell(S);
    simint_create_shell(n, am, spread*(rnd()-0.5), spread*(rnd()-0.5), spread*(rnd()-0.5), a, c, S);
}
static int units(double u) { return !(u < 1e9) ? 1000000000 : (int)ceil(u); }
/* largest diagonal integral (mn|mn) of a pair of shells */
static double self(struct simint_shell *A, struct simint_shell *B)
{
    int ml = A->am > B->am ? A->am : B->am, n = NCART(A->am)*NCART(B->am);
    struct simint_multi_shellpair P; simint_initialize_multi_shellpair(&P);
    simint_create_multi_shellpair(1, A, 1, B, &P, 0);
    double *w = galloc(simint_eri_worksize(0, ml)), *o = galloc((size_t)n*n), m = 0;
    simint_compute_eri(&P, &P, 0.0, w, o);
    for(int k = 0; k < n; k++) if(fabs(o[(size_t)k*n + k]) > m) m = fabs(o[(size_t)k*n + k]);
    gfree(w); gfree(o); simint_free_multi_shellpair(&P);
    return m;
}
static void vals(void)
{
    int m, l1, l2, same, n1, n2; long seed;
    scanf("%d %d %d %d %d %d %ld", &m, &l1, &l2, &same, &n1, &n2, &seed); rs = seed*2654435761u + 99;
    for(int i = 0; i < 8; i++) rnd();
    struct simint_shell A, B; rshell(&A, l1, n1, 2.0); rshell(&B, l2, n2, 2.0);
    if(same) B = A;
    double out[300], got[300], mx, worst = 0, big = 0, sum = 0; int n = 0, cnt = 0;
    for(int i = 0; i < 300; i++) out[i] = NAN;
    mx = simint_primscreen(&A, &B, out, m);
    double null = simint_primscreen(&A, &B, NULL, m);
    for(int i = 0; i < 300; i++) if(!isnan(out[i])) cnt++;
    for(int i = 0; i < A.nprim; i++) for(int j = 0; j < (same ? i + 1 : B.nprim); j++, n++) {
        struct simint_shell a, b; simint_initialize_shell(&a); simint_initialize_shell(&b);
        simint_create_shell(1, m == 1 ? l1 : 0, A.x, A.y, A.z, A.alpha + i, A.coef + i, &a);
        simint_create_shell(1, m == 1 ? l2 : 0, B.x, B.y, B.z, B.alpha + j, B.coef + j, &b);
        got[n] = self(&a, &b);
        sum += got[n];
        simint_free_shell(&a); simint_free_shell(&b);
        if(got[n] > big) big = got[n];
        double d = fabs(out[n] - got[n])/got[n];
        if(got[n] > 1e-280 && !(d <= worst)) worst = isnan(d) ? 1e9 : d;
    }
    double sref = m == 1 ? self(&A, &B) : sum, s = simint_shellscreen(&A, &B, m);
    double dm = fabs(mx - big)/big + fabs(null - big)/big, ds = fabs(s - sref)/sref;
    printf("{\"ev\":\"vals\",\"m\":%d,\"l\":[%d,%d],\"same\":%d,\"n\":%d,\"expect\":%d,\"worst\":%d,\"max\":%d,\"shell\":%d}\n", m, l1, l2, same, cnt, n,
        units(worst/1e-10), units(dm/1e-10), units(ds/1e-10));
    simint_free_shell(&A); if(!same) simint_free_shell(&B);
}
static void bound(void)
{
    int der, m, l[4], np, nq, cp, cq, te; long seed;
    scanf("%d %d %d %d %d %d %d %d %d %d %d %ld", &der, &m, l, l+1, l+2, l+3, &np, &nq, &cp, &cq, &te, &seed); rs = seed*2654435761u + 99;
    for(int i = 0; i < 8; i++) rnd();
    struct simint_shell S[2][2*MX]; int n[2] = {np, nq};
    struct simint_multi_shellpair P[2], R[2];
    for(int s = 0; s < 2; s++) {
        for(int a = 0; a < n[s]; a++) {
            rshell(S[s]+2*a, l[2*s], 1 + (int)(rnd()*3), 6.0);
            if(l[2*s] == l[2*s+1] && rnd() < 0.3) S[s][2*a+1] = S[s][2*a]; else rshell(S[s]+2*a+1, l[2*s+1], 1 + (int)(rnd()*3), 6.0);
        }
        simint_initialize_multi_shellpair(P+s); simint_initialize_multi_shellpair(R+s);
        simint_create_multi_shellpair2(n[s], S[s], P+s, m);
        simint_create_multi_shellpair2(n[s], S[s], R+s, 0);
        P[s].nshell12_clip = R[s].nshell12_clip = s ? cq : cp;
    }
    int ml = 0; for(int i = 0; i < 4; i++) if(l[i] > ml) ml = l[i];
    int nc = NCART(l[0])*NCART(l[1])*NCART(l[2])*NCART(l[3])*(der ? 12 : 1);
    size_t nout = (size_t)cp*cq*nc, nw = simint_eri_worksize(der, ml);
    double *w = galloc(nw), *o = galloc(nout), *r = galloc(nout), tol = pow(10.0, -te);
    int ret = der ? simint_compute_eri_deriv(der, P, P+1, tol, w, o) : simint_compute_eri(P, P+1, tol, w, o), nan = 0;
    if(der) simint_compute_eri_deriv(der, R, R+1, 0.0, w, r); else simint_compute_eri(R, R+1, 0.0, w, r);
    if(ret == -1) memset(o, 0, 8*nout);
    for(size_t i = 0; i < nout; i++) if(isnan(o[i])) nan++;
    double big = 0; for(size_t i = 0; i < nout; i++) if(fabs(r[i]) > big) big = fabs(r[i]);
    printf("{\"ev\":\"bound\",\"der\":%d,\"m\":%d,\"l\":[%d,%d,%d,%d],\"tol\":%d,\"ret\":%d,\"nan\":%d,\"q\":[", der, m, l[0], l[1], l[2], l[3], te, ret, nan);
    int is = 0;
    for(int a = 0; a < cp; a++) {
        int js = 0;
        for(int c = 0; c < cq; c++) {
            int lo = 0, hi = 0; double err = 0;
            for(int i = is; i < is + P[0].nprim12[a]; i++) for(int j = js; j < js + P[1].nprim12[c]; j++)
                if(P[0].screen[i]*P[1].screen[j] < tol*tol) lo++; else hi++;
            for(int k = 0; k < nc; k++) { double d = fabs(o[((size_t)a*cq + c)*nc + k] - r[((size_t)a*cq + c)*nc + k]); if(!(d <= err)) err = isnan(d) ? 1e30 : d; }
            err -= 1e-12*big; if(err < 0) err = 0;
            printf("%s[%d,%d,%d]", a + c ? "," : "", units(err/tol), lo, hi);
            js += P[1].nprim12[c]; if((c+1) % SIMINT_NSHELL_SIMD == 0) js = SIMINT_SIMD_ROUND(js);
        }
        is += P[0].nprim12[a]; if((a+1) % SIMINT_NSHELL_SIMD == 0) is = SIMINT_SIMD_ROUND(is);
    }
    printf("]}\n");
    gfree(w); gfree(o); gfree(r);
    for(int s = 0; s < 2; s++) { simint_free_multi_shellpair(P+s); simint_free_multi_shellpair(R+s); }
}
int main(void)
{
    char c[8];
    simint_init();
    while(scanf("%7s", c) == 1) { if(c[0] == 'V') vals(); else bound(); fflush(stdout); }
    return 0;
}
