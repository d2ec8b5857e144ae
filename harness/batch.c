/* Reads lines   der l1 l2 l3 l4  np n.. nq n.. cp cq mode seed
 * mode 0: decode which primitive quartets contribute to which shell quartet, and how often
 * mode 1: compare with each quartet computed alone (general geometry)
 * mode 2: as mode 0 with the given screening values:  .. mode seed sP.. sQ.. tol (integers)
 * and prints one JSON event per line.
 *
 * Decoding: all primitives share their geometry, so a primitive quartet contributes
 * weight(i)*weight(j)*C to each component, C known from a single quartet. Bra weights are
 * one-hot and ket weights powers of four, so the counts are the base-4 digits. */
#include <string.h>
#include <math.h>
#include "simint/simint.h"
#include "guard.h"
#define NCART(l) (((l)+1)*((l)+2)/2)
#define BLK 12
#define MX 64

static unsigned long long rs;
static double rnd(void) { rs = rs*6364136223846793005ull + 1442695040888963407ull; return ((rs >> 33) & 0xffffff) / 16777216.0; }

static int der, l[4], nP[MX], nQ[MX], np, nq, cp, cq;
static int maxl, ncomp, scrP[MX*MX], scrQ[MX*MX]; static double tol;

static int call(struct simint_multi_shellpair *P, struct simint_multi_shellpair *Q, double *out, size_t nout, int *guard)
{
    size_t nw = simint_eri_worksize(der, maxl);
    double *w = galloc(nw), *o = galloc(nout);
    int ret = der ? simint_compute_eri_deriv(der, P, Q, tol, w, o) : simint_compute_eri(P, Q, tol, w, o);
    *guard |= gcheck(w, nw) | (gcheck(o, nout) << 1);
    memcpy(out, o, nout*8);
    gfree(w); gfree(o);
    return ret;
}

static void mk(struct simint_shell *S, int am, int n, double x, double y, double z, double ex, const double *co)
{
    double a[MX*MX];
    for(int i = 0; i < n; i++) a[i] = ex;
    simint_initialize_shell(S);
    simint_create_shell(n, am, x, y, z, a, co, S);
}

/* a list whose pairs have the given primitive counts and weights, all with one geometry */
static void mklist(struct simint_multi_shellpair *M, int am1, int am2, const int *n, int m, const double *w, int ket)
{
    struct simint_shell ab[2*MX];
    double one = 1.0;
    int k = 0;
    for(int a = 0; a < m; a++) {
        if(ket) mk(ab+2*a, am1, n[a], 0.4, -0.3, 0.2, 0.9, w+k), mk(ab+2*a+1, am2, 1, -0.1, 0.35, 0.5, 0.7, &one);
        else    mk(ab+2*a, am1, n[a], -0.2, 0.15, -0.45, 1.1, w+k), mk(ab+2*a+1, am2, 1, 0.3, 0.1, -0.15, 0.8, &one);
        k += n[a];
    }
    simint_initialize_multi_shellpair(M);
    simint_create_multi_shellpair2(m, ab, M, 0);
    for(int a = 0; a < 2*m; a++) simint_free_shell(ab+a);
}

/* gives the list screening values (filler: zero) */
static double *setscreen(struct simint_multi_shellpair *M, const int *n, int m, const int *v)
{
    double *s; int at = 0, k = 0;
    if(posix_memalign((void**)&s, 128, 8*(MX*MX))) exit(3);
    for(int i = 0; i < MX*MX; i++) s[i] = 0.0;
    M->screen_max = 0;
    for(int a = 0; a < m; a++) {
        for(int i = 0; i < n[a]; i++) { s[at++] = v[k]; if(v[k] > M->screen_max) M->screen_max = v[k]; k++; }
        if((a + 1) % SIMINT_NSHELL_SIMD == 0) at = SIMINT_SIMD_ROUND(at);
    }
    M->screen = s;
    return s;
}

static void head(const char *ev)
{
    printf("{\"ev\":\"%s\",\"der\":%d,\"am\":[%d,%d,%d,%d],\"P\":[", ev, der, l[0], l[1], l[2], l[3]);
    for(int i = 0; i < np; i++) printf("%s%d", i ? "," : "", nP[i]);
    printf("],\"Q\":[");
    for(int i = 0; i < nq; i++) printf("%s%d", i ? "," : "", nQ[i]);
    printf("],\"cp\":%d,\"cq\":%d", cp, cq);
}

static void decode(int scr)
{
    double t = tol; tol = 0;
    int NP = 0, NQ = 0, ret = 0, guard = 0;
    int oP[MX*MX], oQ[MX*MX], iP[MX*MX], iQ[MX*MX];
    for(int a = 0; a < np; a++) for(int i = 0; i < nP[a]; i++) { oP[NP] = a; iP[NP++] = i; }
    for(int a = 0; a < nq; a++) for(int i = 0; i < nQ[a]; i++) { oQ[NQ] = a; iQ[NQ++] = i; }
    struct simint_multi_shellpair P, Q;
    double one = 1.0; int n1 = 1;
    double *C = malloc(ncomp*8);
    mklist(&P, l[0], l[1], &n1, 1, &one, 0); mklist(&Q, l[2], l[3], &n1, 1, &one, 1);
    call(&P, &Q, C, ncomp, &guard);
    simint_free_multi_shellpair(&P); simint_free_multi_shellpair(&Q);
    double cm = 0; for(int k = 0; k < ncomp; k++) if(fabs(C[k]) > cm) cm = fabs(C[k]);

    size_t nout = (size_t)cp*cq*ncomp;
    double *out = malloc(nout*8);
    /* cnt[quartet][p][q] */
    int *cnt = calloc((size_t)cp*cq*NP*NQ, sizeof(int));
    double w1[MX*MX], w2[MX*MX], *s1 = NULL, *s2 = NULL;
    tol = t;
    int bad = 0;
    for(int p = 0; p < NP; p++)
    for(int b = 0; b < NQ; b += BLK)
    {
        int nb = NQ - b < BLK ? NQ - b : BLK;
        for(int i = 0; i < NP; i++) w1[i] = (i == p);
        for(int i = 0; i < NQ; i++) w2[i] = (i >= b && i < b + nb) ? ldexp(1.0, 2*(i - b)) : 0.0;
        mklist(&P, l[0], l[1], nP, np, w1, 0); mklist(&Q, l[2], l[3], nQ, nq, w2, 1);
        P.nshell12_clip = cp; Q.nshell12_clip = cq;
        if(scr) { s1 = setscreen(&P, nP, np, scrP); s2 = setscreen(&Q, nQ, nq, scrQ); }
        int r = call(&P, &Q, out, nout, &guard);
        free(s1); free(s2);
        if(r == -1) memset(out, 0, nout*8);   /* all skipped */
        if(p == 0 && b == 0) ret = r; else if(r != ret) ret = -1000;
        for(int q = 0; q < cp*cq; q++) {
            long long v = -1; int ok = 1;
            for(int k = 0; k < ncomp; k++) {
                if(!(fabs(C[k]) > 1e-3*cm)) continue;
                double x = out[(size_t)q*ncomp + k]/C[k];
                if(!(x > -0.1 && x < 1e9) || fabs(x - rint(x)) > 0.02) { ok = 0; break; }
                if(v < 0) v = (long long)rint(x); else if(v != (long long)rint(x)) { ok = 0; break; }
            }
            if(!ok || v < 0) { bad++; v = 0; }
            for(int j = 0; j < nb; j++) { cnt[((size_t)q*NP + p)*NQ + b + j] = v & 3; v >>= 2; }
            if(v) bad++;
        }
        simint_free_multi_shellpair(&P); simint_free_multi_shellpair(&Q);
    }
    head(scr ? "screen" : "call");
    if(scr) {
        printf(",\"tol\":%d,\"sP\":[", (int)t);
        for(int a = 0, k = 0; a < np; a++) { printf("%s[", a ? "," : ""); for(int i = 0; i < nP[a]; i++) printf("%s%d", i ? "," : "", scrP[k++]); printf("]"); }
        printf("],\"sQ\":[");
        for(int a = 0, k = 0; a < nq; a++) { printf("%s[", a ? "," : ""); for(int i = 0; i < nQ[a]; i++) printf("%s%d", i ? "," : "", scrQ[k++]); printf("]"); }
        printf("]");
    }
    printf(",\"ret\":%d,\"guard\":%d,\"undecodable\":%d,\"out\":[", ret, guard, bad);
    for(int q = 0; q < cp*cq; q++) {
        int first = 1;
        printf("%s[", q ? "," : "");
        for(int p = 0; p < NP; p++) for(int j = 0; j < NQ; j++) {
            int c = cnt[((size_t)q*NP + p)*NQ + j];
            if(!c) continue;
            /* own primitives by their number in the pair, strangers as 1000+global number */
            printf("%s[%d,%d,%d]", first ? "" : ",", oP[p] == q/cq ? iP[p]+1 : 1000+p, oQ[j] == q%cq ? iQ[j]+1 : 1000+j, c);
            first = 0;
        }
        if(bad && first) printf("[0,0,0]");
        printf("]");
    }
    printf("]}\n");
    free(cnt); free(out); free(C);
}

static void rshell(struct simint_shell *S, int am, int n)
{
    double a[MX], c[MX];
    for(int i = 0; i < n; i++) { a[i] = 0.5 + 1.5*rnd(); c[i] = 0.5 + rnd(); }
    double x = rnd()-0.5, y = rnd()-0.5, z = rnd()-0.5;
    simint_initialize_shell(S);
    simint_create_shell(n, am, x, y, z, a, c, S);
}

static void alone(void)
{
    struct simint_multi_shellpair P, Q, p1, q1;
    struct simint_shell A[2*MX], B[2*MX];
    int guard = 0;
    /* a pair with n primitives: n x 1, or a shell with itself if n is a triangular number */
    for(int s = 0; s < 2; s++) {
        struct simint_shell *S = s ? B : A;
        int *n = s ? nQ : nP, m = s ? nq : np, la = l[2*s], lb = l[2*s+1];
        for(int a = 0; a < m; a++) {
            if(la == lb && n[a] == 3 && rnd() < 0.5) { rshell(S+2*a, la, 2); S[2*a+1] = S[2*a]; }
            else if(la == lb && n[a] == 1 && rnd() < 0.3) { rshell(S+2*a, la, 1); S[2*a+1] = S[2*a]; }
            else if(rnd() < 0.5) { rshell(S+2*a, la, n[a]); rshell(S+2*a+1, lb, 1); }
            else { rshell(S+2*a, la, 1); rshell(S+2*a+1, lb, n[a]); }
        }
    }
    simint_initialize_multi_shellpair(&P); simint_initialize_multi_shellpair(&Q);
    simint_initialize_multi_shellpair(&p1); simint_initialize_multi_shellpair(&q1);
    simint_create_multi_shellpair2(np, A, &P, 0); simint_create_multi_shellpair2(nq, B, &Q, 0);
    P.nshell12_clip = cp; Q.nshell12_clip = cq;
    size_t nout = (size_t)cp*cq*ncomp;
    double *out = malloc(nout*8), *ref = malloc(nout*8);
    int ret = call(&P, &Q, out, nout, &guard), nan = 0;
    double scale = 0, diff = 0;
    for(int a = 0; a < cp; a++) for(int c = 0; c < cq; c++) {
        simint_create_multi_shellpair2(1, A+2*a, &p1, 0); simint_create_multi_shellpair2(1, B+2*c, &q1, 0);
        call(&p1, &q1, ref + ((size_t)a*cq+c)*ncomp, ncomp, &guard);
    }
    for(size_t i = 0; i < nout; i++) { if(isnan(ref[i]) || isnan(out[i])) { nan++; continue; } if(fabs(ref[i]) > scale) scale = fabs(ref[i]); }
    for(size_t i = 0; i < nout; i++) if(fabs(ref[i]-out[i]) > diff) diff = fabs(ref[i]-out[i]);
    double u = scale > 0 ? diff/scale/1e-13 : 1e9;
    head("alone");
    printf(",\"ret\":%d,\"guard\":%d,\"quartets\":%d,\"nan\":%d,\"diff\":%d}\n", ret, guard, cp*cq, nan, u > 1e9 ? 1000000000 : (int)ceil(u));
    free(out); free(ref);
    simint_free_multi_shellpair(&P); simint_free_multi_shellpair(&Q);
    simint_free_multi_shellpair(&p1); simint_free_multi_shellpair(&q1);
}

int main(void)
{
    int mode; long seed;
    simint_init();
    while(scanf("%d %d %d %d %d %d", &der, l, l+1, l+2, l+3, &np) == 6) {
        for(int i = 0; i < np; i++) scanf("%d", nP+i);
        scanf("%d", &nq);
        for(int i = 0; i < nq; i++) scanf("%d", nQ+i);
        scanf("%d %d %d %ld", &cp, &cq, &mode, &seed);
        rs = seed*2654435761u + 12345;
        maxl = 0; for(int i = 0; i < 4; i++) if(l[i] > maxl) maxl = l[i];
        ncomp = NCART(l[0])*NCART(l[1])*NCART(l[2])*NCART(l[3])*(der ? 12 : 1);
        tol = 0;
        if(mode == 2) {
            int NP = 0, NQ = 0, t;
            for(int i = 0; i < np; i++) NP += nP[i];
            for(int i = 0; i < nq; i++) NQ += nQ[i];
            for(int i = 0; i < NP; i++) scanf("%d", scrP+i);
            for(int i = 0; i < NQ; i++) scanf("%d", scrQ+i);
            scanf("%d", &t); tol = t;
        }
        if(mode == 1) alone(); else decode(mode == 2);
        fflush(stdout);
    }
    return 0;
}
