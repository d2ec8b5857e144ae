/* Builds, concatenates and frees shell-pair objects by script and writes what they hold.
 *   S id am nprim x y z a.. c..     shell        SC src dst     copy     SZ id   dummy shell
 *   G                               all shells exist: write them and compute the tables of labels
 *   B id m n a b a b ..             create from a list     BP id m na a.. nb b..   create from a product
 *   C id m n ids ..                 concatenate            CS id m n ids ..        (inputs with one pair)
 *   F id                            free                   D id                    dump
 *   U id q n ids .. der             integrals of a concatenation against those of its inputs
 *   H k                             start history k (all objects initialised again)
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <stdint.h>
#include "simint/simint.h"
#define NCART(l) (((l)+1)*((l)+2)/2)
#define MAXS 64
#define MAXO 64
static struct simint_shell sh[MAXS], keep[MAXS];
static int data[MAXS], ctr[MAXS], ns;
static struct simint_multi_shellpair mp[MAXO];

/* label: what one primitive combination of shells A, B looks like */
struct lab { int a, b, i, j, w; double p, x[3], pa[3], pb[3], pf, a2, b2; double scr[3]; };
static struct lab *lab; static int nlab;

static int rdi(void) { long x; if(scanf("%ld", &x) != 1) exit(4); return (int)x; }
static double rdd(void) { char b[64]; if(scanf("%63s", b) != 1) exit(4); return strtod(b, NULL); }

static int close_(double u, double v, double scale) { return fabs(u - v) <= 1e-12*scale && u == u; }

static void mklabs(void)
{
    int cap = 0; lab = NULL; nlab = 0;
    for(int a = 0; a < ns; a++) for(int b = 0; b < ns; b++) {
        if(data[a] != a || (data[b] != b)) continue;      /* copies have the labels of their original */
        if(sh[a].alpha[0] == 0.0 && sh[b].alpha[0] == 0.0) continue;
        for(int w = 1; w <= (a == b ? 2 : 1); w++) {
            struct simint_shell A = sh[a], B = sh[b];
            if(a == b && w == 1) B.ptr = NULL;            /* for the screening functions: not the same shell */
            double *scr[3]; scr[0] = NULL;
            for(int m = 1; m <= 2; m++) { scr[m] = calloc(A.nprim*B.nprim + 64, 8); simint_primscreen(&A, &B, scr[m], m); }
            int n = 0;
            for(int i = 0; i < A.nprim; i++) for(int j = 0; j < (w == 2 ? i + 1 : B.nprim); j++, n++) {
                if(w == 2 && i == j) continue;
                if(nlab == cap) lab = realloc(lab, sizeof(*lab)*(cap = 2*cap + 64));
                struct lab *l = lab + nlab++;
                double ai = A.alpha[i], bj = B.alpha[j], ca[3] = {A.x,A.y,A.z}, cb[3] = {B.x,B.y,B.z}, r2 = 0;
                l->a = a; l->b = b; l->i = i; l->j = j; l->w = w; l->p = ai + bj;
                for(int d = 0; d < 3; d++) { l->x[d] = (ai*ca[d] + bj*cb[d])/l->p; l->pa[d] = bj*(cb[d] - ca[d])/l->p; l->pb[d] = ai*(ca[d] - cb[d])/l->p; r2 += (ca[d]-cb[d])*(ca[d]-cb[d]); }
                l->pf = A.coef[i]*B.coef[j]*exp(-r2*ai*bj/l->p)*sqrt(2.0)*pow(M_PI, 1.25)/l->p*w;
                l->a2 = w == 2 ? ai + bj : 2*ai; l->b2 = w == 2 ? ai + bj : 2*bj;
                l->scr[1] = scr[1][n]; l->scr[2] = scr[2][n];
            }
            free(scr[1]); free(scr[2]);
        }
    }
}
static int matches(const struct lab *l, const struct simint_multi_shellpair *P, int s)
{
    double sc = 4.0;   /* the size of the coordinates */
    return close_(P->alpha[s], l->p, l->p) && close_(P->prefac[s], l->pf, fabs(l->pf))
        && close_(P->x[s], l->x[0], sc) && close_(P->y[s], l->x[1], sc) && close_(P->z[s], l->x[2], sc)
        && close_(P->PA_x[s], l->pa[0], sc) && close_(P->PA_y[s], l->pa[1], sc) && close_(P->PA_z[s], l->pa[2], sc)
        && close_(P->PB_x[s], l->pb[0], sc) && close_(P->PB_y[s], l->pb[1], sc) && close_(P->PB_z[s], l->pb[2], sc)
    #if SIMINT_OSTEI_MAXDER > 0
        && close_(P->alpha2[s], l->a2, l->p) && close_(P->beta2[s], l->b2, l->p)
    #endif
        ;
}
static int filler(const struct simint_multi_shellpair *P, int s)
{
    return P->prefac[s] == 0.0 && P->alpha[s] > 0 && isfinite(P->alpha[s]) && isfinite(P->x[s]) && isfinite(P->y[s]) && isfinite(P->z[s])
        && isfinite(P->PA_x[s]) && isfinite(P->PA_y[s]) && isfinite(P->PA_z[s]) && isfinite(P->PB_x[s]) && isfinite(P->PB_y[s]) && isfinite(P->PB_z[s])
    #if SIMINT_OSTEI_MAXDER > 0
        && isfinite(P->alpha2[s]) && isfinite(P->beta2[s])
    #endif
        && (P->screen == NULL || P->screen[s] == 0.0);
}
static int cmpd(const void *a, const void *b) { double x = *(const double*)a, y = *(const double*)b; return x < y ? -1 : x > y; }

static int shells_same(void)
{
    for(int i = 0; i < ns; i++) {
        if(sh[i].am != keep[i].am || sh[i].nprim != keep[i].nprim || sh[i].x != keep[i].x || sh[i].y != keep[i].y || sh[i].z != keep[i].z) return 0;
        if(memcmp(sh[i].alpha, keep[i].alpha, 8*sh[i].nprim) || memcmp(sh[i].coef, keep[i].coef, 8*sh[i].nprim)) return 0;
    }
    return 1;
}
static void dump(int id)
{
    struct simint_multi_shellpair *P = mp + id;
    int tot = 0;
    for(int i = 0; i < P->nshell12; i++) {
        tot += P->nprim12[i];
        if((i+1) % SIMINT_NSHELL_SIMD == 0 || i+1 == P->nshell12) tot = SIMINT_SIMD_ROUND(tot);
    }
    printf("{\"ev\":\"dump\",\"id\":%d,\"am\":[%d,%d],\"nprim\":%d,\"nshell12\":%d,\"clip\":%d,\"same\":%d,\"nprim12\":[", id, P->am1, P->am2, P->nprim, P->nshell12, P->nshell12_clip, shells_same());
    for(int i = 0; i < P->nshell12; i++) printf("%s%d", i ? "," : "", P->nprim12[i]);
    printf("],\"ab\":[");
    for(int k = 0; k < P->nshell12; k++) {
        int fa = -1, fb = -1;
        for(int a = 0; a < ns && fa < 0; a++) for(int b = 0; b < ns; b++)
            if(P->AB_x[k] == sh[a].x - sh[b].x && P->AB_y[k] == sh[a].y - sh[b].y && P->AB_z[k] == sh[a].z - sh[b].z) { fa = ctr[a]; fb = ctr[b]; break; }
        printf("%s[%d,%d]", k ? "," : "", fa, fb);
    }
    printf("],\"slots\":[");
    for(int s = 0; s < tot; s++) {
        int f = -1;
        for(int q = 0; q < nlab && f < 0; q++) if(matches(lab + q, P, s)) f = q;
        if(f >= 0) {
            int sv = 0;
            if(P->screen) for(int m = 1; m <= 2; m++) { double x = lab[f].scr[m]; if(fabs(P->screen[s] - x) <= 1e-9*fabs(x) + 1e-300) sv |= m; }
            printf("%s[%d,%d,%d,%d,%d,%d]", s ? "," : "", lab[f].a, lab[f].b, lab[f].i, lab[f].j, lab[f].w, sv);
        }
        else printf("%s%s", s ? "," : "", filler(P, s) ? "[-1]" : "[-2]");
    }
    /* screening values as ranks */
    printf("],\"scr\":[");
    int smax = -1;
    if(P->screen) {
        double *v = malloc(8*(tot + 1)); memcpy(v, P->screen, 8*tot); qsort(v, tot, 8, cmpd);
        for(int s = 0; s < tot; s++) {
            int r = 0, last = -1; double prev = 0;
            if(P->screen[s] != P->screen[s]) r = -1;
            else { for(int t = 0; t < tot && v[t] < P->screen[s]; t++) if(last < 0 || v[t] != prev) { r++; prev = v[t]; last = t; } }
            printf("%s%d", s ? "," : "", r);
            if(P->screen[s] == P->screen_max) smax = r;
        }
        free(v);
    }
    printf("],\"has\":%d,\"smax\":%d,\"never\":%d}\n", P->screen != NULL, smax, P->screen_max >= 1e90);
    fflush(stdout);
}

static double *bufnan(size_t n) { double *p; if(posix_memalign((void**)&p, 128, 8*n + 128)) exit(3); for(size_t i = 0; i < n; i++) p[i] = NAN; return p; }

int main(void)
{
    char c[16];
    simint_init();
    for(int i = 0; i < MAXS; i++) simint_initialize_shell(sh + i);
    simint_initialize_multi_shellpairs(MAXO, mp);
    while(scanf("%15s", c) == 1)
    {
        if(!strcmp(c, "S")) {
            int id = rdi(), am = rdi(), n = rdi(); double x = rdd(), y = rdd(), z = rdd();
            double *a = malloc(n*8), *k = malloc(n*8);
            for(int i = 0; i < n; i++) a[i] = rdd();
            for(int i = 0; i < n; i++) k[i] = rdd();
            simint_create_shell(n, am, x, y, z, a, k, sh + id);
            free(a); free(k); data[id] = id; if(id >= ns) ns = id + 1;
        }
        else if(!strcmp(c, "SC")) { int s = rdi(), d = rdi(); simint_copy_shell(sh + s, sh + d); data[d] = s; if(d >= ns) ns = d + 1; }
        else if(!strcmp(c, "SZ")) { int s = rdi(); simint_create_zero_shell(sh + s); data[s] = s; if(s >= ns) ns = s + 1; }
        else if(!strcmp(c, "G")) {
            for(int i = 0; i < ns; i++) { ctr[i] = i; for(int j = 0; j < i; j++) if(sh[j].x == sh[i].x && sh[j].y == sh[i].y && sh[j].z == sh[i].z) { ctr[i] = ctr[j]; break; } }
            for(int i = 0; i < ns; i++) { keep[i] = sh[i]; keep[i].alpha = malloc(8*sh[i].nprim); keep[i].coef = malloc(8*sh[i].nprim);
                memcpy(keep[i].alpha, sh[i].alpha, 8*sh[i].nprim); memcpy(keep[i].coef, sh[i].coef, 8*sh[i].nprim); }
            mklabs();
            printf("{\"ev\":\"shells\",\"L\":%d,\"NS\":%d,\"s\":[", SIMINT_SIMD_LEN, SIMINT_NSHELL_SIMD);
            for(int i = 0; i < ns; i++) printf("%s{\"n\":%d,\"am\":%d,\"d\":%d,\"c\":%d}", i ? "," : "", sh[i].nprim, sh[i].am, data[i], ctr[i]);
            printf("]}\n");
        }
        else if(!strcmp(c, "H")) {
            int k = rdi();
            for(int i = 0; i < MAXO; i++) simint_free_multi_shellpair(mp + i);
            printf("{\"ev\":\"reset\",\"k\":%d}\n", k);
        }
        else if(!strcmp(c, "B")) {
            int id = rdi(), m = rdi(), n = rdi();
            struct simint_shell *ab = malloc(sizeof(*ab)*2*n);
            printf("{\"ev\":\"build\",\"id\":%d,\"m\":%d,\"pairs\":[", id, m);
            for(int i = 0; i < n; i++) { int a = rdi(), b = rdi(); ab[2*i] = sh[a]; ab[2*i+1] = sh[b]; printf("%s[%d,%d]", i ? "," : "", a, b); }
            printf("]}\n"); fflush(stdout);
            simint_create_multi_shellpair2(n, ab, mp + id, m);
            free(ab);
        }
        else if(!strcmp(c, "BP")) {
            int id = rdi(), m = rdi(), na = rdi(), ia[64], ib[64];
            struct simint_shell *a = malloc(sizeof(*a)*na);
            for(int i = 0; i < na; i++) a[i] = sh[ia[i] = rdi()];
            int nb = rdi();
            struct simint_shell *b = malloc(sizeof(*b)*nb);
            for(int i = 0; i < nb; i++) b[i] = sh[ib[i] = rdi()];
            printf("{\"ev\":\"product\",\"id\":%d,\"m\":%d,\"A\":[", id, m);
            for(int i = 0; i < na; i++) printf("%s%d", i ? "," : "", ia[i]);
            printf("],\"B\":[");
            for(int i = 0; i < nb; i++) printf("%s%d", i ? "," : "", ib[i]);
            printf("]}\n"); fflush(stdout);
            simint_create_multi_shellpair(na, a, nb, b, mp + id, m);
            free(a); free(b);
        }
        else if(!strcmp(c, "C") || !strcmp(c, "CS")) {
            int id = rdi(), m = rdi(), n = rdi(), in[64];
            struct simint_multi_shellpair const **p = malloc(sizeof(*p)*n);
            printf("{\"ev\":\"cat\",\"id\":%d,\"m\":%d,\"in\":[", id, m);
            for(int i = 0; i < n; i++) { p[i] = mp + (in[i] = rdi()); printf("%s%d", i ? "," : "", in[i]); }
            printf("]}\n"); fflush(stdout);
            if(c[1]) simint_cat_shellpairs(n, p, mp + id, m); else simint_cat_multi_shellpair(n, p, mp + id, m);
            free(p);
        }
        else if(!strcmp(c, "F")) { int id = rdi(); simint_free_multi_shellpair(mp + id); printf("{\"ev\":\"free\",\"id\":%d}\n", id); }
        else if(!strcmp(c, "D")) dump(rdi());
        else if(!strcmp(c, "U")) {
            int id = rdi(), q = rdi(), n = rdi(), in[64], bad = 0;
            for(int i = 0; i < n; i++) in[i] = rdi();
            int der = rdi();
            struct simint_multi_shellpair *P = mp + id, *Q = mp + q;
            int per = NCART(P->am1)*NCART(P->am2)*NCART(Q->am1)*NCART(Q->am2)*(der ? 12 : 1)*Q->nshell12;
            size_t nw = simint_eri_worksize(der, SIMINT_OSTEI_MAXAM);
            double *w = bufnan(nw), *o = bufnan((size_t)per*P->nshell12), *r = bufnan((size_t)per*P->nshell12);
            int ret = der ? simint_compute_eri_deriv(der, P, Q, 0.0, w, o) : simint_compute_eri(P, Q, 0.0, w, o);
            int sum = 0; double big = 0;
            for(int i = 0, at = 0; i < n; i++) {
                sum += der ? simint_compute_eri_deriv(der, mp + in[i], Q, 0.0, w, r + (size_t)at*per) : simint_compute_eri(mp + in[i], Q, 0.0, w, r + (size_t)at*per);
                at += mp[in[i]].nshell12;
            }
            for(size_t i = 0; i < (size_t)per*P->nshell12; i++) if(fabs(r[i]) > big) big = fabs(r[i]);
            for(size_t i = 0; i < (size_t)per*P->nshell12; i++) if(!(fabs(r[i] - o[i]) <= 1e-11*big)) bad++;
            /* the same with the concatenation as ket */
            {
                int per1 = per/Q->nshell12, nq = Q->nshell12, np = P->nshell12, at = 0;
                double *o2 = bufnan((size_t)per*np), *r2 = bufnan((size_t)per*np);
                ret = (der ? simint_compute_eri_deriv(der, Q, P, 0.0, w, o2) : simint_compute_eri(Q, P, 0.0, w, o2)) == ret ? ret : -1;
                for(int i = 0; i < n; i++) {
                    int ni = mp[in[i]].nshell12;
                    if(der) simint_compute_eri_deriv(der, Q, mp + in[i], 0.0, w, r2); else simint_compute_eri(Q, mp + in[i], 0.0, w, r2);
                    for(int a = 0; a < nq; a++) for(int b = 0; b < ni; b++) for(int c = 0; c < per1; c++)
                        if(!(fabs(r2[((size_t)a*ni + b)*per1 + c] - o2[((size_t)a*np + at + b)*per1 + c]) <= 1e-11*big)) bad++;
                    at += ni;
                }
                free(o2); free(r2);
            }
            printf("{\"ev\":\"use\",\"id\":%d,\"q\":%d,\"in\":[", id, q);
            for(int i = 0; i < n; i++) printf("%s%d", i ? "," : "", in[i]);
            printf("],\"der\":%d,\"ret\":%d,\"sum\":%d,\"bad\":%d}\n", der, ret, sum, bad);
            free(w); free(o); free(r);
        }
        else { fprintf(stderr, "bad command %s\n", c); return 5; }
        fflush(stdout);
    }
    return 0;
}
