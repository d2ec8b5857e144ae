/* Compares integrals with 113-bit reference values. stdin lines:
 *   der l1 l2 l3 l4 seed xa xb xc xd dab dcd dpq np      (categories, see below)
 * Events: residual in units of 2^-53 of the largest magnitude any term of the class has at primitive level. */
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include "simint/simint.h"
#include "oracle.hpp"
extern "C" {
#include "quadboys.h"
}
static unsigned long long rs;
static double rnd(void) { rs = rs*6364136223846793005ull + 1442695040888963407ull; return ((rs >> 33) & 0xffffff) / 16777216.0; }
static quad qabs(quad x) { return x < 0 ? -x : x; }
static double ex(int cat)       /* exponents: diffuse, ordinary, tight, very tight */
{
    switch(cat) { case 0: return pow(10.0, -3 + 2*rnd()); case 1: return 0.2 + 4*rnd(); case 2: return pow(10.0, 1 + 2*rnd()); default: return pow(10.0, 4 + 3*rnd()); }
}
static void place(int cat, double scale, const double *from, double *to)     /* same place, near, a bond away, far, very far */
{
    double d[5] = { 0, 1e-7, 1.0, 8.0, 60.0 }, v[3], n = 0;
    for(int x = 0; x < 3; x++) { v[x] = rnd() - .5; n += v[x]*v[x]; }
    for(int x = 0; x < 3; x++) to[x] = from[x] + d[cat]*(0.7 + 0.6*rnd())*scale*v[x]/sqrt(n);
    if(cat && rnd() < 0.25) to[(int)(3*rnd())] = from[0] == to[0] ? from[0] : to[0] - 0.3*d[cat];
}
int main()
{
    int der, l[4], xc[4], dab, dcd, dpq, np; unsigned long long seed;
    simint_init();
    while(scanf("%d %d %d %d %d %llu %d %d %d %d %d %d %d %d", &der, l, l+1, l+2, l+3, &seed, xc, xc+1, xc+2, xc+3, &dab, &dcd, &dpq, &np) == 14) {
        rs = seed*2 + 1; for(int i = 0; i < 5; i++) rnd();
        double c[4][3], a[4][8], k[4][8]; int n[4];
        for(int i = 0; i < 4; i++) {
            n[i] = np == 1 ? 1 : 1 + (int)(np*rnd());
            for(int j = 0; j < n[i]; j++) a[i][j] = ex(xc[i]), k[i][j] = (rnd() < 0.25 ? -1 : 1)*(0.1 + rnd());
        }
        for(int x = 0; x < 3; x++) c[0][x] = 2*(rnd() - .5);
        double sc = 1; if(xc[0] >= 2 && xc[1] >= 2) sc = 1/sqrt(a[0][0]);
        place(dab, sc, c[0], c[1]);
        if(dpq == 5) {                                                        /* argument of the Boys function at its switch */
            sc = xc[2] >= 2 && xc[3] >= 2 ? 1/sqrt(a[2][0]) : 1;
            double z[3] = {0, 0, 0}, D[3], P[3], Q[3], p = a[0][0] + a[1][0], q = a[2][0] + a[3][0], al = p*q/(p+q), v[3], nn = 0;
            place(dcd, sc, z, D);
            double T = 36.5 + (rnd() < 0.3 ? 0 : (rnd() - 0.4)*pow(10.0, 1 - 6*rnd()));
            for(int x = 0; x < 3; x++) { v[x] = rnd() - .5; nn += v[x]*v[x]; }
            for(int x = 0; x < 3; x++) {
                P[x] = (a[0][0]*c[0][x] + a[1][0]*c[1][x])/p; Q[x] = a[3][0]*D[x]/q;
                c[2][x] = P[x] - Q[x] + sqrt(T/al)*v[x]/sqrt(nn); c[3][x] = c[2][x] + D[x];
            }
        } else { place(dpq, 1, c[0], c[2]); sc = xc[2] >= 2 && xc[3] >= 2 ? 1/sqrt(a[2][0]) : 1; place(dcd, sc, c[2], c[3]); }
        int ml = 0, L = 0; for(int i = 0; i < 4; i++) { if(l[i] > ml) ml = l[i]; L += l[i]; }
        struct simint_shell S[4];
        for(int i = 0; i < 4; i++) { simint_initialize_shell(S+i); simint_create_shell(n[i], l[i], c[i][0], c[i][1], c[i][2], a[i], k[i], S+i); }
        struct simint_multi_shellpair P, Q;
        simint_initialize_multi_shellpair(&P); simint_initialize_multi_shellpair(&Q);
        simint_create_multi_shellpair(1, S, 1, S+1, &P, 0); simint_create_multi_shellpair(1, S+2, 1, S+3, &Q, 0);
        size_t nc = carts(l[0]).size()*carts(l[1]).size()*carts(l[2]).size()*carts(l[3]).size()*(der ? 12 : 1);
        double *w, *o;
        if(posix_memalign((void**)&w, 64, simint_eri_workmem(der, ml) + 64) || posix_memalign((void**)&o, 64, 8*nc + 64)) return 3;
        for(size_t i = 0; i < nc; i++) o[i] = NAN;
        int ret = der ? simint_compute_eri_deriv(der, &P, &Q, 0.0, w, o) : simint_compute_eri(&P, &Q, 0.0, w, o);
        std::vector<quad> ref(nc, 0);
        quad scale = 0;
        double tmin = 1e300, tmax = 0;
        for(int i0 = 0; i0 < n[0]; i0++) for(int i1 = 0; i1 < n[1]; i1++) for(int i2 = 0; i2 < n[2]; i2++) for(int i3 = 0; i3 < n[3]; i3++) {
            int id[4] = {i0, i1, i2, i3};
            Quartet<quad> s, m; quad co = 1;
            for(int i = 0; i < 4; i++) { s.e[i] = a[i][id[i]]; co *= (quad)k[i][id[i]]; for(int x = 0; x < 3; x++) s.c[i][x] = c[i][x]; }
            quad p = s.e[0] + s.e[1], q = s.e[2] + s.e[3], ab = 0, cd = 0, pq = 0;
            for(int x = 0; x < 3; x++) {
                quad u = s.c[0][x] - s.c[1][x], v = s.c[2][x] - s.c[3][x], t = (s.e[0]*s.c[0][x] + s.e[1]*s.c[1][x])/p - (s.e[2]*s.c[2][x] + s.e[3]*s.c[3][x])/q;
                ab += u*u; cd += v*v; pq += t*t;
            }
            quad T = p*q/(p+q)*pq, F[64], mu = s.e[0]*s.e[1]/p*ab, nu = s.e[2]*s.e[3]/q*cd;
            if((double)T < tmin) tmin = (double)T; if((double)T > tmax) tmax = (double)T;
            quad_boys(T, L + der, F);
            s.F.assign(F, F + L + der + 1);
            s.pre = co*2*powq(M_PIq, 2.5Q)/(p*q*sqrtq(p+q))*expq(-mu - nu);
            eri_add<quad>(l, der, s, false, 0, ref);
            /* the arguments of the exponential and of the Boys function carry rounding errors of their own, and so do
             * distances, relative to the coordinates */
            quad dT = 0; for(int x = 0; x < 3; x++) {
                quad t = (s.e[0]*s.c[0][x] + s.e[1]*s.c[1][x])/p - (s.e[2]*s.c[2][x] + s.e[3]*s.c[3][x])/q;
                dT += 2*p*q/(p+q)*qabs(t)*(qabs(s.c[0][x]) + qabs(s.c[1][x]) + qabs(s.c[2][x]) + qabs(s.c[3][x]));
            }
            m.pre = qabs(s.pre); m.F = s.F;
            quad big = 0;
            for(int side = 0; side < 4; side++) {                          /* the recurrences may start on either shell of a pair */
                int o4[4] = { side & 1, 1 - (side & 1), 2 + (side >> 1), 3 - (side >> 1) }, lm[4];
                for(int i = 0; i < 4; i++) { lm[i] = l[o4[i]]; m.e[i] = s.e[o4[i]]; for(int x = 0; x < 3; x++) m.c[i][x] = s.c[o4[i]][x]; }
                std::vector<quad> m0(nc, 0), m1(nc, 0);
                eri_add<quad>(lm, der, m, true, qabs, m0);
                eri_add<quad>(lm, der, m, true, qabs, m1, (quad)0x1p-53);
                for(size_t i = 0; i < nc; i++) { quad g = m0[i]*(1 + mu + nu + dT) + (m1[i] - m0[i])*0x1p53Q; if(g > big) big = g; }
            }
            scale += big;
        }
        quad worst = 0; int bad = 0;
        for(size_t i = 0; i < nc; i++) { if(!(o[i] - o[i] == 0)) bad = 1; else if(qabs((quad)o[i] - ref[i]) > worst) worst = qabs((quad)o[i] - ref[i]); }
        quad res = scale > 1e-270Q ? worst/scale*0x1p53Q : (worst < 1e-280Q ? 0 : 1e9Q);
        printf("{\"ev\":\"eri\",\"der\":%d,\"l\":[%d,%d,%d,%d],\"x\":[%d,%d,%d,%d],\"d\":[%d,%d,%d],\"np\":%d,\"T\":[\"%.3g\",\"%.3g\"],\"scale\":\"%.3g\",\"seed\":\"%llu\",\"n\":%d,\"res\":%d}\n",
               der, l[0], l[1], l[2], l[3], xc[0], xc[1], xc[2], xc[3], dab, dcd, dpq, np, tmin, tmax, (double)scale, seed, ret, bad ? -1 : res > 1e9Q ? 1000000000 : (int)ceilq(res));
        fflush(stdout);
        for(int i = 0; i < 4; i++) simint_free_shell(S+i);
        simint_free_multi_shellpair(&P); simint_free_multi_shellpair(&Q); free(w); free(o);
    }
}
