/* Compares one-electron integrals with 113-bit reference values. stdin lines:
 *   kind l1 l2 seed xa xb dab np nz      (categories as in num.cpp; nz charges)
 * Events: residual in units of 2^-53 of the largest magnitude any term of the class has at primitive level. */
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include "simint/simint.h"
#include "oracle.hpp"
extern "C" {
#include "quadboys.h"
}
static unsigned long long rs;
static double rnd(void) { rs = rs*6364136223846793005ull + 1442695040888963407ull; return ((rs >> 33) & 0xffffff) / 16777216.0; }
static quad qabs(quad x) { return x < 0 ? -x : x; }
static double ex(int cat)
{
    switch(cat) { case 0: return pow(10.0, -3 + 2*rnd()); case 1: return 0.2 + 4*rnd(); case 2: return pow(10.0, 1 + 2*rnd()); default: return pow(10.0, 4 + 3*rnd()); }
}
int main()
{
    int kind, l[2], xc[2], dab, np, nz; unsigned long long seed;
    simint_init();
    while(scanf("%d %d %d %llu %d %d %d %d %d", &kind, l, l+1, &seed, xc, xc+1, &dab, &np, &nz) == 9) {
        rs = seed*2 + 1; for(int i = 0; i < 5; i++) rnd();
        double c[2][3], a[2][8], k[2][8]; int n[2];
        for(int i = 0; i < 2; i++) {
            n[i] = np == 1 ? 1 : 1 + (int)(np*rnd());
            for(int j = 0; j < n[i]; j++) a[i][j] = ex(xc[i]), k[i][j] = (rnd() < 0.25 ? -1 : 1)*(0.1 + rnd());
        }
        double dd[5] = { 0, 1e-7, 1.0, 8.0, 60.0 }, v[3], nn = 0, sc = xc[0] >= 2 && xc[1] >= 2 ? 1/sqrt(a[0][0]) : 1;
        for(int x = 0; x < 3; x++) { v[x] = rnd() - .5; nn += v[x]*v[x]; }
        for(int x = 0; x < 3; x++) { c[0][x] = 2*(rnd() - .5); c[1][x] = c[0][x] + dd[dab]*(0.7 + 0.6*rnd())*sc*v[x]/sqrt(nn); }
        if(rnd() < 0.2) c[1][(int)(3*rnd())] = c[0][0];
        std::vector<double> Z(nz + 1), X(nz + 1), Y(nz + 1), W(nz + 1);
        for(int i = 0; i < nz; i++) {
            Z[i] = rnd() < 0.1 ? 0 : (rnd() < 0.2 ? -1 : 1)*(int)(1 + 90*rnd());
            double *p = c[rnd() < 0.5], far = rnd() < 0.3 ? 0 : pow(10.0, -6 + 8*rnd());
            X[i] = p[0] + far*(rnd() - .5); Y[i] = p[1] + far*(rnd() - .5); W[i] = p[2] + far*(rnd() - .5);
        }
        struct simint_shell S[2];
        for(int i = 0; i < 2; i++) { simint_initialize_shell(S+i); simint_create_shell(n[i], l[i], c[i][0], c[i][1], c[i][2], a[i], k[i], S+i); }
        size_t nc = carts(l[0]).size()*carts(l[1]).size();
        std::vector<double> o(nc + 8, NAN);
        int ret = kind == 0 ? simint_compute_overlap(S, S+1, o.data()) : kind == 1 ? simint_compute_ke(S, S+1, o.data())
                : simint_compute_potential(nz, Z.data(), X.data(), Y.data(), W.data(), S, S+1, o.data());
        for(int i = 0; i < 8; i++) if(o[nc+i] == o[nc+i]) ret = -99;
        std::vector<quad> ref(nc, 0); quad scale = 0;
        for(int i = 0; i < n[0]; i++) for(int j = 0; j < n[1]; j++) for(int z = 0; z < (kind == 2 ? nz : 1); z++) {
            Pair2<quad> s, m;
            s.e[0] = a[0][i]; s.e[1] = a[1][j]; quad p = s.e[0] + s.e[1], ab = 0, pc = 0, C[3] = { X[z], Y[z], W[z] }, dT = 0;
            for(int x = 0; x < 3; x++) {
                s.c[0][x] = c[0][x]; s.c[1][x] = c[1][x]; s.C[x] = kind == 2 ? C[x] : 0;
                quad u = s.c[0][x] - s.c[1][x], t = (s.e[0]*s.c[0][x] + s.e[1]*s.c[1][x])/p - C[x];
                ab += u*u; pc += t*t;
                dT += 2*p*qabs(t)*(qabs(s.c[0][x]) + qabs(s.c[1][x]) + qabs(C[x]));
            }
            quad mu = s.e[0]*s.e[1]/p*ab, co = (quad)k[0][i]*(quad)k[1][j]*expq(-mu);
            if(kind == 2) { quad F[64]; quad_boys(p*pc, l[0] + l[1], F); s.F.assign(F, F + l[0] + l[1] + 1); s.pre = -co*(quad)Z[z]*2*M_PIq/p; }
            else { quad r = sqrtq(M_PIq/p); s.pre = co*r*r*r; dT = 0; }
            /* from the tighter function outwards, differentiating the other: the definition loses its digits the other way round */
            if(s.e[0] >= s.e[1]) oei_add<quad>(kind, l, s, false, 0, ref);
            else {
                int lt[2] = { l[1], l[0] }; Pair2<quad> t = s; std::vector<quad> r(nc, 0);
                for(int f = 0; f < 2; f++) { t.e[f] = s.e[1-f]; for(int x = 0; x < 3; x++) t.c[f][x] = s.c[1-f][x]; }
                oei_add<quad>(kind, lt, t, false, 0, r);
                size_t n0 = carts(l[0]).size(), n1 = carts(l[1]).size();
                for(size_t q = 0; q < n0; q++) for(size_t w = 0; w < n1; w++) ref[q*n1 + w] += r[w*n0 + q];
            }
            m = s; m.pre = qabs(s.pre);
            quad big = 0;
            for(int side = 0; side < 2; side++) {
                int lm[2] = { l[side], l[1-side] };
                for(int f = 0; f < 2; f++) { m.e[f] = s.e[side ? 1-f : f]; for(int x = 0; x < 3; x++) m.c[f][x] = s.c[side ? 1-f : f][x]; }
                std::vector<quad> m0(nc, 0), m1(nc, 0);
                oei_add<quad>(kind, lm, m, true, qabs, m0);
                oei_add<quad>(kind, lm, m, true, qabs, m1, (quad)0x1p-53);
                quad b = 0;
                for(size_t q = 0; q < nc; q++) { quad g = m0[q]*(1 + mu + dT) + (m1[q] - m0[q])*0x1p53Q; if(g > b) b = g; }
                if(kind == 1) { if(side == 0 || b < big) big = b; }     /* the kinetic energy may be taken on either side: the smaller bound */
                else if(b > big) big = b;
            }
            scale += big;
        }
        quad worst = 0; int bad = 0;
        for(size_t i = 0; i < nc; i++) { if(!(o[i] - o[i] == 0)) bad = 1; else if(qabs((quad)o[i] - ref[i]) > worst) worst = qabs((quad)o[i] - ref[i]); }
        quad res = scale > 1e-270Q ? worst/scale*0x1p53Q : (worst < 1e-280Q ? 0 : 1e9Q);
        printf("{\"ev\":\"oei\",\"kind\":%d,\"l\":[%d,%d],\"x\":[%d,%d],\"d\":%d,\"np\":%d,\"nz\":%d,\"scale\":\"%.3g\",\"seed\":\"%llu\",\"n\":%d,\"res\":%d}\n",
               kind, l[0], l[1], xc[0], xc[1], dab, np, nz, (double)scale, seed, ret, bad ? -1 : res > 1e9Q ? 1000000000 : (int)ceilq(res));
        fflush(stdout);
        for(int i = 0; i < 2; i++) simint_free_shell(S+i);
    }
}
