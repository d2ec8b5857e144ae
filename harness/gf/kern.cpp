/* Records single steps of the general recurrence routines.
 * Compiled over GF(p) (gf_prelude.h) and, with real doubles, for each instruction set: then the
 * inputs are small integers, so that all values are exact, and they are written modulo p.
 *
 * stdin: "vrr C i j k l num_n seed" | "vrr1 C am num_n seed" | "hrr C i j k l seed" | "table"
 *        (C = 0..3: the centre whose momentum the step builds); one JSON event per line and lane */
#ifndef GF_PRELUDE_H
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <vector>
#define GFMOD 46327
typedef double real_double;
#else
#define GFMOD GF_P
#endif
#include "simint/simint.h"
extern "C" {
#include "simint/ostei/ostei_general.h"
#include "simint/recur_lookup.h"
}
#define LANES SIMINT_SIMD_LEN
#define NC(l) (((l)+1)*((l)+2)/2)
typedef __int128 I;
static uint64_t rs;
static uint32_t rnd(void) { rs = rs*6364136223846793005ull + 1442695040888963407ull; return (uint32_t)(rs >> 33); }
static bool toobig;
static const bool isreal =
#ifdef GF_PRELUDE_H
    false;
static I red(I x) { x %= GFMOD; return x < 0 ? x + GFMOD : x; }
static I draw(void) { return 1 + rnd() % (GFMOD - 1); }
#else
    true;
static I red(I x) { if(x > ((I)1 << 50) || x < -((I)1 << 50)) toobig = true; return x; }
static I draw(void) { return (I)(rnd() % 5) - 2; }
#endif
static long modp(I x) { x %= GFMOD; return (long)(x < 0 ? x + GFMOD : x); }

/* parameters of one lane */
struct Par { I PA[3], AB[3], QC[3], CD[3], apq[3], cpq[3], aop, aoq, h2p, h2q, h2pq, w[3]; };
static void draw_par(Par &p)
{
    for(int d = 0; d < 3; d++) { p.PA[d] = draw(); p.AB[d] = draw(); p.QC[d] = draw(); p.CD[d] = draw(); p.apq[d] = draw(); p.cpq[d] = draw(); }
    p.aop = draw(); p.aoq = draw(); p.h2p = draw(); p.h2q = draw(); p.h2pq = draw();
    for(int t = 0; t < 3; t++) p.w[t] = draw();
    if(isreal) for(int t = 0; t < 3; t++) if(p.w[t] == 0) p.w[t] = 1;
}
/* one-dimensional tables at node t = node+1 */
struct Tab { int n; std::vector<I> v; I &at(int a, int b, int c, int d) { return v[((a*n + b)*n + c)*n + d]; } };
static void table(const Par &p, int dim, int t, int na, int nb, int nc, int nd, Tab &T)
{
    int n = na + nb + nc + nd + 1; T.n = n; T.v.assign((size_t)n*n*n*n, 0);
    I C = p.PA[dim] + t*p.apq[dim], D = p.QC[dim] + t*p.cpq[dim];
    I b10 = red(p.h2p*(1 + t*p.aop)), b01 = red(p.h2q*(1 + t*p.aoq)), b00 = p.h2pq*t;
    for(int c = 0; c <= nc + nd; c++) for(int a = 0; a <= na + nb; a++) {
        I v;
        if(a == 0 && c == 0) v = 1;
        else if(a > 0) v = red(C*T.at(a-1,0,c,0)) + (a > 1 ? red((a-1)*b10*T.at(a-2,0,c,0)) : 0) + (c > 0 ? red(c*b00*T.at(a-1,0,c-1,0)) : 0);
        else v = red(D*T.at(0,0,c-1,0)) + (c > 1 ? red((c-1)*b01*T.at(0,0,c-2,0)) : 0);
        T.at(a,0,c,0) = red(v);
    }
    for(int b = 1; b <= nb; b++) for(int a = 0; a <= na + nb - b; a++) for(int c = 0; c <= nc + nd; c++)
        T.at(a,b,c,0) = red(T.at(a+1,b-1,c,0) + red(p.AB[dim]*T.at(a,b-1,c,0)));
    for(int d = 1; d <= nd; d++) for(int c = 0; c <= nc + nd - d; c++) for(int b = 0; b <= nb; b++) for(int a = 0; a <= na + nb - b; a++)
        T.at(a,b,c,d) = red(T.at(a,b,c+1,d-1) + red(p.CD[dim]*T.at(a,b,c,d-1)));
}
static int cart(int l, int idx, int *e)
{
    int n = 0;
    for(int x = l; x >= 0; x--) for(int y = l - x; y >= 0; y--, n++) if(n == idx) { e[0] = x; e[1] = y; e[2] = l-x-y; return 1; }
    return 0;
}
/* the class (l) for orders 0..no-1, one lane */
static std::vector<I> integrals(const Par &p, const int *l, int no, std::vector<Tab> &tab)
{
    std::vector<I> o;
    for(int n = 0; n < no; n++)
    for(int i = 0; i < NC(l[0]); i++) for(int j = 0; j < NC(l[1]); j++) for(int k = 0; k < NC(l[2]); k++) for(int m = 0; m < NC(l[3]); m++) {
        int a[3], b[3], c[3], d[3]; cart(l[0], i, a); cart(l[1], j, b); cart(l[2], k, c); cart(l[3], m, d);
        I s = 0;
        for(int t = 0; t < 3; t++) {
            I v = p.w[t];
            for(int x = 0; x < n; x++) v = red(v*(t+1));
            for(int x = 0; x < 3; x++) v = red(v*tab[t*3+x].at(a[x],b[x],c[x],d[x]));
            s = red(s + v);
        }
        o.push_back(s);
    }
    return o;
}

typedef double dbl;   /* the field element in GF mode */
static dbl todbl(I v) { return dbl((int64_t)v); }
static long back(dbl v)
{
#ifdef GF_PRELUDE_H
    return (long)v.v;
#else
    if(!(v > -4.6e18 && v < 4.6e18) || v != (double)(int64_t)v) return -1;
    return modp((int64_t)v);
#endif
}
struct Buf { dbl *p; size_t n; Buf(size_t n_) : n(n_) { p = (dbl*)SIMINT_ALLOC((n + 16)*sizeof(dbl)); for(size_t i = 0; i < n + 16; i++) poison(i); }
    void poison(size_t i) { long long x = -7; memcpy(p + i, &x, 8); }
    bool clean() { for(size_t i = n; i < n + 16; i++) { long long x; memcpy(&x, p + i, 8); if(x != -7) return false; } return true; }
    ~Buf() { SIMINT_FREE(p); } };

static void emit(const char *ev, int C, const int *l, int num_n, const Par &p, const Buf &o, int lane, int lanes, bool over)
{
    auto v3 = [](const char *n, const I *v) { printf("\"%s\":[%ld,%ld,%ld],", n, modp(v[0]), modp(v[1]), modp(v[2])); };
    printf("{\"ev\":\"%s\",\"c\":%d,\"l\":[%d,%d,%d,%d],\"n\":%d,\"over\":%d,\"p\":{", ev, C, l[0], l[1], l[2], l[3], num_n, (int)over);
    v3("PA", p.PA); v3("AB", p.AB); v3("QC", p.QC); v3("CD", p.CD); v3("apq", p.apq); v3("cpq", p.cpq); v3("w", p.w);
    printf("\"aop\":%ld,\"aoq\":%ld,\"h2p\":%ld,\"h2q\":%ld,\"h2pq\":%ld},\"out\":[", modp(p.aop), modp(p.aoq), modp(p.h2p), modp(p.h2q), modp(p.h2pq));
    for(size_t i = lane; i < o.n; i += lanes) printf("%s%ld", i >= (size_t)lanes ? "," : "", back(o.p[i]));
    printf("]}\n"); fflush(stdout);
}

/* theta arrays: the momenta lowered per theta, or absent */
static Buf *fill(const Par *P, int lanes, const int *l, int no, std::vector<Tab> *tab)
{
    for(int x = 0; x < 4; x++) if(l[x] < 0) return NULL;
    size_t n = (size_t)NC(l[0])*NC(l[1])*NC(l[2])*NC(l[3])*no;
    Buf *b = new Buf(n*lanes);
    for(int q = 0; q < lanes; q++) { std::vector<I> v = integrals(P[q], l, no, tab[q]); for(size_t i = 0; i < n; i++) b->p[i*lanes + q] = todbl(v[i]); }
    return b;
}
typedef SIMINT_DBLTYPE VT;
static VT vec(const Par *P, I Par::*m) { VT r; dbl *x = (dbl*)&r; for(int q = 0; q < LANES; q++) x[q] = todbl(P[q].*m); return r; }

int main()
{
    char cmd[16];
    while(scanf("%15s", cmd) == 1) {
        if(!strcmp(cmd, "table")) {
            for(int am = 0; am < 19; am++) {
                printf("{\"ev\":\"table\",\"am\":%d,\"start\":%d,\"entries\":[", am, am_recur_map[am]);
                for(int i = 0; i < NC(am); i++) {
                    const struct RecurInfo *r = recurinfo_array + am_recur_map[am] + i;
                    printf("%s{\"e\":[%d,%d,%d],\"d\":%d,\"x\":[[%d,%d,%d],[%d,%d,%d],[%d,%d,%d]]}", i ? "," : "", r->ijk[0], r->ijk[1], r->ijk[2], r->dir,
                        r->idx[0][0], r->idx[0][1], r->idx[0][2], r->idx[1][0], r->idx[1][1], r->idx[1][2], r->idx[2][0], r->idx[2][1], r->idx[2][2]);
                }
                printf("]}\n"); fflush(stdout);
            }
            continue;
        }
        int C, l[4], num_n = 1; unsigned long seed;
        bool is1 = !strcmp(cmd, "vrr1"), hrr = !strcmp(cmd, "hrr");
        if(is1) { l[0] = l[1] = l[2] = l[3] = 0; int am; if(scanf("%d %d %d %lu", &C, &am, &num_n, &seed) != 4) return 1; l[C] = am; }
        else if(hrr) { if(scanf("%d %d %d %d %d %lu", &C, l, l+1, l+2, l+3, &seed) != 6) return 1; }
        else if(scanf("%d %d %d %d %d %d %lu", &C, l, l+1, l+2, l+3, &num_n, &seed) != 7) return 1;
        rs = seed*0x9e3779b97f4a7c15ull + 99; for(int i = 0; i < 4; i++) rnd();
        const int lanes = hrr ? 1 : LANES;
        Par P[16]; std::vector<Tab> tab[16];
        for(int tries = 0; tries < 200; tries++) {
            toobig = false;
            for(int q = 0; q < lanes; q++) {
                draw_par(P[q]); tab[q].resize(9);
                if(isreal && tries > 20) for(int d = 0; d < 3; d++) { P[q].apq[d] %= 2; P[q].cpq[d] %= 2; P[q].PA[d] %= 2; P[q].QC[d] %= 2; P[q].AB[d] %= 2; P[q].CD[d] %= 2; }
                if(isreal && tries > 60) { P[q].aop %= 2; P[q].aoq %= 2; P[q].h2p %= 2; P[q].h2q %= 2; P[q].h2pq %= 2; }
                int e[4] = { l[0], l[1], l[2], l[3] };
                if(hrr) e[C^1] += 1;          /* HRR reads the partner raised */
                for(int t = 0; t < 3; t++) for(int x = 0; x < 3; x++) table(P[q], x, t + 1, e[0], e[1], e[2], e[3], tab[q][t*3+x]);
                integrals(P[q], l, num_n, tab[q]);
                if(!hrr) integrals(P[q], l, num_n + 1, tab[q]);
            }
            if(!toobig) break;
        }
        if(toobig) { printf("{\"ev\":\"skip\"}\n"); fflush(stdout); continue; }
        const size_t n = (size_t)NC(l[0])*NC(l[1])*NC(l[2])*NC(l[3])*num_n;
        Buf out(n*lanes);
        auto low = [&](int a, int b, int up) { Buf *r; int m[4] = { l[0], l[1], l[2], l[3] }; if(a >= 0) m[a]--; if(b >= 0) m[b]--; if(up >= 0) m[up]++; r = fill(P, lanes, m, hrr ? 1 : num_n + 1, tab); return r; };
        if(hrr) {
            Buf *t1 = low(C, -1, C^1), *t2 = low(C, -1, -1);
            dbl r[3]; for(int d = 0; d < 3; d++) r[d] = todbl(C < 2 ? P[0].AB[d] : P[0].CD[d]);
            switch(C) { case 0: ostei_general_hrr_I(l[0], l[1], l[2], l[3], r, t1->p, t2->p, out.p); break;
                        case 1: ostei_general_hrr_J(l[0], l[1], l[2], l[3], r, t1->p, t2->p, out.p); break;
                        case 2: ostei_general_hrr_K(l[0], l[1], l[2], l[3], r, t1->p, t2->p, out.p); break;
                        default: ostei_general_hrr_L(l[0], l[1], l[2], l[3], r, t1->p, t2->p, out.p); }
            emit("hrr", C, l, 1, P[0], out, 0, 1, !out.clean());
            delete t1; delete t2;
            continue;
        }
        VT pq[3], pa[3]; VT h2 = vec(P, C < 2 ? &Par::h2p : &Par::h2q), ao = vec(P, C < 2 ? &Par::aop : &Par::aoq), h2pq = vec(P, &Par::h2pq);
        for(int d = 0; d < 3; d++) for(int q = 0; q < lanes; q++) {
            ((dbl*)&pq[d])[q] = todbl(C < 2 ? P[q].apq[d] : P[q].cpq[d]);
            ((dbl*)&pa[d])[q] = todbl(red(C == 0 ? P[q].PA[d] : C == 1 ? P[q].PA[d] + P[q].AB[d] : C == 2 ? P[q].QC[d] : P[q].QC[d] + P[q].CD[d]));
        }
        if(is1) {
            Buf *t1 = low(C, -1, -1), *t2 = low(C, C, -1);
            VT *a = (VT*)t1->p, *b = t2 ? (VT*)t2->p : NULL, *o = (VT*)out.p;
            switch(C) { case 0: ostei_general_vrr1_I(l[0], num_n, h2, ao, pq, pa, a, b, o); break;
                        case 1: ostei_general_vrr1_J(l[1], num_n, h2, ao, pq, pa, a, b, o); break;
                        case 2: ostei_general_vrr1_K(l[2], num_n, h2, ao, pq, pa, a, b, o); break;
                        default: ostei_general_vrr1_L(l[3], num_n, h2, ao, pq, pa, a, b, o); }
            delete t1; delete t2;
        } else {
            int f = C < 2 ? 0 : 2, o1 = C < 2 ? 2 : 0;
            Buf *T[5] = { low(C, -1, -1), low(C, f, -1), low(C, f + 1, -1), low(C, o1, -1), low(C, o1 + 1, -1) };
            VT *t[5]; for(int x = 0; x < 5; x++) t[x] = T[x] ? (VT*)T[x]->p : NULL;
            VT *o = (VT*)out.p;
            switch(C) { case 0: ostei_general_vrr_I(l[0], l[1], l[2], l[3], num_n, h2, ao, h2pq, pq, pa, t[0], t[1], t[2], t[3], t[4], o); break;
                        case 1: ostei_general_vrr_J(l[0], l[1], l[2], l[3], num_n, h2, ao, h2pq, pq, pa, t[0], t[1], t[2], t[3], t[4], o); break;
                        case 2: ostei_general_vrr_K(l[0], l[1], l[2], l[3], num_n, h2, ao, h2pq, pq, pa, t[0], t[1], t[2], t[3], t[4], o); break;
                        default: ostei_general_vrr_L(l[0], l[1], l[2], l[3], num_n, h2, ao, h2pq, pq, pa, t[0], t[1], t[2], t[3], t[4], o); }
            for(int x = 0; x < 5; x++) delete T[x];
        }
        for(int q = 0; q < lanes; q++) emit(is1 ? "vrr1" : "vrr", C, l, num_n, P[q], out, q, lanes, !out.clean());
    }
    return 0;
}
