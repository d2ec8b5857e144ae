/* argument: seed count. Records every lane operation of one instruction set on exact small integers, one JSON event per line. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <math.h>
#include "simint/vectorization/vectorization.h"
#define W SIMINT_SIMD_LEN
static unsigned long long rs;
static unsigned rnd(unsigned n) { rs = rs*6364136223846793005ull + 1442695040888963407ull; return (unsigned)((rs >> 33) % n); }
static int sgn(int n) { return (int)rnd(2*n + 1) - n; }
typedef struct { double d[W] __attribute__((aligned(W*8))); } vec;
static SIMINT_DBLTYPE ld(const vec *v) { SIMINT_DBLTYPE r; memcpy(&r, v->d, sizeof(r)); return r; }
static vec st(SIMINT_DBLTYPE x) { vec v; memcpy(v.d, &x, sizeof(x)); return v; }
/* an integer, or a value no rule accepts */
static long long as(double x) { return x == x && fabs(x) < 2e9 && x == (double)(long long)x ? (long long)x : -2147483647; }
static void arr(const char *name, const double *d, int n) { printf(",\"%s\":[", name); for(int i = 0; i < n; i++) printf("%s%lld", i ? "," : "", as(d[i])); printf("]"); }
static vec rv(int m) { vec v; for(int i = 0; i < W; i++) v.d[i] = sgn(m); return v; }
static int ulps(double x, long double ref)
{
    if(!(x == x) || isinf(x)) return 1000000;
    if(ref == 0) return x == 0 ? 0 : 1000000;
    long double u = ldexpl(1.0L, ilogbl(ref) - 52), e = fabsl((long double)x - ref)/u;
    return e > 1e6L ? 1000000 : (int)ceill(e - 0.5L < 0 ? 0 : e - 0.5L);
}
#define BIN(name, M) { vec a = rv(3000), b = rv(3000), r = st(M(ld(&a), ld(&b))); printf("{\"ev\":\"bin\",\"op\":\"" name "\",\"W\":%d", W); arr("a", a.d, W); arr("b", b.d, W); arr("r", r.d, W); printf("}\n"); }
static void con(int kind, int shape)
{
    static double src[256*W] __attribute__((aligned(128)));
    int nc = rnd(4) == 0 ? 1 + rnd(90) : 1 + rnd(17), off[W], nb = 1, all = kind & 1, scaled = kind >> 1;
    for(int n = 0; n < W; n++) {
        off[n] = all ? 0 : shape == 0 ? n : shape == 1 ? (int)rnd(W) : shape == 2 ? n/2 : shape == 3 ? W - 1 - n : shape == 4 ? 3 : (int)rnd(2);
        if(off[n] + 1 > nb) nb = off[n] + 1;
    }
    for(int i = 0; i < nc*W; i++) src[i] = sgn(2000);
    vec fac = rv(40);
    int nd = nb*nc + 3, skew = rnd(3);
    double *raw = malloc(8*(nd + 3)), *dst = raw + skew, *bef = malloc(8*nd);
    for(int i = 0; i < nd; i++) bef[i] = dst[i] = sgn(100000);
    SIMINT_DBLTYPE *vs = SIMINT_ALLOC(nc*sizeof(SIMINT_DBLTYPE));
    memcpy(vs, src, nc*sizeof(SIMINT_DBLTYPE));
    if(kind == 0) contract(nc, off, vs, dst);
    if(kind == 1) contract_all(nc, vs, dst);
    if(kind == 2) contract_fac(nc, ld(&fac), off, vs, dst);
    if(kind == 3) contract_all_fac(nc, ld(&fac), vs, dst);
    printf("{\"ev\":\"con\",\"W\":%d,\"nc\":%d,\"all\":%s,\"scaled\":%s,\"off\":[", W, nc, all ? "true" : "false", scaled ? "true" : "false");
    for(int n = 0; n < W; n++) printf("%s%d", n ? "," : "", off[n]);
    printf("],\"src\":[");
    for(int i = 0; i < nc; i++) { printf(i ? ",[" : "["); for(int n = 0; n < W; n++) printf("%s%lld", n ? "," : "", as(src[i*W+n])); printf("]"); }
    printf("]"); arr("fac", fac.d, W); arr("dst", bef, nd); arr("after", dst, nd); printf("}\n");
    SIMINT_FREE(vs); free(raw); free(bef);
}
int main(int argc, char **argv)
{
    rs = strtoull(argv[1], 0, 10)*2 + 1;
    int cnt = atoi(argv[2]);
    for(int k = 0; k < cnt; k++) {
        BIN("add", SIMINT_ADD) BIN("sub", SIMINT_SUB) BIN("mul", SIMINT_MUL)
        { vec a = rv(2000), b = rv(2000), c = rv(1000000), r = st(SIMINT_FMADD(ld(&a), ld(&b), ld(&c))), s = st(SIMINT_FMSUB(ld(&a), ld(&b), ld(&c)));
          printf("{\"ev\":\"fma\",\"W\":%d", W); arr("a", a.d, W); arr("b", b.d, W); arr("c", c.d, W); arr("r", r.d, W); arr("s", s.d, W); printf("}\n"); }
        { vec q = rv(1000), b = rv(1000), a, r; for(int i = 0; i < W; i++) { if(b.d[i] == 0) b.d[i] = 7; a.d[i] = q.d[i]*b.d[i]; } r = st(SIMINT_DIV(ld(&a), ld(&b)));
          printf("{\"ev\":\"div\",\"W\":%d", W); arr("a", a.d, W); arr("b", b.d, W); arr("r", r.d, W); printf("}\n"); }
        { vec q = rv(40000), a, r; for(int i = 0; i < W; i++) a.d[i] = q.d[i]*q.d[i]; r = st(SIMINT_SQRT(ld(&a)));
          printf("{\"ev\":\"sqrt\",\"W\":%d", W); arr("a", a.d, W); arr("r", r.d, W); printf("}\n"); }
        { vec a = rv(100000), r = st(SIMINT_NEG(ld(&a))); printf("{\"ev\":\"neg\",\"W\":%d", W); arr("a", a.d, W); arr("r", r.d, W); printf("}\n"); }
        { int x = sgn(1000000); vec r = st(SIMINT_DBLSET1((double)x)); printf("{\"ev\":\"set1\",\"W\":%d,\"x\":%d", W, x); arr("r", r.d, W); printf("}\n"); }
        { double *m = SIMINT_ALLOC(8*4*W); for(int i = 0; i < 4*W; i++) m[i] = sgn(1000000); int at = W*rnd(4); vec r = st(SIMINT_DBLLOAD(m, at));
          printf("{\"ev\":\"load\",\"W\":%d,\"at\":%d", W, at); arr("mem", m, 4*W); arr("r", r.d, W); printf("}\n"); SIMINT_FREE(m); }
        for(int m = 1; m <= W; m++) {
          double *p = SIMINT_ALLOC(8*2*W), *q = p + W*rnd(2); for(int i = 0; i < 2*W; i++) p[i] = i & 1 ? NAN : INFINITY;
          double shown[W]; for(int i = 0; i < W; i++) shown[i] = i < m ? (q[i] = sgn(1000000)) : 99;
          vec r = st(mask_load(m, q));
          printf("{\"ev\":\"mask\",\"W\":%d,\"m\":%d", W, m); arr("mem", shown, W); arr("r", r.d, W); printf("}\n"); SIMINT_FREE(p); }
        for(int s = 0; s < 3; s++) {          /* arguments of the Boys function and screening values: not negative */
          vec a = rv(s == 0 ? 3 : 1000000), r; for(int i = 0; i < W; i++) a.d[i] = fabs(a.d[i]); double v[2] = { vector_min(ld(&a)), vector_max(ld(&a)) };
          printf("{\"ev\":\"minmax\",\"W\":%d,\"min\":%lld,\"max\":%lld", W, as(v[0]), as(v[1])); arr("a", a.d, W); printf("}\n"); }
        for(int kind = 0; kind < 4; kind++) for(int s = 0; s < (kind & 1 ? 2 : 6); s++) con(kind, s);
        { vec a, r, p; for(int i = 0; i < W; i++) a.d[i] = -80.0*rnd(1000000)/1000000.0*(rnd(3) ? 1 : 0.01); r = st(SIMINT_EXP(ld(&a)));
          printf("{\"ev\":\"ulp\",\"op\":\"exp\",\"W\":%d,\"r\":[", W); for(int i = 0; i < W; i++) printf("%s%d", i ? "," : "", ulps(r.d[i], expl(a.d[i]))); printf("]}\n");
          double e[3] = {0.75, 1.5, 2.5}; for(int i = 0; i < W; i++) a.d[i] = pow(10.0, sgn(6) + rnd(1000)/1000.0), p.d[i] = rnd(2) ? e[rnd(3)] : -e[rnd(3)]; r = st(SIMINT_POW(ld(&a), ld(&p)));
          printf("{\"ev\":\"ulp\",\"op\":\"pow\",\"W\":%d,\"r\":[", W); for(int i = 0; i < W; i++) printf("%s%d", i ? "," : "", ulps(r.d[i], powl(a.d[i], p.d[i]))); printf("]}\n"); }
        { void *p[12]; for(int i = 0; i < 12; i++) p[i] = SIMINT_ALLOC(1 + rnd(300)); double s1[3] SIMINT_ALIGN_ARRAY_DBL; int s2[3] SIMINT_ALIGN_ARRAY_INT;
          printf("{\"ev\":\"mem\",\"W\":%d,\"mis\":[", W); for(int i = 0; i < 12; i++) printf("%s%d", i ? "," : "", p[i] ? (int)((uintptr_t)p[i] % (8*W)) : -1);
          printf(",%d,%d,%d]}\n", (int)((uintptr_t)s1 % (8*W)), (int)((uintptr_t)s2 % (4*W)), (int)(SIMINT_NSHELL_SIMD % W)); for(int i = 0; i < 12; i++) SIMINT_FREE(p[i]); }
    }
    printf("{\"ev\":\"round\",\"W\":%d,\"r\":[", W); for(int x = 0; x <= 200; x++) printf("%s%d", x ? "," : "", (int)SIMINT_SIMD_ROUND(x)); printf("]}\n");
    return 0;
}
