/* stdin: lines "n seed cat_1 .. cat_W"; one JSON event per line with the error of F_0..F_n per lane, in units of 2^-53 of the value.
 * "W" as argument: prints the vector width. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "simint/boys/boys.h"
#include "quadboys.h"
#define W SIMINT_SIMD_LEN
static unsigned long long rs;
static double rnd(void) { rs = rs*6364136223846793005ull + 1442695040888963407ull; return ((rs >> 33) & 0xffffff) / 16777216.0; }
static double pick(int cat)
{
    double sw = BOYS_SHORTGRID_MAXX;
    if(cat >= 1000) return (cat % 1000)*0.1 + (cat < 2000 ? 0 : cat < 3000 ? 0.049 : -0.0495);  /* every point of a grid */
    switch(cat) {
    case 0: return 0.0;
    case 1: return pow(10.0, -1 - 19*rnd());
    case 2: return (int)(rnd()*365)*0.1;                              /* near points of a grid */
    case 3: return ((int)(rnd()*364) + 0.5 + 1e-9*(rnd() - .5))*0.1;  /* between them */
    case 4: return sw*rnd();
    case 5: return sw - pow(10.0, -1 - 14*rnd());                     /* below the switch */
    case 6: { double k[3] = { sw, nextafter(sw, 0), nextafter(sw, 100) }; return k[(int)(3*rnd())]; }
    case 7: return sw + pow(10.0, 0.5 - 14*rnd());                    /* above it */
    case 8: return sw*pow(10.0, 3*rnd());
    case 9: return pow(10.0, 4 + 16*rnd());
    }
    return 1.0;
}
int main(int argc, char **argv)
{
    if(argc > 1) { printf("%d\n", W); return 0; }
    int n; unsigned long long seed;
    while(scanf("%d %llu", &n, &seed) == 2) {
        rs = seed*2 + 1; for(int i = 0; i < 4; i++) rnd();
        union { double d[W]; SIMINT_DBLTYPE v; } x; int cat[W];
        for(int i = 0; i < W; i++) { if(scanf("%d", cat + i) != 1) return 3; x.d[i] = pick(cat[i]); }
        SIMINT_DBLTYPE *F = SIMINT_ALLOC(sizeof(SIMINT_DBLTYPE)*(n + 3));
        double *Fd = (double*)F; for(int i = 0; i < W*(n + 3); i++) Fd[i] = -777.0;
        boys_F_split(F, x.v, n);
        int over = 0; for(int i = W*(n + 1); i < W*(n + 3); i++) over |= Fd[i] != -777.0;
        printf("{\"ev\":\"boys\",\"W\":%d,\"n\":%d,\"cat\":[", W, n);
        for(int i = 0; i < W; i++) printf("%s%d", i ? "," : "", cat[i]);
        printf("],\"over\":%d,\"x\":[", over);
        for(int i = 0; i < W; i++) printf("%s\"%.17g\"", i ? "," : "", x.d[i]);
        printf("],\"res\":[");
        for(int i = 0; i < W; i++) {
            quad R[64]; double worst = 0;
            quad_boys(x.d[i], n, R);
            for(int m = 0; m <= n; m++) {
                double v = Fd[m*W + i], e;
                if(!(v - v == 0)) { worst = 1e9; break; }
                if(R[m] < 1e-290Q) e = fabs(v) < 2e-290 ? 0 : 1e9;
                else e = (double)(fabsq((quad)v - R[m])/R[m]*0x1p53Q);
                if(e > worst) worst = e;
            }
            printf("%s%d", i ? "," : "", worst > 1e9 ? 1000000000 : (int)ceil(worst));
        }
        printf("]}\n");
        SIMINT_FREE(F);
    }
    return 0;
}
