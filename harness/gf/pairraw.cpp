/* Fields of shell-pair objects computed over GF(p).  stdin: lines "same na nb seed" */
#include "simint/simint.h"
static uint64_t rs;
static int rnd(void) { rs = rs*6364136223846793005ull + 1442695040888963407ull; return 1 + (int)((rs >> 33) % (GF_P - 1)); }
static void arr(const char *n, const GF *v, int k) { printf("\"%s\":[", n); for(int i = 0; i < k; i++) printf("%s%ld", i ? "," : "", (long)v[i].v); printf("]"); }
int main()
{
    int same, n[2]; unsigned long seed;
    simint_init();
    while(scanf("%d %d %d %lu", &same, n, n+1, &seed) == 4)
    {
        rs = seed*0x9e3779b97f4a7c15ull + 77; for(int i = 0; i < 4; i++) rnd();
        GF c[2][3], a[2][16], k[2][16];
        for(;;) {
            for(int s = 0; s < 2; s++) { for(int d = 0; d < 3; d++) c[s][d] = rnd(); for(int i = 0; i < n[s]; i++) { a[s][i] = rnd(); k[s][i] = rnd(); } }
            if(same) for(int i = 0; i < 16; i++) { if(i < 3) c[1][i] = c[0][i]; a[1][i] = a[0][i]; k[1][i] = k[0][i]; }
            bool good = true;
            for(int i = 0; i < n[0]; i++) for(int j = 0; j < n[1]; j++) if((a[0][i] + a[1][j]).v == 0) good = false;
            if(good) break;
        }
        struct simint_shell S[2];
        for(int i = 0; i < 2; i++) { simint_initialize_shell(S+i); simint_create_shell(n[i], 1, c[i][0], c[i][1], c[i][2], a[i], k[i], S+i); }
        struct simint_multi_shellpair P;
        simint_initialize_multi_shellpair(&P);
        simint_create_multi_shellpair(1, S, 1, same ? S : S+1, &P, 0);
        printf("{\"ev\":\"pair\",\"same\":%d,\"n\":[%d,%d],\"ca\":[%ld,%ld,%ld],\"cb\":[%ld,%ld,%ld],", same, n[0], n[1], (long)c[0][0].v, (long)c[0][1].v, (long)c[0][2].v, (long)c[1][0].v, (long)c[1][1].v, (long)c[1][2].v);
        arr("a", a[0], n[0]); printf(","); arr("b", a[1], n[1]); printf(","); arr("ka", k[0], n[0]); printf(","); arr("kb", k[1], n[1]);
        printf(",\"ip\":[");
        for(int i = 0; i < n[0]; i++) { printf("%s[", i ? "," : ""); for(int j = 0; j < n[1]; j++) printf("%s%ld", j ? "," : "", (long)(GF(1)/(a[0][i] + a[1][j])).v); printf("]"); }
        printf("],\"nprim\":%d,\"ab\":[%ld,%ld,%ld],\"slots\":[", P.nprim, (long)P.AB_x[0].v, (long)P.AB_y[0].v, (long)P.AB_z[0].v);
        for(int i = 0; i < P.nprim; i++)
            printf("%s[%ld,%ld,%ld,%ld,%ld,%ld,%ld,%ld,%ld,%ld,%ld,%ld,%ld]", i ? "," : "", (long)P.alpha[i].v, (long)P.prefac[i].v, (long)P.x[i].v, (long)P.y[i].v, (long)P.z[i].v,
                (long)P.PA_x[i].v, (long)P.PA_y[i].v, (long)P.PA_z[i].v, (long)P.PB_x[i].v, (long)P.PB_y[i].v, (long)P.PB_z[i].v, (long)P.alpha2[i].v, (long)P.beta2[i].v);
        printf("]}\n"); fflush(stdout);
        simint_free_multi_shellpair(&P); for(int i = 0; i < 2; i++) simint_free_shell(S+i);
    }
}
