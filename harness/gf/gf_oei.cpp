/* Records one-electron integrals computed by the library over GF(p) (with exp = 1: overlaps are products over directions).
 * stdin: lines  "kind l1 l2 mode ncharge seed"; kind 0 overlap, 1 kinetic energy, 2 attraction; one JSON event per line.
 * mode 0: one primitive per shell; 1: contracted shells; 2: contracted, one centre; 3: a shell with itself.
 * With an argument, the results come from oracle.hpp instead of the library. */
#include "simint/simint.h"
#include "../oracle.hpp"
#define NCART(l) (((l)+1)*((l)+2)/2)
static uint64_t rs;
static int rnd(void) { rs = rs*6364136223846793005ull + 1442695040888963407ull; return 1 + (int)((rs >> 33) % (GF_P - 1)); }
static bool square(GF a) { GF r = gf_pow(a, (GF_P - 1)/2); return r.v == 1; }
struct Sh { int l, n; GF c[3], a[4], k[4]; };
int main(int argc, char **argv)
{
    int kind, l[2], mode, nz; unsigned long seed;
    simint_init();
    const GF pi = GF::raw(GF::from(3.141592653589793238462643383279502884));
    while(scanf("%d %d %d %d %d %lu", &kind, l, l+1, &mode, &nz, &seed) == 6)
    {
        rs = seed*0x9e3779b97f4a7c15ull + 77; for(int i = 0; i < 4; i++) rnd();
        Sh s[2];
        for(;;) {
            for(int i = 0; i < 2; i++) {
                s[i].l = l[i]; s[i].n = mode == 0 ? 1 : mode == 3 ? 2 : 3 - i;
                for(int d = 0; d < 3; d++) s[i].c[d] = rnd();
                for(int j = 0; j < s[i].n; j++) { s[i].a[j] = rnd(); s[i].k[j] = rnd(); }
            }
            if(mode == 2) for(int d = 0; d < 3; d++) s[1].c[d] = s[0].c[d];
            if(mode == 3) s[1] = s[0];
            bool good = true;
            for(int i = 0; i < s[0].n; i++) for(int j = 0; j < s[1].n; j++) { GF p = s[0].a[i] + s[1].a[j]; if(p.v == 0 || !square(pi/p)) good = false; }
            if(good) break;
        }
        std::vector<GF> Z(nz + 1), X(nz + 1), Y(nz + 1), W(nz + 1);
        for(int i = 0; i < nz; i++) {
            Z[i] = rnd() % 5 ? GF(rnd()) : GF(0); X[i] = rnd(); Y[i] = rnd(); W[i] = rnd();
            if(rnd() % 4 == 0) { int q = rnd() % 2; X[i] = s[q].c[0]; Y[i] = s[q].c[1]; W[i] = s[q].c[2]; }
        }
        struct simint_shell S[2];
        for(int i = 0; i < 2; i++) { simint_initialize_shell(S+i); simint_create_shell(s[i].n, l[i], s[i].c[0], s[i].c[1], s[i].c[2], s[i].a, s[i].k, S+i); }
        size_t n = NCART(l[0])*NCART(l[1]);
        GF *o = (GF*)malloc((n + 8)*8);
        for(size_t i = 0; i < n + 8; i++) o[i] = GF::raw(-7);
        struct simint_shell *B = mode == 3 ? S : S + 1;
        int ret = 1, tot = l[0] + l[1];
        if(argc > 1) {
            std::vector<GF> res(n, GF(0));
            for(int i = 0; i < s[0].n; i++) for(int j = 0; j < s[1].n; j++) for(int c = 0; c < (kind == 2 ? nz : 1); c++) {
                Pair2<GF> t; GF co = s[0].k[i]*s[1].k[j];
                t.e[0] = s[0].a[i]; t.e[1] = s[1].a[j]; GF p = t.e[0] + t.e[1], pc = 0, z[3] = {X[c], Y[c], W[c]};
                for(int x = 0; x < 3; x++) { t.c[0][x] = s[0].c[x]; t.c[1][x] = s[1].c[x]; t.C[x] = z[x]; GF u = (t.e[0]*t.c[0][x] + t.e[1]*t.c[1][x])/p - z[x]; pc += u*u; }
                if(kind == 2) { for(int x = 0; x <= tot; x++) t.F.push_back(gf_boys(p*pc, x)); t.pre = co*(GF(0) - Z[c])*GF(2)*pi/p; }
                else t.pre = co*pi/p*sqrt(pi/p);
                oei_add<GF>(kind, l, t, false, 0, res);
            }
            for(size_t i = 0; i < n; i++) o[i] = res[i];
        }
        else ret = kind == 0 ? simint_compute_overlap(S, B, o) : kind == 1 ? simint_compute_ke(S, B, o)
                 : simint_compute_potential(nz, Z.data(), X.data(), Y.data(), W.data(), S, B, o);
        auto list = [](const GF *v, size_t m) { printf("["); for(size_t j = 0; j < m; j++) printf("%s%ld", j ? "," : "", (long)v[j].v); printf("]"); };
        printf("{\"ev\":\"oei\",\"kind\":%d,\"mode\":%d,\"der\":0,\"l\":[%d,%d],\"ret\":%d,\"c\":[", kind, mode, l[0], l[1], ret);
        list(s[0].c, 3); printf(","); list(s[1].c, 3); printf("],\"a\":["); list(s[0].a, s[0].n); printf(","); list(s[1].a, s[1].n);
        printf("],\"k\":["); list(s[0].k, s[0].n); printf(","); list(s[1].k, s[1].n); printf("],\"z\":[");
        if(kind == 2) for(int i = 0; i < nz; i++) { GF q[4] = {Z[i], X[i], Y[i], W[i]}; if(i) printf(","); list(q, 4); }
        printf("],\"wit\":[");
        for(int i = 0; i < s[0].n; i++) for(int j = 0; j < s[1].n; j++) {
            GF p = s[0].a[i] + s[1].a[j], ip = GF(1)/p, r = sqrt(pi*ip);
            printf("%s{\"i\":[%d,%d],\"ip\":%ld,\"r\":%ld,\"w\":[", i || j ? "," : "", i+1, j+1, (long)ip.v, (long)r.v);
            for(int c = 0; c < (kind == 2 ? nz : 0); c++) {
                GF pc = 0, z[3] = {X[c], Y[c], W[c]};
                for(int x = 0; x < 3; x++) { GF u = (s[0].a[i]*s[0].c[x] + s[1].a[j]*s[1].c[x])*ip - z[x]; pc += u*u; }
                int N = tot + 1;
                std::vector<std::vector<GF>> M(N, std::vector<GF>(N + 1));
                for(int x = 0; x < N; x++) { for(int t = 0; t < N; t++) M[x][t] = x == 0 ? GF(1) : gf_pow(GF(t), x); M[x][N] = gf_boys(p*pc, x); }
                for(int x = 0; x < N; x++) {
                    int y = x; while(M[y][x].v == 0) y++;
                    std::swap(M[x], M[y]);
                    GF iv = GF(1)/M[x][x];
                    for(int t = 0; t <= N; t++) M[x][t] *= iv;
                    for(int w = 0; w < N; w++) if(w != x && M[w][x].v) { GF f = M[w][x]; for(int t = 0; t <= N; t++) M[w][t] -= f*M[x][t]; }
                }
                std::vector<GF> col(N); for(int x = 0; x < N; x++) col[x] = M[x][N];
                if(c) printf(","); list(col.data(), N);
            }
            printf("]}");
        }
        printf("],\"out\":"); list(o, n);
        bool over = false; for(int i = 0; i < 8; i++) over = over || o[n+i].v != -7;
        printf(",\"over\":%d}\n", (int)over);
        fflush(stdout); free(o);
        for(int i = 0; i < 2; i++) simint_free_shell(S+i);
    }
}
