/* Records integrals computed by the library over GF(p).
 * stdin: lines  "der l1 l2 l3 l4 mode seed"; stdout: one JSON event per line.
 * mode 0: one primitive per shell, four distinct centres
 * mode 1: two primitives on some shells, first and third centre coincide
 * mode 2: bra is one shell paired with itself (l1 = l2), ket likewise when l3 = l4; two primitives
 * mode 3: like 0, with dummy shells (simint_create_zero_shell) in place of s shells, at most one per pair; in the event
 *         such a shell is the constant one: exponent 0, coefficient 1, at any place
 * With an argument, the results come from oracle.hpp instead of the library.
 */
#include "simint/simint.h"
#include "../oracle.hpp"
#define NCART(l) (((l)+1)*((l)+2)/2)
static uint64_t rs;
static int rnd(void) { rs = rs*6364136223846793005ull + 1442695040888963407ull; return 1 + (int)((rs >> 33) % (GF_P - 1)); }
static bool square(GF a) { GF r = gf_pow(a, (GF_P - 1)/2); return r.v == 1; }

struct Sh { int l, n; GF c[3]; GF a[4], k[4]; };

static void js(const char *n, GF v) { printf("\"%s\":%ld", n, (long)v.v); }

int main(int argc, char **argv)
{
    int der, l[4], mode; unsigned long seed;
    simint_init();
    while(scanf("%d %d %d %d %d %d %lu", &der, l, l+1, l+2, l+3, &mode, &seed) == 7)
    {
        rs = seed*0x9e3779b97f4a7c15ull + 77; for(int i = 0; i < 4; i++) rnd();
        Sh s[4]; bool dummy[4] = {false, false, false, false};
        bool sb = mode == 2 && l[0] == l[1], sk = mode == 2 && l[2] == l[3];
        for(;;) {
            for(int i = 0; i < 4; i++) {
                s[i].l = l[i];
                s[i].n = mode == 0 || mode == 3 ? 1 : (mode == 1 ? (i == 1 || i == 2 ? 2 : 1) : (i < 2 ? (sb ? 2 : 1 + i) : (sk ? 2 : 4 - i)));
                for(int d = 0; d < 3; d++) s[i].c[d] = rnd();
                for(int j = 0; j < s[i].n; j++) { s[i].a[j] = rnd(); s[i].k[j] = rnd(); }
            }
            if(mode == 1) for(int d = 0; d < 3; d++) s[2].c[d] = s[0].c[d];
            if(sb) s[1] = s[0];
            if(sk) s[3] = s[2];
            if(mode == 3) for(int h = 0; h < 4; h += 2) {
                int i = rnd() % 2 ? h : h + 1;
                dummy[h] = dummy[h+1] = false;
                if(l[i] != 0) i = 2*h + 1 - i;
                if(l[i] == 0 && (h == 0 || rnd() % 3 || !(dummy[0] || dummy[1]))) { dummy[i] = true; s[i].a[0] = 0; s[i].k[0] = 1; }
            }
            bool good = true;
            for(int i = 0; i < s[0].n && good; i++) for(int j = 0; j < s[1].n; j++)
            for(int k = 0; k < s[2].n; k++) for(int m = 0; m < s[3].n; m++) {
                GF p = s[0].a[i] + s[1].a[j], q = s[2].a[k] + s[3].a[m];
                if(p.v == 0 || q.v == 0 || !square(p + q)) good = false;
            }
            if(good) break;
        }
        int ml = 0, tot = l[0]+l[1]+l[2]+l[3], nb = tot + der;
        for(int i = 0; i < 4; i++) if(l[i] > ml) ml = l[i];
        struct simint_shell S[4];
        for(int i = 0; i < 4; i++) {
            simint_initialize_shell(S+i);
            if(dummy[i]) simint_create_zero_shell(S+i);
            else simint_create_shell(s[i].n, l[i], s[i].c[0], s[i].c[1], s[i].c[2], s[i].a, s[i].k, S+i);
        }
        struct simint_multi_shellpair P, Q;
        simint_initialize_multi_shellpair(&P); simint_initialize_multi_shellpair(&Q);
        simint_create_multi_shellpair(1, S, 1, sb ? S : S+1, &P, 0);
        simint_create_multi_shellpair(1, S+2, 1, sk ? S+2 : S+3, &Q, 0);
        size_t n = (size_t)NCART(l[0])*NCART(l[1])*NCART(l[2])*NCART(l[3])*(der ? 12 : 1), nw = simint_eri_worksize(der, ml);
        GF *w = (GF*)malloc(nw*8 + 64), *o = (GF*)malloc(n*8 + 64);
        for(size_t i = 0; i < nw + 8; i++) w[i] = GF::raw(-7);
        for(size_t i = 0; i < n + 8; i++) o[i] = GF::raw(-7);
        int ret = 1;
        if(argc > 1) {
            std::vector<GF> res(n, GF(0));
            for(int i = 0; i < s[0].n; i++) for(int j = 0; j < s[1].n; j++) for(int k = 0; k < s[2].n; k++) for(int m = 0; m < s[3].n; m++) {
                Quartet<GF> t; int id[4] = {i, j, k, m}; GF co = 1, ab = 0, cd = 0, pq = 0;
                for(int f = 0; f < 4; f++) { t.e[f] = s[f].a[id[f]]; co *= s[f].k[id[f]]; for(int x = 0; x < 3; x++) t.c[f][x] = s[f].c[x]; }
                GF p = t.e[0] + t.e[1], q = t.e[2] + t.e[3];
                for(int x = 0; x < 3; x++) {
                    GF u = t.c[0][x] - t.c[1][x], v = t.c[2][x] - t.c[3][x], z = (t.e[0]*t.c[0][x] + t.e[1]*t.c[1][x])/p - (t.e[2]*t.c[2][x] + t.e[3]*t.c[3][x])/q;
                    ab += u*u; cd += v*v; pq += z*z;
                }
                for(int x = 0; x <= tot + der; x++) t.F.push_back(gf_boys(p*q/(p+q)*pq, x));
                GF K = 12345;
                t.pre = co*K*K/(p*q)*sqrt(GF(1)/(p+q))*exp(GF(0) - ab*t.e[0]*t.e[1]/p)*exp(GF(0) - cd*t.e[2]*t.e[3]/q);
                eri_add<GF>(l, der, t, false, 0, res);
            }
            for(size_t i = 0; i < n; i++) o[i] = res[i];
        }
        else ret = der ? simint_compute_eri_deriv(1, &P, &Q, GF(0), w, o) : simint_compute_eri(&P, &Q, GF(0), w, o);
        printf("{\"ev\":\"eri\",\"der\":%d,\"mode\":%d,\"l\":[%d,%d,%d,%d],\"ret\":%d,\"c\":[", der, mode, l[0], l[1], l[2], l[3], ret);
        for(int i = 0; i < 4; i++) printf("%s[%ld,%ld,%ld]", i ? "," : "", (long)s[i].c[0].v, (long)s[i].c[1].v, (long)s[i].c[2].v);
        printf("],\"a\":[");
        for(int i = 0; i < 4; i++) { printf("%s[", i ? "," : ""); for(int j = 0; j < s[i].n; j++) printf("%s%ld", j ? "," : "", (long)s[i].a[j].v); printf("]"); }
        printf("],\"k\":[");
        for(int i = 0; i < 4; i++) { printf("%s[", i ? "," : ""); for(int j = 0; j < s[i].n; j++) printf("%s%ld", j ? "," : "", (long)s[i].k[j].v); printf("]"); }
        /* witnesses, all checked by the specification: inverses, the root, the quadrature weights */
        printf("],\"wit\":[");
        bool first = true;
        for(int i = 0; i < s[0].n; i++) for(int j = 0; j < s[1].n; j++)
        for(int k = 0; k < s[2].n; k++) for(int m = 0; m < s[3].n; m++) {
            GF a = s[0].a[i], b = s[1].a[j], c = s[2].a[k], d = s[3].a[m], p = a + b, q = c + d;
            GF ip = GF(1)/p, iq = GF(1)/q, is = GF(1)/(p + q), r = sqrt(is), R2 = 0;
            for(int x = 0; x < 3; x++) { GF D = (a*s[0].c[x] + b*s[1].c[x])*ip - (c*s[2].c[x] + d*s[3].c[x])*iq; R2 += D*D; }
            GF T = R2*p*q*is;
            /* weights: sum_t w_t t^k = F_k, k = 0..nb, nodes 0..nb: solve by Gauss elimination */
            int N = nb + 1;
            std::vector<std::vector<GF>> M(N, std::vector<GF>(N + 1));
            for(int x = 0; x < N; x++) { for(int t = 0; t < N; t++) M[x][t] = (x == 0) ? GF(1) : gf_pow(GF(t), x); M[x][N] = gf_boys(T, x); }
            for(int x = 0; x < N; x++) {
                int y = x; while(M[y][x].v == 0) y++;
                std::swap(M[x], M[y]);
                GF iv = GF(1)/M[x][x];
                for(int t = 0; t <= N; t++) M[x][t] *= iv;
                for(int z = 0; z < N; z++) if(z != x && M[z][x].v) { GF f = M[z][x]; for(int t = 0; t <= N; t++) M[z][t] -= f*M[x][t]; }
            }
            printf("%s{\"i\":[%d,%d,%d,%d],", first ? "" : ",", i+1, j+1, k+1, m+1); first = false;
            js("ip", ip); printf(","); js("iq", iq); printf(","); js("is", is); printf(","); js("r", r);
            printf(",\"w\":[");
            for(int x = 0; x < N; x++) printf("%s%ld", x ? "," : "", (long)M[x][N].v);
            printf("]}");
        }
        printf("],\"out\":[");
        for(size_t i = 0; i < n; i++) printf("%s%ld", i ? "," : "", (long)o[i].v);
        printf("],\"over\":%d}\n", (int)(o[n].v != -7));
        fflush(stdout);
        free(w); free(o);
        simint_free_multi_shellpair(&P); simint_free_multi_shellpair(&Q);
        for(int i = 0; i < 4; i++) simint_free_shell(S+i);
    }
}
