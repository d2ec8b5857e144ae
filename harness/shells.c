/* Histories of shell objects. Built with the address sanitizer, so that an access outside a shell's memory ends the run.
   Input: R n | create i n | alloc i n | dummy i | copy s d | free i j | norm i j | pair i j ; S seed.
   Output: one event per operation with a dump of all slots; doubles are printed as hexadecimal bit patterns. */
#include <math.h>
#include <quadmath.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "simint/simint.h"

#define MAXN 16
static struct simint_shell G[MAXN + 1];
static int full[MAXN + 1], N;
static uint64_t s = 1;
static uint32_t rnd(void) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return s >> 33; }
static double uni(double a, double b) { return a + (b - a) * (rnd() / 2147483648.0); }

static void hex(double d) { uint64_t u; memcpy(&u, &d, 8); printf("\"%016llx\"", (unsigned long long)u); }
static void arr(const char * n, const double * p, int k)
{
    printf(",\"%s\":[", n);
    for(int i = 0; i < k; i++) { if(i) printf(","); hex(p[i]); }
    printf("]");
}

static void dump(void)
{
    printf(",\"dump\":[");
    for(int i = 1; i <= N; i++)
    {
        const double c[3] = {G[i].x, G[i].y, G[i].z};
        if(i > 1) printf(",");
        if(!full[i])
        {
            /* an empty shell owns nothing */
            printf("{\"n\":%d}", G[i].ptr == NULL && G[i].memsize == 0 ? -1 : -2);
            continue;
        }
        printf("{\"n\":%d,\"am\":%d", G[i].nprim, G[i].am);
        arr("c", c, 3);
        arr("a", G[i].alpha, G[i].nprim); arr("k", G[i].coef, G[i].nprim);
        printf("}");
    }
    printf("]}\n");
}

/* error of the normalised coefficients against the definition, in ulps */
static int normres(int am, int n, const double * a, const double * c0, const double * c1)
{
    const __float128 m = am + 1.5Q, g = tgammaq(am + 0.5Q) * M_PIq;
    __float128 sum = 0, asum = 0, s1 = 0;
    for(int i = 0; i < n; i++) for(int j = 0; j < n; j++)
    {
        __float128 ai = a[i], aj = a[j];
        __float128 t = (__float128)c0[i] * c0[j] * powq(ai * aj, m / 2) / powq(ai + aj, m);
        sum += t; asum += fabsq(t);
        s1 += (__float128)c1[i] * c1[j] * g / powq(ai + aj, m);
    }
    const __float128 cond = asum / sum, lam = 1 / sqrtq(sum * g);
    __float128 r = fabsq(s1 - 1) / cond;
    for(int i = 0; i < n; i++)
    {
        __float128 ref = lam * c0[i] * powq((__float128)a[i], m / 2);
        if(ref == 0 && c1[i] == 0) continue;
        __float128 x = fabsq((__float128)c1[i] - ref) / (fabsq(ref) * cond);
        if(!(x <= r)) r = x;
    }
    r *= 0x1p52Q;
    return r == r && r < 1e9 ? (int)r : -1;
}

int main(void)
{
    char op[16]; int i, n;
    simint_init();
    while(scanf("%15s", op) == 1)
    {
        if(!strcmp(op, "S")) { unsigned long long x; if(scanf("%llu", &x) != 1) return 9; s = x; continue; }
        if(scanf("%d %d", &i, &n) != 2) return 9;
        if(!strcmp(op, "R"))
        {
            for(int k = 1; k <= N; k++) if(full[k]) simint_free_shell(G + k);
            N = i;
            memset(G, 0xa5, sizeof G);
            simint_initialize_shell(G + 1);
            simint_initialize_shells(N - 1, G + 2);
            memset(full, 0, sizeof full);
            printf("{\"ev\":\"reset\",\"n\":%d", N);
        }
        else if(!strcmp(op, "create") || !strcmp(op, "alloc"))
        {
            int am = rnd() % 4 ? (int)(rnd() % 8) : (int)(rnd() % 21);
            double * a = malloc(n * sizeof(double)), * k = malloc(n * sizeof(double));
            double e = uni(-3, 5), scale = rnd() % 3 ? 1.0 : pow(10, uni(-4, 4));
            for(int j = 0; j < n; j++)
            {
                a[j] = pow(10, e - j * uni(0.2, 0.9));
                k[j] = uni(0.05, 1.5) * scale * (rnd() % 4 ? 1 : -1);
                if(rnd() % 9 == 0 && n > 1) k[j] = 0;
            }
            if(n > 0) k[0] = uni(0.5, 1.5) * scale;
            double c[3] = {uni(-5, 5), rnd() % 3 ? uni(-5, 5) : 0.0, uni(-100, 100)};
            printf("{\"ev\":\"create\",\"i\":%d,\"am\":%d", i, am);
            arr("c", c, 3); arr("a", a, n); arr("k", k, n);
            if(op[0] == 'c')
                simint_create_shell(n, am, c[0], c[1], c[2], a, k, G + i);
            else
            {
                simint_allocate_shell(n, G + i);
                G[i].am = am; G[i].nprim = n; G[i].x = c[0]; G[i].y = c[1]; G[i].z = c[2];
                for(int j = 0; j < n; j++) { G[i].alpha[j] = a[j]; G[i].coef[j] = k[j]; }
            }
            for(int j = 0; j < n; j++) a[j] = k[j] = -1;      /* the shell has its own copy */
            free(a); free(k);
            full[i] = 1;
        }
        else if(!strcmp(op, "dummy"))
        {
            simint_create_zero_shell(G + i);
            full[i] = 1;
            printf("{\"ev\":\"dummy\",\"i\":%d,\"zero\":", i); hex(0.0); printf(",\"one\":"); hex(1.0);
        }
        else if(!strcmp(op, "copy"))
        {
            simint_copy_shell(G + i, G + n);
            full[n] = 1;
            printf("{\"ev\":\"copy\",\"i\":%d,\"n\":%d", i, n);
        }
        else if(!strcmp(op, "free"))
        {
            if(i == n) simint_free_shell(G + i); else simint_free_shells(n - i + 1, G + i);
            for(int k = i; k <= n; k++) full[k] = 0;
            printf("{\"ev\":\"free\",\"i\":%d,\"n\":%d", i, n);
        }
        else if(!strcmp(op, "norm"))
        {
            double * old[MAXN + 1];
            for(int k = i; k <= n; k++)
            {
                old[k] = malloc(sizeof(double) * (G[k].nprim + 1));
                for(int j = 0; j < G[k].nprim; j++) old[k][j] = G[k].coef[j];
            }
            simint_normalize_shells(n - i + 1, G + i);
            printf("{\"ev\":\"norm\",\"i\":%d,\"n\":%d,\"res\":[", i, n);
            int first = 1;
            for(int k = i; k <= n; k++)
            {
                /* the constant function cannot be normalised */
                int dummy = 0;
                for(int j = 0; j < G[k].nprim; j++) if(G[k].alpha[j] == 0.0) dummy = 1;
                if(!dummy) { printf("%s%d", first ? "" : ",", normres(G[k].am, G[k].nprim, G[k].alpha, old[k], G[k].coef)); first = 0; }
                free(old[k]);
            }
            printf("]");
        }
        else if(!strcmp(op, "pair"))
        {
            /* building a pair leaves the shells as they are */
            struct simint_multi_shellpair P;
            simint_initialize_multi_shellpair(&P);
            struct simint_shell * a = G + i, * b = G + n;
            int z = 0;
            if(a->alpha[0] == 0 && b->alpha[0] == 0) z = 1;
            if(!z)
            {
                simint_create_multi_shellpair(1, a, 1, b, &P, 0);
                simint_free_multi_shellpair(&P);
            }
            printf("{\"ev\":\"pair\",\"i\":%d,\"n\":%d", i, n);
        }
        else return 9;
        dump();
        fflush(stdout);
    }
    for(int k = 1; k <= N; k++) if(full[k]) simint_free_shell(G + k);
    return 0;
}
