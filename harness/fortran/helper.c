/* Script reading, deterministic inputs and output of both drivers, and the view of the objects from C.
   Input lines: "R" starts a history; otherwise: op n x1..xn s1..sNS p1..pNP, where s and p are the kinds of contents of
   the shells and pairs after the call. */
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "simint/simint.h"
#include "common.h"

static const char * const names[] = {"", "init_shell", "init_shells", "alloc", "free", "frees", "norm", "copy", "copyfresh",
    "create", "zero", "init_pair", "init_pairs", "free_pair", "free_pairs", "pair", "pair2", "eri", "deriv", "worksize",
    "workmem", "overlap", "ke", "potential", "simint_init", "again"};
static int cur, nx, x[16], st[NS + NP];

int h_next(int * args, int * kinds)
{
    char op[32];
    if(scanf("%31s", op) != 1) return cur = OP_END;
    if(!strcmp(op, "R")) return cur = OP_RESET;
    cur = -1;
    for(int i = 1; i <= OP_AGAIN; i++) if(!strcmp(op, names[i])) cur = i;
    if(cur < 0 || scanf("%d", &nx) != 1 || nx > 16) exit(9);
    for(int i = 0; i < nx; i++) if(scanf("%d", x + i) != 1) exit(9);
    for(int i = 0; i < NS + NP; i++) if(scanf("%d", st + i) != 1) exit(9);
    memcpy(args, x, sizeof x); memcpy(kinds, st, sizeof st);
    return cur;
}

/* shell contents: variant v with n primitives */
void h_variant(int v, int n, double * c, double * alpha, double * coef)
{
    for(int i = 0; i < 3; i++) c[i] = 0.25 * ((v * 7 + i * 5) % 11) - 1.0 + 0.01 * v;
    for(int k = 0; k < n; k++)
    {
        alpha[k] = (0.3 + 0.4 * v) * (1 + 2.5 * k) + 0.037 * (v * k);
        coef[k] = 0.4 + 0.13 * k - 0.05 * v;
    }
}

/* external charges */
void h_charges(int n, double * q, double * cx, double * cy, double * cz)
{
    for(int k = 0; k < n; k++) { q[k] = 1.5 + k; cx[k] = 0.3 * k - 0.2; cy[k] = 0.7 - 0.45 * k; cz[k] = 0.11 * (k + 1) * (k - 2); }
}

/* output */
static char buf[1 << 16];
static size_t len;
static int first = 1, onlyfixed;
static void put(const char * s) { size_t n = strlen(s); if(len + n >= sizeof buf) exit(8); memcpy(buf + len, s, n + 1); len += n; }
static void item(const char * s) { if(!first) put(","); put("\""); put(s); put("\""); first = 0; }
void e_open(void) { if(!first) put(","); put("["); first = 1; }
void e_close(void) { put("]"); first = 0; }
void e_int(int i) { char t[32]; sprintf(t, "%d", i); item(t); }
void e_size(size_t i) { char t[32]; sprintf(t, "%zu", i); item(t); }
void e_dbl(double d) { uint64_t u; char t[32]; memcpy(&u, &d, 8); sprintf(t, "%016llx", (unsigned long long)u); item(t); }
/* a pointer member of an object of the given kind that owns base; owner: it is the base itself */
void e_ptr(void * p, void * base, int kind, int owner)
{
    char t[32];
    if(kind == 0) { sprintf(t, "%p", p); item(t); }
    else if(kind == 1) item(!owner ? "-" : p == NULL ? "null" : "notnull");
    else if(p == NULL) item("null");
    else if(owner) item("memory");
    else { sprintf(t, "%td", (char *)p - (char *)base); item(t); }
}
static uint64_t hv = 1469598103934665603ULL;
static void hb(const void * p, size_t n) { const unsigned char * c = p; while(n--) { hv ^= *c++; hv *= 1099511628211ULL; } }
void h_add_d(double d) { hb(&d, 8); }
void h_add_i(int i) { hb(&i, 4); }
void e_hash(void) { char t[32]; sprintf(t, "%016llx", (unsigned long long)hv); item(t); hv = 1469598103934665603ULL; }

/* the C view of all objects */
static void c_view(const struct simint_shell * S, const struct simint_multi_shellpair * P)
{
    e_open();
    for(int i = 0; i < NS; i++)
    {
        const struct simint_shell * s = S + i; const int k = st[i];
        e_open();
        e_int(s->am); e_int(s->nprim); e_dbl(s->x); e_dbl(s->y); e_dbl(s->z);
        e_ptr(s->alpha, s->ptr, k, 0); e_ptr(s->coef, s->ptr, k, 0); e_size(s->memsize); e_ptr(s->ptr, s->ptr, k, 1);
        if(k >= 3) for(int j = 0; j < s->nprim; j++) { h_add_d(s->alpha[j]); h_add_d(s->coef[j]); }
        e_hash();
        e_close();
    }
    e_close(); e_open();
    for(int i = 0; i < NP; i++)
    {
        const struct simint_multi_shellpair * p = P + i; const int k = st[NS + i]; void * b = p->ptr;
        e_open();
        e_int(p->am1); e_int(p->am2); e_int(p->nprim); e_int(p->nshell12); e_int(p->nshell12_clip);
        e_ptr(p->nprim12, b, k, 0); e_ptr(p->AB_x, b, k, 0); e_ptr(p->AB_y, b, k, 0); e_ptr(p->AB_z, b, k, 0);
        e_ptr(p->x, b, k, 0); e_ptr(p->y, b, k, 0); e_ptr(p->z, b, k, 0);
        e_ptr(p->PA_x, b, k, 0); e_ptr(p->PA_y, b, k, 0); e_ptr(p->PA_z, b, k, 0);
        e_ptr(p->PB_x, b, k, 0); e_ptr(p->PB_y, b, k, 0); e_ptr(p->PB_z, b, k, 0);
        e_ptr(p->alpha, b, k, 0);
#if SIMINT_OSTEI_MAXDER > 0
        e_ptr(p->alpha2, b, k, 0); e_ptr(p->beta2, b, k, 0);
#endif
        e_ptr(p->prefac, b, k, 0); e_ptr(p->screen, b, k, 0); e_dbl(p->screen_max); e_size(p->memsize); e_ptr(p->ptr, b, k, 1);
        if(k >= 3)
        {
            for(int j = 0; j < p->nshell12; j++) { h_add_i(p->nprim12[j]); h_add_d(p->AB_x[j]); h_add_d(p->AB_y[j]); h_add_d(p->AB_z[j]); }
            for(int j = 0; j < p->nprim; j++)
            {
                h_add_d(p->x[j]); h_add_d(p->y[j]); h_add_d(p->z[j]);
                h_add_d(p->PA_x[j]); h_add_d(p->PA_y[j]); h_add_d(p->PA_z[j]);
                h_add_d(p->PB_x[j]); h_add_d(p->PB_y[j]); h_add_d(p->PB_z[j]);
                h_add_d(p->alpha[j]); h_add_d(p->prefac[j]);
#if SIMINT_OSTEI_MAXDER > 0
                h_add_d(p->alpha2[j]); h_add_d(p->beta2[j]);
#endif
                if(p->screen) h_add_d(p->screen[j]);
            }
        }
        e_hash();
        e_close();
    }
    e_close();
}

/* after a call: the Fortran driver puts its view between h_begin and h_end */
void h_begin(void) { len = 0; buf[0] = 0; first = 1; }
void h_end(const void * S, const void * P, const char * ret, double * out, int computes)
{
    char mine[sizeof buf];
    memcpy(mine, buf, len + 1);
    const int had = len > 0;
    h_begin();
    c_view(S, P);
    printf("{\"op\":\"%s\",\"r\":\"%s", names[cur], ret);
    if(computes)
    {
        hb(out, NOUT * sizeof(double));
        printf(" %016llx", (unsigned long long)hv);
        hv = 1469598103934665603ULL;
    }
    printf("\",\"c\":[%s]", buf);
    if(had) printf(",\"f\":[%s]", mine);
    printf("}\n");
    fflush(stdout);
}
void h_result(const void * S, const void * P, int ret, double * out, int computes)
{
    char t[32]; sprintf(t, "%d", ret);
    h_end(S, P, t, out, computes);
}
void h_fill(double * out) { for(int i = 0; i < NOUT; i++) out[i] = -7.25; }
void h_pattern(void * p, size_t n) { memset(p, 0x5a, n); }

/* layout: size and the place of every member */
static char lbuf[8192];
void h_layout_c(void)
{
    h_begin(); e_open();
    e_size(sizeof(struct simint_shell));
#define S(m) e_size(offsetof(struct simint_shell, m))
#define P(m) e_size(offsetof(struct simint_multi_shellpair, m))
    S(am); S(nprim); S(x); S(y); S(z); S(alpha); S(coef); S(memsize); S(ptr);
    e_size(sizeof(struct simint_multi_shellpair));
    P(am1); P(am2); P(nprim); P(nshell12); P(nshell12_clip); P(nprim12); P(AB_x); P(AB_y); P(AB_z); P(x); P(y); P(z);
    P(PA_x); P(PA_y); P(PA_z); P(PB_x); P(PB_y); P(PB_z); P(alpha);
#if SIMINT_OSTEI_MAXDER > 0
    P(alpha2); P(beta2);
#endif
    P(prefac); P(screen); P(screen_max); P(memsize); P(ptr);
    e_close();
    strcpy(lbuf, buf);
    h_begin();
}
void h_layout(void)
{
    char mine[8192]; strcpy(mine, buf);
    h_layout_c();
    printf("{\"op\":\"layout\",\"c\":%s,\"f\":%s}\n", lbuf, mine[0] ? mine : "[]");
    fflush(stdout);
}
