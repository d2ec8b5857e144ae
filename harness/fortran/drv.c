/* Replays a history of calls through the C interface. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "simint/simint.h"
#include "common.h"
int h_next(int *, int *); void h_variant(int, int, double *, double *, double *); void h_charges(int, double *, double *, double *, double *);
void h_begin(void); void h_result(const void *, const void *, int, double *, int); void h_fill(double *); void h_pattern(void *, size_t);
void h_layout(void);
static struct simint_shell S[NS]; static struct simint_multi_shellpair P[NP];
static double out[NOUT];

int main(void)
{
    int x[16], k[NS + NP], op, r, comp;
    double c[3], al[8], co[8], q[4], cx[4], cy[4], cz[4];
    struct simint_shell A[2 * NS], B[NS];
    simint_init();
    double * work = malloc(simint_eri_workmem(SIMINT_OSTEI_MAXDER, SIMINT_OSTEI_MAXAM));
    h_begin(); h_layout();
    while((op = h_next(x, k)) != OP_END)
    {
        if(op == OP_RESET) { h_pattern(S, sizeof S); h_pattern(P, sizeof P); printf("{\"op\":\"reset\"}\n"); continue; }
        r = 0; comp = 0;
        switch(op)
        {
            case OP_INIT_SHELL: simint_initialize_shell(S + x[0] - 1); break;
            case OP_INIT_SHELLS: simint_initialize_shells(x[1], S + x[0] - 1); break;
            case OP_ALLOC: simint_allocate_shell(x[1], S + x[0] - 1); break;
            case OP_FREE: simint_free_shell(S + x[0] - 1); break;
            case OP_FREES: simint_free_shells(x[1], S + x[0] - 1); break;
            case OP_NORM: simint_normalize_shells(x[1], S + x[0] - 1); break;
            case OP_COPY: simint_copy_shell(S + x[0] - 1, S + x[1] - 1); break;
            case OP_COPYFRESH:
            {
                struct simint_shell t;
                simint_initialize_shell(&t);
                simint_copy_shell(S + x[0] - 1, &t);
                S[x[1] - 1] = t;
                break;
            }
            case OP_CREATE:
                h_variant(x[3], x[1], c, al, co);
                simint_create_shell(x[1], x[2], c[0], c[1], c[2], al, co, S + x[0] - 1);
                break;
            case OP_ZERO: simint_create_zero_shell(S + x[0] - 1); break;
            case OP_INIT_PAIR: simint_initialize_multi_shellpair(P + x[0] - 1); break;
            case OP_INIT_PAIRS: simint_initialize_multi_shellpairs(x[1], P + x[0] - 1); break;
            case OP_FREE_PAIR: simint_free_multi_shellpair(P + x[0] - 1); break;
            case OP_FREE_PAIRS: simint_free_multi_shellpairs(x[1], P + x[0] - 1); break;
            case OP_PAIR:
                for(int i = 0; i < x[1]; i++) A[i] = S[x[0] - 1 + i * x[6]];
                for(int i = 0; i < x[3]; i++) B[i] = S[x[2] - 1 + i * x[6]];
                simint_create_multi_shellpair(x[1], A, x[3], B, P + x[4] - 1, x[5]);
                break;
            case OP_PAIR2:
                for(int i = 0; i < 2 * x[1]; i++) A[i] = S[x[0] - 1 + i * x[4]];
                simint_create_multi_shellpair2(x[1], A, P + x[2] - 1, x[3]);
                break;
            case OP_ERI: h_fill(out); comp = 1; r = simint_compute_eri(P + x[0] - 1, P + x[1] - 1, x[2] * 1e-3, work, out); break;
            case OP_DERIV: h_fill(out); comp = 1; r = simint_compute_eri_deriv(x[0], P + x[1] - 1, P + x[2] - 1, x[3] * 1e-3, work, out); break;
            case OP_WORKSIZE: r = (int)simint_eri_worksize(x[0], x[1]); break;
            case OP_WORKMEM: r = (int)simint_eri_workmem(x[0], x[1]); break;
            case OP_OVERLAP: h_fill(out); comp = 1; r = simint_compute_overlap(S + x[0] - 1, S + x[1] - 1, out); break;
            case OP_KE: h_fill(out); comp = 1; r = simint_compute_ke(S + x[0] - 1, S + x[1] - 1, out); break;
            case OP_POTENTIAL:
                h_charges(x[0], q, cx, cy, cz); h_fill(out); comp = 1;
                r = simint_compute_potential(x[0], q, cx, cy, cz, S + x[1] - 1, S + x[2] - 1, out);
                break;
            case OP_INIT: simint_init(); break;
            case OP_AGAIN: simint_finalize(); simint_init(); break;
        }
        h_begin();
        h_result(S, P, r, out, comp);
    }
    return 0;
}
