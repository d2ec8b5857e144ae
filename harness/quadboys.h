/* The Boys function in 113-bit arithmetic */
#pragma once
#include <quadmath.h>
typedef __float128 quad;
static inline void quad_boys(quad T, int n, quad *F)
{
    if(T < 150) {
        /* the highest order by its series of positive terms, then downward */
        quad term = 1/(quad)(2*n + 1), sum = term;
        for(int i = 1; i < 1000 && term > sum*1e-36Q; i++) { term *= 2*T/(2*n + 2*i + 1); sum += term; }
        quad ex = expq(-T);
        F[n] = ex*sum;
        for(int m = n - 1; m >= 0; m--) F[m] = (2*T*F[m+1] + ex)/(2*m + 1);
    } else {
        quad ex = expq(-T);
        F[0] = sqrtq(M_PIq/T)/2*erfq(sqrtq(T));
        for(int m = 0; m < n; m++) F[m+1] = ((2*m + 1)*F[m] - ex)/(2*T);
    }
}
