/* Shadows simint/boys/boys.h: independent values for every order, see gf_prelude.h */
#pragma once
#include "simint/vectorization/vectorization.h"
static inline void boys_F_split(SIMINT_DBLTYPE * F, SIMINT_DBLTYPE x, int n)
{
    for(int m = 0; m <= n; m++) F[m] = gf_boys(x, m);
}
