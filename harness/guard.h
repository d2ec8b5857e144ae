/* Buffers between canaries, filled with NaN. */
#ifndef GUARD_H
#define GUARD_H
#include <stdlib.h>
#include <stdint.h>
#include <stdio.h>
#define GUARD 512
static const uint64_t G_CAN = 0x7ff4deadbeef1234ull;
static double *galloc_fill(size_t n, uint64_t fill)
{
    void *p;
    if(posix_memalign(&p, 128, (n + 2*GUARD)*sizeof(double))) exit(3);
    uint64_t *u = (uint64_t*)p;
    for(size_t i = 0; i < n + 2*GUARD; i++) u[i] = (i < GUARD || i >= n + GUARD) ? G_CAN : fill;
    return (double*)p + GUARD;
}
static double *galloc(size_t n) { return galloc_fill(n, 0x7ff8000000000badull); }
static int gcheck(double *d, size_t n)
{
    uint64_t *u = (uint64_t*)(d - GUARD);
    for(size_t i = 0; i < n + 2*GUARD; i++)
        if((i < GUARD || i >= n + GUARD) && u[i] != G_CAN) return 1;
    return 0;
}
static void gfree(double *d) { free(d - GUARD); }
#endif
