/* Interprets the arithmetic of the library in the prime field GF(46327).
 *
 * Every source is compiled as C++ with  -include gf_prelude.h : 'double' becomes a class
 * of 8 bytes. The library's formulas are polynomial identities over the inputs (with
 * division and a square root), so that they hold or fail exactly in the field.
 * Uninitialised memory and NaN are not field elements: they poison what is computed from them. */
#ifndef GF_PRELUDE_H
#define GF_PRELUDE_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <assert.h>
#include <math.h>
#include <time.h>
#include <type_traits>
#include <vector>
#include <string>

#define GF_P 46327
typedef double real_double;

struct GF
{
    int64_t v;
    GF() = default;
    template<typename T, typename std::enable_if<std::is_integral<T>::value, int>::type = 0>
    GF(T x) : v(norm((int64_t)x)) {}
    GF(real_double d) : v(from(d)) {}
    GF(float d) : v(from(d)) {}
    static GF raw(int64_t x) { GF r; r.v = x; return r; }
    static int64_t norm(int64_t x) { x %= GF_P; return x < 0 ? x + GF_P : x; }
    static int64_t from(real_double d)
    {
        /* the one irrational constant the library uses in the pair prefactor */
        if(fabs(d - 5.91496717279561287782) < 1e-12) return 12345;
        if(!isfinite(d)) return -1;
        int e; real_double m = frexp(d, &e);
        int64_t n = (int64_t)ldexp(m, 53); e -= 53;
        int64_t r = norm(n % GF_P);
        int64_t two = e < 0 ? 23164 : 2; /* 23164 = 1/2 */
        for(int k = e < 0 ? -e : e; k > 0; k--) r = r*two % GF_P;
        return r;
    }
    bool ok() const { return v >= 0 && v < GF_P; }
    template<typename T, typename std::enable_if<std::is_integral<T>::value, int>::type = 0>
    explicit operator T() const { return (T)v; }
    explicit operator real_double() const { return (real_double)v; }
    GF &operator+=(GF o);
    GF &operator-=(GF o);
    GF &operator*=(GF o);
    GF &operator/=(GF o);
};
static_assert(sizeof(GF) == 8, "size");
static inline GF gf_pow(GF a, int64_t e) { GF r = GF::raw(1); if(!a.ok()) return a; while(e) { if(e & 1) r.v = r.v*a.v % GF_P; a.v = a.v*a.v % GF_P; e >>= 1; } return r; }
static inline GF operator+(GF a, GF b) { return (a.ok() && b.ok()) ? GF::raw((a.v + b.v) % GF_P) : GF::raw(-1); }
static inline GF operator-(GF a, GF b) { return (a.ok() && b.ok()) ? GF::raw((a.v - b.v + GF_P) % GF_P) : GF::raw(-1); }
static inline GF operator*(GF a, GF b) { return (a.ok() && b.ok()) ? GF::raw(a.v * b.v % GF_P) : GF::raw(-1); }
static inline GF operator/(GF a, GF b) { return (a.ok() && b.ok() && b.v) ? a * gf_pow(b, GF_P - 2) : GF::raw(-1); }
static inline GF operator-(GF a) { return GF::raw(0) - a; }
static inline GF operator+(GF a) { return a; }
inline GF &GF::operator+=(GF o) { return *this = *this + o; }
inline GF &GF::operator-=(GF o) { return *this = *this - o; }
inline GF &GF::operator*=(GF o) { return *this = *this * o; }
inline GF &GF::operator/=(GF o) { return *this = *this / o; }
static inline bool operator<(GF a, GF b) { return a.v < b.v; }
static inline bool operator>(GF a, GF b) { return a.v > b.v; }
static inline bool operator<=(GF a, GF b) { return a.v <= b.v; }
static inline bool operator>=(GF a, GF b) { return a.v >= b.v; }
static inline bool operator==(GF a, GF b) { return a.v == b.v; }
static inline bool operator!=(GF a, GF b) { return a.v != b.v; }
/* p = 3 mod 4: this root is multiplicative */
static inline GF sqrt(GF a) { GF r = gf_pow(a, (GF_P + 1)/4); return (r*r == a) ? r : GF::raw(-1); }
/* any function will do, as long as the specification uses the same */
#ifdef GF_EXP1
static inline GF exp(GF x) { return x.ok() ? GF::raw(1) : x; }
#else
static inline GF exp(GF x) { GF h = x + GF(3); return h*h + GF(5); }
#endif
static inline GF fma(GF a, GF b, GF c) { return a*b + c; }
static inline GF fmax(GF a, GF b) { return a.v > b.v ? a : b; }
static inline GF fmin(GF a, GF b) { return a.v < b.v ? a : b; }
static inline bool isnan(GF a) { return !a.ok(); }
static inline bool isfinite(GF a) { return a.ok(); }
static inline GF fabs(GF x) { return x; }
static inline GF pow(GF a, GF b) { return gf_pow(a, b.v); }
static inline GF pow(GF a, real_double b) { return b == 1.5 ? a*sqrt(a) : b == 2.5 ? a*a*sqrt(a) : b == 0.5 ? sqrt(a) : gf_pow(a, (int64_t)b); }
/* stand-in for the Boys function */
static inline GF gf_boys(GF x, int m)
{
    GF h = x*GF(m + 1) + GF(17*m*m + 5);
    return h*h + GF(3)*h*GF(m) + GF(m + 1);
}
#define register
#define _Static_assert static_assert
#ifndef restrict
#define restrict __restrict__
#endif
#define double GF
#endif
