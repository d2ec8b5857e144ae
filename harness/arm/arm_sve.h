/* the SVE operations the library uses, on generic vectors of fixed length; predicates: number of leading active lanes */
#pragma once
#include <math.h>
#define SV_N (__ARM_FEATURE_SVE_BITS/64)
typedef double svfloat64_t __attribute__((vector_size(__ARM_FEATURE_SVE_BITS/8)));
typedef float svfloat32_t __attribute__((vector_size(__ARM_FEATURE_SVE_BITS/8)));
typedef int svbool_t;
static inline svbool_t svptrue_b64(void) { return SV_N; }
static inline svbool_t svptrue_b32(void) { return 2*SV_N; }
static inline svbool_t svwhilelt_b64(long a, long b) { long n = b - a; return n < 0 ? 0 : n > SV_N ? SV_N : n; }
#define SV1(name, ex) static inline svfloat64_t name(svbool_t p, svfloat64_t a) { svfloat64_t r; for(int i = 0; i < SV_N; i++) r[i] = i < p ? (ex) : 0.0; return r; }
#define SV2(name, ex) static inline svfloat64_t name(svbool_t p, svfloat64_t a, svfloat64_t b) { svfloat64_t r; for(int i = 0; i < SV_N; i++) r[i] = i < p ? (ex) : 0.0; return r; }
#define SV3(name, ex) static inline svfloat64_t name(svbool_t p, svfloat64_t a, svfloat64_t b, svfloat64_t c) { svfloat64_t r; for(int i = 0; i < SV_N; i++) r[i] = i < p ? (ex) : 0.0; return r; }
static inline svfloat64_t svld1_f64(svbool_t p, const double *m) { svfloat64_t r; for(int i = 0; i < SV_N; i++) r[i] = i < p ? m[i] : 0.0; return r; }
static inline void svst1_f64(svbool_t p, double *m, svfloat64_t v) { for(int i = 0; i < SV_N; i++) if(i < p) m[i] = v[i]; }
static inline svfloat64_t svdup_f64_z(svbool_t p, double a) { svfloat64_t r; for(int i = 0; i < SV_N; i++) r[i] = i < p ? a : 0.0; return r; }
static inline svfloat64_t svdup_f64(double a) { return svdup_f64_z(SV_N, a); }
SV1(svneg_f64_z, -a[i]) SV1(svsqrt_f64_z, sqrt(a[i]))
SV2(svadd_f64_z, a[i] + b[i]) SV2(svsub_f64_z, a[i] - b[i]) SV2(svmul_f64_z, a[i] * b[i]) SV2(svdiv_f64_z, a[i] / b[i])
SV3(svmad_f64_z, fma(a[i], b[i], c[i])) SV3(svnmsb_f64_z, fma(a[i], b[i], -c[i]))
SV3(svmsb_f64_z, fma(-a[i], b[i], c[i])) SV3(svnmad_f64_z, fma(-a[i], b[i], -c[i]))
SV3(svmla_f64_z, fma(b[i], c[i], a[i])) SV3(svmls_f64_z, fma(-b[i], c[i], a[i])) SV3(svnmls_f64_z, fma(b[i], c[i], -a[i]))
static inline double svaddv_f64(svbool_t p, svfloat64_t a) { double s = 0; for(int i = 0; i < p && i < SV_N; i++) s += a[i]; return s; }
static inline double svmaxv_f64(svbool_t p, svfloat64_t a) { double s = -INFINITY; for(int i = 0; i < p && i < SV_N; i++) if(a[i] > s) s = a[i]; return s; }
static inline double svminv_f64(svbool_t p, svfloat64_t a) { double s = INFINITY; for(int i = 0; i < p && i < SV_N; i++) if(a[i] < s) s = a[i]; return s; }
