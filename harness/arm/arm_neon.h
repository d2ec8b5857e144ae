/* the NEON operations the library uses, on generic vectors */
#pragma once
#include <math.h>
typedef double float64x2_t __attribute__((vector_size(16)));
static inline float64x2_t vld1q_f64(const double *p) { float64x2_t r = {p[0], p[1]}; return r; }
static inline float64x2_t vdupq_n_f64(double a) { float64x2_t r = {a, a}; return r; }
static inline float64x2_t vnegq_f64(float64x2_t a) { return -a; }
static inline float64x2_t vaddq_f64(float64x2_t a, float64x2_t b) { return a + b; }
static inline float64x2_t vsubq_f64(float64x2_t a, float64x2_t b) { return a - b; }
static inline float64x2_t vmulq_f64(float64x2_t a, float64x2_t b) { return a * b; }
static inline float64x2_t vdivq_f64(float64x2_t a, float64x2_t b) { return a / b; }
static inline float64x2_t vsqrtq_f64(float64x2_t a) { float64x2_t r = {sqrt(a[0]), sqrt(a[1])}; return r; }
static inline float64x2_t vfmaq_f64(float64x2_t c, float64x2_t a, float64x2_t b) { float64x2_t r = {fma(a[0], b[0], c[0]), fma(a[1], b[1], c[1])}; return r; }
static inline float64x2_t vfmsq_f64(float64x2_t c, float64x2_t a, float64x2_t b) { float64x2_t r = {fma(-a[0], b[0], c[0]), fma(-a[1], b[1], c[1])}; return r; }
static inline double vaddvq_f64(float64x2_t a) { return a[0] + a[1]; }
static inline double vmaxvq_f64(float64x2_t a) { return a[0] > a[1] ? a[0] : a[1]; }
static inline double vminvq_f64(float64x2_t a) { return a[0] < a[1] ? a[0] : a[1]; }
static inline void vst1q_f64(double *p, float64x2_t a) { p[0] = a[0]; p[1] = a[1]; }
static inline float64x2_t vmaxq_f64(float64x2_t a, float64x2_t b) { float64x2_t r = {a[0] > b[0] ? a[0] : b[0], a[1] > b[1] ? a[1] : b[1]}; return r; }
