// The NEON intrinsics that CAKE's ARMv8 sources use (and their close relatives), in portable
// vector code, so that the ARMv8 configuration can be compiled and executed on this machine.
#pragma once
#include <stdint.h>
#include <string.h>
typedef float float32_t; typedef double float64_t;
typedef float float32x4_t __attribute__((vector_size(16)));
typedef double float64x2_t __attribute__((vector_size(16)));
typedef uint32_t uint32x4_t __attribute__((vector_size(16)));
typedef int32_t int32x4_t __attribute__((vector_size(16)));
typedef float float32x2_t __attribute__((vector_size(8)));
struct float32x4x2_t { float32x4_t val[2]; };
struct float32x4x3_t { float32x4_t val[3]; };
struct float32x4x4_t { float32x4_t val[4]; };
#define NEONF static inline __attribute__((always_inline))
NEONF float32x4_t vld1q_f32(const float* p) { float32x4_t v; memcpy(&v, p, 16); return v; }
NEONF void vst1q_f32(float* p, float32x4_t v) { memcpy(p, &v, 16); }
NEONF float32x2_t vld1_f32(const float* p) { float32x2_t v; memcpy(&v, p, 8); return v; }
NEONF void vst1_f32(float* p, float32x2_t v) { memcpy(p, &v, 8); }
NEONF float32x4x2_t vld1q_f32_x2(const float* p) { float32x4x2_t v; memcpy(&v, p, 32); return v; }
NEONF float32x4x3_t vld1q_f32_x3(const float* p) { float32x4x3_t v; memcpy(&v, p, 48); return v; }
NEONF float32x4x4_t vld1q_f32_x4(const float* p) { float32x4x4_t v; memcpy(&v, p, 64); return v; }
NEONF void vst1q_f32_x2(float* p, float32x4x2_t v) { memcpy(p, &v, 32); }
NEONF void vst1q_f32_x3(float* p, float32x4x3_t v) { memcpy(p, &v, 48); }
NEONF void vst1q_f32_x4(float* p, float32x4x4_t v) { memcpy(p, &v, 64); }
NEONF float32x4_t vdupq_n_f32(float f) { float32x4_t v = {f, f, f, f}; return v; }
NEONF float32x4_t vmovq_n_f32(float f) { return vdupq_n_f32(f); }
NEONF uint32x4_t vdupq_n_u32(uint32_t f) { uint32x4_t v = {f, f, f, f}; return v; }
NEONF float32x4_t vld1q_dup_f32(const float* p) { return vdupq_n_f32(*p); }
#ifdef __FMA__
NEONF float32x4_t vfmaq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { return (float32x4_t)__builtin_ia32_vfmaddps(b, c, a); }
#else
NEONF float32x4_t vfmaq_f32(float32x4_t a, float32x4_t b, float32x4_t c) {
  float32x4_t r; for (int i = 0; i < 4; i++) r[i] = __builtin_fmaf(b[i], c[i], a[i]); return r;
}
#endif
NEONF float32x4_t vfmsq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { return vfmaq_f32(a, -b, c); }
NEONF float32x4_t vfmaq_n_f32(float32x4_t a, float32x4_t b, float c) { return vfmaq_f32(a, b, vdupq_n_f32(c)); }
#define vfmaq_laneq_f32(a, b, c, lane) vfmaq_f32(a, b, vdupq_n_f32((c)[lane]))
#define vfmaq_lane_f32(a, b, c, lane) vfmaq_f32(a, b, vdupq_n_f32((c)[lane]))
#define vdupq_laneq_f32(v, lane) vdupq_n_f32((v)[lane])
#define vgetq_lane_f32(v, lane) ((v)[lane])
NEONF float32x4_t neon_setlane_(float f, float32x4_t v, int l) { v[l] = f; return v; }
#define vsetq_lane_f32(f, v, lane) neon_setlane_(f, v, lane)
#define vld1q_lane_f32(p, v, lane) neon_setlane_(*(p), v, lane)
#define vst1q_lane_f32(p, v, lane) ((void)(*(p) = (v)[lane]))
NEONF float32x4_t vmlaq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { float32x4_t t = b * c; return a + t; }
NEONF float32x4_t vmulq_f32(float32x4_t a, float32x4_t b) { return a * b; }
NEONF float32x4_t vmulq_n_f32(float32x4_t a, float b) { return a * vdupq_n_f32(b); }
NEONF float32x4_t vaddq_f32(float32x4_t a, float32x4_t b) { return a + b; }
NEONF float32x4_t vsubq_f32(float32x4_t a, float32x4_t b) { return a - b; }
NEONF float32x4_t vtrn1q_f32(float32x4_t a, float32x4_t b) { float32x4_t r = {a[0], b[0], a[2], b[2]}; return r; }
NEONF float32x4_t vtrn2q_f32(float32x4_t a, float32x4_t b) { float32x4_t r = {a[1], b[1], a[3], b[3]}; return r; }
NEONF float64x2_t vtrn1q_f64(float64x2_t a, float64x2_t b) { float64x2_t r = {a[0], b[0]}; return r; }
NEONF float64x2_t vtrn2q_f64(float64x2_t a, float64x2_t b) { float64x2_t r = {a[1], b[1]}; return r; }
NEONF float32x4_t vzip1q_f32(float32x4_t a, float32x4_t b) { float32x4_t r = {a[0], b[0], a[1], b[1]}; return r; }
NEONF float32x4_t vzip2q_f32(float32x4_t a, float32x4_t b) { float32x4_t r = {a[2], b[2], a[3], b[3]}; return r; }
NEONF float32x4_t vuzp1q_f32(float32x4_t a, float32x4_t b) { float32x4_t r = {a[0], a[2], b[0], b[2]}; return r; }
NEONF float32x4_t vuzp2q_f32(float32x4_t a, float32x4_t b) { float32x4_t r = {a[1], a[3], b[1], b[3]}; return r; }
NEONF float32x4_t vreinterpretq_f32_u32(uint32x4_t v) { return (float32x4_t)v; }
NEONF uint32x4_t vreinterpretq_u32_f32(float32x4_t v) { return (uint32x4_t)v; }
NEONF float32x4_t vreinterpretq_f32_f64(float64x2_t v) { return (float32x4_t)v; }
NEONF float64x2_t vreinterpretq_f64_f32(float32x4_t v) { return (float64x2_t)v; }
NEONF float32x4_t vmlaq_n_f32(float32x4_t a, float32x4_t b, float c) { return vmlaq_f32(a, b, vdupq_n_f32(c)); }
#define vmlaq_lane_f32(a, b, c, lane) vmlaq_f32(a, b, vdupq_n_f32((c)[lane]))
#define vmlaq_laneq_f32(a, b, c, lane) vmlaq_f32(a, b, vdupq_n_f32((c)[lane]))
#define vmulq_lane_f32(a, b, lane) vmulq_f32(a, vdupq_n_f32((b)[lane]))
#define vmulq_laneq_f32(a, b, lane) vmulq_f32(a, vdupq_n_f32((b)[lane]))
NEONF float32x2_t vdup_n_f32(float f) { float32x2_t v = {f, f}; return v; }
NEONF float32x2_t vget_low_f32(float32x4_t v) { float32x2_t r = {v[0], v[1]}; return r; }
NEONF float32x2_t vget_high_f32(float32x4_t v) { float32x2_t r = {v[2], v[3]}; return r; }
NEONF float32x4_t vcombine_f32(float32x2_t a, float32x2_t b) { float32x4_t r = {a[0], a[1], b[0], b[1]}; return r; }
#define vget_lane_f32(v, lane) ((v)[lane])
NEONF float32x4_t vnegq_f32(float32x4_t a) { return -a; }
NEONF float vaddvq_f32(float32x4_t v) { return (v[0] + v[1]) + (v[2] + v[3]); }
NEONF float32x4_t vextq_f32_(float32x4_t a, float32x4_t b, int n) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = i + n < 4 ? a[i + n] : b[i + n - 4]; return r; }
#define vextq_f32(a, b, n) vextq_f32_(a, b, n)
NEONF float32x4x2_t vtrnq_f32(float32x4_t a, float32x4_t b) { float32x4x2_t r = {{vtrn1q_f32(a, b), vtrn2q_f32(a, b)}}; return r; }
NEONF float32x4x2_t vzipq_f32(float32x4_t a, float32x4_t b) { float32x4x2_t r = {{vzip1q_f32(a, b), vzip2q_f32(a, b)}}; return r; }
NEONF float32x4x2_t vuzpq_f32(float32x4_t a, float32x4_t b) { float32x4x2_t r = {{vuzp1q_f32(a, b), vuzp2q_f32(a, b)}}; return r; }
NEONF float64x2_t vzip1q_f64(float64x2_t a, float64x2_t b) { return vtrn1q_f64(a, b); }
NEONF float64x2_t vzip2q_f64(float64x2_t a, float64x2_t b) { return vtrn2q_f64(a, b); }
NEONF float32x4x2_t vld2q_f32(const float* p) { float32x4x2_t r; for (int i = 0; i < 4; i++) for (int j = 0; j < 2; j++) r.val[j][i] = p[2 * i + j]; return r; }
NEONF float32x4x3_t vld3q_f32(const float* p) { float32x4x3_t r; for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) r.val[j][i] = p[3 * i + j]; return r; }
NEONF float32x4x4_t vld4q_f32(const float* p) { float32x4x4_t r; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) r.val[j][i] = p[4 * i + j]; return r; }
NEONF void vst2q_f32(float* p, float32x4x2_t v) { for (int i = 0; i < 4; i++) for (int j = 0; j < 2; j++) p[2 * i + j] = v.val[j][i]; }
NEONF void vst3q_f32(float* p, float32x4x3_t v) { for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) p[3 * i + j] = v.val[j][i]; }
NEONF void vst4q_f32(float* p, float32x4x4_t v) { for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) p[4 * i + j] = v.val[j][i]; }
