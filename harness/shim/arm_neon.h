/* The NEON intrinsics cglm uses, by their architectural definition, for an x86 host. */
#ifndef shim_arm_neon_h
#define shim_arm_neon_h
#include <stdint.h>
#include <string.h>
#include <math.h>
typedef float float32_t;
typedef float   float32x2_t __attribute__((vector_size(8)));
typedef float   float32x4_t __attribute__((vector_size(16)));
typedef int32_t int32x4_t   __attribute__((vector_size(16)));
typedef uint32_t uint32x4_t __attribute__((vector_size(16)));
typedef struct { float32x4_t val[2]; } float32x4x2_t;
typedef struct { float32x4_t val[3]; } float32x4x3_t;
typedef struct { float32x4_t val[4]; } float32x4x4_t;
typedef struct { float32x2_t val[2]; } float32x2x2_t;
#define NI static inline __attribute__((unused))
/* loads and stores need element alignment only */
NI float32x4_t vld1q_f32(const float *p) { float32x4_t r; memcpy(&r, p, 16); return r; }
NI float32x2_t vld1_f32(const float *p) { float32x2_t r; memcpy(&r, p, 8); return r; }
NI void vst1q_f32(float *p, float32x4_t a) { memcpy(p, &a, 16); }
NI void vst1_f32(float *p, float32x2_t a) { memcpy(p, &a, 8); }
#define vst1_lane_f32(p, a, n) ((void)(*(p) = (a)[n]))
#define vst1q_lane_f32(p, a, n) ((void)(*(p) = (a)[n]))
#define vld1q_lane_f32(p, a, n) vsetq_lane_f32(*(p), a, n)
NI float32x4x4_t vld4q_f32(const float *p) { float32x4x4_t r; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) r.val[j][i] = p[4*i + j]; return r; }
NI void vst4q_f32(float *p, float32x4x4_t r) { for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) p[4*i + j] = r.val[j][i]; }
NI float32x4_t vdupq_n_f32(float x) { return (float32x4_t){ x, x, x, x }; }
NI float32x2_t vdup_n_f32(float x) { return (float32x2_t){ x, x }; }
#define vmovq_n_f32 vdupq_n_f32
#define vdupq_lane_f32(v, n) vdupq_n_f32((v)[n])
#define vdup_lane_f32(v, n) vdup_n_f32((v)[n])
#define vdupq_laneq_f32(v, n) vdupq_n_f32((v)[n])
#define vget_lane_f32(v, n) ((v)[n])
#define vgetq_lane_f32(v, n) ((v)[n])
NI float32x4_t vsetq_lane_f32(float x, float32x4_t v, int n) { v[n] = x; return v; }
NI float32x2_t vget_low_f32(float32x4_t v) { return (float32x2_t){ v[0], v[1] }; }
NI float32x2_t vget_high_f32(float32x4_t v) { return (float32x2_t){ v[2], v[3] }; }
NI float32x4_t vcombine_f32(float32x2_t a, float32x2_t b) { return (float32x4_t){ a[0], a[1], b[0], b[1] }; }
NI float32x4_t vextq_f32(float32x4_t a, float32x4_t b, int n) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = i + n < 4 ? a[i + n] : b[i + n - 4]; return r; }
NI float32x4_t vrev64q_f32(float32x4_t v) { return (float32x4_t){ v[1], v[0], v[3], v[2] }; }
NI float32x2_t vrev64_f32(float32x2_t v) { return (float32x2_t){ v[1], v[0] }; }
NI float32x4x2_t vzipq_f32(float32x4_t a, float32x4_t b) { return (float32x4x2_t){ { { a[0], b[0], a[1], b[1] }, { a[2], b[2], a[3], b[3] } } }; }
NI float32x4x2_t vuzpq_f32(float32x4_t a, float32x4_t b) { return (float32x4x2_t){ { { a[0], a[2], b[0], b[2] }, { a[1], a[3], b[1], b[3] } } }; }
NI float32x4x2_t vtrnq_f32(float32x4_t a, float32x4_t b) { return (float32x4x2_t){ { { a[0], b[0], a[2], b[2] }, { a[1], b[1], a[3], b[3] } } }; }
NI int32x4_t vreinterpretq_s32_f32(float32x4_t v) { return (int32x4_t)v; }
NI float32x4_t vreinterpretq_f32_s32(int32x4_t v) { return (float32x4_t)v; }
NI int32x4_t veorq_s32(int32x4_t a, int32x4_t b) { return a ^ b; }
NI float32x4_t vaddq_f32(float32x4_t a, float32x4_t b) { return a + b; }
NI float32x2_t vadd_f32(float32x2_t a, float32x2_t b) { return a + b; }
NI float32x4_t vsubq_f32(float32x4_t a, float32x4_t b) { return a - b; }
NI float32x4_t vmulq_f32(float32x4_t a, float32x4_t b) { return a * b; }
NI float32x2_t vmul_f32(float32x2_t a, float32x2_t b) { return a * b; }
NI float32x4_t vdivq_f32(float32x4_t a, float32x4_t b) { return a / b; }
NI float32x4_t vnegq_f32(float32x4_t a) { return -a; }
#define EL4(e) float32x4_t r; for (int i = 0; i < 4; i++) r[i] = (e); return r;
NI float32x4_t vabsq_f32(float32x4_t a) { EL4(fabsf(a[i])) }
NI float shim_min(float a, float b) { return a != a ? a : b != b ? b : a < b || (a == b && signbit(a)) ? a : b; }   /* FMIN: NaN if either is */
NI float shim_max(float a, float b) { return a != a ? a : b != b ? b : a > b || (a == b && signbit(b)) ? a : b; }
NI float32x4_t vminq_f32(float32x4_t a, float32x4_t b) { EL4(shim_min(a[i], b[i])) }
NI float32x4_t vmaxq_f32(float32x4_t a, float32x4_t b) { EL4(shim_max(a[i], b[i])) }
NI float32x2_t vpmin_f32(float32x2_t a, float32x2_t b) { return (float32x2_t){ shim_min(a[0], a[1]), shim_min(b[0], b[1]) }; }
NI float32x2_t vpmax_f32(float32x2_t a, float32x2_t b) { return (float32x2_t){ shim_max(a[0], a[1]), shim_max(b[0], b[1]) }; }
NI float32x2_t vpadd_f32(float32x2_t a, float32x2_t b) { return (float32x2_t){ a[0] + a[1], b[0] + b[1] }; }
NI float32x4_t vpaddq_f32(float32x4_t a, float32x4_t b) { return (float32x4_t){ a[0] + a[1], a[2] + a[3], b[0] + b[1], b[2] + b[3] }; }
NI float vaddvq_f32(float32x4_t a) { return (a[0] + a[1]) + (a[2] + a[3]); }
NI float vmaxvq_f32(float32x4_t a) { return shim_max(shim_max(a[0], a[1]), shim_max(a[2], a[3])); }
NI float vminvq_f32(float32x4_t a) { return shim_min(shim_min(a[0], a[1]), shim_min(a[2], a[3])); }
NI float32x4_t vsqrtq_f32(float32x4_t a) { EL4(sqrtf(a[i])) }
NI float32x4_t vfmaq_f32(float32x4_t c, float32x4_t a, float32x4_t b) { EL4(fmaf(a[i], b[i], c[i])) }
NI float32x4_t vfmsq_f32(float32x4_t c, float32x4_t a, float32x4_t b) { EL4(fmaf(-a[i], b[i], c[i])) }
NI float32x4_t vmlaq_f32(float32x4_t c, float32x4_t a, float32x4_t b) { return c + a * b; }
NI float32x4_t vmlsq_f32(float32x4_t c, float32x4_t a, float32x4_t b) { return c - a * b; }
#define vmulq_lane_f32(a, v, n) vmulq_f32(a, vdupq_lane_f32(v, n))
#define vmulq_n_f32(a, s) vmulq_f32(a, vdupq_n_f32(s))
#define vmlaq_lane_f32(c, a, v, n) vmlaq_f32(c, a, vdupq_lane_f32(v, n))
#define vmlsq_lane_f32(c, a, v, n) vmlsq_f32(c, a, vdupq_lane_f32(v, n))
#define vmlaq_n_f32(c, a, s) vmlaq_f32(c, a, vdupq_n_f32(s))
#define vfmaq_lane_f32(c, a, v, n) vfmaq_f32(c, a, vdupq_lane_f32(v, n))
#define vfmaq_n_f32(c, a, s) vfmaq_f32(c, a, vdupq_n_f32(s))
/* reciprocal estimate (8 bits) and Newton step */
NI float shim_rcpe(float x) { float r = 1.0f / x; uint32_t u; if (r != r || isinf(r) || r == 0.0f) return r; memcpy(&u, &r, 4); u = (u + 0x4000u) & 0xFFFF8000u; memcpy(&r, &u, 4); return r; }
NI float shim_rcps(float a, float b) { if (fabsf(a) < 1.17549435e-38f) a = copysignf(0.0f, a); if (fabsf(b) < 1.17549435e-38f) b = copysignf(0.0f, b); return (isinf(a) && b == 0.0f) || (isinf(b) && a == 0.0f) ? 2.0f : 2.0f - a * b; }
NI float32x4_t vrecpeq_f32(float32x4_t a) { EL4(shim_rcpe(a[i])) }
NI float32x4_t vrecpsq_f32(float32x4_t a, float32x4_t b) { EL4(shim_rcps(a[i], b[i])) }
#endif
