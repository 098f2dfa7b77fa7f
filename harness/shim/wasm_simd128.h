/* The WebAssembly SIMD intrinsics cglm uses, by their specification, for an x86 host. */
#ifndef shim_wasm_simd128_h
#define shim_wasm_simd128_h
#include <stdint.h>
#include <string.h>
#include <math.h>
typedef float   wf4 __attribute__((vector_size(16)));
typedef int32_t v128_t __attribute__((vector_size(16)));
#define WI static inline __attribute__((unused))
#define WF(x) ((wf4)(x))
WI v128_t wasm_v128_load(const void *p) { v128_t r; memcpy(&r, p, 16); return r; }
WI void wasm_v128_store(void *p, v128_t a) { memcpy(p, &a, 16); }
WI v128_t wasm_v128_load32_zero(const void *p) { v128_t r = { 0 }; memcpy(&r, p, 4); return r; }
WI v128_t wasm_v128_load64_zero(const void *p) { v128_t r = { 0 }; memcpy(&r, p, 8); return r; }
WI void wasm_v128_store32_lane(void *p, v128_t a, int n) { memcpy(p, (char *)&a + 4*n, 4); }
WI void wasm_v128_store64_lane(void *p, v128_t a, int n) { memcpy(p, (char *)&a + 8*n, 8); }
WI v128_t wasm_v128_xor(v128_t a, v128_t b) { return a ^ b; }
WI v128_t wasm_v128_and(v128_t a, v128_t b) { return a & b; }
WI v128_t wasm_v128_or(v128_t a, v128_t b) { return a | b; }
WI v128_t wasm_v128_andnot(v128_t a, v128_t b) { return a & ~b; }
#define wasm_i32x4_const(a, b, c, d) ((v128_t){ (int32_t)(a), (int32_t)(b), (int32_t)(c), (int32_t)(d) })
#define wasm_i32x4_const_splat(a) wasm_i32x4_const(a, a, a, a)
#define wasm_i32x4_splat(a) wasm_i32x4_const(a, a, a, a)
#define wasm_f32x4_const(a, b, c, d) ((v128_t)(wf4){ a, b, c, d })
#define wasm_f32x4_make(a, b, c, d) ((v128_t)(wf4){ a, b, c, d })
#define wasm_f32x4_const_splat(a) wasm_f32x4_splat(a)
WI v128_t wasm_f32x4_splat(float x) { return (v128_t)(wf4){ x, x, x, x }; }
WI float wasm_f32x4_extract_lane(v128_t a, int n) { return WF(a)[n]; }
WI v128_t wasm_f32x4_replace_lane(v128_t a, int n, float x) { wf4 r = WF(a); r[n] = x; return (v128_t)r; }
WI v128_t wasm_i32x4_shuffle(v128_t a, v128_t b, int i, int j, int k, int l) { int ix[4] = { i, j, k, l }; v128_t r; for (int q = 0; q < 4; q++) r[q] = ix[q] < 4 ? a[ix[q]] : b[ix[q] - 4]; return r; }
WI v128_t wasm_f32x4_add(v128_t a, v128_t b) { return (v128_t)(WF(a) + WF(b)); }
WI v128_t wasm_f32x4_sub(v128_t a, v128_t b) { return (v128_t)(WF(a) - WF(b)); }
WI v128_t wasm_f32x4_mul(v128_t a, v128_t b) { return (v128_t)(WF(a) * WF(b)); }
WI v128_t wasm_f32x4_div(v128_t a, v128_t b) { return (v128_t)(WF(a) / WF(b)); }
WI v128_t wasm_f32x4_neg(v128_t a) { return a ^ wasm_i32x4_const_splat(0x80000000); }
WI v128_t wasm_f32x4_abs(v128_t a) { return a & wasm_i32x4_const_splat(0x7fffffff); }
#define WL4(e) wf4 r; for (int i = 0; i < 4; i++) r[i] = (e); return (v128_t)r;
WI v128_t wasm_f32x4_sqrt(v128_t a) { WL4(sqrtf(WF(a)[i])) }
WI v128_t wasm_f32x4_pmin(v128_t a, v128_t b) { WL4(WF(b)[i] < WF(a)[i] ? WF(b)[i] : WF(a)[i]) }   /* b < a ? b : a */
WI v128_t wasm_f32x4_pmax(v128_t a, v128_t b) { WL4(WF(a)[i] < WF(b)[i] ? WF(b)[i] : WF(a)[i]) }   /* a < b ? b : a */
WI v128_t wasm_f32x4_eq(v128_t a, v128_t b) { return (v128_t)(WF(a) == WF(b)); }
WI v128_t wasm_f32x4_lt(v128_t a, v128_t b) { return (v128_t)(WF(a) < WF(b)); }
WI v128_t wasm_f32x4_gt(v128_t a, v128_t b) { return (v128_t)(WF(a) > WF(b)); }
WI v128_t wasm_v128_bitselect(v128_t a, v128_t b, v128_t m) { return (a & m) | (b & ~m); }
#endif
