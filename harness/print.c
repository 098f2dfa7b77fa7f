/* Records what the print functions write, one JSON line per call (see spec/Print.tla).
 * print SEED COUNT  with -DAPI_i / -DAPI_c / -DAPI_s and the configuration under test. */
#define _GNU_SOURCE
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include <stddef.h>
#include <cglm/cglm.h>
#ifdef API_c
#include <cglm/call.h>
#endif
#ifdef API_s
#include <cglm/struct.h>
#endif
#include "gen.h"
#ifdef API_i
#define DO(raw, st, call, ...) raw
#elif defined(API_c)
#define DO(raw, st, call, ...) call
#else
#define DO(raw, st, call, ...) { st a; memcpy(&a, v, sizeof a); __VA_ARGS__; }
#endif
static float number(void) {
  union { float f; uint32_t u; } x;
  switch (ri(12)) {
  case 0: return (float)rr(-9, 9);
  case 1: return (float)(sgn() * lu(1e-9, 1e-3));
  case 2: return (float)(sgn() * lu(1e3, 1e5));
  case 3: return (float)(sgn() * lu(1e5, 1e12));
  case 4: return (float)(sgn() * lu(1e12, 3e38));
  case 5: { static const float e[] = { 1e5f, 99999.99f, -1e5f, 100000.01f, 999.9999f, 1000, 1e6f, 999999.5f, 0, -0.0f, 3.4028235e38f, 1e-45f, 0.000005f, 0.0000049f, 0.999995f, -0.000004f }; return e[ri(16)]; }
  case 6: if (pr(0.4)) { x.u = (uint32_t)rnd(); return x.f; } return pr(0.5) ? INFINITY : pr(0.5) ? -INFINITY : NAN;
  case 7: return (float)rr(-100000, 100000) / 1024;
  default: return (float)ur(-100, 100);
  } }
static int integer(void) { return pr(0.3) ? rr(-9, 9) : pr(0.2) ? (pr(0.5) ? 2147483647 : -2147483647 - 1) : (int)rnd() >> ri(31); }
int main(int argc, char **argv) {
  rs = strtoull(argv[1], 0, 10) * 0x9E3779B97F4A7C15ull; int count = atoi(argv[2]);
  static const struct { const char *kind; int n; } K[] = { { "mat", 4 }, { "mat", 3 }, { "mat", 2 }, { "vec", 4 }, { "vec", 3 }, { "vec", 2 }, { "ivec", 4 }, { "ivec", 3 }, { "ivec", 2 }, { "quat", 4 }, { "aabb", 3 }, { "arch", 0 }, { "archname", 0 } };
  for (int c = 0; c < count; c++) {
    int k = c % 13, n = K[k].n, w = k < 3 ? n * n : k == 10 ? 6 : n, isint = k >= 6 && k <= 8, tag = k == 10 ? ri(3) : 0;
    CGLM_ALIGN(32) float v[24]; CGLM_ALIGN(32) float u[24]; int *iv = (int *)v; memset(v, 0, sizeof v);
    int plain = pr(0.5); for (int i = 0; i < w; i++) { if (isint) iv[i] = integer(); else v[i] = plain ? (float)ur(-100, 100) : number(); }
    if (k < 3 && pr(0.3)) v[ri(w)] = number();
    memcpy(u, v, sizeof v);
    char *text = 0; size_t len = 0; FILE *f = open_memstream(&text, &len); int done = 1; const char *tg = tag == 0 ? 0 : tag == 1 ? "bbox" : "my box";
    switch (k) {
    case 0: DO(glm_mat4_print((vec4 *)v, f), mat4s, glmc_mat4_print((vec4 *)v, f), glms_mat4_print(a, f)); break;
    case 1: DO(glm_mat3_print((vec3 *)v, f), mat3s, glmc_mat3_print((vec3 *)v, f), glms_mat3_print(a, f)); break;
    case 3: DO(glm_vec4_print(v, f), vec4s, glmc_vec4_print(v, f), glms_vec4_print(a, f)); break;
    case 4: DO(glm_vec3_print(v, f), vec3s, glmc_vec3_print(v, f), glms_vec3_print(a, f)); break;
    case 9: DO(glm_versor_print(v, f), versors, glmc_versor_print(v, f), glms_versor_print(a, f)); break;
#ifndef API_c
    case 5: DO(glm_vec2_print(v, f), vec2s, , glms_vec2_print(a, f)); break;
    case 6: DO(glm_ivec4_print(iv, f), ivec4s, , glms_ivec4_print(a, f)); break;
    case 7: DO(glm_ivec3_print(iv, f), ivec3s, , glms_ivec3_print(a, f)); break;
    case 8: DO(glm_ivec2_print(iv, f), ivec2s, , glms_ivec2_print(a, f)); break;
#endif
#ifdef API_i
    case 2: glm_mat2_print((vec2 *)v, f); break;
    case 10: glm_aabb_print((vec3 *)v, tg, f); break;
    case 11: glm_arch_print(f); break;
    case 12: glm_arch_print_name(f); break;
#endif
#ifdef API_s
    case 10: { vec3s b[2]; memcpy(b, v, sizeof b); glms_aabb_print(b, tg, f); break; }
#endif
    default: done = 0; }
    fclose(f);
    if (done) {
      printf("{\"kind\":\"%s\",\"n\":%d,\"tag\":\"%s\",\"kept\":%s,\"vals\":[", K[k].kind, n, tg ? tg : "float", memcmp(u, v, sizeof v) ? "false" : "true");
      for (int i = 0; i < w; i++) { int b; memcpy(&b, &u[i], 4); printf("%s%d", i ? "," : "", b); }
      printf("],\"text\":\""); for (size_t i = 0; i < len; i++) { unsigned char ch = (unsigned char)text[i]; if (ch < 32 || ch > 126 || ch == '"' || ch == '\\') printf("\\u%04x", ch); else putchar(ch); }
      printf("\"}\n"); }
    free(text); }
  return 0;
}
