/* Input generation: value classes ("tags") for operation arguments.  Everything is derived from one
 * 64-bit seed.  None of this decides anything: the specification does. */
#ifndef VERIF_GEN_H
#define VERIF_GEN_H
#include <math.h>
#include <string.h>
#include <stdint.h>
#include <stdlib.h>
#include <float.h>
static uint64_t rs;
static uint64_t rnd(void) { uint64_t z = (rs += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static int ri(int n) { return (int)(rnd() % (uint64_t)n); }
static int rr(int a, int b) { return a + ri(b - a + 1); }
static double u01(void) { return (double)(rnd() >> 11) / 9007199254740992.0; }
static int pr(double p) { return u01() < p; }
static double ur(double a, double b) { return a + (b - a) * u01(); }
static double lu(double a, double b) { return exp(ur(log(a), log(b))); }
static double sgn(void) { return (rnd() & 1) ? 1 : -1; }
#define PI 3.14159265358979323846

enum { FL_INT4, FL_INT20, FL_DY, FL_U1, FL_U10, FL_LOG, FL_SPARSE, FL_HALF, FL_WIDE, FL_SPEC, FL_TINY, FL_NEARINT };
static float fl1(int fl) {
  switch (fl) {
  case FL_INT4: return (float)rr(-4, 4);
  case FL_INT20: return (float)rr(-20, 20);
  case FL_DY: return (float)rr(-64, 64) / 8.0f;
  case FL_U1: return (float)ur(-1, 1);
  case FL_U10: return (float)ur(-10, 10);
  case FL_LOG: return (float)(sgn() * lu(1e-3, 1e3));
  case FL_SPARSE: { int k = ri(8); return k < 5 ? 0.0f : k == 5 ? 1.0f : k == 6 ? -1.0f : (float)ur(-3, 3); }
  case FL_HALF: return (float)rr(-9, 9) / 2.0f;
  case FL_WIDE: return (float)(sgn() * lu(1e-12, 1e12));
  case FL_TINY: return (float)(sgn() * lu(1e-12, 1e-5));
  case FL_NEARINT: { float b = (float)rr(-300, 300); int k = ri(5); return k == 0 ? b : k == 1 ? nextafterf(b, 1e9f) : k == 2 ? nextafterf(b, -1e9f) : k == 3 ? b + (float)(sgn() * lu(1e-7, 1e-2)) : b + 0.5f; }
  default: {
    static const float sp[] = { 0.0f, -0.0f, 1, -1, 2, 0.5f, INFINITY, -INFINITY, FLT_MAX, -FLT_MAX, FLT_MIN, -FLT_MIN, 1e-40f, -1e-45f, FLT_EPSILON, -FLT_EPSILON, 3, 1e30f, -1e20f, 1e-30f, 16777216.0f, 8388607.5f, -0.99999994f, 1.0000001f };
    int k = ri(30);
    if (k < 24) return sp[k];
    if (k < 27) { uint32_t q = 0x7fc00000u; float f; memcpy(&f, &q, 4); return f; }
    return (float)ur(-2, 2); }
  }
}
static int pickfl(int ext) {
  static const int base[] = { FL_INT4, FL_INT20, FL_DY, FL_U1, FL_U10, FL_U10, FL_LOG, FL_SPARSE, FL_HALF };
  if (ext && pr(0.4)) { static const int x[] = { FL_WIDE, FL_SPEC, FL_SPEC, FL_TINY, FL_NEARINT }; return x[ri(5)]; }
  return base[ri(9)];
}
static void fill(float *o, int n, int fl) { for (int i = 0; i < n; i++) o[i] = pr(0.06) ? fl1(FL_INT4) : fl1(fl); }
static double vnorm(const double *v, int n) { double s = 0; for (int i = 0; i < n; i++) s += v[i] * v[i]; return sqrt(s); }
static double gauss(void) { double u = u01() + 1e-12, v = u01(); return sqrt(-2 * log(u)) * cos(2 * PI * v); }
static void unitd(double *o, int n) {
  if (pr(0.15)) { memset(o, 0, n * sizeof *o); o[ri(n)] = sgn(); return; }
  if (pr(0.1)) { for (int i = 0; i < n; i++) o[i] = rr(-1, 1); if (vnorm(o, n) == 0) o[ri(n)] = 1; double q = vnorm(o, n); for (int i = 0; i < n; i++) o[i] /= q; return; }
  double q; do { for (int i = 0; i < n; i++) o[i] = gauss(); q = vnorm(o, n); } while (q < 1e-3);
  for (int i = 0; i < n; i++) o[i] /= q;
  if (pr(0.1)) { int k = ri(n); o[k] *= lu(1e-7, 1e-1); q = vnorm(o, n); for (int i = 0; i < n; i++) o[i] /= q; }
}
static double gang(void) {
  int k = ri(12);
  if (k == 0) return 0;
  if (k <= 3) return rr(-12, 12) * PI / 6;
  if (k <= 5) return rr(-8, 8) * PI / 4;
  if (k == 6) return sgn() * lu(1e-6, 1e-1);
  if (k == 7) return ur(-50, 50);
  if (k == 8) return sgn() * (PI - lu(1e-6, 1e-1));
  return ur(-2 * PI, 2 * PI);
}
static void quatd(double *q) {   /* unit quaternion x y z w */
  int k = ri(10); double ax[3], a;
  if (k == 0) { q[0] = q[1] = q[2] = 0; q[3] = 1; return; }
  if (k == 1) { unitd(q, 4); return; }
  unitd(ax, 3); a = k < 5 ? gang() : k == 5 ? PI - lu(1e-7, 0.5) : k == 6 ? lu(1e-7, 0.3) : ur(0, 2 * PI);
  for (int i = 0; i < 3; i++) q[i] = ax[i] * sin(a / 2);
  q[3] = cos(a / 2);
}
static void q2m(const double *q, double R[3][3]) { /* R[col][row] */
  double x = q[0], y = q[1], z = q[2], w = q[3];
  R[0][0] = 1 - 2 * (y * y + z * z); R[0][1] = 2 * (x * y + w * z); R[0][2] = 2 * (x * z - w * y);
  R[1][0] = 2 * (x * y - w * z); R[1][1] = 1 - 2 * (x * x + z * z); R[1][2] = 2 * (y * z + w * x);
  R[2][0] = 2 * (x * z + w * y); R[2][1] = 2 * (y * z - w * x); R[2][2] = 1 - 2 * (x * x + y * y);
}
static void rotd(double R[3][3]) { double q[4]; quatd(q); q2m(q, R);
  if (pr(0.2)) for (int c = 0; c < 3; c++) for (int r = 0; r < 3; r++) if (fabs(R[c][r] - rint(R[c][r])) < 1e-12) R[c][r] = rint(R[c][r]); }
typedef double M4[4][4];           /* [col][row] */
static void id4(M4 m) { memset(m, 0, sizeof(M4)); for (int i = 0; i < 4; i++) m[i][i] = 1; }
static void mul4(M4 a, M4 b, M4 o) { M4 t; for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) { t[c][r] = 0; for (int k = 0; k < 4; k++) t[c][r] += a[k][r] * b[c][k]; } memcpy(o, t, sizeof(M4)); }
static int invn(const double *in, int n, double *out) { /* column major, Gauss-Jordan */
  double a[4][8]; for (int r = 0; r < n; r++) for (int c = 0; c < n; c++) { a[r][c] = in[c * n + r]; a[r][n + c] = r == c; }
  for (int c = 0; c < n; c++) { int p = c; for (int r = c; r < n; r++) if (fabs(a[r][c]) > fabs(a[p][c])) p = r;
    if (fabs(a[p][c]) < 1e-12) return 0;
    for (int k = 0; k < 2 * n; k++) { double t = a[p][k]; a[p][k] = a[c][k]; a[c][k] = t; }
    double d = a[c][c]; for (int k = 0; k < 2 * n; k++) a[c][k] /= d;
    for (int r = 0; r < n; r++) if (r != c) { double f = a[r][c]; for (int k = 0; k < 2 * n; k++) a[r][k] -= f * a[c][k]; } }
  for (int r = 0; r < n; r++) for (int c = 0; c < n; c++) out[c * n + r] = a[r][n + c];
  return 1;
}
static double detn(const double *in, int n) {
  double a[4][4], d = 1; for (int r = 0; r < n; r++) for (int c = 0; c < n; c++) a[r][c] = in[c * n + r];
  for (int c = 0; c < n; c++) { int p = c; for (int r = c; r < n; r++) if (fabs(a[r][c]) > fabs(a[p][c])) p = r;
    if (a[p][c] == 0) return 0;
    if (p != c) { d = -d; for (int k = 0; k < n; k++) { double t = a[p][k]; a[p][k] = a[c][k]; a[c][k] = t; } }
    d *= a[c][c]; for (int r = c + 1; r < n; r++) { double f = a[r][c] / a[c][c]; for (int k = c; k < n; k++) a[r][k] -= f * a[c][k]; } }
  return d;
}
static void put(float *o, const double *d, int n) { for (int i = 0; i < n; i++) o[i] = (float)d[i]; }
static void rigid4(M4 m) { double R[3][3]; id4(m); rotd(R); for (int c = 0; c < 3; c++) for (int r = 0; r < 3; r++) m[c][r] = R[c][r]; float t[3]; fill(t, 3, pickfl(0)); for (int r = 0; r < 3; r++) m[3][r] = t[r]; }
static void persp4(M4 m, int lh, int zo, double l, double r, double b, double t, double n, double f) {
  memset(m, 0, sizeof(M4)); double s = lh ? 1 : -1;
  m[0][0] = 2 * n / (r - l); m[1][1] = 2 * n / (t - b); m[2][0] = -s * (r + l) / (r - l); m[2][1] = -s * (t + b) / (t - b); m[2][3] = s;
  if (zo) { m[2][2] = s * f / (f - n); m[3][2] = -f * n / (f - n); } else { m[2][2] = s * (f + n) / (f - n); m[3][2] = -2 * f * n / (f - n); }
}
static void rndpersp(M4 m, int lh, int zo, int sym) {
  double n = pr(0.3) ? 1 : lu(0.02, 5), f = n * (1 + lu(0.1, 500)), h, w;
  if (pr(0.3)) n = 0.1, f = pr(0.5) ? 100 : 10;
  double fov = ur(0.2, 2.8), asp = pr(0.3) ? 1 : lu(0.3, 3); h = n * tan(fov / 2); w = h * asp;
  if (sym) persp4(m, lh, zo, -w, w, -h, h, n, f);
  else { double cx = ur(-1.5, 1.5) * w, cy = ur(-1.5, 1.5) * h; persp4(m, lh, zo, cx - w, cx + w, cy - h, cy + h, n, f); }
}
static void rndortho(M4 m, int lh, int zo) {
  double l = ur(-10, 5), r = l + lu(0.5, 20), b = ur(-10, 5), t = b + lu(0.5, 20), n = ur(-5, 5), f = n + lu(0.5, 100);
  id4(m); m[0][0] = 2 / (r - l); m[1][1] = 2 / (t - b); m[3][0] = -(r + l) / (r - l); m[3][1] = -(t + b) / (t - b); double s = lh ? 1 : -1;
  if (zo) { m[2][2] = s / (f - n); m[3][2] = -n / (f - n); } else { m[2][2] = 2 * s / (f - n); m[3][2] = -(f + n) / (f - n); }
}
static void mvp4(M4 m, int cc) {
  int k = ri(10); M4 v;
  if (k < 6) rndpersp(m, cc >> 1 & 1, cc & 1, pr(0.6)); else rndortho(m, cc >> 1 & 1, cc & 1);
  if (pr(0.7)) { rigid4(v); mul4(m, v, m); }
}
static void box(float *o, int n) {
  float a[3], b[3]; int fl = pr(0.55) ? FL_INT4 : pickfl(0); fill(a, n, fl); fill(b, n, fl);
  for (int i = 0; i < n; i++) { o[i] = fminf(a[i], b[i]); o[n + i] = fmaxf(a[i], b[i]); }
}
static float gt01(void) { int k = ri(10); if (k == 0) return 0; if (k == 1) return 1; if (k == 2) return 0.5f; if (k == 3) return (float)rr(0, 16) / 16; if (k == 4) return (float)lu(1e-6, 0.1); if (k == 5) return (float)(1 - lu(1e-6, 0.1)); if (k == 6) return (float)(0.5 + sgn() * lu(1e-6, 0.1)); return (float)u01(); }
static float gt(void) { return pr(0.6) ? gt01() : pr(0.5) ? (float)ur(-2, 3) : (float)rr(-2, 3); }
#endif
