/* Drives the library builds and records what they do as traces of the abstract machine of
 * spec/Machine.tla: a flat word memory, one event per call.  Usage:
 *   driver seed=N prop=Cxx traces=N len=N cc=N alias=0|1 out=FILE [only=op,op] lib.so:apis ...  */
#define _GNU_SOURCE
#include <stdio.h>
#include <dlfcn.h>
#include <pthread.h>
#include <signal.h>
#include <setjmp.h>
#include <sys/time.h>
#include "call.h"
#include "gen.h"
enum {
#include "gen/tags.inc"
  NTAGS
};
typedef struct { char kind; int words, align, tag; char role; int isint; const char *name; } Param;
typedef struct { const char *name, *fam; int n, m; const char *f; char ret; const char *flags; unsigned props; int np; Param p[10]; } Op;
static const Op OPS[] = {
#define OP(nm, fam, n, m, f, r, fl, pm, np, ...) { nm, fam, n, m, f, r, fl, pm, np, __VA_ARGS__ },
#include "gen/ops.inc"
#undef OP
};
enum { NOPS = sizeof OPS / sizeof *OPS, MEM = 336, LO = 16, HI = 320, PAD = 64 };
typedef struct { char name[64]; WEntry *fn[1]; void (*f[NOPS])(Call *); uint32_t *arena; int off; } Variant;
static Variant VS[31]; static int NV;
static const char *noalias[] = {
#include "gen/noalias.inc"
  0 };

static uint32_t mem[MEM], pre[MEM];
static FILE *out; static int *buf; static size_t nb, cb;
static void w(int x) { if (nb == cb) { cb = cb ? cb * 2 : 1 << 20; buf = realloc(buf, cb * 4); } buf[nb++] = x; }
static int fb(float f) { int i; if (isnan(f)) return 0x7fc00000; memcpy(&i, &f, 4); return i; }
static float bf(uint32_t i) { float f; memcpy(&f, &i, 4); return f; }

static int has(const char *s, const char *t) { return strstr(s, t) != NULL; }
static int isop(const Op *o, const char *n) { return !strcmp(o->name, n); }

/* ---- integer arguments: ranges that keep every intermediate representable ---- */
static int gint(const Op *o, int tag, int k) {
  int mulish = has(o->f, "mul") || has(o->f, "scale"), sq = has(o->f, "dot") || has(o->f, "norm") || has(o->f, "dist") || has(o->f, "cross");
  int R = sq ? 10000 : mulish ? 20000 : (has(o->f, "add") || has(o->f, "sub")) ? 500000000 : 2147483647;
  int z = ri(6), v;
  if (z < 2) v = rr(-4, 4); else if (z == 2) v = rr(-100, 100); else if (z == 3) v = (int)(sgn() * lu(1, R)); else if (z == 4) v = (rnd() & 1 ? R : -R) + 0; else v = (int)ur(-(double)R, R);
  if (z == 4 && pr(0.5)) v = v > 0 ? v - ri(3) : v + ri(3);
  if ((tag == T_IVNZ || tag == T_INZ) && v == 0) v = rr(1, 9);
  (void)k; return v;
}

/* integers of every magnitude, as long as no sum or product on the way can leave the range */
static void wideints(const Op *o, int it[][64], int *is) {
  int P0 = o->p[0].kind == 'P', sq = has(o->f, "dot") || has(o->f, "norm") || has(o->f, "dist") || has(o->f, "cross"), mu = has(o->f, "mul") || has(o->f, "scale"), ad = has(o->f, "add") || has(o->f, "sub");
  if (!P0 || !(sq || mu || ad) || o->np < 1) return;
  int a[4], b[4], d[4], two = o->np > 1 && (o->p[1].kind == 'I' || o->p[1].role == 'i'), vec = two && o->p[1].kind == 'P', acc = o->np > 2 && o->p[2].role == 'u';
  for (int tries = 0; tries < 30; tries++) {
    double cap = sq ? 46340 : 2147483647; int ok = 1; int64_t S = 0;
#define WI(x) ((x) = pr(0.35) ? rr(-4, 4) : (int)(sgn() * lu(1, cap)))
    for (int k = 0; k < o->n; k++) { WI(a[k]); WI(b[k]); if (two && !vec && k) b[k] = b[0]; WI(d[k]); if (!acc) d[k] = 0; if (!two) b[k] = 0; }
    for (int k = 0; k < o->n && ok; k++) { int64_t A = llabs((long long)a[k]), B = llabs((long long)b[k]), D = llabs((long long)d[k]), X = B;
      if (has(o->f, "cross")) X = llabs((long long)b[(k + 1) % o->n]);
      if (has(o->f, "dist")) S += (A + B) * (A + B); else if (has(o->f, "norm")) S += A * A; else if (sq) S += A * X; else S = mu ? D + A * B : D + A + B;
      if (S > 2147483647) ok = 0; }
    if (!ok) continue;
    for (int k = 0; k < o->n; k++) { it[0][k] = a[k]; if (vec) it[1][k] = b[k]; if (acc) it[2][k] = d[k]; }
    if (two && !vec) is[1] = b[0];
    return; } }

/* ---- float arguments ---- */
static int ccur;
static void genfloat(const Op *o, const Param *p, float *d, int fl, int ext) {
  int n = p->words; double t[32]; M4 m; double R[3][3];
  switch (p->tag) {
  case T_VZ: if (pr(0.25)) { if (pr(0.4)) memset(d, 0, 4 * n); else { unitd(t, n); double s = lu(1e-10, 1e-2); for (int i = 0; i < n; i++) d[i] = (float)(t[i] * s); if (isop(o, "plane_normalize") && pr(0.5)) d[3] = (float)ur(-2, 2); } } else fill(d, n, fl); break;
  case T_UNIT: unitd(t, n); put(d, t, n); break;
  case T_UNITM: if (pr(0.7)) { unitd(t, n); put(d, t, n); } else fill(d, n, fl); break;
  case T_UNITM2: if (pr(0.85)) { unitd(t, n); put(d, t, n); } else fill(d, n, fl); break;
  case T_AXIS: case T_AXS: if (n == 0) n = 1; if (n > 1 && pr(0.02)) { memset(d, 0, n * sizeof *d); if (pr(0.4)) d[ri(n)] = (float)lu(1e-12, 2e-5); break; } if (p->tag == T_AXS) { d[0] = fl1(fl); break; }
    unitd(t, n); if (pr(0.5)) { double s = lu(1e-2, 1e2); for (int i = 0; i < n; i++) t[i] *= s; } put(d, t, n); if (pr(0.1)) fill(d, n, FL_INT4); break;
  case T_Q: if (pr(0.5)) { quatd(t); if (pr(0.15)) { double s = 1 + sgn() * lu(1e-5, 3e-2); for (int i = 0; i < 4; i++) t[i] *= s; } put(d, t, 4); } else if (pr(0.08)) memset(d, 0, 16); else if (pr(0.1)) { unitd(t, 4); double s = lu(1e-8, 1e-2); for (int i = 0; i < 4; i++) d[i] = (float)(t[i] * s); } else fill(d, 4, fl); break;
  case T_UQ: quatd(t); put(d, t, 4); if (pr(0.3)) for (int i = 0; i < 4; i++) d[i] = -d[i]; break;
  case T_INV2: case T_INV3: case T_INV4: {
    int k = p->tag == T_INV2 ? 2 : p->tag == T_INV3 ? 3 : 4; int c = ri(8), tries = 0;
    for (;;) {
      if (c == 0 && k == 4) { rigid4(m); for (int i = 0; i < 3; i++) { double s = lu(0.2, 5); for (int j = 0; j < 3; j++) m[i][j] *= s; } memcpy(t, m, sizeof m); }
      else if (c == 1 && k == 4) { rndpersp(m, ri(2), ri(2), ri(2)); memcpy(t, m, sizeof m); }
      else if (c == 2) { memset(t, 0, sizeof t); int pm[4] = { 0, 1, 2, 3 }; for (int i = k - 1; i > 0; i--) { int j = ri(i + 1), x = pm[i]; pm[i] = pm[j]; pm[j] = x; } for (int i = 0; i < k; i++) t[i * k + pm[i]] = sgn() * (pr(0.5) ? 1 : lu(0.2, 5)); }
      else if (c == 3) { memset(t, 0, sizeof t); for (int i = 0; i < k; i++) for (int j = 0; j <= i; j++) t[pr(0.5) ? i * k + j : i * k + j] = i == j ? sgn() * lu(0.3, 3) : ur(-2, 2); }
      else { float q[16]; fill(q, k * k, tries ? FL_U10 : pickfl(0)); for (int i = 0; i < k * k; i++) t[i] = q[i]; }
      double s = 0; for (int i = 0; i < k * k; i++) s = fmax(s, fabs(t[i]));
      double dd = fabs(detn(t, k)), lim = c == 7 ? 1e-5 : 1e-3;
      if (c == 1 ? dd > 1e-9 : dd > lim * pow(s, k)) break;
      if (++tries > 40) { c = 2; }
    }
    if (c > 3 && pr(0.15)) { double g = pr(0.8) ? lu(1e-2, 1e2) : lu(1e-4, 1e4); for (int i = 0; i < k * k; i++) t[i] *= g; }
    put(d, t, k * k); break; }
  case T_AFF: aff: fill(d, 16, fl); if (pr(0.3)) { rigid4(m); put(d, (double *)m, 16); } d[3] = d[7] = d[11] = 0; d[15] = 1; break;
  case T_AFFM: if (pr(0.6)) goto aff; fill(d, 16, fl); break;
  case T_ROTM: rigid4(m); for (int i = 0; i < 3; i++) m[3][i] = 0; put(d, (double *)m, 16); if (pr(0.3)) { for (int c = 0; c < 3; c++) for (int r = 0; r < 3; r++) d[4 * c + r] = fl1(fl); } break;
  case T_RIGID: rigid4(m); put(d, (double *)m, 16); break;
  case T_VIEW: rigid4(m); put(d, (double *)m, 16); break;
  case T_TRS: case T_TRS3: { rigid4(m); double s = lu(0.2, 5), g = pr(0.08) ? lu(1e-3, 1e3) : 1; int uni = pr(0.4), neg = pr(0.3);
      for (int i = 0; i < 3; i++) { double q = g * (uni ? s : lu(0.2, 5)); if (neg && i == 0) q = -q; for (int j = 0; j < 3; j++) m[i][j] *= q; }
      if (p->tag == T_TRS) { put(d, (double *)m, 16); if (isop(o, "vec3_rotate_m4") && pr(0.3)) { d[3] = (float)ur(-2, 2); d[7] = (float)ur(-2, 2); d[12] = (float)ur(-2, 2); } }
      else for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) d[3 * i + j] = (float)m[i][j]; break; }
  case T_ROTQ3: rotd(R); for (int i = 0; i < 9; i++) d[i] = (float)((double *)R)[i]; break;
  case T_ROTQ4: rigid4(m); if (pr(0.7)) m[3][0] = m[3][1] = m[3][2] = 0; put(d, (double *)m, 16); break;
  case T_ROTE: { id4(m); double a[3]; for (int i = 0; i < 3; i++) a[i] = gang(); if (pr(0.35)) a[1] = sgn() * PI / 2 + (pr(0.6) ? 0 : sgn() * lu(1e-5, 1e-1));
      M4 X, Y, Z; id4(X); id4(Y); id4(Z); X[1][1] = X[2][2] = cos(a[0]); X[1][2] = sin(a[0]); X[2][1] = -sin(a[0]); Y[0][0] = Y[2][2] = cos(a[1]); Y[0][2] = -sin(a[1]); Y[2][0] = sin(a[1]); Z[0][0] = Z[1][1] = cos(a[2]); Z[0][1] = sin(a[2]); Z[1][0] = -sin(a[2]);
      mul4(X, Y, m); mul4(m, Z, m); put(d, (double *)m, 16);
      if (pr(0.3)) for (int i = 0; i < 16; i++) if (fabsf(d[i] - rintf(d[i])) < 1e-6f) d[i] = rintf(d[i]); break; }
  case T_ANG: d[0] = (float)gang(); break;
  case T_ANGV: for (int i = 0; i < n; i++) d[i] = (float)gang(); break;
  case T_T: d[0] = gt(); break;
  case T_T01: d[0] = !strcmp(o->fam, "ease") && pr(0.2) ? (float)ur(-0.5, 1.5) : gt01(); break;
  case T_ETA: d[0] = pr(0.3) ? 1 : (float)lu(0.3, 3); break;
  case T_FOVY: d[0] = (float)(pr(0.3) ? rr(1, 11) * PI / 12 : ur(0.1, 3.0)); break;
  case T_ASPECT: d[0] = pr(0.2) ? 1 : pr(0.2) ? (float)rr(1, 8) / 4 : (float)lu(0.2, 5); if (pr(0.07)) d[0] = -d[0]; break;
  case T_NEAR: d[0] = pr(0.3) ? 1 : pr(0.3) ? 0.1f : (float)lu(0.01, 20); if (has(o->name, "ortho") && pr(0.5)) d[0] = (float)ur(-20, 20); break;
  case T_FAR: d[0] = pr(0.3) ? (float)rr(2, 1000) : (float)lu(0.2, 2000); break;        /* relative: completed in fixup */
  case T_LEFT: case T_BOTTOM: d[0] = pr(0.4) ? (float)rr(-10, 2) : (float)ur(-12, 3); break;
  case T_RIGHT: case T_TOP: d[0] = pr(0.4) ? (float)rr(1, 15) : (float)lu(0.3, 20); break;
  case T_PAD: d[0] = pr(0.2) ? 0 : (float)ur(-0.2, 4); break;
  case T_DFAR: d[0] = pr(0.3) ? (float)rr(0, 50) : (float)ur(-1, 100); break;
  case T_POS: d[0] = (float)(pr(0.3) ? rr(1, 20) : lu(0.1, 50)); break;
  case T_VP: d[0] = (float)rr(-50, 300); d[1] = (float)rr(-50, 300); d[2] = (float)rr(1, 2000); d[3] = (float)rr(1, 2000); if (pr(0.3)) for (int i = 0; i < 4; i++) d[i] += 0.25f * (float)ri(4); break;
  case T_WIN: for (int i = 0; i < 3; i++) d[i] = gt01(); break;                                    /* relative to vp: fixup */
  case T_SIZE2: d[0] = (float)ur(-2, 40); d[1] = (float)ur(-2, 40); if (pr(0.1)) d[ri(2)] = 0; if (pr(0.1)) d[ri(2)] = (float)rr(-3, -1); break;
  case T_MVP: mvp4(m, o->n >= 0 || o->m >= 0 || !strcmp(o->fam, "proj") ? (o->m >= 0 ? o->m : ccur & 1) | (ri(2) << 1) : 0); put(d, (double *)m, 16); if (isop(o, "frustum_planes") && pr(0.06)) { int r = ri(3); for (int c = 0; c < 4; c++) d[4 * c + r] = sgn() > 0 ? d[4 * c + 3] : d[4 * c + r]; if (pr(0.5)) for (int c = 0; c < 3; c++) d[4 * c + r] = -d[4 * c + 3]; } break;
  case T_MVPI: { mvp4(m, (o->m >= 0 ? o->m : ccur & 1) | (ri(2) << 1)); double q[16]; if (!strcmp(o->fam, "frus")) mvp4(m, 0); invn((double *)m, 4, q); put(d, q, 16); break; }
  case T_PROJ: { int h = o->n >= 0 ? o->n : ccur >> 1 & 1, z = o->m >= 0 ? o->m : ccur & 1; int sym = has(o->f, "fovy") || has(o->f, "aspect") || has(o->f, "sizes") || has(o->f, "resize") ? 1 : pr(0.3);
      rndpersp(m, h, z, sym); if (pr(0.12)) { m[2][2] = (z ? (h ? 1 : -1) : 0) - m[2][2]; m[3][2] = -m[3][2]; }   /* near and far exchanged */
      if (pr(0.08)) { int k = ri(2); m[k][k] = -m[k][k]; }       /* mirrored image */
      put(d, (double *)m, 16); if (has(o->f, "resize") && pr(0.1)) d[0] = 0; break; }
  case T_BOX: box(d, n / 2); break;
  case T_BOXI: if (pr(0.5)) box(d, n / 2); else fill(d, n, pr(0.5) ? FL_INT4 : fl);      /* also invalid and half invalid boxes */
      if (pr(0.12)) { for (int i = 0; i < n / 2; i++) d[i] = FLT_MAX, d[n / 2 + i] = -FLT_MAX; if (pr(0.3)) d[ri(n)] = (float)rr(-3, 3); }
      else if (pr(0.1)) { int i = ri(n); d[i] = (pr(0.8) ? 1 : -1) * (i < n / 2 ? FLT_MAX : -FLT_MAX); } break;
  case T_SPH: case T_SPHR: fill(d, n, pr(0.5) ? FL_INT4 : fl); d[n - 1] = pr(0.1) ? 0 : pr(0.5) ? (float)rr(0, 5) : (float)lu(0.05, 20); break;
  case T_VL: fill(d, n, pr(0.5) ? FL_INT4 : fl); break;
  case T_CORN: { M4 q; mvp4(m, 0); if (invn((double *)m, 4, (double *)q)) { int k = 0; static const int s[8][3] = { { -1, -1, -1 }, { -1, 1, -1 }, { 1, 1, -1 }, { 1, -1, -1 }, { -1, -1, 1 }, { -1, 1, 1 }, { 1, 1, 1 }, { 1, -1, 1 } };
      for (k = 0; k < 8; k++) { double v[4] = { 0 }; for (int r = 0; r < 4; r++) v[r] = q[0][r] * s[k][0] + q[1][r] * s[k][1] + q[2][r] * s[k][2] + q[3][r]; for (int r = 0; r < 4; r++) d[4 * k + r] = (float)(v[r] / v[3]); } } 
      if (pr(0.25)) { for (int i = 0; i < 32; i++) d[i] = i % 4 == 3 ? 1 : fl1(fl); } break; }
  case T_PLANES: { mvp4(m, 0); for (int k = 0; k < 6; k++) { double v[4]; for (int c = 0; c < 4; c++) v[c] = m[c][3] + (k & 1 ? -1 : 1) * m[c][k / 2]; double q = vnorm(v, 3); for (int c = 0; c < 4; c++) d[4 * k + c] = (float)(v[c] / q); }
      if (pr(0.5)) for (int k = 0; k < 6; k++) { for (int c = 0; c < 4; c++) d[4 * k + c] = (float)rr(-2, 2); d[4 * k + 3] += 4; if (pr(0.6)) { int c = k / 2; for (int j = 0; j < 3; j++) d[4 * k + j] = 0; d[4 * k + c] = k & 1 ? -1 : 1; d[4 * k + 3] = (float)rr(-1, 4); } } break; }
  case T_NOISE: { int k = ri(8); for (int i = 0; i < n; i++) d[i] = k == 0 ? (float)rr(-8, 8) : k == 1 ? (float)rr(-600, 600) : k == 2 ? fl1(FL_NEARINT) : k == 3 ? (float)ur(-300, 300) : k == 4 ? (float)(289 * rr(-2, 2)) + (float)ur(-1, 1) : k == 5 ? (float)rr(-40, 40) / 4 : (float)ur(-10, 10); if (pr(0.2)) d[ri(n)] = (float)rr(-20, 20); break; }
  default: fill(d, n ? n : 1, fl);
      if (p->tag == T_V && n > 1 && n < 5 && pr(0.06) && (!strcmp(o->fam, "vgeom") || !strcmp(o->fam, "quat") || !strcmp(o->fam, "view") || !strcmp(o->fam, "aff"))) { float s = (float)(pr(0.6) ? lu(1e-6, 1e-1) : lu(10, 1e6)); for (int i = 0; i < n; i++) d[i] *= s; }
      break;
  }
  (void)ext;
}
static int genint(const Op *o, const Param *p, const Param *all, int i) {
  switch (p->tag) {
  case T_CNT: if (!strcmp(o->f, "mulN")) return pr(0.5) ? rr(2, 4) : rr(2, 7); else { int el = !strcmp(o->fam, "quat") ? 4 : !strcmp(o->fam, "mat") ? o->n * o->m : o->n, cap = all[0].words / el; return pr(0.5) ? rr(0, 4) : rr(0, cap); }
  case T_IDX2: return ri(2);
  case T_IDX3: return ri(3);
  case T_IDX4: return ri(4);
  case T_MASK2: return ri(2) | ri(2) << 2 | (pr(0.2) ? ri(16) << 4 : 0);
  case T_MASK3: return ri(3) | ri(3) << 2 | ri(3) << 4 | (pr(0.2) ? ri(4) << 6 : 0);
  case T_MASK4: return ri(256);
  case T_SEQ: { static const int perm[6] = { 0 << 0 | 1 << 2 | 2 << 4, 0 << 0 | 2 << 2 | 1 << 4, 1 << 0 | 0 << 2 | 2 << 4, 1 << 0 | 2 << 2 | 0 << 4, 2 << 0 | 0 << 2 | 1 << 4, 2 << 0 | 1 << 2 | 0 << 4 }; return perm[ri(6)]; }
  default: return gint(o, p->tag, i);
  }
  (void)all;
}
/* relations between arguments */
static void fixup(const Op *o, float **fp, float *fs) {
  int iv[16]; memset(iv, -1, sizeof iv);
#define SC(tagname, var) int var = -1; for (int i = 0; i < o->np; i++) if (o->p[i].tag == T_##tagname) var = i;
  SC(NEAR, nr) SC(FAR, fr) SC(LEFT, lf) SC(RIGHT, rt) SC(BOTTOM, bt) SC(TOP, tp) SC(WIN, wn) SC(VP, vp)
  if (nr >= 0 && fr >= 0) { if (has(o->name, "ortho")) fs[fr] = fs[nr] + fabsf(fs[fr]); else fs[fr] = fs[nr] * (1.1f + fs[fr]);
    if (pr(0.12)) { float t = fs[nr]; fs[nr] = fs[fr]; fs[fr] = t; } }      /* reversed depth */
  if (lf >= 0 && rt >= 0) { if (pr(0.3)) { fs[lf] = -fs[rt]; } else fs[rt] = fs[lf] + fs[rt]; if (pr(0.05)) { float t = fs[lf]; fs[lf] = fs[rt]; fs[rt] = t; } }
  if (bt >= 0 && tp >= 0) { if (pr(0.3)) { fs[bt] = -fs[tp]; } else fs[tp] = fs[bt] + fs[tp]; if (pr(0.1)) { float t = fs[bt]; fs[bt] = fs[tp]; fs[tp] = t; } }   /* flipped image */
  if (wn >= 0 && vp >= 0) { fp[wn][0] = fp[vp][0] + fp[wn][0] * fp[vp][2]; fp[wn][1] = fp[vp][1] + fp[wn][1] * fp[vp][3]; }
  if (!strcmp(o->fam, "qint")) {           /* nearly equal / opposite operands */
    float *a = fp[0], *b = fp[1]; int k = ri(6);
    if (k < 4) { double s = k < 2 ? 1 : -1, dl = pr(0.2) ? 0 : lu(1e-8, 0.5), q = 0, v[4]; for (int i = 0; i < 4; i++) { v[i] = s * a[i] + dl * gauss() * 0.5; q += v[i] * v[i]; } q = sqrt(q); for (int i = 0; i < 4; i++) b[i] = (float)(v[i] / q); }
  }
  if (isop(o, "quat_from_vecs") || isop(o, "vec3_angle")) {
    int k = ri(6); if (k < 3) { double s = k == 0 ? 1 : -1, dl = pr(0.3) ? 0 : lu(1e-7, 0.3), q = 0, v[3]; for (int i = 0; i < 3; i++) { v[i] = s * fp[0][i] + dl * gauss(); q += v[i] * v[i]; } q = sqrt(q); if (q > 1e-6 && isop(o, "quat_from_vecs")) for (int i = 0; i < 3; i++) v[i] /= q; for (int i = 0; i < 3; i++) fp[1][i] = (float)v[i]; } }
  if (isop(o, "ray_sphere")) {
    float *og = fp[0], *d = fp[1], *s = fp[2]; int k = ri(6);
    if (k < 3) { for (int i = 0; i < 3; i++) og[i] = s[i] - d[i] * (float)ur(-1, 4) * (s[3] + 1) + (float)(gauss() * 0.4) * s[3]; }
    if (k == 3) for (int i = 0; i < 3; i++) og[i] = s[i] + (float)ur(-0.6, 0.6) * s[3];
  }
  if (isop(o, "ray_triangle")) {
    float *og = fp[0], *d = fp[1]; int k = ri(5);
    if (k < 4) { double a = ur(-0.15, 1.1), b = ur(-0.15, 1.1 - a); if (k == 3) { a = rr(0, 4) / 4.0; b = rr(0, 4) / 4.0; } 
      for (int i = 0; i < 3; i++) d[i] = (float)((fp[2][i] + a * (fp[3][i] - fp[2][i]) + b * (fp[4][i] - fp[2][i]) - og[i]) * (k == 0 ? -1 : 1));
      if (k == 2) { double q = sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]); if (q > 1e-3) for (int i = 0; i < 3; i++) d[i] = (float)(d[i] / q); } } }
  if (!strcmp(o->fam, "ray") && has(o->name, "sphere_") && pr(0.25) && o->np > 1 && fp[1] && strcmp(o->name, "sphere_transform")) { /* touching / nested */
    float *s = fp[0], *c = fp[1]; for (int i = 0; i < 3; i++) c[i] = s[i]; c[ri(3)] += s[3] + (o->p[1].words == 4 && isop(o, "sphere_sphere") ? c[3] : 0); }
  if (isop(o, "ray_triangle") && pr(0.15)) { float q = ldexpf(1, rr(-9, 6)); for (int i = 0; i < 5; i++) if (i != 1) for (int j = 0; j < 3; j++) fp[i][j] *= q; }
  (void)iv;
}

/* arguments of different size at the same address: vectors, and the operands of products */
static int mixed_alias(const Op *o, int i, int j) {
  const Param *a = &o->p[i], *b = &o->p[j];
  if (a->role == 'i' && b->role == 'i') return 0;
  if (a->words < 2 || b->words < 2) return 0;
  return (has(o->fam, "mat") && !strncmp(o->f, "mul", 3)) || !strcmp(o->name, "vec3") || !strcmp(o->name, "vec4");
}
static int allowed_alias(const Op *o, int i, int j) {
  char k[96]; snprintf(k, sizeof k, "%s:%d:%d", o->name, i, j);
  for (int q = 0; noalias[q]; q++) if (!strcmp(noalias[q], k)) return 0;
  return 1;
}
/* a call that crashes or does not return is recorded as a write to the guard word 0 */
static __thread sigjmp_buf jb; static __thread volatile int injb; static volatile long ticks; static long lastcall, ncalls;
static void onsig(int s) {
  if (s == SIGALRM) { if (!injb || lastcall != ncalls) { lastcall = ncalls; ticks = 0; return; } if (++ticks < 4) return; ticks = 0; }
  else if (!injb) _exit(4);
  siglongjmp(jb, s); }
static void guards(void) {
  int sg[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM }; struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  stack_t ss; static char st[1 << 16]; memset(&ss, 0, sizeof ss); ss.ss_sp = st; ss.ss_size = sizeof st; sigaltstack(&ss, 0);
  for (int i = 0; i < 6; i++) sigaction(sg[i], &sa, 0);
  struct itimerval it = { { 0, 500000 }, { 0, 500000 } }; setitimer(ITIMER_REAL, &it, 0); }
static struct { int addr, words; } recent[8]; static int nrec;
static int aliasmode, pure;
#include "pure.h"

static void event(int oi, int aliasi, int aliasj, int aliask) {
  const Op *o = &OPS[oi]; int addr[10]; int ext = has(o->flags, "x"), chained[10] = { 0 };
  int taken[10][2], nt = 0; int args[10] = { 0 };
  memcpy(pre, mem, sizeof mem);
  /* placement */
  for (int i = 0; i < o->np; i++) {
    const Param *p = &o->p[i]; addr[i] = -1; if (p->kind != 'P') continue;
    if (aliasi >= 0 && (i == aliasj || i == aliask)) { addr[i] = addr[aliasi]; continue; }
    if (aliasi < 0 && p->role == 'i' && pr(0.08)) for (int j = 0; j < i; j++) if (o->p[j].kind == 'P' && o->p[j].role == 'i' && o->p[j].words == p->words && o->p[j].tag == p->tag && o->p[j].align >= p->align && o->p[j].isint == p->isint) { addr[i] = addr[j]; break; }
    if (addr[i] >= 0) continue;
    int al = p->align; if (aliasi == i && aliasj >= 0 && o->p[aliasj].align > al) al = o->p[aliasj].align;
    if (aliasi == i && aliask >= 0 && o->p[aliask].align > al) al = o->p[aliask].align;
    int wd = p->words; if (aliasi == i && aliasj >= 0 && o->p[aliasj].words > wd) wd = o->p[aliasj].words;
    if (aliasi == i && aliask >= 0 && o->p[aliask].words > wd) wd = o->p[aliask].words;
    if (p->tag == T_V && p->role != 'o' && nrec && pr(0.25)) { int q = ri(nrec); if (recent[q].words == p->words && recent[q].addr % al == 0) { int okk = 1; for (int j = 0; j < nt; j++) if (recent[q].addr < taken[j][1] + 1 && taken[j][0] < recent[q].addr + p->words + 1) okk = 0;
        for (int j = 0; j < p->words && okk; j++) { float v = bf(mem[recent[q].addr + j]); if (!(v == 0 || (fabsf(v) > 1e-4f && fabsf(v) < 1e4f))) okk = 0; }
        if (okk) { addr[i] = recent[q].addr; chained[i] = 1; } } }
    for (int tries = 0; addr[i] < 0; tries++) { int a; if (tries < 300) { a = LO + ri(HI - LO - wd); a -= a % al; } else { a = LO; while (1) { int okk = 1; for (int j = 0; j < nt; j++) if (a < taken[j][1] + 1 && taken[j][0] < a + wd + 1) okk = 0; if (okk || a > HI) break; a += al; } }
      int okk = a >= LO && a + wd <= HI; for (int j = 0; j < nt && okk; j++) if (a < taken[j][1] + 1 && taken[j][0] < a + wd + 1) okk = 0;
      if (okk) addr[i] = a; else if (tries > 300) { fprintf(stderr, "no room for %s\n", o->name); exit(3); } }
    taken[nt][0] = addr[i]; taken[nt][1] = addr[i] + wd; nt++;
  }
  /* values */
  float tmp[10][64]; float *fp[10] = { 0 }; float fs[10] = { 0 }; int is[10] = { 0 }; int fl = pickfl(ext);
  int itmp[10][64];
  for (int i = 0; i < o->np; i++) {
    const Param *p = &o->p[i]; if (pr(0.15)) fl = pickfl(ext);
    if (p->kind == 'F') { genfloat(o, p, &fs[i], fl, ext); }
    else if (p->kind == 'I') { is[i] = genint(o, p, o->p, i); if (aliasi >= 0 && !strcmp(o->f, "mulN") && is[i] > 4) is[i] = 4; }
    else if (p->isint) { for (int k = 0; k < p->words; k++) itmp[i][k] = gint(o, p->tag, k); if (p->tag == T_ORD) { static const int perm[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } }; memcpy(itmp[i], perm[ri(6)], 12); } if (p->role == 'o') for (int k = 0; k < p->words; k++) itmp[i][k] = (int)rnd(); }
    else { fp[i] = tmp[i]; if (p->role == 'o') { if (pr(0.9)) fill(tmp[i], p->words, FL_U10); else memset(tmp[i], 0, 4 * p->words); }
      else if (chained[i]) memcpy(tmp[i], &mem[addr[i]], 4 * p->words); else genfloat(o, p, tmp[i], fl, ext); }
  }
  fixup(o, fp, fs);
  if (!strcmp(o->fam, "ivec") && aliasi < 0 && pr(0.25)) { int sh = 0; for (int i = 0; i < o->np; i++) for (int j = 0; j < i; j++) if (addr[i] >= 0 && addr[i] == addr[j]) sh = 1; if (!sh) wideints(o, itmp, is); }
  /* the same problem at another scale */
  if (pr(0.04)) { float q = ldexpf(1, pr(0.6) ? rr(-7, 7) : rr(-22, 22));
    for (int i = 0; i < o->np; i++) { int t = o->p[i].tag; if (o->p[i].role == 'o' || o->p[i].isint || chained[i] || !(t == T_V || t == T_VL || t == T_S || t == T_BOX || t == T_BOXI || t == T_SPH || t == T_SPHR || t == T_CORN)) continue;
      if (o->p[i].kind == 'F') fs[i] *= q; else if (o->p[i].kind == 'P') for (int k = 0; k < o->p[i].words; k++) if (t != T_CORN || k % 4 != 3) tmp[i][k] *= q; } }
  /* relate two generic elements */
  if (pr(0.4)) { float *el[400]; int ne = 0;
    for (int i = 0; i < o->np; i++) { const Param *p = &o->p[i]; int g = p->tag == T_V || p->tag == T_S || p->tag == T_VL || p->tag == T_BOXI; if (!g || p->role == 'o' || p->isint) continue; if (p->kind == 'F') el[ne++] = &fs[i]; else if (p->kind == 'P') for (int k = 0; k < p->words; k++) el[ne++] = &tmp[i][k]; }
    if (ne > 1) for (int q = ri(3); q >= 0; q--) { float *a = el[ri(ne)], *b = el[ri(ne)]; switch (ri(6)) { case 0: case 1: *a = *b; break; case 2: *a = -*b; break; case 3: *a = nextafterf(*b, 1e9f); break; case 4: *a = *b + (float)(sgn() * lu(1e-8, 1e-3)); break; default: *a = 2 * *b; } }
    if (pr(0.15)) for (int i = 0; i < o->np; i++) for (int j = 0; j < i; j++) if (fp[i] && fp[j] && o->p[i].tag == T_V && o->p[j].tag == T_V && o->p[i].words == o->p[j].words && o->p[i].role != 'o' && o->p[j].role != 'o') { memcpy(fp[i], fp[j], 4 * o->p[i].words); if (pr(0.3)) fp[i][ri(o->p[i].words)] += 0.5f; else if (pr(0.4)) { float e = (float)lu(1e-4, 0.3); for (int k = 0; k < o->p[i].words; k++) fp[i][k] += e * (float)ur(-1, 1); } } }
  if (!strcmp(o->fam, "vclass") && o->p[1].kind == 'F' && pr(0.4)) { int k = ri(o->n); for (int i = 0; i < o->n; i++) if (i != k || pr(0.5)) fp[0][i] = fs[1]; if (pr(0.4)) fp[0][k] = fs[1] + (float)(sgn() * lu(1e-8, 1e-6)); }
  if (has(o->f, "eq") && has(o->f, "eps") && pr(0.15)) { int k = ri(o->n), q = o->p[1].kind == 'F'; if (q) fs[1] = 0; else fp[1][k] = 0;
    for (int i = 0; i < o->n; i++) if (i != k) fp[0][i] = q ? 0 : fp[1][i];
    float ge = ccur >> 2 == 0 ? 1e-5f : ccur >> 2 == 1 ? FLT_EPSILON : 1e-3f; fp[0][k] = sgn() < 0 ? -ge : ge; if (pr(0.3)) fp[0][k] = nextafterf(fp[0][k], pr(0.5) ? 0 : 2 * fp[0][k]); }
  if (has(o->f, "eqv_eps") && pr(0.3)) { float ge = ccur >> 2 == 0 ? 1e-5f : ccur >> 2 == 1 ? FLT_EPSILON : 1e-3f; for (int i = 0; i < o->n; i++) { if (pr(0.5)) fp[1][i] = 0; fp[0][i] = fp[1][i] + ge * (float)ur(-1.05, 1.05); } }
  if (has(o->f, "eq_all") && pr(0.25)) { float ge = ccur >> 2 == 0 ? 1e-5f : ccur >> 2 == 1 ? FLT_EPSILON : 1e-3f, b = pr(0.5) ? 0 : fp[0][0]; for (int i = 0; i < o->n; i++) fp[0][i] = b + ge * (float)ur(-0.9, 0.9); } else
  if (has(o->f, "eq_all") && pr(0.5)) { int k = ri(o->n); for (int i = 0; i < o->n; i++) if (i != k) fp[0][i] = fp[0][(k + 1) % o->n]; if (pr(0.5)) fp[0][k] = fp[0][(k + 1) % o->n]; }
  if (!strcmp(o->fam, "ivec") && has(o->f, "eq")) { if (o->p[1].kind == 'I') { if (pr(0.7)) for (int i = 0; i < o->n; i++) itmp[0][i] = is[1]; } else if (pr(0.7)) memcpy(itmp[1], itmp[0], 4 * o->n); if (pr(0.5)) itmp[0][ri(o->n)] = ri(5); }
  if (has(o->f, "clamp") && o->np >= 3 && pr(0.9)) { int k = o->np - 2; if (o->p[k].kind == 'I') { if (is[k] > is[k + 1]) { int q = is[k]; is[k] = is[k + 1]; is[k + 1] = q; } } else if (o->p[k].kind == 'F' && fs[k] > fs[k + 1]) { float q = fs[k]; fs[k] = fs[k + 1]; fs[k + 1] = q; } }
  for (int i = 0; i < o->np; i++) { const Param *p = &o->p[i];
    if (p->kind == 'F') args[i] = fb(fs[i]); else if (p->kind == 'I') args[i] = is[i];
    else { args[i] = addr[i]; if (aliasi >= 0 && (i == aliasj || i == aliask)) continue; if (p->isint) memcpy(&mem[addr[i]], itmp[i], 4 * p->words); else if (!chained[i]) for (int k = 0; k < p->words; k++) mem[addr[i] + k] = (uint32_t)fb(tmp[i][k]); } }
  if (!strcmp(o->fam, "ivec") && (!strcmp(o->f, "div") || !strcmp(o->f, "mod")) && aliasi >= 0) for (int k = 0; k < o->n; k++) if (mem[addr[1] + k] == 0) mem[addr[1] + k] = 3;
  /* record */
  size_t lenpos = nb; w(0); w(oi); w(ccur); w(o->np); for (int i = 0; i < o->np; i++) w(args[i]);
  size_t npos = nb; w(0); for (int i = 0; i < MEM; i++) if (mem[i] != pre[i]) { w(i); w((int)mem[i]); buf[npos]++; }
  size_t apos = nb; w(0);
  static uint32_t first[MEM]; int nalt = 0; size_t altpos[31];
  for (int v = 0; v < NV; v++) { void (*fn)(Call *) = VS[v].f[oi]; if (!fn) continue; if (aliasi >= 0 && strstr(VS[v].name, "/s")) continue;
    uint32_t *A = VS[v].arena; memset(A - PAD, 0xA5, 4 * PAD); memset(A + MEM, 0xA5, 4 * PAD); memcpy(A, mem, sizeof mem);
    Call c; memset(&c, 0, sizeof c); for (int i = 0; i < o->np; i++) { if (o->p[i].kind == 'P') c.p[i] = A + addr[i]; else if (o->p[i].kind == 'F') { int b = args[i]; memcpy(&c.f[i], &b, 4); } else c.i[i] = args[i]; }
    ncalls++; int crash = sigsetjmp(jb, 0); if (!crash) { injb = 1; fn(&c); } injb = 0;
    if (crash) { memcpy(A, mem, sizeof mem); A[0] = 0xDEAD0000u | (uint32_t)crash; c.rf = 0; c.ri = 0; memset(A - PAD, 0xA5, 4 * PAD); memset(A + MEM, 0xA5, 4 * PAD); }
    int ret = o->ret == 'f' ? fb(c.rf) : o->ret == 'v' ? 0 : c.ri;
    for (int i = 0; i < PAD; i++) { if (A[-1 - i] != 0xA5A5A5A5u) A[0] ^= 1; if (A[MEM + i] != 0xA5A5A5A5u) A[MEM - 1] ^= 1; }   /* far out of bounds: shows as a guard word change */
    size_t start = nb; w(1 << v); w(ret); size_t np2 = nb; w(0); for (int i = 0; i < MEM; i++) if (A[i] != mem[i]) { w(i); w((int)A[i]); buf[np2]++; }
    int dup = -1; for (int q = 0; q < nalt && dup < 0; q++) { size_t x = altpos[q]; size_t ln = nb - start; if ((size_t)(3 + 2 * buf[x + 2]) == ln && !memcmp(&buf[x + 1], &buf[start + 1], 4 * (ln - 1))) dup = q; }
    if (dup >= 0) { buf[altpos[dup]] |= 1 << v; nb = start; } else { if (!nalt) memcpy(first, A, sizeof mem); altpos[nalt++] = start; } }
  if (!nalt) { nb = lenpos; memcpy(mem, pre, sizeof mem); return; }
  if (pure) keep(oi, args, mem, lenpos, apos);
  buf[apos] = nalt; buf[lenpos] = (int)(nb - lenpos - 1); memcpy(mem, first, sizeof mem);
  for (int i = 0; i < o->np; i++) if (o->p[i].role != 'i' && o->p[i].kind == 'P') { int q = nrec < 8 ? nrec++ : ri(8); recent[q].addr = addr[i]; recent[q].words = o->p[i].words; }
}

int main(int argc, char **argv) {
  guards();
  uint64_t seed = 1; unsigned prop = 0xffffffff; int traces = 8, len = 100; const char *path = "trace.bin", *only = NULL, *fam = NULL; int onlytrace = -1;
  for (int i = 1; i < argc; i++) { char *a = argv[i], *e = strchr(a, '='); 
    if (e && !strncmp(a, "seed=", 5)) seed = strtoull(e + 1, 0, 10);
    else if (e && !strncmp(a, "prop=", 5)) { if (e[1] == 'C') prop = 1u << atoi(e + 2); }
    else if (e && !strncmp(a, "traces=", 7)) traces = atoi(e + 1);
    else if (e && !strncmp(a, "len=", 4)) len = atoi(e + 1);
    else if (e && !strncmp(a, "cc=", 3)) ccur = atoi(e + 1);
    else if (e && !strncmp(a, "alias=", 6)) { aliasmode = atoi(e + 1); }
    else if (e && !strncmp(a, "pure=", 5)) pure = atoi(e + 1);
    else if (e && !strncmp(a, "out=", 4)) path = e + 1;
    else if (e && !strncmp(a, "only=", 5)) only = e + 1;
    else if (e && !strncmp(a, "fam=", 4)) fam = e + 1;
    else if (e && !strncmp(a, "trace=", 6)) onlytrace = atoi(e + 1);
    else { /* name:apis:offset:path.so */
      char nm[64], apis[8], off[8]; char *p = a; char so[512];
      if (sscanf(p, "%31[^:]:%7[^:]:%7[^:]:%511s", nm, apis, off, so) != 4) { fprintf(stderr, "bad argument %s\n", a); return 3; }
      void *h = dlopen(so, RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 3; }
      for (char *q = apis; *q; q++) { char sym[32]; snprintf(sym, sizeof sym, "verif_table_%c", *q); const WEntry *(*tb)(void) = (const WEntry *(*)(void))dlsym(h, sym); if (!tb) { fprintf(stderr, "no %s in %s\n", sym, so); return 3; }
        Variant *v = &VS[NV++]; snprintf(v->name, sizeof v->name, "%s/%c", nm, *q); memset(v->f, 0, sizeof v->f);
        for (const WEntry *t = tb(); t->name; t++) for (int k = 0; k < NOPS; k++) if (!strcmp(OPS[k].name, t->name)) v->f[k] = t->fn;
        char *raw = aligned_alloc(64, 4 * (MEM + 4 * PAD)); v->off = atoi(off); v->arena = (uint32_t *)raw + 2 * PAD + v->off; } } }
  int list[NOPS], nl = 0;
  for (int k = 0; k < NOPS; k++) { if (!(OPS[k].props & prop)) continue; int any = 0; for (int v = 0; v < NV; v++) if (VS[v].f[k]) any = 1; if (!any) continue;
    if (fam) { char f2[64]; snprintf(f2, sizeof f2, ",%s,", OPS[k].fam); char g[256]; snprintf(g, sizeof g, ",%s,", fam); if (!strstr(g, f2)) continue; }
    if (only) { char b[128]; snprintf(b, sizeof b, ",%s,", OPS[k].name); char g[4096]; snprintf(g, sizeof g, ",%s,", only); if (!strstr(g, b)) continue; }
    list[nl++] = k; }
  if (!nl) { fprintf(stderr, "no operations selected\n"); return 3; }
  /* alias mode: enumerate (op, i, j) patterns */
  static int pat[20000][4], firstpat[NOPS + 1]; int npat = 0;
  for (int q = 0; q < nl; q++) { const Op *o = &OPS[list[q]]; firstpat[q] = npat; for (int i = 0; i < o->np; i++) for (int j = i + 1; j < o->np; j++) {
      const Param *a = &o->p[i], *b = &o->p[j]; if (a->kind != 'P' || b->kind != 'P' || a->isint != b->isint || (a->role == 'o' && b->role == 'o')) continue;
      if (a->words != b->words && (aliasmode & 4 ? 0 : !mixed_alias(o, i, j))) continue;
      if ((aliasmode & 1 || !aliasmode) && !allowed_alias(o, i, j)) continue;
      pat[npat][0] = list[q]; pat[npat][1] = i; pat[npat][3] = -1; pat[npat++][2] = j;
      if (a->role == 'i' && b->role == 'i') for (int k = j + 1; k < o->np; k++) if (o->p[k].kind == 'P' && o->p[k].isint == a->isint && (o->p[k].words == a->words || mixed_alias(o, i, k)) && allowed_alias(o, i, k) && allowed_alias(o, j, k)) {
        pat[npat][0] = list[q]; pat[npat][1] = i; pat[npat][2] = j; pat[npat++][3] = k; } } }
  firstpat[nl] = npat;
  char *text = malloc(1 << 20); int tl = 0; for (int k = 0; k < NOPS; k++) tl += sprintf(text + tl, "op %s %s %d %d %s\n", OPS[k].name, OPS[k].fam, OPS[k].n, OPS[k].m, OPS[k].f);
  for (int v = 0; v < NV; v++) tl += sprintf(text + tl, "variant %s\n", VS[v].name);
  if (pure) for (int k = 0; k < NPASS; k++) for (int v = 0; v < NV; v++) tl += sprintf(text + tl, "variant %s#%s\n", VS[v].name, passname[k]);
  tl += sprintf(text + tl, "mem %d\n", MEM); while ((tl + 4) % 4) text[tl++] = '\n';
  int pos = 0, order[20000], no = aliasmode ? npat : nl; if (!no) { fprintf(stderr, "nothing to do\n"); return 3; }
  for (int t = 0; t < traces; t++) {
    rs = seed * 0x9E3779B97F4A7C15ull ^ ((uint64_t)t << 32) ^ ((uint64_t)ccur << 20) ^ 0x1234567; rnd(); rnd();
    size_t hp = nb; w(0); nrec = 0; for (int i = 0; i < MEM; i++) mem[i] = (uint32_t)fb(fl1(FL_U10)); for (int i = 0; i < MEM; i++) w((int)mem[i]);
    int cnt = 0; size_t before;
    pos = (int)((uint64_t)t * (uint64_t)len % (uint64_t)no);
    for (int k = 0; k < no; k++) order[k] = k;
    for (int l = 0; l < len; l++) { before = nb; int q = order[(pos + l) % no];
      if (aliasmode) event(pat[q][0], pat[q][1], pat[q][2], pat[q][3]); else { int np = firstpat[q + 1] - firstpat[q], k = np && !pure && pr(0.1) ? firstpat[q] + ri(np) : -1;      /* now and then an object passed twice */
        if (k >= 0) event(list[q], pat[k][1], pat[k][2], pat[k][3]); else event(list[q], -1, -1, -1); }
      if (nb != before) cnt++; }
    buf[hp] = cnt; if (onlytrace >= 0 && t != onlytrace && !pure) nb = hp; }
  w(-1);
  if (pure) purepasses();
  out = fopen(path, "wb"); if (!out) { perror(path); return 3; }
  fwrite(&tl, 4, 1, out); fwrite(text, 1, tl, out); fwrite(buf, 4, nb, out); fclose(out);
  return 0;
}
