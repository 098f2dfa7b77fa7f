/* Further executions of calls already recorded, to decide that a call's effect depends on nothing but its
 * arguments (C26).  Every recorded call is repeated
 *   again    after an almost identical call of the same operation, on the same addresses, in another order
 *   threads  while other threads run the same operation on other objects
 *   hi, lo   with each object against an inaccessible page at its end / start, input objects not writable
 * and what happened is added to the event as a further alternative "build/api#pass". */
#include <link.h>
#include <sys/mman.h>
#include <unistd.h>
enum { NPASS = 4, P_AGAIN = 0, P_THREADS, P_HI, P_LO, GAP = 8, MAXW = 128 };
static const char *passname[NPASS] = { "again", "threads", "hi", "lo" };
typedef struct { int oi, args[10]; uint32_t *pre; size_t lenpos, apos; int *extra; int nextra, nx; } Stored;
static Stored *st; static int nst, cst;
static void keep(int oi, const int *args, const uint32_t *m, size_t lenpos, size_t apos) {
  if (nst == cst) { cst = cst ? 2 * cst : 4096; st = realloc(st, cst * sizeof *st); }
  Stored *s = &st[nst++]; memset(s, 0, sizeof *s); s->oi = oi; memcpy(s->args, args, sizeof s->args); s->lenpos = lenpos; s->apos = apos; s->pre = malloc(4 * MEM); memcpy(s->pre, m, 4 * MEM);
}
/* one outcome: returned word and changed words (address in the event's memory, value) */
typedef struct { int ret, n, crash; int w[2 * (MEM + 2)]; } Outcome;
typedef struct { int n; struct { int addr, words, par; } r[10]; int reg[10]; } Regions;      /* distinct objects of a call, ascending */
static void regions(const Stored *s, Regions *R) {
  const Op *o = &OPS[s->oi]; R->n = 0;
  for (int i = 0; i < o->np; i++) { if (o->p[i].kind != 'P') continue; int k = -1; for (int j = 0; j < R->n; j++) if (R->r[j].addr == s->args[i]) k = j;
    if (k < 0) { k = R->n++; while (k && R->r[k - 1].addr > s->args[i]) { R->r[k] = R->r[k - 1]; k--; } R->r[k].addr = s->args[i]; R->r[k].words = 0; R->r[k].par = i; }
    if (o->p[i].words > R->r[k].words) R->r[k].words = o->p[i].words; }
  for (int i = 0; i < o->np; i++) for (int j = 0; j < R->n; j++) if (o->p[i].kind == 'P' && R->r[j].addr == s->args[i]) R->reg[i] = j;
}
static void invoke(void (*fn)(Call *), const Stored *s, const Regions *R, uint32_t **at, Outcome *q) {
  const Op *o = &OPS[s->oi]; Call c; memset(&c, 0, sizeof c);
  for (int i = 0; i < o->np; i++) { if (o->p[i].kind == 'P') c.p[i] = at[R->reg[i]]; else if (o->p[i].kind == 'F') memcpy(&c.f[i], &s->args[i], 4); else c.i[i] = s->args[i]; }
  q->crash = sigsetjmp(jb, 0); if (!q->crash) { injb = 1; fn(&c); } injb = 0;
  q->ret = q->crash ? 0 : o->ret == 'f' ? fb(c.rf) : o->ret == 'v' ? 0 : c.ri;
}
/* run a call with its objects at the front of block B (same places for every call of the operation) */
static void inblock(void (*fn)(Call *), const Stored *s, const uint32_t *pre, const Regions *R, int off, uint32_t *B, Outcome *q) {
  uint32_t *at[10]; int x = 16, damage = 0;
  B += off; memset(B, 0xA5, 64);
  for (int k = 0; k < R->n; k++) { at[k] = B + x; memcpy(at[k], pre + R->r[k].addr, 4 * R->r[k].words); x += R->r[k].words; int e = (x + GAP + 15) & ~15; memset(B + x, 0xA5, 4 * (e - x)); x = e; }
  invoke(fn, s, R, at, q); q->n = 0; if (q->crash) { q->w[0] = 0; q->w[1] = (int)(0xDEAD0000u | (unsigned)q->crash); q->n = 1; return; }
  for (int j = 0; j < 16; j++) if (B[j] != 0xA5A5A5A5u) damage = 1;
  for (int k = 0; k < R->n; k++) { for (uint32_t *g = at[k] + R->r[k].words, *e = k + 1 < R->n ? at[k + 1] : B + x; g < e; g++) if (*g != 0xA5A5A5A5u) damage = 1; }
  if (damage) { q->w[0] = 0; q->w[1] = (int)(s->pre[0] ^ 1); q->n = 1; }
  for (int k = 0; k < R->n; k++) for (int j = 0; j < R->r[k].words; j++) if (at[k][j] != s->pre[R->r[k].addr + j]) { q->w[2 * q->n] = R->r[k].addr + j; q->w[2 * q->n++ + 1] = (int)at[k][j]; }
}
static int same(const int *alt, const Outcome *q) { return alt[1] == q->ret && alt[2] == q->n && !memcmp(alt + 3, q->w, 8 * q->n); }
/* add an outcome to the event: bit tells which build and pass */
static void addalt(Stored *s, int bit, const Outcome *q) {
  int na = buf[s->apos]; size_t x = s->apos + 1;
  for (int k = 0; k < na; k++) { if (same(&buf[x], q)) { buf[x] |= 1 << bit; return; } x += 3 + 2 * buf[x + 2]; }
  int *e = s->extra, *end = e + s->nx; for (; e < end; e += 3 + 2 * e[2]) if (same(e, q)) { e[0] |= 1 << bit; return; }
  if (s->nextra > 6) return;
  s->extra = realloc(s->extra, 4 * (s->nx + 3 + 2 * q->n)); e = s->extra + s->nx; e[0] = 1 << bit; e[1] = q->ret; e[2] = q->n; memcpy(e + 3, q->w, 8 * q->n); s->nx += 3 + 2 * q->n; s->nextra++;
}
static int *byop; static int opfrom[NOPS + 1];
static uint64_t mix(uint64_t x) { x ^= x >> 31; x *= 0x9E3779B97F4A7C15ull; x ^= x >> 29; return x; }
static void neighbour(const Stored *s, const Stored *other, uint32_t *pre, Stored *t, uint64_t z) {
  const Op *o = &OPS[s->oi]; *t = *s; memcpy(pre, s->pre, 4 * MEM); t->pre = pre;
  int tot = 0; for (int i = 0; i < o->np; i++) tot += o->p[i].kind == 'P' ? o->p[i].words : 1;
  if (!tot) return;
  int k = (int)(z % (uint64_t)tot);
  for (int i = 0; i < o->np; i++) { int n = o->p[i].kind == 'P' ? o->p[i].words : 1; if (k >= n) { k -= n; continue; }
    if (o->p[i].kind == 'P') pre[s->args[i] + k] = other->pre[other->args[i] + k]; else if (o->p[i].tag != T_CNT) t->args[i] = other->args[i]; return; }
}
/* threads */
typedef struct { int v; int call; Outcome q; } Found;
static Found *found; static int nfound; static pthread_mutex_t fmu = PTHREAD_MUTEX_INITIALIZER; static pthread_barrier_t bar; static int NTHR, REPS;
static const int *expect(const Stored *s, int v) { int na = buf[s->apos]; size_t x = s->apos + 1; for (int k = 0; k < na; k++) { if (buf[x] >> v & 1) return &buf[x]; x += 3 + 2 * buf[x + 2]; } return 0; }
/* operations during which writable storage of the library itself changed get most of the hammering */
static char hot[NOPS][31]; static uint64_t segsum(int v);
static uint64_t hashmem(const char *a, size_t n) { uint64_t h = n; for (size_t i = 0; i + 8 <= n; i += 8) { uint64_t x; memcpy(&x, a + i, 8); h = (h ^ x) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; } return h; }
static struct { const char *a; size_t n; } seg[31][8]; static int nseg[31];
static int phdr(struct dl_phdr_info *d, size_t z, void *arg) {
  int v = *(int *)arg; const char *base = (const char *)d->dlpi_addr; Dl_info di; int fi = 0; for (int k = 0; k < NOPS; k++) if (VS[v].f[k]) fi = k;
  if (!dladdr((void *)VS[v].f[fi], &di) || (const char *)di.dli_fbase != base) return 0;
  const char *rs = 0, *re = 0; for (int i = 0; i < d->dlpi_phnum; i++) if (d->dlpi_phdr[i].p_type == PT_GNU_RELRO) { rs = base + d->dlpi_phdr[i].p_vaddr; re = rs + d->dlpi_phdr[i].p_memsz; }
  for (int i = 0; i < d->dlpi_phnum; i++) { const ElfW(Phdr) *h = &d->dlpi_phdr[i]; if (h->p_type != PT_LOAD || !(h->p_flags & PF_W)) continue;
    const char *a = base + h->p_vaddr, *e = a + h->p_memsz; if (rs && rs <= a && re > a) a = re; a = (const char *)(((uintptr_t)a + 7) & ~(uintptr_t)7); if (a < e && nseg[v] < 8) { seg[v][nseg[v]].a = a; seg[v][nseg[v]++].n = (size_t)(e - a); } }
  return 1; (void)z; }
static uint64_t segsum(int v) { uint64_t h = 0; if (!nseg[v]) { dl_iterate_phdr(phdr, &v); if (!nseg[v]) return 0; } for (int k = 0; k < nseg[v]; k++) h = h * 31 + hashmem(seg[v][k].a, seg[v][k].n); return h; }
/* lay a call's objects out in block B, filled from m */
static int layout(const Regions *R, uint32_t *B, const uint32_t *m, uint32_t **at) {
  int x = 16; memset(B, 0xA5, 64);
  for (int k = 0; k < R->n; k++) { at[k] = B + x; memcpy(at[k], m + R->r[k].addr, 4 * R->r[k].words); x += R->r[k].words; int e = (x + GAP + 15) & ~15; memset(B + x, 0xA5, 4 * (e - x)); x = e; }
  return x; }
static void *hammer(void *arg) {
  int id = (int)(size_t)arg; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_size = 1 << 16; ss.ss_sp = malloc(ss.ss_size); sigaltstack(&ss, 0);
  uint32_t *B = aligned_alloc(64, 4 * (MEM + 512)), *I = aligned_alloc(64, 4 * (MEM + 512)), *E = aligned_alloc(64, 4 * (MEM + 512)), m[MEM]; Outcome *q = malloc(sizeof *q);
  for (int op = 0; op < NOPS; op++) { int f = opfrom[op], n = opfrom[op + 1] - f; if (!n) continue;
    for (int v = 0; v < NV; v++) { if (!VS[v].f[op]) continue;
      pthread_barrier_wait(&bar); int reps = hot[op][v] ? 2000 : REPS;
      for (int k = 0; k < n; k++) { int ci = byop[f + (k + id * (n / NTHR + 1)) % n]; Stored *s = &st[ci]; Regions R; uint32_t *at[10]; regions(s, &R);
        const int *e = expect(s, v); if (!e || (e[2] == 1 && e[3] == 0)) continue;
        memcpy(m, s->pre, sizeof m); for (int j = 0; j < e[2]; j++) m[e[3 + 2 * j]] = (uint32_t)e[4 + 2 * j];
        layout(&R, E, m, at); layout(&R, I, s->pre, at); int x = layout(&R, B + VS[v].off, s->pre, at);
        for (int r = 0; r < reps; r++) { memcpy(B + VS[v].off, I, 4 * x); invoke(VS[v].f[op], s, &R, at, q);
          if (q->crash || q->ret != e[1] || memcmp(B + VS[v].off, E, 4 * x)) {
            q->n = 0; if (q->crash) { q->w[0] = 0; q->w[1] = (int)(0xDEAD0000u | (unsigned)q->crash); q->n = 1; }
            else for (int z = 0; z < R.n; z++) for (int j = 0; j < R.r[z].words; j++) if (at[z][j] != s->pre[R.r[z].addr + j]) { q->w[2 * q->n] = R.r[z].addr + j; q->w[2 * q->n++ + 1] = (int)at[z][j]; }
            pthread_mutex_lock(&fmu); if (nfound < 400) { found[nfound].v = v; found[nfound].call = ci; found[nfound++].q = *q; } pthread_mutex_unlock(&fmu); break; } } } } }
  return 0; }
static void purepasses(void) {
  byop = malloc(4 * (nst + 1)); int c = 0; for (int op = 0; op < NOPS; op++) { opfrom[op] = c; for (int k = 0; k < nst; k++) if (st[k].oi == op) byop[c++] = k; } opfrom[NOPS] = c;
  Outcome q; Regions R; uint32_t *B = aligned_alloc(64, 4 * (MEM + 512)), pre2[MEM];
  /* again */
  for (int op = 0; op < NOPS; op++) { int f = opfrom[op], n = opfrom[op + 1] - f;
    for (int v = 0; v < NV; v++) { if (!VS[v].f[op]) continue; uint64_t h0 = segsum(v);
      for (int r = 0; r < 4; r++) for (int k = n - 1; k >= 0; k--) { Stored *s = &st[byop[f + k]], t; regions(s, &R); uint64_t z = mix(rnd());
        neighbour(s, &st[byop[f + (k + 1 + (int)(z >> 40) % (n > 1 ? n - 1 : 1)) % n]], pre2, &t, z & 0xffffff); inblock(VS[v].f[op], &t, pre2, &R, VS[v].off, B, &q); ncalls += 2; inblock(VS[v].f[op], s, s->pre, &R, VS[v].off, B, &q);
        addalt(s, NV + P_AGAIN * NV + v, &q); }
      hot[op][v] = segsum(v) != h0; } }
  /* guard pages */
  long pg = sysconf(_SC_PAGESIZE); int fd = memfd_create("verif", 0); if (fd < 0 || ftruncate(fd, 10 * pg)) { perror("memfd"); exit(3); }
  char *rw[10], *ro[10];
  for (int k = 0; k < 10; k++) { char *a = mmap(0, 3 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0), *b = mmap(0, 3 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    rw[k] = mmap(a + pg, pg, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, k * pg); ro[k] = mmap(b + pg, pg, PROT_READ, MAP_SHARED | MAP_FIXED, fd, k * pg); if (a == MAP_FAILED || b == MAP_FAILED || rw[k] == MAP_FAILED || ro[k] == MAP_FAILED) { perror("mmap"); exit(3); } }
  for (int i = 0; i < nst; i++) { Stored *s = &st[i]; const Op *o = &OPS[s->oi]; regions(s, &R);
    for (int v = 0; v < NV; v++) { void (*fn)(Call *) = VS[v].f[s->oi]; if (!fn) continue;
      for (int hi = 1; hi >= 0; hi--) { uint32_t *at[10], *back[10];
        for (int k = 0; k < R.n; k++) { int writable = 0; for (int p = 0; p < o->np; p++) if (o->p[p].kind == 'P' && R.reg[p] == k && o->p[p].role != 'i') writable = 1;
          long off = hi ? pg - 4 * R.r[k].words : 4 * VS[v].off; back[k] = (uint32_t *)(rw[k] + off); at[k] = writable ? back[k] : (uint32_t *)(ro[k] + off); memcpy(back[k], s->pre + R.r[k].addr, 4 * R.r[k].words); }
        ncalls++; invoke(fn, s, &R, at, &q); q.n = 0; if (q.crash) { q.w[0] = 0; q.w[1] = (int)(0xDEAD0000u | (unsigned)q.crash); q.n = 1; }
        else for (int k = 0; k < R.n; k++) for (int j = 0; j < R.r[k].words; j++) if (back[k][j] != s->pre[R.r[k].addr + j]) { q.w[2 * q.n] = R.r[k].addr + j; q.w[2 * q.n++ + 1] = (int)back[k][j]; }
        addalt(s, NV + (hi ? P_HI : P_LO) * NV + v, &q); } } }
  /* threads */
  struct itimerval off = { { 0, 0 }, { 0, 0 } }; setitimer(ITIMER_REAL, &off, 0); signal(SIGALRM, SIG_DFL); alarm(400);
  NTHR = 8; REPS = nst ? (int)(2 + 1600000 / nst) : 1; if (REPS > 2000) REPS = 2000; found = calloc(400, sizeof *found); pthread_barrier_init(&bar, 0, NTHR); pthread_t th[8];
  for (int k = 0; k < NTHR; k++) if (pthread_create(&th[k], 0, hammer, (void *)(size_t)k)) { perror("thread"); exit(3); }
  for (int k = 0; k < NTHR; k++) pthread_join(th[k], 0);
  alarm(0);
  for (int i = 0; i < nst; i++) { Stored *s = &st[i]; int na = buf[s->apos]; size_t x = s->apos + 1; for (int k = 0; k < na; k++) { int m = buf[x] & ((1 << NV) - 1); buf[x] |= m << (NV + P_THREADS * NV); x += 3 + 2 * buf[x + 2]; } }
  for (int k = 0; k < nfound; k++) addalt(&st[found[k].call], NV + P_THREADS * NV + found[k].v, &found[k].q);
  /* write the extra alternatives into the trace */
  int extra = 0; for (int i = 0; i < nst; i++) extra += st[i].nx; if (!extra) return;
  int *nbuf = malloc(4 * (nb + extra)); size_t x = 0, y = 0;
  for (int i = 0; i < nst; i++) { Stored *s = &st[i]; size_t end = s->lenpos + 1 + buf[s->lenpos]; size_t d = y + (s->lenpos - x), a = y + (s->apos - x);
    memcpy(nbuf + y, buf + x, 4 * (end - x)); y += end - x; x = end; if (s->nx) { memcpy(nbuf + y, s->extra, 4 * s->nx); y += s->nx; nbuf[d] += s->nx; nbuf[a] += s->nextra; } }
  memcpy(nbuf + y, buf + x, 4 * (nb - x)); y += nb - x; buf = nbuf; nb = y;
}
