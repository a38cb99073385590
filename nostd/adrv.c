// Drives the freestanding runtime: its allocator, from one and from several threads, and its
// memory primitives. Every session runs in a child process of its own, with a fresh arena.
//   adrv alloc LIB OUTDIR SHARDS SEED SESSIONS ARENA_OFF ARENA_SIZE
//   adrv mem   LIB OUTDIR SHARDS SEED N
// Addresses are reported relative to the (page aligned) place the library is loaded at.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <link.h>
#include <pthread.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>

static uint64_t rs;
static uint32_t rnd(uint64_t *s, uint32_t n) {
  uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  z ^= z >> 31;
  return (uint32_t)((z >> 11) % n);
}

typedef uint8_t *(*alloc_f)(size_t, size_t);
typedef uint8_t *(*realloc_f)(uint8_t *, size_t, size_t, size_t);
typedef void (*free_f)(uint8_t *, size_t, size_t);
static alloc_f A, Z;
static realloc_f R;
static free_f F;
static void *(*m_cpy)(void *, const void *, size_t);
static void *(*m_set)(void *, int, size_t);
static int (*m_cmp)(const void *, const void *, size_t);
static void (*m_zero)(void *, size_t);

static const char *libpath, *outdir;
static uintptr_t base, wlo, whi;

static int cb(struct dl_phdr_info *i, size_t s, void *d) {
  (void)s, (void)d;
  if (i->dlpi_name && strstr(i->dlpi_name, "allocfix")) {
    base = i->dlpi_addr;
    wlo = UINTPTR_MAX, whi = 0;
    for (int k = 0; k < i->dlpi_phnum; k++) {
      const ElfW(Phdr) *p = &i->dlpi_phdr[k];
      if (p->p_type == PT_LOAD && (p->p_flags & PF_W)) {
        if (p->p_vaddr < wlo) wlo = p->p_vaddr;
        if (p->p_vaddr + p->p_memsz > whi) whi = p->p_vaddr + p->p_memsz;
      }
    }
  }
  return 0;
}

static void load(void) {
  void *h = dlopen(libpath, RTLD_NOW | RTLD_LOCAL);
  if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(2); }
  A = (alloc_f)dlsym(h, "verif_alloc");
  Z = (alloc_f)dlsym(h, "verif_zalloc");
  R = (realloc_f)dlsym(h, "verif_realloc");
  F = (free_f)dlsym(h, "verif_free");
  *(void **)&m_cpy = dlsym(h, "memcpy");
  *(void **)&m_set = dlsym(h, "memset");
  *(void **)&m_cmp = dlsym(h, "memcmp");
  *(void **)&m_zero = dlsym(h, "__bzero");
  if (!A || !Z || !R || !F || !m_cpy || !m_set || !m_cmp || !m_zero) { fprintf(stderr, "missing symbol\n"); exit(3); }
  dl_iterate_phdr(cb, 0);
  if (!base || (base & 4095)) { fprintf(stderr, "load address\n"); exit(2); }
}

// ------------------------------------------------------------------ blocks
#define MAXB 60000
static struct block { uint8_t *p; size_t n; int tag; } B[MAXB];
static _Atomic int nb;

static void fill(uint8_t *p, size_t n, int tag) { for (size_t k = 0; k < n; k++) p[k] = (uint8_t)(tag * 37 + k * 11 + 5); }
static int intact(const uint8_t *p, size_t n, int tag) {
  for (size_t k = 0; k < n; k++) if (p[k] != (uint8_t)(tag * 37 + k * 11 + 5)) return 0;
  return 1;
}
static int usable(const uint8_t *p, size_t n) { // only memory of the library may be written to
  uintptr_t a = (uintptr_t)p - base;
  return a >= wlo && a <= whi && n <= whi - a;
}
static void keep(uint8_t *p, size_t n) {
  if (!usable(p, n)) return;
  int t = atomic_fetch_add(&nb, 1);
  if (t >= MAXB) return;
  B[t] = (struct block){p, n, t};
  fill(p, n, t);
}
static int spoiled(void) {
  int b = 0, n = nb < MAXB ? nb : MAXB;
  for (int k = 0; k < n; k++) if (!intact(B[k].p, B[k].n, B[k].tag)) b++;
  return b;
}
static long rel(const uint8_t *p) {
  long v = (long)((uintptr_t)p - base);
  if (v < -1000000000 || v > 1000000000) v = 1000000000; // far outside
  return v;
}
static long clip(size_t n) { return n > 1000000000 ? 1000000000 : (long)n; }

// ------------------------------------------------------------------ sessions
static long arena_off, arena_size;
static void header(FILE *f, const char *kind) {
  fprintf(f, "{\"e\":\"new\",\"kind\":\"%s\",\"lo\":%ld,\"hi\":%ld}\n", kind,
          arena_size ? arena_off : (long)wlo, arena_size ? arena_off + arena_size : (long)whi);
}

static size_t pick_align(uint64_t *s) {
  uint32_t r = rnd(s, 100);
  if (r < 70) return (size_t)1 << rnd(s, 5);
  if (r < 90) return (size_t)1 << rnd(s, 13);
  return (size_t)1 << (12 + rnd(s, 6));
}
static size_t pick_size(uint64_t *s, size_t align, int style) {
  uint32_t r = rnd(s, 100);
  if (r < 4) { // absurd
    size_t m = (size_t)1 << 62;
    return r == 0 ? m : r == 1 ? (((size_t)1 << 63) - align) : r == 2 ? 131072 + 1 + rnd(s, 9) : ((size_t)1 << 32) + rnd(s, 64);
  }
  if (style == 0) return 1 + rnd(s, 40);
  if (style == 1) return 1 + rnd(s, 900);
  if (style == 2) return 1 + rnd(s, 20000);
  return r < 40 ? 1 + rnd(s, 8) : r < 80 ? (1 + rnd(s, 64)) * align % 9000 + 1 : 1 + rnd(s, 40000);
}

static FILE *out;
static void ask(size_t sz, size_t al) {
  uint8_t *p = A(sz, al);
  if (!p) fprintf(out, "{\"e\":\"null\",\"n\":%ld,\"al\":%ld}\n", clip(sz), clip(al));
  else fprintf(out, "{\"e\":\"got\",\"n\":%ld,\"al\":%ld,\"at\":%ld,\"z\":1}\n", clip(sz), clip(al), rel(p));
  if (p) keep(p, sz);
}
// bytes without alignment until exactly nothing is left, with refused requests in between
static void exact_session(uint64_t seed, int n) {
  uint64_t s = seed;
  size_t left = arena_size ? arena_size : 131072, k;
  header(out, "seq");
  for (int i = 0; i < n && left > 1; i++) {
    k = 1 + rnd(&s, i + 1 == n ? 40 : (uint32_t)(left / 2));
    if (k > left) k = left;
    if (rnd(&s, 3) == 0) ask(left + 1 + rnd(&s, 3), 1);
    if (rnd(&s, 6) == 0) ask(1, 8192 << rnd(&s, 5));
    ask(k, 1);
    left -= k;
  }
  ask(left + 1, 1);
  if (left) ask(left, 1);
  ask(1, 1);
  fprintf(out, "{\"e\":\"end\",\"bad\":%d}\n", spoiled());
}
static void seq_session(uint64_t seed, int n, int style) {
  uint64_t s = seed;
  if (style == 5) { exact_session(seed, n % 30); return; }
  header(out, "seq");
  for (int i = 0; i < n; i++) {
    size_t al = pick_align(&s), sz = pick_size(&s, al, style);
    uint32_t k = rnd(&s, 10);
    if (i == 0 && style == 3) { sz = 131072; al = rnd(&s, 2) ? 1 : (size_t)1 << rnd(&s, 13); } // the whole arena at once
    if (i == 0 && style == 4) { sz = 131073; al = 1; }
    if (k < 7 || nb == 0) {
      int z = k == 6;
      uint8_t *p = (z ? Z : A)(sz, al);
      if (!p) {
        fprintf(out, "{\"e\":\"null\",\"n\":%ld,\"al\":%ld}\n", clip(sz), clip(al));
        continue;
      }
      int zeroed = 1;
      if (z && usable(p, sz)) for (size_t q = 0; q < sz; q++) if (p[q]) zeroed = 0;
      fprintf(out, "{\"e\":\"got\",\"n\":%ld,\"al\":%ld,\"at\":%ld,\"z\":%d}\n", clip(sz), clip(al), rel(p), zeroed);
      keep(p, sz);
    } else if (k < 9) { // grow or shrink a block: a new one of its own, with the old contents
      int t = rnd(&s, nb);
      size_t old = B[t].n, nw = 1 + rnd(&s, style == 2 ? 9000 : 300);
      al = (size_t)1 << rnd(&s, 4);
      while ((uintptr_t)B[t].p % al) al >>= 1;
      uint8_t *p = R(B[t].p, old, al, nw);
      if (!p) {
        fprintf(out, "{\"e\":\"null\",\"n\":%ld,\"al\":%ld}\n", clip(nw), clip(al));
        continue;
      }
      size_t m = old < nw ? old : nw;
      int same = 1;
      if (usable(p, nw)) for (size_t q = 0; q < m; q++) if (p[q] != (uint8_t)(B[t].tag * 37 + q * 11 + 5)) same = 0;
      fprintf(out, "{\"e\":\"got\",\"n\":%ld,\"al\":%ld,\"at\":%ld,\"z\":%d}\n", clip(nw), clip(al), rel(p), same);
      keep(p, nw);
    } else {
      int t = rnd(&s, nb);
      F(B[t].p, B[t].n, 1); // freeing gives nothing back
      fprintf(out, "{\"e\":\"free\"}\n");
    }
  }
  fprintf(out, "{\"e\":\"end\",\"bad\":%d}\n", spoiled());
}

// several threads, begin and return of every call ordered by one counter
#define NT 6
static _Atomic int go, clk;
struct ev { int t, kind; long n, al, at; };
static struct ev *evs;
struct targ { int id, n; uint64_t seed; int style; };
static void *worker(void *x) {
  struct targ *a = x;
  uint64_t s = a->seed;
  while (!atomic_load(&go)) ;
  for (int i = 0; i < a->n; i++) {
    size_t al = (size_t)1 << rnd(&s, 6), sz = a->style ? 1 + rnd(&s, 3000) : 1 + rnd(&s, 60);
    if (rnd(&s, 20) == 0) sz = 1 + rnd(&s, 200000);
    if (rnd(&s, 30) == 0) al = 8192;
    int b = atomic_fetch_add(&clk, 1);
    uint8_t *p = A(sz, al);
    int r = atomic_fetch_add(&clk, 1);
    evs[b] = (struct ev){a->id, 0, clip(sz), clip(al), 0};
    evs[r] = (struct ev){a->id, p ? 1 : 2, clip(sz), clip(al), p ? rel(p) : 0};
    if (p) keep(p, sz);
  }
  return 0;
}
static void conc_session(uint64_t seed, int n, int style) {
  pthread_t th[NT];
  struct targ ta[NT];
  evs = calloc((size_t)NT * n * 2, sizeof *evs);
  for (int i = 0; i < NT; i++) {
    ta[i] = (struct targ){i + 1, n, seed * 77 + i * 1000003, style};
    pthread_create(&th[i], 0, worker, &ta[i]);
  }
  atomic_store(&go, 1);
  for (int i = 0; i < NT; i++) pthread_join(th[i], 0);
  header(out, "conc");
  for (int i = 0; i < clk; i++) {
    struct ev *e = &evs[i];
    if (e->kind == 0) fprintf(out, "{\"e\":\"call\",\"t\":%d,\"n\":%ld,\"al\":%ld}\n", e->t, e->n, e->al);
    else if (e->kind == 1) fprintf(out, "{\"e\":\"retgot\",\"t\":%d,\"at\":%ld}\n", e->t, e->at);
    else fprintf(out, "{\"e\":\"retnull\",\"t\":%d}\n", e->t);
  }
  fprintf(out, "{\"e\":\"end\",\"bad\":%d}\n", spoiled());
}

// One call interrupted by others at a chosen instruction. The processor's single-step trap stops
// the call after every instruction; at the chosen ones the handler makes the other calls. For the
// allocator this is what another thread running at that moment is.
#include <signal.h>
#include <ucontext.h>
#define TF 0x100
static volatile int step_no, at1, at2, in_step;
static struct { size_t n, al; uint8_t *p; int done; } other[2];
static void on_step(int sig, siginfo_t *si, void *uc) {
  (void)sig, (void)si;
  ucontext_t *u = uc;
  if (!in_step) { u->uc_mcontext.gregs[REG_EFL] &= ~TF; return; }
  int k = step_no++;
  for (int i = 0; i < 2; i++)
    if (k == (i ? at2 : at1) && !other[i].done) {
      other[i].p = A(other[i].n, other[i].al);
      other[i].done = 1;
    }
}
static uint8_t *stepped(size_t n, size_t al) {
  step_no = 0;
  in_step = 1;
  __asm__ volatile("pushfq; orq $0x100, (%%rsp); popfq" ::: "memory", "cc");
  uint8_t *p = A(n, al);
  in_step = 0; // the next trap ends the stepping
  __asm__ volatile("nop; nop" ::: "memory");
  return p;
}
static void begin(int t, size_t n, size_t al) { fprintf(out, "{\"e\":\"call\",\"t\":%d,\"n\":%ld,\"al\":%ld}\n", t, clip(n), clip(al)); }
static void ret(int t, uint8_t *p, size_t n) {
  if (p) fprintf(out, "{\"e\":\"retgot\",\"t\":%d,\"at\":%ld}\n", t, rel(p));
  else fprintf(out, "{\"e\":\"retnull\",\"t\":%d}\n", t);
  if (p) keep(p, n);
}
static int trial(uint64_t *s, int k1, int k2, size_t max) { // whether the call took more than k1 steps
  size_t n = 1 + rnd(s, max), al = (size_t)1 << rnd(s, 6);
  at1 = k1, at2 = k2;
  for (int i = 0; i < 2; i++) {
    other[i].n = 1 + rnd(s, max), other[i].al = (size_t)1 << rnd(s, 6);
    other[i].p = 0, other[i].done = 0;
  }
  uint8_t *p = stepped(n, al);
  int more = step_no > k1;
  begin(1, n, al);
  for (int i = 0; i < 2; i++) if (other[i].done) { begin(2 + i, other[i].n, other[i].al); ret(2 + i, other[i].p, other[i].n); }
  ret(1, p, n);
  return more;
}
static void on_steps(void) {
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_step;
  sa.sa_flags = SA_SIGINFO;
  sigaction(SIGTRAP, &sa, 0);
  alarm(20);
}
// n pairs of places where to interrupt, beginning with the style-th
static void preempt_session(uint64_t seed, int n, int style) {
  uint64_t s = seed;
  on_steps();
  header(out, "conc");
  (void)A(8, 8), (void)A(131073, 1); // resolves whatever is resolved at the first call
  int k1 = 0, k2 = 0, i = 0, done = 0;
  if (style < 0) { // every single place
    for (k1 = 0; k1 < 400 && trial(&s, k1, 1000000, 60); k1++) ;
  } else
    for (k1 = 0; !done && k1 < 400; k1++)
      for (k2 = k1; k2 < k1 + 40; k2++, i++) {
        if (i < style * n) continue;
        if (i >= (style + 1) * n) { done = 1; break; }
        if (!trial(&s, k1, k2, 60)) { done = 1; break; }
      }
  fprintf(out, "{\"e\":\"end\",\"bad\":%d}\n", spoiled());
}
// the same with hardly anything left, place k (and k2) in an arena of its own each
static void edge_session(uint64_t seed, int k, int k2) {
  uint64_t s = seed;
  on_steps();
  header(out, "conc");
  size_t most = 131072 - 8 - rnd(&s, 90);
  uint8_t *p = A(most, 1);
  begin(1, most, 1);
  ret(1, p, most);
  trial(&s, k, k2, 80);
  trial(&s, k, k2, 30);
  fprintf(out, "{\"e\":\"end\",\"bad\":%d}\n", spoiled());
}

// several threads until nothing is left; the blocks sorted by place
struct sb { long at, n, al; };
static struct sb SB[NT][20000];
static int nsb[NT], nnull[NT];
static int sstyle;
static void *stress(void *x) {
  struct targ *a = x;
  uint64_t s = a->seed;
  while (!atomic_load(&go)) ;
  int misses = 0;
  while (misses < 3 && nsb[a->id] < 20000) {
    size_t al = sstyle ? (size_t)1 << rnd(&s, 8) : 1, sz = sstyle ? 1 + rnd(&s, 500) : 150;
    uint8_t *p = A(sz, al);
    if (!p) { misses++; nnull[a->id]++; continue; }
    SB[a->id][nsb[a->id]++] = (struct sb){rel(p), clip(sz), clip(al)};
  }
  return 0;
}
static int bycmp(const void *x, const void *y) {
  const struct sb *a = x, *b = y;
  return a->at < b->at ? -1 : a->at > b->at;
}
static void stress_session(uint64_t seed, int style) {
  pthread_t th[NT];
  struct targ ta[NT];
  sstyle = style;
  for (int i = 0; i < NT; i++) {
    ta[i] = (struct targ){i, 0, seed * 131 + i * 7919, style};
    pthread_create(&th[i], 0, stress, &ta[i]);
  }
  atomic_store(&go, 1);
  for (int i = 0; i < NT; i++) pthread_join(th[i], 0);
  static struct sb all[NT * 20000];
  int m = 0, nn = 0;
  for (int i = 0; i < NT; i++) {
    memcpy(all + m, SB[i], sizeof(struct sb) * nsb[i]);
    m += nsb[i], nn += nnull[i];
  }
  qsort(all, m, sizeof *all, bycmp);
  header(out, "stress");
  fprintf(out, "{\"e\":\"blocks\",\"nulls\":%d,\"b\":[", nn);
  for (int i = 0; i < m; i++) fprintf(out, "%s[%ld,%ld,%ld]", i ? "," : "", all[i].at, all[i].n, all[i].al);
  fprintf(out, "]}\n");
}

static long mark;
static void truncate_to(long m) { fflush(out); if (ftruncate(fileno(out), m)) exit(2); fseek(out, m, SEEK_SET); }
static void in_child(void (*f)(uint64_t, int, int), uint64_t seed, int n, int style, const char *what) {
  char p[600];
  snprintf(p, sizeof p, "%s/pending", outdir);
  FILE *pf = fopen(p, "w");
  if (pf) { fprintf(pf, "%s session seed %llu style %d", what, (unsigned long long)seed, style); fclose(pf); }
  fflush(out);
  fseek(out, 0, SEEK_END);
  mark = ftell(out);
  pid_t c = fork();
  if (c == 0) {
    alarm(60);
    load();
    f(seed, n, style);
    fflush(out);
    _exit(0);
  }
  int st;
  waitpid(c, &st, 0);
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM && strstr(what, "interrupted")) {
    // an allocator that makes callers wait for each other cannot be called from inside itself
    fprintf(stderr, "skipped: %s\n", what);
    truncate_to(mark);
    return;
  }
  if (!WIFEXITED(st) || WEXITSTATUS(st)) {
    fprintf(stderr, "session ended with status %d\n", st);
    exit(WIFEXITED(st) && WEXITSTATUS(st) == 2 ? 2 : 4);
  }
}
static void stress_(uint64_t s, int n, int style) { (void)n; stress_session(s, style); }

// ------------------------------------------------------------------ memory primitives
#define G 24 // guard bytes on both sides
static void put(const char *k, const uint8_t *b, size_t n) {
  fprintf(out, "\"%s\":[", k);
  for (size_t i = 0; i < n; i++) fprintf(out, "%s%d", i ? "," : "", b[i]);
  fprintf(out, "]");
}
static void mem_one(uint64_t *s, size_t n) {
  static uint8_t x[200000], y[200000], x0[200000];
  size_t off = rnd(s, 8), len = n + 2 * G + 8, lo = G + off;
  uint32_t style = rnd(s, 4);
  for (size_t i = 0; i < len; i++) {
    x[i] = style ? (uint8_t)rnd(s, 256) : (uint8_t)(rnd(s, 2) * 255);
    y[i] = style ? (uint8_t)rnd(s, 256) : (uint8_t)(rnd(s, 2) * 128);
  }
  memcpy(x0, x, len);
  size_t ylo = G + rnd(s, 8);
  void *r = m_cpy(x + lo, y + ylo, n);
  fprintf(out, "{\"f\":\"cpy\",\"lo\":%zu,\"n\":%zu,\"ret\":%ld,", lo, n, (long)((uint8_t *)r - x));
  put("src", y + ylo, n); fprintf(out, ","); put("pre", x0, len); fprintf(out, ","); put("post", x, len);
  fprintf(out, "}\n");
  int c = rnd(s, 3) == 0 ? (int)rnd(s, 256) : (int)(rnd(s, 200000)) - 100000;
  memcpy(x0, x, len);
  r = m_set(x + lo, c, n);
  fprintf(out, "{\"f\":\"set\",\"lo\":%zu,\"n\":%zu,\"ret\":%ld,\"c\":%d,", lo, n, (long)((uint8_t *)r - x), c);
  put("pre", x0, len); fprintf(out, ","); put("post", x, len); fprintf(out, "}\n");
  for (size_t i = 0; i < len; i++) x[i] = (uint8_t)(1 + rnd(s, 255));
  memcpy(x0, x, len);
  m_zero(x + lo, n);
  fprintf(out, "{\"f\":\"zero\",\"lo\":%zu,\"n\":%zu,", lo, n);
  put("pre", x0, len); fprintf(out, ","); put("post", x, len); fprintf(out, "}\n");
}
static void cmp_one(uint64_t *s, size_t n) {
  static uint8_t x[200000], y[200000];
  for (size_t i = 0; i < n + 8; i++) x[i] = y[i] = (uint8_t)rnd(s, 3 == rnd(s, 9) ? 256 : 2);
  uint32_t k = rnd(s, 4);
  if (n && k) { // differ at one place, or from there on
    size_t d = rnd(s, 3) == 0 ? n - 1 : rnd(s, n);
    x[d] = (uint8_t)rnd(s, 256);
    y[d] = rnd(s, 3) ? (uint8_t)(x[d] ^ (1 << rnd(s, 8))) : (uint8_t)rnd(s, 256);
    if (k == 2) for (size_t i = d + 1; i < n; i++) y[i] = (uint8_t)rnd(s, 256);
  }
  for (size_t i = n; i < n + 8; i++) x[i] = (uint8_t)~y[i]; // what follows the range differs
  int r = m_cmp(x, y, n);
  fprintf(out, "{\"f\":\"cmp\",\"n\":%zu,\"r\":%d,", n, r > 0 ? 1 : r < 0 ? -1 : 0);
  put("x", x, n); fprintf(out, ","); put("y", y, n); fprintf(out, "}\n");
}
static void mem_child(uint64_t seed, int n, int style) {
  uint64_t s = seed;
  if (style == 0) {
    for (size_t k = 0; k < 70; k++) { mem_one(&s, k); for (int j = 0; j < 6; j++) cmp_one(&s, k); }
    // all pairs of a few bytes that matter
    static const uint8_t v[] = {0, 1, 127, 128, 129, 254, 255};
    for (size_t i = 0; i < sizeof v; i++) for (size_t j = 0; j < sizeof v; j++) {
      uint8_t a[3] = {9, v[i], 3}, b[3] = {9, v[j], 200};
      for (int l = 1; l <= 3; l++) {
        int r = m_cmp(a, b, l);
        fprintf(out, "{\"f\":\"cmp\",\"n\":%d,\"r\":%d,", l, r > 0 ? 1 : r < 0 ? -1 : 0);
        put("x", a, l); fprintf(out, ","); put("y", b, l); fprintf(out, "}\n");
      }
    }
  } else if (style == 1) {
    static const size_t big[] = {127, 128, 255, 256, 257, 511, 512, 513, 1023, 1024, 4095, 4096, 4097, 8192};
    for (size_t i = 0; i < sizeof big / sizeof *big; i++) { mem_one(&s, big[i]); cmp_one(&s, big[i]); }
    mem_one(&s, 65536 + 3);
    cmp_one(&s, 65536 + 3);
  } else
    for (int i = 0; i < n; i++) { mem_one(&s, rnd(&s, 300)); cmp_one(&s, 1 + rnd(&s, 300)); }
}

int main(int argc, char **argv) {
  if (argc < 7) return 2;
  libpath = argv[2], outdir = argv[3];
  int shards = atoi(argv[4]);
  uint64_t seed = strtoull(argv[5], 0, 10);
  int n = atoi(argv[6]);
  char path[600];
  rs = seed;
  if (!strcmp(argv[1], "mem")) {
    for (int i = 0; i < shards; i++) {
      snprintf(path, sizeof path, "%s/trace%d.ndjson", outdir, i);
      out = fopen(path, "w");
      in_child(mem_child, seed * 1000 + i, n, i, "memory primitives");
      fclose(out);
    }
    return 0;
  }
  arena_off = atol(argv[7]), arena_size = atol(argv[8]);
  FILE *f[64];
  for (int i = 0; i < shards; i++) {
    snprintf(path, sizeof path, "%s/trace%d.ndjson", outdir, i);
    f[i] = fopen(path, "w");
  }
  for (int i = 0; i < n; i++) {
    out = f[i % shards];
    uint64_t s = seed * 1000003 + i;
    in_child(seq_session, s, 60 + 40 * (i % 3), i / shards % 6, "one thread");
    in_child(conc_session, s + 500000, 25, i / shards & 1, "several threads");
    for (int k = 0; k < 3; k++) in_child(stress_, s * 3 + k, 0, (i / shards + k) & 1, "several threads, to exhaustion");
  }
  for (int i = 0; i < n / 5 + 4; i++) {
    out = f[i % shards];
    in_child(preempt_session, seed * 99991 + i, 0, -1, "interrupted calls");
  }
  for (int i = 0; i < n / 2 + 4; i++) {
    out = f[i % shards];
    in_child(preempt_session, seed * 77773 + i, 120, i, "interrupted calls");
  }
  for (int i = 0; i < 80 + n; i++) {
    out = f[i % shards];
    in_child(edge_session, seed * 55051 + i, i % 80, i % 80 + 1 + i % 7, "interrupted calls at the end of the arena");
  }
  for (int i = 0; i < shards; i++) fclose(f[i]);
  return 0;
}
