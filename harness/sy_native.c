/* Native runtime for the harnesses: replays the inputs of a counterexample (or
   pseudo-random inputs when the file gives none) against the really compiled library.
   Lines of kind "heap" give the contents of the library's allocations in order, "stack" the byte the
   stack is filled with before library code runs.
   usage: prog INPUTS PARAM...   INPUTS: lines "name kind hex", or "-" / "seed:N".
   Prints ASSERT-FAIL/EVENT lines; exit 1 when there is one, 0 otherwise. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include "sy.h"
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define POISON(p, n) __asan_poison_memory_region(p, n)
#define UNPOISON(p, n) __asan_unpoison_memory_region(p, n)
#else
#define POISON(p, n) ((void)0)
#define UNPOISON(p, n) ((void)0)
#endif
void SY_ENTRY(void);

static int nparams; static long params[64]; static int bad;
static char **heaps; static int nheaps, curheap, stackfill = -1; static char **recs; static int nrecs, cur; static uint64_t rng = 1;
static uint64_t rnd(void) { uint64_t z = (rng += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
#define MAXOBJ 4096
#define RZ 128
static struct { unsigned char *base, *snap; unsigned cap, lim; int ro; char name[32]; unsigned char *lo; unsigned total; } ob[MAXOBJ]; static int nob;
static struct { void *p; size_t n; int live; } hp[4096]; static int nhp; static int fail_at, alloc_no;
static void (*on_abort)(void); static int in_lib;

static void fail(const char *kind, const char *tag, int idx, int byte) { if (bad++ < 20) { printf("%s %s item=%d byte=%d\n", kind, tag, idx, byte); fflush(stdout); } }

int sy_checking(void) { return 1; }
int sy_param(int i) { return i < nparams ? (int)params[i] : 0; }
static int find(const void *p) { int i; const unsigned char *q = p; for (i = nob - 1; i >= 0; i--) if (q >= ob[i].base && q < ob[i].base + (ob[i].cap ? ob[i].cap : 1)) return i; return -1; }
unsigned char *sy_alloc(unsigned cap, unsigned mis, const char *name)
{
  void *m; unsigned total = ((cap + 63) & ~63u) + 4 * RZ;
  if (nob >= MAXOBJ || posix_memalign(&m, 64, total)) { puts("NATIVE-ERROR alloc"); exit(3); }
  memset(m, 0xc5, total);
  ob[nob].lo = m; ob[nob].total = total; ob[nob].base = (unsigned char *)m + RZ + (mis & 63); ob[nob].cap = cap; ob[nob].lim = cap; snprintf(ob[nob].name, 32, "%s", name);
  memset(ob[nob].base, 0, cap);
  return ob[nob++].base;
}
static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static int next(unsigned char *out, unsigned n)
{
  const char *h; unsigned k;
  if (cur >= nrecs) return 0;
  h = strrchr(recs[cur++], ' '); if (!h) return 0; h++;
  for (k = 0; k < n && h[2 * k] > ' ' && h[2 * k + 1] > ' '; k++) out[k] = hexv(h[2 * k]) << 4 | hexv(h[2 * k + 1]);
  return 1;
}
void sy_bytes(void *p, unsigned n, const char *name) { unsigned k; unsigned char *d = p; (void)name; if (!next(d, n)) for (k = 0; k < n; k++) d[k] = rnd(); }
unsigned sy_range(unsigned lo, unsigned hi, const char *name)
{
  unsigned char b[4] = {0}; (void)name;
  if (next(b, 4)) return b[0] | b[1] << 8 | b[2] << 16 | (unsigned)b[3] << 24;
  return lo + rnd() % ((uint64_t)hi - lo + 1);
}
void sy_limit(void *p, unsigned size) { int i = find(p); if (i >= 0) ob[i].lim = size < ob[i].cap ? size : ob[i].cap; }
void sy_protect(const void *p, int ro)
{
  int i = find(p), j; if (i >= 0) { ob[i].ro = ro; return; }
  for (j = 0; j < nhp; j++) if (hp[j].live && hp[j].p == p) { i = nob++; ob[i].base = hp[j].p; ob[i].cap = ob[i].lim = hp[j].n; ob[i].ro = ro; ob[i].lo = 0; snprintf(ob[i].name, 32, "context"); return; }
}
static void __attribute__((noinline)) dirty_stack(void) { volatile unsigned char a[49152]; unsigned i; for (i = 0; i < sizeof a; i++) a[i] = stackfill; }
static void fpu_check(void)
{
#if defined(__x86_64__) || defined(__i386__)
  unsigned env[7]; __asm__ volatile ("fnstenv %0\n\tfldenv %0" : "+m"(env));
  if ((env[2] & 0xffff) != 0xffff) { __asm__ volatile ("emms"); fail("EVENT", "fpu-state", 0, 0); }
#endif
}
void sy_lib(int on)
{
  int i; unsigned k; in_lib = 0;
  for (i = 0; i < nob; i++) {
    if (on) {
      if (ob[i].ro && !ob[i].snap) ob[i].snap = malloc(ob[i].cap + 1);
      if (ob[i].snap) memcpy(ob[i].snap, ob[i].base, ob[i].cap);
      if (ob[i].lo) { POISON(ob[i].lo, (size_t)(ob[i].base - ob[i].lo) & ~7ul); POISON(ob[i].base + ob[i].lim, ob[i].lo + ob[i].total - ob[i].base - ob[i].lim); }
    } else {
      if (ob[i].lo) UNPOISON(ob[i].lo, ob[i].total);
      if (ob[i].ro && ob[i].snap && memcmp(ob[i].snap, ob[i].base, ob[i].cap)) fail("EVENT", "readonly-write", i, 0);
      if (ob[i].lo) for (k = 0; k < ob[i].total; k++) if (ob[i].lo + k < ob[i].base || ob[i].lo + k >= ob[i].base + ob[i].cap) if (ob[i].lo[k] != 0xc5) { fail("EVENT", "oob-write", i, (int)(ob[i].lo + k - ob[i].base)); ob[i].lo[k] = 0xc5; }
    }
  }
  if (!on) fpu_check();
  if (on && stackfill >= 0) dirty_stack();
  in_lib = on;
}
void sy_fail_alloc(int k) { fail_at = k; alloc_no = 0; }
unsigned sy_heap_live(void) { int i; unsigned n = 0; for (i = 0; i < nhp; i++) n += hp[i].live; return n; }
void sy_assert(int cond, const char *tag) { if (!cond) fail("ASSERT-FAIL", tag, 0, 0); }
void sy_assert_eq(const void *p, const void *q, unsigned n, const char *tag, int idx)
{
  const unsigned char *a = p, *b = q; unsigned k;
  for (k = 0; k < n; k++) if (a[k] != b[k]) { fail("ASSERT-FAIL", tag, idx, k); printf("  got %02x expected %02x\n", a[k], b[k]); return; }
}
void sy_assert_untainted(const void *p, unsigned n, int tag, const char *name) {
  const unsigned char *a = p; unsigned k; (void)tag; printf("OUT %s ", name); for (k = 0; k < n; k++) printf("%02x", a[k]); puts("");
}
void sy_reach(const char *tag) { printf("REACH %s\n", tag); fflush(stdout); }
void sy_on_abort(void (*fn)(void)) { on_abort = fn; }
unsigned sy_addr_mod(const void *p, unsigned m) { return (uintptr_t)p % m; }
unsigned sy_objsize(const void *p) { int i = find(p), j; if (i >= 0) return ob[i].cap; for (j = 0; j < nhp; j++) if (hp[j].live && hp[j].p == p) return hp[j].n; return 0; }
void sy_seed_heap(void *p) { int j; for (j = 0; j < nhp; j++) if (hp[j].live && hp[j].p == p) { sy_bytes(p, hp[j].n, "heap"); return; } }
static void done(void) { int b = bad; fflush(stdout); _exit(b ? 1 : 0); }
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) __attribute__((noreturn));
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn)
{ printf("ABORT %s at %s:%u %s\n", e, f, l, fn); sy_lib(0); if (on_abort) on_abort(); else bad++; done(); for (;;) ; }

/* allocator entry points of the library (linked with --wrap) */
void *__real_malloc(size_t); void __real_free(void *); int __real_posix_memalign(void **, size_t, size_t); void *__real_calloc(size_t, size_t);
static int failing(void) { if (!in_lib) return 0; alloc_no++; return fail_at && alloc_no == fail_at; }
static void fill(unsigned char *p, size_t n)
{
  size_t k; const char *h; memset(p, 0xaa, n);
  if (curheap < nheaps && (h = strrchr(heaps[curheap++], ' '))) for (h++, k = 0; k < n && h[2 * k] > ' ' && h[2 * k + 1] > ' '; k++) p[k] = hexv(h[2 * k]) << 4 | hexv(h[2 * k + 1]);
}
static void *note(void *p, size_t n) { if (in_lib && p && nhp < 4096) { fill(p, n); hp[nhp].p = p; hp[nhp].n = n; hp[nhp++].live = 1; } return p; }
void *__wrap_malloc(size_t n) { return failing() ? NULL : note(__real_malloc(n), n); }
void *__wrap_calloc(size_t a, size_t b) { void *p; if (failing()) return NULL; p = note(__real_malloc(a * b), a * b); if (p) memset(p, 0, a * b); return p; }
int __wrap_posix_memalign(void **o, size_t al, size_t n) { int r; if (failing()) return 12; r = __real_posix_memalign(o, al, n); if (!r) note(*o, n); return r; }
void __wrap_free(void *p)
{
  int j; if (p && in_lib) { for (j = nhp - 1; j >= 0; j--) if (hp[j].p == p) { if (hp[j].live) { hp[j].live = 0; break; } fail("EVENT", "double-free", 0, 0); return; }
    if (j < 0) { fail("EVENT", "bad-free", 0, 0); return; } }
  __real_free(p);
}
int main(int argc, char **argv)
{
  int i; char *line = NULL; size_t cap = 0;
  if (argc > 1 && !strncmp(argv[1], "seed:", 5)) rng = strtoull(argv[1] + 5, 0, 0) * 7919 + 1;
  else if (argc > 1 && strcmp(argv[1], "-")) {
    FILE *f = fopen(argv[1], "r"); ssize_t n; if (!f) { puts("NATIVE-ERROR input"); return 3; }
    while ((n = getline(&line, &cap, f)) > 0) { while (n && (line[n - 1] == '\n' || line[n - 1] == '\r')) line[--n] = 0; 
      if (strstr(line, " stack ")) stackfill = (int)strtol(strrchr(line, ' '), 0, 16);
      else if (strstr(line, " heap ")) { heaps = realloc(heaps, (nheaps + 1) * sizeof *heaps); heaps[nheaps++] = strdup(line); }
      else { recs = realloc(recs, (nrecs + 1) * sizeof *recs); recs[nrecs++] = strdup(line); } }
    fclose(f);
  }
  for (i = 2; i < argc && nparams < 64; i++) params[nparams++] = strtol(argv[i], 0, 0);
  SY_ENTRY();
  done(); return 0;
}
