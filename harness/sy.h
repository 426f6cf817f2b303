/* Harness interface: symbolic under the engine (engine/exec.cpp), concrete under
   the native replay runtime (harness/sy_native.c). */
#ifndef SY_H
#define SY_H
int sy_param(int i);                                  /* run parameter */
unsigned char *sy_alloc(unsigned cap, unsigned mis, const char *name); /* base % 64 == mis */
void sy_bytes(void *p, unsigned n, const char *name); /* n arbitrary bytes */
unsigned sy_range(unsigned lo, unsigned hi, const char *name); /* arbitrary value in [lo,hi] */
void sy_limit(void *p, unsigned size);                /* object is logically `size` bytes */
void sy_protect(const void *p, int ro);               /* library must not write the object */
void sy_lib(int on);                                  /* library code runs next */
void sy_fail_alloc(int k);                            /* k-th allocation from now fails (0: none) */
unsigned sy_heap_live(void);                          /* live heap blocks */
int sy_checking(void);                                /* 0: assertions are not judged in this run (the reference need not run) */
void sy_assert(int cond, const char *tag);
void sy_assert_eq(const void *p, const void *q, unsigned n, const char *tag, int idx);
void sy_assert_untainted(const void *p, unsigned n, int tag, const char *name);
void sy_reach(const char *tag);
void sy_on_abort(void (*fn)(void));
unsigned sy_addr_mod(const void *p, unsigned m);
unsigned sy_objsize(const void *p);
void sy_seed_heap(void *p);
#endif
