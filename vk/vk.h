/* Contract-harness support.
 *
 * One harness text serves three readers:
 *   - CBMC (goto-cc defines __CPROVER__): VK_IN_* are unconstrained symbolic
 *     values, VK_REQUIRE is the precondition, VK_ENSURE a named obligation.
 *   - native replay (-DVK_NATIVE): VK_IN_* come from a counterexample file.
 *   - native search (-DVK_NATIVE): VK_IN_* come from a seeded generator.
 *
 * The function under contract is always the one compiled from /repo.
 */
#ifndef VK_H
#define VK_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <limits.h>

#ifndef VK_NATIVE

/* ---- deductive reading ---- */
int                nondet_vk_int(void);
unsigned           nondet_vk_uint(void);
long               nondet_vk_long(void);
unsigned long      nondet_vk_ulong(void);
unsigned char      nondet_vk_u8(void);
char               nondet_vk_char(void);
_Bool              nondet_vk_bool(void);
void              *nondet_vk_ptr(void);

#define VK_REQUIRE(c)        __CPROVER_assume(c)
#define VK_ENSURE(lbl, c)    __CPROVER_assert((c), lbl)
/* vacuity guard: this assertion must be reported FAILED, i.e. reachable */
#define VK_REACH(lbl)        __CPROVER_assert(0, "REACH: " lbl)
#define VK_ASSUME(c)         __CPROVER_assume(c)

static inline int vk_in_int(const char *n)            { int v = nondet_vk_int(); __CPROVER_input(n, v); return v; }
static inline unsigned vk_in_uint(const char *n)      { unsigned v = nondet_vk_uint(); __CPROVER_input(n, v); return v; }
static inline long vk_in_long(const char *n)          { long v = nondet_vk_long(); __CPROVER_input(n, v); return v; }
static inline unsigned long vk_in_ulong(const char *n){ unsigned long v = nondet_vk_ulong(); __CPROVER_input(n, v); return v; }
static inline unsigned char vk_in_u8(const char *n)   { unsigned char v = nondet_vk_u8(); __CPROVER_input(n, v); return v; }
static inline _Bool vk_in_bool(const char *n)         { _Bool v = nondet_vk_bool(); __CPROVER_input(n, v); return v; }

static inline char vk_in_char(const char *n, const char *alpha) { unsigned char v = nondet_vk_u8(); __CPROVER_input(n, v); return (char)v; }

/* a fresh object of n unconstrained bytes, never NULL */
static inline void *vk_alloc(size_t n) { return __CPROVER_allocate(n, 0); }

#define VK_IN_INT(n)    vk_in_int(n)
#define VK_IN_UINT(n)   vk_in_uint(n)
#define VK_IN_LONG(n)   vk_in_long(n)
#define VK_IN_ULONG(n)  vk_in_ulong(n)
#define VK_IN_U8(n)     vk_in_u8(n)
#define VK_IN_BOOL(n)   vk_in_bool(n)
#define VK_NATIVE_ONLY(...)
#define VK_PROOF_ONLY(...) __VA_ARGS__
#define VK_HAVOC_INT()   nondet_vk_int()
#define VK_HAVOC_LONG()  nondet_vk_long()
#define VK_HAVOC_ULONG() nondet_vk_ulong()
#define VK_HAVOC_BOOL()  nondet_vk_bool()
#define VK_HAVOC_CHAR()  nondet_vk_char()
/* record the first bytes of an unconstrained buffer as replayable inputs */
#define VK_LOG_BYTE(nm, v) __CPROVER_input(nm, (v))
#define VK_SAME(p, base, sz) __CPROVER_same_object((p), (base))

#else

/* ---- native reading ---- */
#ifdef __cplusplus
extern "C" {
#endif
void vk_require(int c);
void vk_fail(const char *lbl);
long vk_in(const char *name, long lo, long hi);
void *vk_alloc(size_t n);
char vk_in_char(const char *name, const char *alphabet);
#ifdef __cplusplus
}
#endif
#define VK_REQUIRE(c)        vk_require(!!(c))
#define VK_ASSUME(c)         vk_require(!!(c))
#define VK_ENSURE(lbl, c)    do { if(!(c)) vk_fail(lbl); } while(0)
#define VK_REACH(lbl)        ((void)0)
#define VK_IN_INT(n)    ((int)vk_in(n, INT_MIN, INT_MAX))
#define VK_IN_UINT(n)   ((unsigned)vk_in(n, 0, UINT_MAX))
#define VK_IN_LONG(n)   ((long)vk_in(n, LONG_MIN, LONG_MAX))
#define VK_IN_ULONG(n)  ((unsigned long)vk_in(n, LONG_MIN, LONG_MAX))
#define VK_IN_U8(n)     ((unsigned char)vk_in(n, 0, 255))
#define VK_IN_BOOL(n)   ((_Bool)vk_in(n, 0, 1))
#define VK_NATIVE_ONLY(...) __VA_ARGS__
#define VK_PROOF_ONLY(...)
#define VK_LOG_BYTE(nm, v) ((void)0)
#define VK_SAME(p, base, sz) ((const char *)(p) >= (const char *)(base) && (const char *)(p) < (const char *)(base) + (sz))
#endif

/* bounded choice [lo,hi]: symbolic under CBMC, directly sampled natively */
#ifndef VK_NATIVE
static inline long vk_in_range(const char *n, long lo, long hi) {
  long v = nondet_vk_long(); __CPROVER_assume(v >= lo && v <= hi); __CPROVER_input(n, v); return v;
}
#define VK_IN_RANGE(n, lo, hi) vk_in_range(n, lo, hi)
#else
#define VK_IN_RANGE(n, lo, hi) vk_in(n, lo, hi)
#endif

#ifndef VK_CHAR_OK
#  define VK_CHAR_OK(c) ((c) != 0)
#endif
/* a C string of at most cap-1 characters: fully symbolic under CBMC, drawn
   mostly from an alphabet in native search */
static inline size_t vk_in_str(const char *n, char *buf, size_t cap, const char *alpha) {
  size_t len = (size_t)VK_IN_RANGE("len", 0, (long)cap - 1);
  for(size_t i = 0; i + 1 < cap; i++) {
    char c = vk_in_char(n, alpha);
    if(i < len) { VK_ASSUME(VK_CHAR_OK(c)); buf[i] = c; } else buf[i] = 0;
  }
  buf[cap - 1] = 0;
  return len;
}

/* any text of up to five characters in a char[6] */
#define VK_ANY_TEXT(n, b) do { (b)[0] = vk_in_char(n, "//.ab\\C:~ -"); (b)[1] = vk_in_char(n, "//.ab\\C:~ -"); (b)[2] = vk_in_char(n, "//.ab\\C:~ -"); \
  (b)[3] = vk_in_char(n, "//.ab\\C:~ -"); (b)[4] = vk_in_char(n, "//.ab\\C:~ -"); (b)[5] = 0; } while(0)

#endif
