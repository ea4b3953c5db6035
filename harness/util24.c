/* C24: search, integer and byte-order helpers, bounded string copies. */
#include "vk.h"
#include "util/search.h"
#include "util/intmath.h"
#include "util/unaligned_access.h"
#include "bsd/string.h"

/* ---------------- sorted search
   The array is abstract: only the sign structure of the comparison matters, so any sorted array of num items is
   three numbers: items [0,A) are below the key, [A,B) equal it, [B,num) are above it. */
#define NATIVE_MAX 70000
#ifndef SN_MAX
#ifdef VK_NATIVE
#define SN_MAX NATIVE_MAX
#else
#define SN_MAX (1L << 40)
#endif
#endif
#ifndef ISZ
#define ISZ 1
#endif
static long s_num, s_dlo, s_dhi;
#define s_A evfs_ghost_lo
#define s_B evfs_ghost_hi
long evfs_ghost_lo, evfs_ghost_hi;   /* also read by the loop contracts in search.c */
static char s_key;
static char *s_base;
static bool s_bad;
static long s_prev;
static ptrdiff_t key_vs(long i) {   /* key - item[i] */
  if(i < 0 || i >= s_num) { s_bad = true; return 0; }
  if(i >= s_A && i < s_B) return 0;
  if(i == s_A - 1) return s_dlo;
  if(i == s_B) return -s_dhi;
  return i < s_A ? s_dlo + (s_A - 1 - i) : -(s_dhi + (i - s_B));
}
static ptrdiff_t cmp_near(const void *a, const void *b) {
  VK_ENSURE("one side of each comparison is the key", (a == &s_key) != (b == &s_key));
  if(a == &s_key) {
    ptrdiff_t off = (const char *)b - s_base;
    VK_ENSURE("compared item is an array element", off % ISZ == 0 && off >= 0 && off / ISZ < s_num);
    return key_vs(off / ISZ);
  }
  ptrdiff_t off = (const char *)a - s_base;
  VK_ENSURE("compared item is an array element", off % ISZ == 0 && off >= 0 && off / ISZ < s_num);
  return -key_vs(off / ISZ);
}
static void sn_setup(long lo) {
  s_num = VK_IN_RANGE("num", lo, SN_MAX); s_A = VK_IN_RANGE("A", 0, SN_MAX); s_B = VK_IN_RANGE("B", 0, SN_MAX);
#ifdef VK_NATIVE
  if(s_num) { s_A %= s_num + 1; s_B %= s_num + 1; } else s_A = s_B = 0;
  if(s_B < s_A) s_B = s_A;
#endif
  VK_REQUIRE(s_A <= s_B && s_B <= s_num);
  s_dlo = VK_IN_RANGE("dlo", 1, 1L << 40); s_dhi = VK_IN_RANGE("dhi", 1, 1L << 40);
  s_bad = false;
#ifdef VK_NATIVE
  static char big[NATIVE_MAX * ISZ + 1]; s_base = big;    /* never dereferenced */
#else
  static char *arr; arr = __CPROVER_allocate((size_t)s_num * ISZ + 1, 0); s_base = arr;
#endif
}
GEN_BSEARCH_FUNC(gen_bsearch, cmp_near)

void h_search_exact(void) {
  sn_setup(0);
  ptrdiff_t r = search_exact(&s_key, s_base, s_num, ISZ, cmp_near);
  VK_ENSURE("an equal element is found if and only if one exists", (r == -1) == (s_A == s_B));
  VK_ENSURE("the element found equals the key", r == -1 || r >= s_A && r < s_B);
  VK_REACH("search_exact end");
}
void h_gen_bsearch(void) {
  sn_setup(0);
  void *p = gen_bsearch(&s_key, s_base, s_num, ISZ);
  VK_ENSURE("the generated search agrees", (p == NULL) == (s_A == s_B));
  VK_ENSURE("the generated search returns an equal element", !p || ((char *)p - s_base) / ISZ >= s_A && ((char *)p - s_base) / ISZ < s_B);
  VK_REACH("gen_bsearch end");
}
void h_search_nearest(void) {
  sn_setup(1);
  size_t r = search_nearest(&s_key, s_base, s_num, ISZ, cmp_near);
  VK_ENSURE("index is valid", r < (size_t)s_num);
  if(s_A < s_B) VK_ENSURE("an equal element is preferred", (long)r >= s_A && (long)r < s_B);
  else if(s_A == 0) VK_ENSURE("key below all elements gives the first", r == 0);
  else if(s_A == s_num) VK_ENSURE("key above all elements gives the last", (long)r == s_num - 1);
  else {
    VK_ENSURE("result is a neighbour of the key", (long)r == s_A - 1 || (long)r == s_A);
    VK_ENSURE("no element is nearer", (long)r == s_A ? s_dhi <= s_dlo : s_dlo <= s_dhi);
  }
  VK_REACH("search_nearest end");
}
void h_search_bound(void) {
  sn_setup(1);
  size_t a = search_nearest_above(&s_key, s_base, s_num, ISZ, cmp_near);
  VK_ENSURE("above: index is valid", a < (size_t)s_num);
  VK_ENSURE("above: nearest element not below the key, or the last", s_A < s_B ? (long)a >= s_A && (long)a < s_B : s_A == s_num ? (long)a == s_num - 1 : (long)a == s_A);
  size_t b = search_nearest_below(&s_key, s_base, s_num, ISZ, cmp_near);
  VK_ENSURE("below: index is valid", b < (size_t)s_num);
  VK_ENSURE("below: nearest element not above the key, or the first", s_A < s_B ? (long)b >= s_A && (long)b < s_B : s_A == 0 ? b == 0 : (long)b == s_A - 1);
  VK_REACH("search_bound end");
}
/* the contract of search_nearest, for its callers */
size_t C_search_nearest(const void *key, const void *base, size_t num, size_t item_size, CompareNearFunc f) {
#ifndef VK_NATIVE
  VK_ENSURE("search_nearest requires a non-empty array", num >= 1 && num == (size_t)s_num && base == s_base && item_size == ISZ && key == &s_key && f == cmp_near);
  size_t r = nondet_vk_ulong();
  VK_ASSUME(r < num);
  if(s_A < s_B) VK_ASSUME((long)r >= s_A && (long)r < s_B);
  else if(s_A == 0) VK_ASSUME(r == 0);
  else if(s_A == s_num) VK_ASSUME((long)r == s_num - 1);
  else VK_ASSUME((long)r == s_A ? s_dhi <= s_dlo : (long)r == s_A - 1 && s_dlo <= s_dhi);
  return r;
#else
  return 0;
#endif
}

/* ---------------- integer helpers */
void h_pow2(void) {
  uint32_t x = VK_IN_UINT("x");
  VK_REQUIRE(x >= 1);
  uint32_t f = floor_pow2(x);
  VK_ENSURE("floor_pow2 is a power of two", f != 0 && (f & (f - 1)) == 0);
  VK_ENSURE("floor_pow2 is the largest not above x", f <= x && x - f < f);
  if(x <= 0x80000000u) {
    uint32_t c = ceil_pow2(x);
    VK_ENSURE("ceil_pow2 is a power of two", c != 0 && (c & (c - 1)) == 0);
    VK_ENSURE("ceil_pow2 is the least not below x", c >= x && (c == 1 || c / 2 < x));
  }
  VK_REACH("pow2 end");
}
void h_ilog10(void) {
  uint32_t n = VK_IN_UINT("n");
  static const uint64_t P[] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000, 10000000000};
  unsigned d = base10_digits(n);
  VK_ENSURE("base10_digits is the length of the decimal form", d >= 1 && d <= 10 && (n == 0 ? d == 1 : n >= P[d - 1] && n < P[d]));
  VK_REQUIRE(n >= 1);
  unsigned l = ilog10(n);
  VK_ENSURE("ilog10 is floor(log10(n))", l <= 9 && n >= P[l] && n < P[l + 1]);
  VK_REACH("ilog10 end");
}
void h_ilog_b(void) {
#ifdef LOGB
  unsigned b = LOGB;
#else
  unsigned b = (unsigned)VK_IN_RANGE("base", 2, 0x7fffffff);
#endif
  unsigned n = VK_IN_UINT("n");
#ifdef LOGB_MAX
  VK_REQUIRE(n <= LOGB_MAX);
#endif
  VK_REQUIRE(n >= 1);
  unsigned l = ilog_b(n, b);
  uint64_t p = 1;
  VK_ENSURE("ilog_b is below the bit count", l < 32);
  for(unsigned i = 0; i < 32; i++) if(i < l) { p *= b; VK_ENSURE("base^ilog_b does not exceed n", p <= n); }
  VK_ENSURE("base^(ilog_b+1) exceeds n", p * b > n);
  VK_REACH("ilog_b end");
}
/* the fixed-point logarithm approximates log2 by interpolating 64 segments: exact at powers of two, monotone, and
   within the interpolation error of the true value (checked natively against libm) */
void h_log2(void) {
  uint32_t n = VK_IN_UINT("n");
  unsigned e = (unsigned)VK_IN_RANGE("fp_exp", 0, 31);
  VK_REQUIRE(n >= 1);
  int32_t v = log2_fixed(n, e);
  unsigned k = 0;
  for(int i = 31; i >= 0; i--) if(n >> i) { k = i; break; }
  long lo = ((long)k - (long)e) * 32768, hi = lo + 32768;
  VK_ENSURE("log2_fixed lies in the octave of n", v >= lo && v <= hi);
  VK_ENSURE("log2_fixed is exact for powers of two", (n & (n - 1)) || v == lo);
  VK_REACH("log2 end");
}

/* ---------------- byte order */
#define RT(W, T, U) \
  { U x = (U)v; T back; uint8_t b[8 + 2], c[8 + 2]; const int n = sizeof(U); \
    for(int i = 0; i < 10; i++) b[i] = c[i] = 0xA5; \
    set_unaligned_##W##be((T)x, b + 1); set_unaligned_##W##le((T)x, c + 1); \
    for(int i = 0; i < n; i++) { \
      VK_ENSURE("set " #W "be stores the most significant byte first", b[1 + i] == (uint8_t)(x >> (8 * (n - 1 - i)))); \
      VK_ENSURE("set " #W "le stores the least significant byte first", c[1 + i] == (uint8_t)(x >> (8 * i))); } \
    VK_ENSURE("set " #W " writes only its bytes", b[0] == 0xA5 && c[0] == 0xA5 && b[n + 1] == 0xA5 && c[n + 1] == 0xA5); \
    VK_ENSURE("get " #W "be inverts set", (U)get_unaligned_##W##be(b + 1) == x && sizeof(get_unaligned_##W##be(b + 1)) == sizeof(U)); \
    VK_ENSURE("get " #W "le inverts set", (U)get_unaligned_##W##le(c + 1) == x && sizeof(get_unaligned_##W##le(c + 1)) == sizeof(U)); \
    set_unaligned_##W((T)x, b + 1); memcpy(&back, b + 1, sizeof back); \
    VK_ENSURE("set " #W " is the native layout", back == (T)x); \
    VK_ENSURE("get " #W " inverts set", get_unaligned_##W(b + 1) == (T)x && b[0] == 0xA5 && b[n + 1] == 0xA5); }
void h_byte_order(void) {
  uint64_t v = VK_IN_ULONG("v");
  RT(u16, uint16_t, uint16_t) RT(s16, int16_t, uint16_t) RT(u32, uint32_t, uint32_t) RT(s32, int32_t, uint32_t)
  RT(u64, uint64_t, uint64_t) RT(s64, int64_t, uint64_t)
  VK_REACH("byte order end");
}

/* ---------------- bounded string copies */
#ifndef SL
#define SL 8
#endif
/* the destination ends where its buffer ends, so that nothing behind it can be touched */
static char *sbuf;
static void str_setup(char *src, char **dst, char **dst0, size_t *sl, size_t *size) {
  static char b[2 * SL], b0[2 * SL];
  *sl = vk_in_str("src", src, SL, "abc");
  for(size_t i = 0; i < 2 * SL; i++) b0[i] = b[i] = vk_in_char("dst", "xyz\0");
  *size = (size_t)VK_IN_RANGE("size", 0, SL);
  sbuf = b; *dst = b + 2 * SL - *size; *dst0 = b0 + 2 * SL - *size;
#ifdef VK_NATIVE
  sbuf = malloc(2 * SL); memcpy(sbuf, b, 2 * SL); *dst = sbuf + 2 * SL - *size;   /* the sanitizer watches its end */
#endif
}
static void str_front(char *dst, char *d0) { for(size_t i = 0; i < 2 * SL && sbuf + i < dst; i++) VK_ENSURE("nothing is written in front", sbuf[i] == (d0 - (dst - sbuf))[i]); VK_NATIVE_ONLY(free(sbuf);) }
void h_strlcpy(void) {
  char src[SL], *dst, *d0; size_t sl, size;
  str_setup(src, &dst, &d0, &sl, &size);
  size_t r = strlcpy(dst, src, size);
  VK_ENSURE("strlcpy returns the source length", r == sl);
  for(size_t i = 0; i < size; i++) {
    if( i > sl) VK_ENSURE("strlcpy writes only the copy", dst[i] == d0[i]);
    else VK_ENSURE("strlcpy copies the longest fitting prefix and a NUL", dst[i] == (i == sl || i == size - 1 ? 0 : src[i]));
  }
  str_front(dst, d0);
  VK_REACH("strlcpy end");
}
void h_strxcpy(void) {
  char src[SL], *dst, *d0; size_t sl, size;
  str_setup(src, &dst, &d0, &sl, &size);
  /* the source need not be terminated: at most size-1 bytes of it are read */
  size_t cnt = size == 0 ? 0 : sl < size - 1 ? sl : size - 1;
  size_t need = cnt == sl && size > 0 && cnt < size - 1 ? cnt + 1 : cnt;
  char *heap = vk_alloc(need);
  memcpy(heap, src, need);
  size_t r = strxcpy(dst, heap, size);
  VK_ENSURE("strxcpy returns the number of characters copied", r == cnt);
  for(size_t i = 0; i < size; i++) {
    if( i > sl) VK_ENSURE("strxcpy writes only the copy", dst[i] == d0[i]);
    else VK_ENSURE("strxcpy copies the longest fitting prefix and a NUL", dst[i] == (i == cnt ? 0 : src[i]));
  }
  str_front(dst, d0);
  VK_REACH("strxcpy end");
}
void h_strlcat(void) {
  char src[SL], *dst, *d0; size_t sl, size;
  str_setup(src, &dst, &d0, &sl, &size);
  size_t dl = 0; while(dl < size && dst[dl]) dl++;
  size_t r = strlcat(dst, src, size);
  if(size == 0) VK_ENSURE("strlcat without space does nothing", true);
  else VK_ENSURE("strlcat returns the length it tried to create", r == dl + sl);
  for(size_t i = 0; i < size; i++) {
    if(i < dl || i > dl + sl) VK_ENSURE("strlcat writes only the appended text", dst[i] == d0[i]);
    else VK_ENSURE("strlcat appends the longest fitting prefix and a NUL", dst[i] == (i == dl + sl || i == size - 1 ? 0 : src[i - dl]));
  }
  str_front(dst, d0);
  VK_REACH("strlcat end");
}
