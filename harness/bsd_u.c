/* C24: contracts of strlcpy, strxcpy and strlcat for texts and buffers of any size.
   The loop contracts are in the source (EVFS_VERIFY); "for every index" is one arbitrary ghost index k. */
#include "common.h"
#include <string.h>
size_t evfs_ghost_k, evfs_ghost_max; char *evfs_ghost_out, evfs_ghost_val; const char *evfs_ghost_src, *evfs_ghost_dst;
#define K evfs_ghost_k
#define OFF(p) ((size_t)__CPROVER_POINTER_OFFSET(p))
#define MAXSZ 0x40000000u
static char *S, *B, *D; static size_t nul, total, sz, g; static char gv;
static size_t C_strlen(const char *s) {
  VK_ENSURE("strlen is asked about the source", s == S); size_t n = VK_HAVOC_ULONG(); VK_ASSUME(n <= nul && S[n] == 0); if(K < n) VK_ASSUME(S[K] != 0); return n;
}
#define strlen C_strlen
#include "src/util/bsd_string.c"
#undef strlen
/* the destination is `sz` bytes somewhere in an object; byte g of that object is watched */
static void target(void) {
  total = VK_IN_ULONG("total"); size_t off = VK_IN_ULONG("off"); sz = VK_IN_ULONG("size"); g = VK_IN_ULONG("guard"); K = VK_IN_ULONG("k");
  VK_REQUIRE(total > 0 && total <= MAXSZ && off <= total && sz <= total - off && g < total);
  B = malloc(total); VK_ASSUME(B); D = B + off; gv = B[g]; evfs_ghost_out = B + g; evfs_ghost_val = gv; evfs_ghost_dst = D;
}
static void source(bool term) {
  nul = VK_IN_ULONG("nul"); VK_REQUIRE(nul < MAXSZ); S = malloc(nul + 1); VK_ASSUME(S); if(term) VK_ASSUME(S[nul] == 0);
  evfs_ghost_max = nul + (S[nul] != 0); evfs_ghost_src = S;
}
/* bytes [from, from + n] of the object are the only ones written */
#define ONLY(from, n) VK_ENSURE("nothing but the copy is written", g >= (from) && g <= (from) + (n) || B[g] == gv)
#define IS_LEN(n) do { VK_ENSURE("the length ends at a NUL", S[n] == 0); if(K < (n)) VK_ENSURE("the length stops at the first NUL", S[K] != 0); } while(0)
void h_strlcpy(void) {
  target(); source(true); size_t r = strlcpy(D, S, sz);
  VK_ENSURE("the source length is returned", r <= nul); IS_LEN(r);
  if(sz == 0) VK_ENSURE("nothing is written", B[g] == gv);
  else { size_t n = r < sz - 1 ? r : sz - 1; ONLY(OFF(D), n); if(K < n) VK_ENSURE("the longest prefix that fits is copied", D[K] == S[K]); VK_ENSURE("NUL terminated", D[n] == 0); }
  VK_REACH("end");
}
void h_strxcpy(void) {
  target(); source(VK_IN_BOOL("terminated")); VK_REQUIRE(S[nul] == 0 || sz == 0 || sz - 1 <= nul + 1);  /* an unterminated source has the bytes asked for, no more */
  size_t r = strxcpy(D, S, sz);
  if(sz == 0) VK_ENSURE("nothing is written", r == 0 && B[g] == gv);
  else {
    VK_ENSURE("the number of copied characters is returned", r <= sz - 1 && r <= nul + 1); VK_ENSURE("all that fits is copied", r == sz - 1 || S[r] == 0);
    if(K < r) { VK_ENSURE("up to the first NUL", S[K] != 0); VK_ENSURE("the text is copied", D[K] == S[K]); } ONLY(OFF(D), r); VK_ENSURE("NUL terminated", D[r] == 0);
  }
  VK_REACH("end");
}
static size_t c_len, c_size; static char *c_dst; static int c_calls;
size_t C_strlcpy(char *d, const char *s, size_t n) { c_calls++; c_dst = d; c_size = n; VK_ENSURE("the source is appended", s == S); VK_ENSURE("into writable bytes", __CPROVER_w_ok(d, n)); return c_len; }
void h_strlcat(void) {
  target(); source(true); c_calls = 0; c_dst = 0; c_size = 0; c_len = VK_IN_ULONG("len"); VK_REQUIRE(c_len <= nul);
  size_t r = strlcat(D, S, sz);
  VK_ENSURE("the rest is left to the copy", B[g] == gv);
  if(sz == 0) VK_ENSURE("nothing is written", c_calls == 0);
  else if(c_calls) {
    size_t o = c_dst - D; VK_ENSURE("one copy of the source to the end of the text", c_calls == 1 && __CPROVER_same_object(c_dst, D) && o < sz && D[o] == 0); if(K < o) VK_ENSURE("the end of the text is its first NUL", D[K] != 0);
    VK_ENSURE("within the given size", c_size == sz - o); VK_ENSURE("both lengths are returned", r == o + c_len);
  } else { if(K < sz) VK_ENSURE("only a text without NUL is left alone", D[K] != 0); VK_ENSURE("size and source length are returned", r >= sz && r - sz <= nul); IS_LEN(r - sz); }
  VK_REACH("end");
}
