/* C07, C08: contracts of the string range functions for ranges and texts of any size (to 1 GiB: the results are ints).
   The loop contracts are in the source (EVFS_VERIFY); "for every index" is one arbitrary ghost index k. */
#include "common.h"
#include <stdarg.h>
#include <ctype.h>
size_t evfs_ghost_k, evfs_ghost_max; char *evfs_ghost_out, evfs_ghost_val; _Bool evfs_ghost_all; const char *evfs_ghost_base;
size_t evfs_ghost_puts; int evfs_ghost_putch; void *evfs_ghost_stream; static char g_file;
#define OFF(p) ((size_t)__CPROVER_POINTER_OFFSET(p))
#ifndef MAXSZ
#define MAXSZ 0x40000000u
#endif
#undef isspace
#undef isdigit
#define isspace(c) ((c) == ' ' || (c) >= '\t' && (c) <= '\r')
#define isdigit(c) ((c) >= '0' && (c) <= '9')
static bool DL[256]; static const char g_delim[] = ",";   /* any delimiter set */
#undef strchr
#define strchr(d, c) (DL[(unsigned char)(c)] || !(c))
/* libc contracts over the text S of nul + 1 bytes: some NUL is at index nul */
static char *S; static size_t nul;
static size_t C_strlen(const char *s) {
  VK_ENSURE("strlen is asked about the source text", __CPROVER_same_object(s, S) && OFF(s) <= nul);
  size_t n = VK_HAVOC_ULONG(), o = OFF(s); VK_ASSUME(n <= nul - o && s[n] == 0); if(evfs_ghost_k >= o && evfs_ghost_k - o < n) VK_ASSUME(S[evfs_ghost_k] != 0); return n;
}
static size_t C_strnlen(const char *s, size_t m) {
  VK_ENSURE("strnlen stays in its object", __CPROVER_r_ok(s, m)); size_t n = VK_HAVOC_ULONG(), o = OFF(s) - OFF(evfs_ghost_base);
  VK_ASSUME(n <= m); if(n < m) VK_ASSUME(s[n] == 0); if(evfs_ghost_k >= o && evfs_ghost_k - o < n) VK_ASSUME(evfs_ghost_base[evfs_ghost_k] != 0);
  if(n > 0) VK_ASSUME(s[n - 1] != 0); evfs_ghost_max = n; return n;
}
static size_t span(const char *s, bool in) {
  VK_ENSURE("the rest of the text is scanned", __CPROVER_same_object(s, S) && OFF(s) <= nul); size_t n = VK_HAVOC_ULONG(), o = OFF(s); VK_ASSUME(n <= nul - o);
  if(in) VK_ASSUME(!DL[(unsigned char)s[n]]); else VK_ASSUME(DL[(unsigned char)s[n]] || !s[n]);
  if(evfs_ghost_k >= o && evfs_ghost_k - o < n) VK_ASSUME(S[evfs_ghost_k] && DL[(unsigned char)S[evfs_ghost_k]] == in); if(in && evfs_ghost_all && o + n <= evfs_ghost_k) VK_ASSUME(s[n]); return n;
}
static size_t C_strspn(const char *s, const char *d) { VK_ENSURE("the given delimiters", d == g_delim); return span(s, true); }
static size_t C_strcspn(const char *s, const char *d) { VK_ENSURE("the given delimiters", d == g_delim); return span(s, false); }
#define strlen C_strlen
#define strnlen C_strnlen
#define strspn C_strspn
#define strcspn C_strcspn
#undef putc
#define putc(c, f) (evfs_ghost_stream = (void *)(f), evfs_ghost_puts++ == evfs_ghost_k ? (evfs_ghost_putch = (c)) : (c))
static long g_vsn;
/* vsnprintf of the C standard: writes at most n bytes, NUL terminated, and returns the full length */
static int C_vsnprintf(char *b, size_t n, const char *f, va_list a) {
  if(n > 0) { VK_ENSURE("vsnprintf is given writable bytes", __CPROVER_w_ok(b, n)); size_t w = g_vsn < 0 ? 0 : (size_t)g_vsn < n ? (size_t)g_vsn : n - 1; char k = 0, o = *evfs_ghost_out; 
    size_t off = OFF(b); __CPROVER_havoc_slice(b, n); b[w] = 0; if(evfs_ghost_k < w) b[evfs_ghost_k] = 'v'; }
  return (int)g_vsn;
}
#undef vsnprintf
#define vsnprintf C_vsnprintf
#include "src/util/range_strings.c"
#undef strlen

static char *B, *D; static size_t sz, g; static char gv; static AppendRange R;
#define K evfs_ghost_k
static void target(size_t lo) {
  size_t total = VK_IN_ULONG("total"), off = VK_IN_ULONG("off"); sz = VK_IN_ULONG("size"); g = VK_IN_ULONG("guard"); K = VK_IN_ULONG("k");
  VK_REQUIRE(total > 0 && total <= MAXSZ && off >= lo && off <= total && sz <= total - off);
  B = malloc(total); VK_ASSUME(B); D = B + off; R.start = D; R.end = D + sz;
  VK_REQUIRE(g < total); gv = B[g]; evfs_ghost_out = B + g; evfs_ghost_val = gv;
}
static void source(void) { nul = VK_IN_ULONG("nul"); VK_REQUIRE(nul < MAXSZ); S = malloc(nul + 1); VK_ASSUME(S); VK_ASSUME(S[nul] == 0); evfs_ghost_max = nul; evfs_ghost_base = S; }
#define UNTOUCHED(n) do { VK_ENSURE("nothing is written outside the range or behind the result", OFF(B + g) >= OFF(D) && g < OFF(D) + (n) || B[g] == gv); VK_ENSURE("the range end stays", R.end == D + sz); } while(0)
#define GUARD UNTOUCHED(0)   /* nothing is written at all */
/* the length n is that of the text: nothing before n is NUL, and n is its NUL or its end */
#define IS_LEN(n, end) do { VK_ENSURE("the length is that of the text", (n) == (end) || S[n] == 0); if(K < (n)) VK_ENSURE("the length stops at the first NUL", S[K] != 0); } while(0)
static void appended(int r, size_t end, bool term) {
  if(R.start != D || r > 0 || r == 0 && sz > 0) {
    VK_ENSURE("the number of appended characters is reported", r >= 0 && (size_t)r < sz && R.start == D + r);
    IS_LEN((size_t)r, end); if(K < (size_t)r) VK_ENSURE("the appended text is the given text", D[K] == S[K]);
    if(term) VK_ENSURE("the text is NUL terminated", D[r] == 0);
    UNTOUCHED((size_t)r + term);
  } else {
    UNTOUCHED(sz);
    size_t l = (size_t)-(long)r; VK_ENSURE("only text that does not fit is refused", r <= 0 && l >= sz); IS_LEN(l, end);
    if(sz > 0) VK_ENSURE("the partial text is wiped", D[0] == 0);
  }
}
void h_cat_str(void) { target(0); source(); appended(range_cat_str(&R, S), nul, true); VK_REACH("end"); }
void h_cat_str_nn(void) { target(0); source(); appended(range_cat_str_no_nul(&R, S), nul, false); VK_REACH("end"); }
static StringRange Q;
static void srange(void) { size_t t = VK_IN_ULONG("stotal"), q = VK_IN_ULONG("qsize"); VK_REQUIRE(t > 0 && t <= MAXSZ && q <= t); S = malloc(t); VK_ASSUME(S); Q.start = S; Q.end = S + q; evfs_ghost_max = q; evfs_ghost_base = S; }
void h_cat_range(void) { target(0); srange(); size_t q = evfs_ghost_max; appended(range_cat_range(&R, &Q), q, true); VK_REACH("end"); }
void h_cat_range_nn(void) { target(0); srange(); size_t q = evfs_ghost_max; appended(range_cat_range_no_nul(&R, &Q), q, false); VK_REACH("end"); }
/* the no_nul variants leave everything behind the appended text alone: the guard is any byte of the buffer at or behind index n */
void h_copy_str(void) {
  target(0); source(); bool tr = VK_IN_BOOL("trunc"); int r = range_copy_str(&R, S, tr); UNTOUCHED(r > 0 ? (size_t)r + 1 : sz);
  VK_ENSURE("a copy does not move the range", R.start == D);
  if(r > 0 || r == 0 && sz > 0) { VK_ENSURE("the copied text fits", (size_t)r < sz && D[r] == 0); IS_LEN((size_t)r, nul); if(K < (size_t)r) VK_ENSURE("the copy is the given text", D[K] == S[K]); }
  else if(!tr) { size_t l = (size_t)-(long)r; VK_ENSURE("only text that does not fit is refused", l >= sz); IS_LEN(l, nul); if(sz) VK_ENSURE("the partial text is wiped", D[0] == 0); }
  else {
    size_t n = (size_t)(-(long)r - 1); VK_ENSURE("the longest fitting prefix is copied", r < 0 && n == (sz ? sz - 1 : 0)); if(sz) VK_ENSURE("the prefix is NUL terminated", D[n] == 0);
    if(K < n) VK_ENSURE("the prefix is the given text", D[K] == S[K] && S[K] != 0);
  }
  VK_REACH("end");
}
void h_strlen(void) {
  target(0); S = D; Q.start = D; Q.end = D + sz; size_t n = range_strlen(&Q); VK_ENSURE("the length stays in the range", n <= sz); IS_LEN(n, sz); GUARD; VK_REACH("end");
}
static size_t g_len;
size_t C_rlen(StringRange *r) { VK_ENSURE("length of this range", r->start == D && r->end == D + sz); return g_len; }
void h_pad(void) {
  size_t total = VK_IN_ULONG("total"), off = VK_IN_ULONG("off"); sz = VK_IN_ULONG("size"); g = VK_IN_ULONG("guard"); K = VK_IN_ULONG("k"); g_len = VK_IN_ULONG("len"); char p = VK_IN_U8("pad");
  VK_REQUIRE(total > 0 && total <= MAXSZ && off <= total && sz <= total - off && g_len <= sz && g < total);
  B = malloc(total); VK_ASSUME(B); D = B + off; Q.start = D; Q.end = D + sz; VK_REQUIRE(g_len == sz || D[g_len] == 0);
  bool pads = sz > 0 && g_len < sz - 1; gv = B[g]; evfs_ghost_out = B + g; evfs_ghost_val = gv;
  int r = range_pad_right(&Q, p);
  VK_ENSURE("nothing outside the range and none of the text is written", pads && g >= off + g_len && g < off + sz || B[g] == gv); VK_ENSURE("the range stays", Q.start == D && Q.end == D + sz);
  VK_ENSURE("the number of pad characters is reported", (size_t)r == (pads ? sz - 1 - g_len : 0));
  if(pads) { VK_ENSURE("terminated at the end", D[sz - 1] == 0); if(K >= g_len && K < sz - 1) VK_ENSURE("the rest is padding", D[K] == p); }
  VK_REACH("end");
}
void h_ltrim(void) {
  target(0); Q.start = D; Q.end = D + sz; range_ltrim(&Q); GUARD; size_t n = Q.start - D;
  VK_ENSURE("the range only shrinks", Q.start >= D && n <= sz && Q.end == D + sz); VK_ENSURE("no white space is left", n == sz || !isspace((unsigned char)D[n]));
  if(K < n) VK_ENSURE("only white space is dropped", isspace((unsigned char)D[K])); VK_REACH("end");
}
void h_rtrim(void) {
  target(1); evfs_ghost_base = D; Q.start = D; Q.end = D + sz; range_rtrim(&Q); GUARD; size_t n = Q.end - D, l = evfs_ghost_max;
  VK_ENSURE("the range only shrinks", Q.start == D && Q.end >= D && n <= l && l <= sz); VK_ENSURE("no white space is left", n == 0 || !isspace((unsigned char)D[n - 1]));
  if(K >= n && K < l) VK_ENSURE("only white space is dropped", isspace((unsigned char)D[K])); VK_REACH("end");
}
void h_is_int(void) {
  target(0); Q.start = D; Q.end = D + sz; evfs_ghost_all = VK_IN_BOOL("all"); bool r = range_is_int(&Q); GUARD;
  if(evfs_ghost_all) VK_ENSURE("digits only are an integer", r); else if(r && K < sz) VK_ENSURE("an integer range has only digits", isdigit((unsigned char)D[K])); VK_REACH("end");
}
void h_eq(void) {   /* all: the text has the range's length and its bytes agree */
  target(0); source(); Q.start = D; Q.end = D + sz; evfs_ghost_all = VK_IN_BOOL("all"); if(evfs_ghost_all) VK_REQUIRE(sz == nul);
  bool r = range_eq(&Q, S); GUARD;
  if(evfs_ghost_all) VK_ENSURE("the same text is equal", r); else if(r) { VK_ENSURE("an equal range has the text's length", sz <= nul && S[sz] == 0); if(K < sz) VK_ENSURE("equal bytes", D[K] == S[K]); }
  VK_REACH("end");
}
void h_eq_range(void) {
  target(0); srange(); StringRange P = {D, D + sz}; evfs_ghost_all = VK_IN_BOOL("all"); size_t q = evfs_ghost_max; if(evfs_ghost_all) VK_REQUIRE(sz == q);
  bool r = range_eq_range(&P, &Q); GUARD;
  if(evfs_ghost_all) VK_ENSURE("ranges of the same bytes are equal", r); else if(r) { VK_ENSURE("equal sizes", sz == q); if(K < sz) VK_ENSURE("equal bytes", D[K] == S[K]); } VK_REACH("end");
}
/* tokens: from any position of the text */
static void delims(void) { bool t[256]; __CPROVER_array_copy(DL, t); VK_ASSUME(!DL[0]); K = VK_IN_ULONG("k"); }
void h_token(void) {
  source(); delims(); size_t p = VK_IN_ULONG("pos"); VK_REQUIRE(p <= nul); bool first = VK_IN_BOOL("first"); StringRange t = {0}; if(!first) t.end = S + p; const char *oe = t.end;
  evfs_ghost_all = VK_IN_BOOL("all"); if(evfs_ghost_all) VK_REQUIRE(K >= p && K < nul && S[K] && !DL[(unsigned char)S[K]]);   /* all: no NUL before K, which is no delimiter */
  bool r = range_token(first ? S + p : NULL, g_delim, &t);
  if(r) {
    size_t a = t.start - S, b = t.end - S; VK_ENSURE("a token is a non-empty part of the text behind the position", __CPROVER_same_object(t.start, S) && __CPROVER_same_object(t.end, S) && a >= p && a < b && b <= nul);
    if(K >= p && K < a) VK_ENSURE("only delimiters are skipped", DL[(unsigned char)S[K]]); if(K >= a && K < b) VK_ENSURE("a token has no delimiter and no NUL", S[K] && !DL[(unsigned char)S[K]]);
    VK_ENSURE("a token is maximal", S[b] == 0 || DL[(unsigned char)S[b]]);
  } else { VK_ENSURE("the token stays", t.start == NULL && t.end == oe); VK_ENSURE("a token that is left is found", !evfs_ghost_all); }
  VK_REACH("end");
}
void h_token_limit(void) {
  size_t total = VK_IN_ULONG("total"), p = VK_IN_ULONG("pos"), lim = VK_IN_ULONG("limit"); VK_REQUIRE(total > 0 && total <= MAXSZ && p <= total && lim <= total - p); S = malloc(total); VK_ASSUME(S); evfs_ghost_base = S; delims();
  bool first = VK_IN_BOOL("first"); StringRange t = {0}; if(!first) t.end = S + p; size_t l0 = lim; const char *oe = t.end;
  evfs_ghost_all = VK_IN_BOOL("all"); if(evfs_ghost_all) VK_REQUIRE(K >= p && K < p + lim && S[K] && !DL[(unsigned char)S[K]]);   /* all: no NUL before K, which is no delimiter */
  bool r = range_token_limit(first ? S + p : NULL, g_delim, &t, &lim);
  if(r) {
    size_t a = t.start - S, b = t.end - S; VK_ENSURE("a token is a non-empty part of the text before the limit", __CPROVER_same_object(t.start, S) && __CPROVER_same_object(t.end, S) && a >= p && a < b && b <= p + l0);
    if(K >= p && K < a) VK_ENSURE("only delimiters are skipped", S[K] && DL[(unsigned char)S[K]]); if(K >= a && K < b) VK_ENSURE("a token has no delimiter and no NUL", S[K] && !DL[(unsigned char)S[K]]);
    VK_ENSURE("a token is maximal", b == p + l0 || S[b] == 0 || DL[(unsigned char)S[b]]); VK_ENSURE("the limit counts what is left", lim == l0 - (b - p));
  } else { VK_ENSURE("the token and the limit stay", t.start == NULL && t.end == oe && lim == l0); VK_ENSURE("a token that is left is found", !evfs_ghost_all); }
  VK_REACH("end");
}

void h_cat_char(void) {
  target(1); char c = VK_IN_U8("c"); bool nn = VK_IN_BOOL("nn"); int r = nn ? range_cat_char_no_nul(&R, c) : range_cat_char(&R, c);
  if(sz >= 2) { UNTOUCHED(nn ? 1 : 2); VK_ENSURE("one character is appended", r == 1 && D[0] == c && R.start == D + 1); if(!nn) VK_ENSURE("terminated", D[1] == 0); }
  else { GUARD; VK_ENSURE("no room", r < 0 && R.start == D); }
  VK_REACH("end");
}
static int fmt_v(AppendRange *r, const char *f, ...) { va_list a; va_start(a, f); int k = range_cat_vfmt(r, f, a); va_end(a); return k; }
void h_cat_fmt(void) {
  target(0); int l = VK_IN_INT("len"); VK_REQUIRE(l >= 0); g_vsn = l; int r = VK_IN_BOOL("v") ? fmt_v(&R, "x") : range_cat_fmt(&R, "x");
  if(sz == 0) { GUARD; VK_ENSURE("an empty range takes nothing", r == 0); }
  else if((size_t)l + 1 <= sz) { UNTOUCHED(sz); VK_ENSURE("the number of appended characters is reported", r == l && R.start == D + l); if(K < (size_t)l) VK_ENSURE("the formatted text is appended", D[K] == 'v'); if(sz > 1) VK_ENSURE("NUL terminated", D[l] == 0); }
  else { UNTOUCHED(sz); VK_ENSURE("text that does not fit is reported as negative and wiped", r == -l && R.start == D && D[0] == 0); }
  VK_REACH("end");
}
void h_terminate(void) {
  target(0); evfs_ghost_base = D; range_terminate(&R); size_t l = evfs_ghost_max;
  if(sz > 0 && l == sz) { UNTOUCHED(sz); VK_ENSURE("only the last byte is replaced, by a NUL", g == OFF(D) + sz - 1 || B[g] == gv); VK_ENSURE("a missing NUL is added at the end", D[sz - 1] == 0); } else GUARD;
  VK_ENSURE("range kept", R.start == D); VK_REACH("end");
}
void h_puts(void) {
  target(0); Q.start = D; Q.end = D + sz; S = D; FILE *f = (FILE *)&g_file; evfs_ghost_puts = 0; bool p = VK_IN_BOOL("puts"); if(p) range_puts(&Q); else range_fputs(&Q, f); GUARD; size_t n = evfs_ghost_puts;
  VK_ENSURE("the text up to a NUL or the end is printed", n <= sz); IS_LEN(n, sz); VK_ENSURE("to the stream", n == 0 || evfs_ghost_stream == (p ? (void *)stdout : (void *)f)); if(K < n) VK_ENSURE("each character is printed once, in order", evfs_ghost_putch == D[K]);
  VK_REACH("end");
}
static int g_ret, g_calls;
static int g_n; static bool g_sok; static unsigned g_mag; static int g_cu;
int C_cat_sign(AppendRange *r, char c) { VK_ENSURE("only a negative number gets a sign, first", r == &R && c == '-' && g_n < 0 && g_calls == 0); g_calls++; if(!g_sok) return -1; R.start++; return 1; }
int C_cat_mag(AppendRange *r, uint32_t m) { VK_ENSURE("the magnitude follows", r == &R && g_cu == 0 && g_calls == (g_n < 0)); g_cu++; g_mag = m; return g_ret; }
void h_cat_int(void) {
  target(1); g_calls = g_cu = 0; g_n = VK_IN_INT("n"); g_sok = sz >= 2; g_ret = VK_IN_INT("ret"); VK_REQUIRE(g_ret >= -10 && g_ret <= 10 && g_ret != 0); VK_REQUIRE(g_n >= 0 || g_sok || g_ret < 0);
  int r = range_cat_int(&R, g_n); VK_ENSURE("magnitude", g_cu == 1 && g_mag == (g_n < 0 ? 0u - (unsigned)g_n : (unsigned)g_n));
  int s = g_n < 0; if(g_ret > 0) VK_ENSURE("the characters are counted", r == s + g_ret); else VK_ENSURE("a number that does not fit is reported as its negative length", r == g_ret - s);
  VK_REACH("end");
}
/* composition */
static const char *t_a, *t_b; static int t_n;
void C_ltrim(StringRange *r) { VK_ENSURE("left first", r == &Q && t_n++ == 0 && r->start == D && r->end == D + sz); size_t n = VK_IN_ULONG("lt"); VK_ASSUME(n <= sz); r->start = t_a = D + n; }
void C_rtrim(StringRange *r) { VK_ENSURE("then right", r == &Q && t_n++ == 1 && r->start == t_a && r->end == D + sz); size_t n = VK_IN_ULONG("rt"); VK_ASSUME(n <= (size_t)(r->end - r->start)); r->end = t_b = r->start + n; }
void h_trim(void) { t_n = 0; target(0); Q.start = D; Q.end = D + sz; range_trim(&Q); GUARD; VK_ENSURE("both ends are trimmed", t_n == 2 && Q.start == t_a && Q.end == t_b); VK_REACH("end"); }
static size_t m_off, m_n; static int m_c, m_calls;
void h_set_len(void) {
  target(0); size_t n = VK_IN_ULONG("len"); Q.start = D; Q.end = D + sz; char kv = K < sz ? D[K] : 0; range_set_len(&Q, n); UNTOUCHED(sz);
  VK_ENSURE("range kept", Q.start == D && Q.end == D + sz); if(K < sz) VK_ENSURE("the text is cut to the length", D[K] == (K >= n ? 0 : kv)); VK_REACH("end");
}
