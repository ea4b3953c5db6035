/* C07, C08: contracts of the string range functions. */
#include "common.h"
#include <stdarg.h>
#include <ctype.h>
#ifndef VK_NATIVE
/* isspace/isdigit of the C locale */
static int k_isspace(int c) { return c == ' ' || c >= '\t' && c <= '\r'; }
static int k_isdigit(int c) { return c >= '0' && c <= '9'; }
#undef isspace
#undef isdigit
#define isspace k_isspace
#define isdigit k_isdigit
static int g_vsn; static size_t g_vlen;
/* vsnprintf of the C standard: writes at most n bytes, NUL terminated, and returns the full length */
static int k_vsnprintf(char *b, size_t n, const char *f, va_list a) {
  if(g_vsn < 0) return g_vsn;
  for(size_t i = 0; i < n && i <= (size_t)g_vsn; i++) b[i] = i == (size_t)g_vsn || i == n - 1 ? 0 : 'v';
  return g_vsn;
}
#define vsnprintf k_vsnprintf
#endif
static char o_put[64]; static int o_n; static FILE *o_f;
#undef putc
#define putc(c, f) (o_f = (f), o_n < 64 ? (o_put[o_n++] = (c)) : 0)
#include "src/util/range_strings.c"
#undef putc

#ifndef N
#define N 6       /* string buffers */
#endif
#ifndef M
#define M 7       /* largest range */
#endif
#define G 3
static char B[G + M + G]; static char S[N], T[N]; static AppendRange R; static size_t sz;
static void setup(void) { for(size_t i = 0; i < sizeof B; i++) B[i] = 0x55; sz = VK_IN_RANGE("size", 0, M); R.start = B + G; R.end = B + G + sz; }
static void guards(void) { for(size_t i = 0; i < sizeof B; i++) if(i < G || i >= G + sz) VK_ENSURE("nothing is written outside the range", B[i] == 0x55); VK_ENSURE("the range end stays", R.end == B + G + sz); }
#define D (B + G)
/* outcome of appending text t of length l */
static void appended(int r, const char *t, size_t l, bool nul) {
  guards();
  if(l + 1 <= sz) {
    VK_ENSURE("the number of appended characters is reported", r == (int)l);
    VK_ENSURE("the range advances past the appended text", R.start == D + l);
    for(size_t i = 0; i < l; i++) VK_ENSURE("the appended text is the given text", D[i] == t[i]);
    if(nul) VK_ENSURE("the text is NUL terminated", D[l] == 0); else VK_ENSURE("nothing is written past the text", D[l] == 0x55);
  } else {
    VK_ENSURE("text that does not fit is reported as its negative length", r == -(int)l);
    VK_ENSURE("the range does not advance", R.start == D);
    if(sz > 0) VK_ENSURE("the partial text is wiped", D[0] == 0);
  }
}
void h_cat_str(void) { setup(); size_t l = vk_in_str("s", S, N, "abc"); appended(range_cat_str(&R, S), S, l, true); VK_REACH("cat_str end"); }
void h_cat_str_nn(void) { setup(); size_t l = vk_in_str("s", S, N, "abc"); appended(range_cat_str_no_nul(&R, S), S, l, false); VK_REACH("cat_str_nn end"); }
/* a source range: bytes of which the text is those before the first NUL */
static StringRange Q; static size_t ql;
static void src_range(void) { for(int i = 0; i < N; i++) T[i] = vk_in_char("t", "ab\0c"); size_t n = VK_IN_RANGE("tn", 0, N); Q.start = T; Q.end = T + n; for(ql = 0; ql < n && T[ql]; ql++) {} }
void h_cat_range(void) { setup(); src_range(); appended(range_cat_range(&R, &Q), T, ql, true); VK_REACH("cat_range end"); }
void h_cat_range_nn(void) { setup(); src_range(); appended(range_cat_range_no_nul(&R, &Q), T, ql, false); VK_REACH("cat_range_nn end"); }
void h_cat_char(void) {
  setup(); char c = vk_in_char("c", "ab"); bool nn = VK_IN_BOOL("nn");
  int r = nn ? range_cat_char_no_nul(&R, c) : range_cat_char(&R, c); guards();
  if(sz >= 2) { VK_ENSURE("one character is appended", r == 1 && D[0] == c && R.start == D + 1); VK_ENSURE("terminated unless asked otherwise", D[1] == (nn ? 0x55 : 0)); }
  else VK_ENSURE("no room", r < 0 && R.start == D);
  VK_REACH("cat_char end");
}
void h_copy_str(void) {
  setup(); size_t l = vk_in_str("s", S, N, "abc"); bool tr = VK_IN_BOOL("trunc"); int r = range_copy_str(&R, S, tr); guards();
  VK_ENSURE("a copy does not move the range", R.start == D);
  if(l + 1 <= sz) { VK_ENSURE("the number of copied characters is reported", r == (int)l); for(size_t i = 0; i <= l; i++) VK_ENSURE("the copy is the given text", D[i] == S[i]); }
  else if(!tr) { VK_ENSURE("text that does not fit is reported as its negative length", r == -(int)l); if(sz) VK_ENSURE("the partial text is wiped", D[0] == 0); }
  else {
    size_t k = sz ? sz - 1 : 0;
    VK_ENSURE("a truncated copy is reported as its negative length less one", r == -(int)k - 1);
    for(size_t i = 0; i < k; i++) VK_ENSURE("the longest fitting prefix is copied", D[i] == S[i]);
    if(sz) VK_ENSURE("the prefix is NUL terminated", D[k] == 0);
  }
  VK_REACH("copy_str end");
}
/* a number chosen by its decimal digits (no leading zero) */
static size_t dec(uint32_t *n, uint32_t lim, char *o) {
  size_t l = VK_IN_RANGE("digits", 1, 10); uint64_t v = 0;
  for(size_t i = 0; i < 10; i++) { int d = VK_IN_RANGE("d", 0, 9); if(i < l) { VK_REQUIRE(i > 0 || l == 1 || d > 0); v = v * 10 + d; o[i] = '0' + d; } }
#ifndef VK_NATIVE
  VK_REQUIRE(l < 6);   /* the division chain is beyond the solvers for longer numbers; the native runs cover them */
#endif
  VK_REQUIRE(v <= lim); *n = (uint32_t)v; return l;
}
void h_cat_uint(void) { setup(); char t[12]; uint32_t n; size_t l = dec(&n, UINT32_MAX, t); int r = range_cat_uint(&R, n);
  if(n || sz > 1) appended(r, t, l, true); else { guards(); VK_ENSURE("no room", r < 0 && R.start == D); } VK_REACH("cat_uint end"); }
void h_cat_int(void) {
  setup(); char t[13]; bool neg = VK_IN_BOOL("neg"); uint32_t m; size_t l = 0; if(neg) t[l++] = '-'; l += dec(&m, neg ? 0x80000000u : INT32_MAX, t + l); VK_REQUIRE(!neg || m); int n = (int)(neg ? 0 - m : m);
  int r = range_cat_int(&R, n); guards();
  if(l + 1 <= sz) { VK_ENSURE("the number of appended characters is reported", r == (int)l && R.start == D + l); for(size_t i = 0; i < l; i++) VK_ENSURE("the text is the decimal value", D[i] == t[i]); VK_ENSURE("NUL terminated", D[l] == 0); }
  else { VK_ENSURE("a number that does not fit is reported as negative", r < 0); VK_ENSURE("the range stays inside", R.start >= D && R.start <= R.end); if(sz > 2) VK_ENSURE("NUL terminated", *R.start == 0); }
  VK_REACH("cat_int end");
}
static int fmt_v(AppendRange *r, const char *f, ...) { va_list a; va_start(a, f); int k = range_cat_vfmt(r, f, a); va_end(a); return k; }
void h_cat_fmt(void) {
  setup(); bool v = VK_IN_BOOL("v");
#ifdef VK_NATIVE
  size_t l = vk_in_str("s", S, N, "abc"); int r = v ? fmt_v(&R, "%s", S) : range_cat_fmt(&R, "%s", S); char *t = S;
#else
  size_t l = VK_IN_RANGE("l", 0, M + 3); static char t[M + 4]; for(size_t i = 0; i < l; i++) t[i] = 'v'; g_vsn = (int)l; int r = v ? fmt_v(&R, "%s", t) : range_cat_fmt(&R, "%s", t);
#endif
  guards();
  if(sz == 0) VK_ENSURE("an empty range takes nothing", r == 0);
  else if(l + 1 <= sz) { VK_ENSURE("the number of appended characters is reported", r == (int)l && R.start == D + l); for(size_t i = 0; i < l; i++) VK_ENSURE("the formatted text is appended", D[i] == t[i]); if(sz > 1) VK_ENSURE("NUL terminated", D[l] == 0); }
  else VK_ENSURE("text that does not fit is reported as negative and wiped", r == -(int)l && R.start == D && D[0] == 0);
  VK_REACH("cat_fmt end");
}
static void fill(void) { for(size_t i = 0; i < sz; i++) D[i] = vk_in_char("b", "ab \t\0"); }
void h_pad(void) {
  setup(); fill(); size_t l = 0; while(l < sz && D[l]) l++; char old[M]; for(size_t i = 0; i < M; i++) old[i] = i < sz ? D[i] : 0; char p = vk_in_char("p", " ."); StringRange q = {D, D + sz};
  int r = range_pad_right(&q, p); guards(); size_t want = sz > 0 && l < sz - 1 ? sz - 1 - l : 0;
  VK_ENSURE("the number of pad characters is reported", r == (int)want);
  for(size_t i = 0; i < sz; i++) VK_ENSURE("the text is kept, padding and a NUL follow it", D[i] == (want == 0 || i < l ? old[i] : i < sz - 1 ? p : 0));
  VK_ENSURE("the range is unchanged", q.start == D && q.end == D + sz);
  VK_REACH("pad end");
}
void h_trim(void) {   /* nothing is written, and exactly the leading and trailing white space is dropped */
  setup(); fill(); char old[M]; for(size_t i = 0; i < M; i++) old[i] = i < sz ? D[i] : 0; StringRange q = {D, D + sz}; int op = VK_IN_RANGE("op", 0, 2);
  size_t a = 0, b = sz;
  if(op != 1) while(a < sz && isspace((unsigned char)D[a])) a++;
  if(op != 0) { b = a; while(b < sz && D[b]) b++; while(b > a && isspace((unsigned char)D[b - 1])) b--; }
  if(op == 0) range_ltrim(&q); else if(op == 1) range_rtrim(&q); else range_trim(&q);
  guards(); for(size_t i = 0; i < sz; i++) VK_ENSURE("trimming writes nothing", D[i] == old[i]);
  VK_ENSURE("exactly the surrounding white space is dropped", q.start == D + a && q.end == D + b);
  VK_REACH("trim end");
}
void h_term(void) {
  setup(); fill(); char old[M]; for(size_t i = 0; i < M; i++) old[i] = i < sz ? D[i] : 0; bool has = false; for(size_t i = 0; i < sz; i++) has |= !D[i];
  int op = VK_IN_RANGE("op", 0, 2);
  if(op == 0) { range_terminate(&R); guards(); for(size_t i = 0; i < sz; i++) VK_ENSURE("only a missing NUL is added, at the end", D[i] == (!has && i == sz - 1 ? 0 : old[i])); VK_ENSURE("range kept", R.start == D); }
  else if(op == 1) { size_t n = VK_IN_RANGE("len", 0, M + 2); StringRange q = {D, D + sz}; range_set_len(&q, n); guards(); for(size_t i = 0; i < sz; i++) VK_ENSURE("the text is cut to the length", D[i] == (i >= n ? 0 : old[i])); VK_ENSURE("range kept", q.start == D && q.end == D + sz); }
  else { StringRange q = {D, D + sz}; size_t l = 0; while(l < sz && D[l]) l++; VK_ENSURE("length up to the first NUL or the end", range_strlen(&q) == l);
    o_n = 0; FILE *f = VK_IN_BOOL("puts") ? NULL : stderr; if(f) range_fputs(&q, f); else range_puts(&q); VK_ENSURE("the text is printed to the stream", o_n == (int)l && (l == 0 || o_f == (f ? f : stdout))); for(size_t i = 0; i < l; i++) VK_ENSURE("the text is printed", o_put[i] == D[i]); guards(); }
  VK_REACH("term end");
}
/* ---- C08 ---- */
void h_cmp(void) {
  setup(); fill(); StringRange q = {D, D + sz}; size_t l = vk_in_str("s", S, N, "ab "); bool eq = l == sz; for(size_t i = 0; i < sz && i < l; i++) eq &= D[i] == S[i];
  VK_ENSURE("a range equals a string exactly when the bytes agree", range_eq(&q, S) == eq);
  src_range(); bool e2 = (size_t)range_size(&Q) == sz; for(size_t i = 0; i < sz && i < N; i++) if(i < (size_t)range_size(&Q)) e2 &= D[i] == T[i];
  VK_ENSURE("ranges are equal exactly when the bytes agree", range_eq_range(&q, &Q) == e2);
  bool d = true; for(size_t i = 0; i < sz; i++) d &= D[i] >= '0' && D[i] <= '9';
  VK_ENSURE("an integer range has only digits", range_is_int(&q) == d);
  guards(); VK_REACH("cmp end");
}
void h_is_int(void) { setup(); for(size_t i = 0; i < sz; i++) D[i] = vk_in_char("b", "0123456789:/"); StringRange q = {D, D + sz}; bool d = true; for(size_t i = 0; i < sz; i++) d &= D[i] >= '0' && D[i] <= '9'; VK_ENSURE("an integer range has only digits", range_is_int(&q) == d); VK_REACH("is_int end"); }
static char dl[3];
static bool is_dl(char c) { return c == dl[0] && dl[0] || c == dl[1] && dl[0] && dl[1]; }
static void delims(void) { dl[0] = vk_in_char("d0", ",;"); dl[1] = vk_in_char("d1", ";\0"); dl[2] = 0; }
void h_token(void) {
  size_t l = vk_in_str("s", S, N, ",;ab"); delims(); StringRange t = {0}; size_t i = 0; bool first = true; char old[N]; for(size_t k = 0; k < N; k++) old[k] = S[k];
  for(int n = 0; n < N / 2 + 1; n++) {
    while(i < l && is_dl(S[i])) i++;
    bool more = i < l; size_t s = i; while(i < l && !is_dl(S[i])) i++;
    bool r = range_token(first ? S : NULL, dl, &t); first = false;
    VK_ENSURE("a token is returned exactly while one is left", r == more);
    if(!more) break;
    VK_ENSURE("tokens are the maximal runs of non-delimiters, in order", t.start == S + s && t.end == S + i);
  }
  for(size_t k = 0; k < N; k++) VK_ENSURE("the string is not changed", S[k] == old[k]);
  VK_REACH("token end");
}
static char L[N];   /* not NUL terminated: the limit is the end */
void h_token_limit(void) {
  size_t l = VK_IN_RANGE("l", 0, N); char *b = L + (N - l); for(size_t k = 0; k < N; k++) L[k] = vk_in_char("c", ",;ab\0"); delims();
#ifdef VK_NATIVE
  b = malloc(l + 1); b = realloc(b, l ? l : 1); memcpy(b, L + (N - l), l);   /* the sanitizer watches the limit */
#endif
  StringRange t = {0}; size_t lim = l, i = 0, e = 0; bool first = true; while(e < l && b[e]) e++;
  for(int n = 0; n < N / 2 + 1; n++) {
    while(i < e && is_dl(b[i])) i++;
    bool more = i < e; size_t s = i; while(i < e && !is_dl(b[i])) i++;
    bool r = range_token_limit(first ? b : NULL, dl, &t, &lim); first = false;
    VK_ENSURE("a token is returned exactly while one is left before the limit", r == more);
    if(!more) break;
    VK_ENSURE("tokens are the maximal runs of non-delimiters before the limit, in order", t.start == b + s && t.end == b + i);
    VK_ENSURE("the limit counts what is left", lim == l - i);
  }
  VK_NATIVE_ONLY(free(b);)
  VK_REACH("token_limit end");
}
void h_token_null(void) { StringRange t = {0}; size_t lim = VK_IN_RANGE("l", 0, 3); VK_ENSURE("missing arguments give no token", !range_token(NULL, ",", &t) && !range_token("a", NULL, &t) && !range_token("a", ",", NULL) && !range_token_limit(NULL, ",", &t, &lim) && !range_token_limit("a", ",", &t, NULL) && !range_token_limit("a", NULL, &t, &lim) && !range_token_limit("a", ",", NULL, &lim)); VK_REACH("token null end"); }
#ifdef VK_NATIVE
/* fixed-point formatting: bounds, termination and counts (the rounding itself is not specified) */
void h_fixed(void) {
  setup(); int pad = vk_in("pad", -14, 14), r; static const unsigned sc[] = {1, 2, 3, 7, 10, 16, 100, 128, 1000, 1024, 10000, 65536};
  unsigned s = sc[vk_in("scale", 0, 11)]; 
  if(vk_in("signed", 0, 1)) r = range_cat_fixed_padded(&R, vk_in("sm", 0, 1) ? vk_in("v", -100000, 100000) : vk_in("v", INT_MIN, INT_MAX), s, vk_in("places", -1, 6), pad);
  else r = range_cat_ufixed_padded(&R, vk_in("sm", 0, 1) ? vk_in("v", 0, 100000) : vk_in("v", 0, UINT_MAX), s, vk_in("places", 0, 6), pad);
  guards(); VK_ENSURE("the range stays inside", R.start >= D && R.start <= R.end);
  if(sz) { size_t n = 0; while(n < sz && D[n] && D[n] != 0x55) n++; if(R.start > D || r < 0) VK_ENSURE("the appended text is NUL terminated", R.start < R.end ? *R.start == 0 || r < 0 && sz == 1 : false);
(void)n; }
}
#endif
