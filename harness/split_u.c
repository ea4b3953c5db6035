/* C06: contracts of basename, extname and dirname for paths of any length.
   The loop contracts are in the source (EVFS_VERIFY); "for every index" is one arbitrary ghost index k. */
#include "common.h"
#include <string.h>
#include "evfs.h"
#include "evfs_internal.h"
#include "evfs/util/glob.h"
size_t evfs_ghost_k, evfs_ghost_max, evfs_ghost_mark; const char *evfs_ghost_base;
#define K evfs_ghost_k
#define OFF(p) ((size_t)__CPROVER_POINTER_OFFSET(p))
#define MAXSZ 0x40000000u
#define SEP(c) ((c) == '/' || (c) == '\\')
static char *S; static size_t nul;
static size_t C_strlen(const char *s) {
  VK_ENSURE("strlen is asked about the path", s == S); VK_ASSUME(S[nul] == 0); if(K < nul) VK_ASSUME(S[K] != 0); return nul;
}
#define strlen C_strlen
#define char_match(c, set) SEP(c)   /* EVFS_PATH_SEPS */
#include "src/evfs_path.c"
#undef strlen
static void path(void) { nul = VK_IN_ULONG("nul"); K = VK_IN_ULONG("k"); VK_REQUIRE(nul < MAXSZ); S = malloc(nul + 1); VK_ASSUME(S); evfs_ghost_base = S; evfs_ghost_max = nul; evfs_ghost_mark = 0; }
static size_t c_base; static int c_calls;
int C_basename(const char *p, StringRange *t) { c_calls++; VK_ENSURE("the given path", p == S); C_strlen(p); t->start = S + c_base; t->end = S + nul; return EVFS_OK; }
void h_basename(void) {
  path(); StringRange t; int r = evfs_path_basename(S, &t);
  VK_ENSURE("basename succeeds", r == EVFS_OK); size_t b = OFF(t.start);
  VK_ENSURE("the basename is a suffix of the path", __CPROVER_same_object(t.start, S) && b <= nul && t.end == S + nul);
  if(K >= b && K < nul) VK_ENSURE("the basename has no separator", !SEP(S[K])); if(b > 0) VK_ENSURE("the basename begins after the last separator", SEP(S[b - 1]));
  VK_REACH("end");
}
void h_extname(void) {
  path(); StringRange e; c_calls = 0; c_base = VK_IN_ULONG("base"); VK_REQUIRE(c_base <= nul);
  int r = evfs_path_extname(S, &e);
  VK_ENSURE("extname succeeds", r == EVFS_OK && c_calls == 1); size_t x = OFF(e.start), m = c_base + evfs_ghost_mark;
  VK_ENSURE("the leading periods are a prefix of the name", m >= c_base && m <= nul); if(K < m - c_base) VK_ENSURE("and periods", S[c_base + K] == '.'); VK_ENSURE("all of them", m == nul || S[m] != '.');
  VK_ENSURE("the extension is a suffix of the path", __CPROVER_same_object(e.start, S) && x <= nul && e.end == S + nul);
  if(x < nul) VK_ENSURE("the extension starts with a period behind the leading ones", x > m && S[x] == '.');
  if(x < nul && K > x && K < nul || x == nul && K > m && K < nul) VK_ENSURE("the last one", S[K] != '.');
  VK_REACH("end");
}
static size_t c_root;
static bool C_root(Evfs *v, const char *p, StringRange *r) { VK_ENSURE("the root of the given path", p == S); r->start = S; r->end = S + c_root; return c_root > 0; }
void h_dirname(void) {
  static Evfs v; v.m_path_root_component = C_root; path(); StringRange h; c_root = VK_IN_ULONG("root"); VK_REQUIRE(c_root <= nul);
  int r = evfs_vfs_path_dirname(&v, S, &h);
  VK_ENSURE("dirname succeeds", r == EVFS_OK); size_t d = OFF(h.end);
  VK_ENSURE("the dirname is a prefix of the path", h.start == S && __CPROVER_same_object(h.end, S) && d <= nul);
  if(d > 0 && !(d < nul && SEP(S[d]))) { VK_ENSURE("the dirname ends before the last separator or is a bare root", d == c_root && SEP(S[d - 1])); if(K >= d && K < nul) VK_ENSURE("behind a bare root is one component", !SEP(S[K])); }
  else if(K > d && K < nul) VK_ENSURE("behind the last separator is one component", !SEP(S[K]));
  if(d + 1 == c_root && d < nul) VK_ENSURE("a bare root keeps its separator", !SEP(S[d]));
  VK_REACH("end");
}
/* scanning: one call of the tokenizer (its contract: ustr.token) behind the root, or behind the previous segment */
static StringRange t_el; static int t_calls; static bool t_ret; static const char *t_str; static bool t_abs;
bool C_token(const char *s, const char *d, StringRange *t) { t_calls++; t_str = s; VK_ENSURE("segments end at the path separators", d[0] == '/' && d[1] == '\\' && d[2] == 0); VK_ENSURE("the caller's range", t == &t_el); return t_ret; }
static bool C_root_any(Evfs *v, const char *p, StringRange *r) { VK_ENSURE("the root of the given path", p == S); r->start = S; r->end = S + c_root; return t_abs; }
void h_scan(void) {
  static Evfs v; v.m_path_root_component = C_root_any; path(); bool next = VK_IN_BOOL("next"); t_calls = 0; t_str = 0; t_ret = VK_IN_BOOL("ret"); t_abs = VK_IN_BOOL("abs"); c_root = VK_IN_ULONG("root"); VK_REQUIRE(c_root <= nul);
  int r = evfs_vfs_scan_path(&v, next ? NULL : S, &t_el);
  VK_ENSURE("one segment is looked for", t_calls == 1 && (r == EVFS_OK) == t_ret);
  if(next) VK_ENSURE("behind the previous one", t_str == NULL); else VK_ENSURE("behind the root", t_str == S + (t_abs ? c_root : 0));
  VK_REACH("end");
}
/* joining: the range operations by their contracts (ustr.*), any lengths */
static StringRange j_h, j_t, j_j; static size_t j_hl, j_tl, j_sz, j_at; static int j_step; static bool j_nul; static char *J;
size_t C_jlen(StringRange *r) { VK_ENSURE("the length of head or tail", r == &j_h || r == &j_t); return r == &j_h ? j_hl : j_tl; }
static bool C_jroot(Evfs *v, const char *p, StringRange *r) { VK_ENSURE("the root of the head", p == j_h.start); r->start = p; r->end = p + c_root; return c_root > 0; }
#define AT(r) VK_ENSURE("appended to the joined text, within its range", (r)->start == J + j_at && (r)->end == J + j_sz && (void *)(r) != (void *)&j_j)
int C_jcat(AppendRange *r, StringRange *s) {
  AT(r); VK_ENSURE("head, then tail", s == &j_h ? j_step == 0 : s == &j_t && (j_step == 1 || j_step == 2)); size_t n = s == &j_h ? j_hl : j_tl; j_step = s == &j_h ? 1 : 3;
  VK_ENSURE("it fits", n < j_sz - j_at); j_at += n; r->start = J + j_at; j_nul = true; return (int)n;
}
int C_jchar(AppendRange *r, char c) { AT(r); VK_ENSURE("one separator behind the head", c == '/' && j_step == 1); VK_ENSURE("it fits", 1 < j_sz - j_at); j_step = 2; j_at++; r->start = J + j_at; j_nul = true; return 1; }
void C_jterm(AppendRange *r) { AT(r); }
void h_join(void) {
  static Evfs v; v.m_path_root_component = C_jroot; size_t a = VK_IN_ULONG("hsize"), b = VK_IN_ULONG("tsize"); j_hl = VK_IN_ULONG("hlen"); j_tl = VK_IN_ULONG("tlen"); j_sz = VK_IN_ULONG("size"); c_root = VK_IN_ULONG("root");
  VK_REQUIRE(a < MAXSZ && b < MAXSZ && j_hl <= a && j_tl <= b && j_sz < MAXSZ && c_root <= j_hl);
  char *H = malloc(a), *T = malloc(b); J = malloc(j_sz); VK_ASSUME(H && T && J); j_h.start = H; j_h.end = H + a; j_t.start = T; j_t.end = T + b; j_j.start = J; j_j.end = J + j_sz; j_at = 0; j_step = 0; j_nul = false;
  int r = evfs_vfs_path_join(&v, &j_h, &j_t, &j_j);
  bool sep = j_hl > 0 && j_hl != c_root; size_t want = j_hl + sep + j_tl;
  VK_ENSURE("join succeeds exactly when the joined path and its NUL fit", (r == EVFS_OK) == (want + 1 <= j_sz && want < EVFS_MAX_PATH));
  if(r == EVFS_OK) VK_ENSURE("head, separator, tail and a NUL", j_at == want && j_nul && (sep ? j_step >= 2 : j_step != 2) && (j_tl == 0 || j_step == 3)); else VK_ENSURE("nothing is written otherwise", j_step == 0);
  VK_ENSURE("the ranges stay", j_j.start == J && j_j.end == J + j_sz && j_h.start == H && j_h.end == H + a && j_t.start == T && j_t.end == T + b);
  VK_REACH("end");
}
