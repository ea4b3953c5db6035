/* C23: glob matching against the recursive definition of the documented pattern language */
#include "common.h"
#include "src/util/glob.c"
#ifndef NP
#define NP 5
#define NS 4
#endif
static char P[NP + 1], S[NS + 1], SEP[3];
/* one pattern element at p: its end, or 0 when it is a malformed set */
static size_t elem_end(const char *p, size_t i) {
  if(p[i] != '[') return i + 1;
  i++; if(p[i] == '!') i++;
  if(p[i] == ']') return 0;
  while(p[i] && p[i] != ']') { if(p[i + 1] == '-') { if(!p[i + 2] || p[i + 2] == ']') return 0; i += 3; } else i++; }
  return p[i] ? i + 1 : 0;
}
static bool set_has(const char *p, size_t i, char c) {
  bool inv = false, in = false; i++; if(p[i] == '!') { inv = true; i++; }
  while(p[i] && p[i] != ']') if(p[i + 1] == '-') { in |= (uint8_t)p[i] <= (uint8_t)c && (uint8_t)c <= (uint8_t)p[i + 2]; i += 3; } else { in |= p[i] == c; i++; }
  return in != inv;
}
static bool is_sep(char c) { return c && (c == SEP[0] || SEP[0] && c == SEP[1]); }
/* M[i][j]: pattern from i matches name from j */
static bool M[NP + 2][NS + 2];
static bool spec(size_t pl, size_t sl) {
  for(size_t ii = 0; ii < NP + 1; ii++) { if(ii > pl) continue; size_t i = pl - ii; size_t e = i < pl ? elem_end(P, i) : 0;
    for(size_t jj = 0; jj < NS + 1; jj++) { if(jj > sl) continue; size_t j = sl - jj; char c = S[j]; bool m;
      if(i == pl) m = j == sl;
      else if(P[i] == '*') m = M[i + 1][j] || j < sl && !is_sep(c) && M[i][j + 1];
      else if(P[i] == '?') m = j < sl && !is_sep(c) && M[i + 1][j + 1];
      else if(P[i] == '[') m = e && j < sl && set_has(P, i, c) && M[e][j + 1];
      else m = j < sl && P[i] == c && M[i + 1][j + 1];
      M[i][j] = m; } }
  return M[0][0];
}
void h_glob(void) {
  size_t pl = vk_in_str("p", P, NP + 1, "*?[]!-01/a\x80\xff"), sl = vk_in_str("s", S, NS + 1, "01/\xff"); vk_in_str("sep", SEP, 3, "/1");
#ifdef SEP1
  VK_REQUIRE(SEP[1] == 0); if(SEP1 == 1) for(size_t i = 0; i < NP; i++) VK_REQUIRE(P[i] != 0x21 && P[i] != 0x5d && P[i] != 0x61 && P[i] != (char)0x80 && P[i] != (char)0xff);
#endif
#ifndef VK_NATIVE
#if !SETS
  for(size_t i = 0; i < NP; i++) VK_REQUIRE(P[i] != '[');
#endif
  for(size_t i = 1; i + 1 < NP; i++) VK_REQUIRE(P[i] != '-' || P[i - 1] == '0' && (P[i + 1] == '0' || P[i + 1] == '1') || P[i - 1] == '1' && P[i + 1] == '0');   /* short spans */
#endif
  char *p = P, *s = S;
#ifdef VK_NATIVE
  p = strdup(P); s = strdup(S);   /* exact allocations: the sanitizer watches the ends */
#endif
  bool r = glob_match(p, s, SEP), open = false;
  for(size_t i = 0; i < NP; i++) if(i < pl && P[i] == '[') {   /* left open: malformed sets, and sets holding a separator of the name */
    if(!elem_end(P, i)) open = true; else for(size_t j = 0; j < NS; j++) if(j < sl && is_sep(S[j]) && set_has(P, i, S[j])) open = true; }
  if(!open) VK_ENSURE("a name matches exactly when the pattern language says so", r == spec(pl, sl));
  bool g = false; for(size_t i = 0; i < NP; i++) if(i < pl) g |= P[i] == '*' || P[i] == '?' || P[i] == '[';
  VK_ENSURE("a string is a glob exactly when it has a pattern character", is_glob(p) == g);
  VK_NATIVE_ONLY(free(p); free(s);)
  VK_REACH("glob end");
}
void h_glob_set(void) {   /* one set, all characters */
  static char q[7]; size_t n = VK_IN_RANGE("n", 0, 6); for(size_t i = 0; i < 6; i++) { int c = VK_IN_RANGE("c", 1, 255); q[i] = i < n ? c : 0; } q[0] = '['; for(int i = 0; i < 4; i++) if(q[i] && q[i + 1] == '-') VK_REQUIRE((uint8_t)q[i + 2] < (uint8_t)q[i] + 5);
  char c = VK_IN_RANGE("ch", 1, 255); CharSet cs = {0};
  const char *e = parse_range_def(q, &cs); VK_ENSURE("the set ends inside the pattern", e >= q && e <= q + (n ? n : 1));
  size_t k = elem_end(q, 0); if(k) { VK_ENSURE("the set ends at its bracket", e == q + k - 1); VK_ENSURE("a set holds exactly its characters and ranges", !!CHAR_IS_IN_SET(&cs, c) == set_has(q, 0, c)); }
  VK_REACH("set end");
}
void h_glob_null(void) { VK_ENSURE("missing arguments do not match", !glob_match(NULL, "a", "/") && !glob_match("a", NULL, "/") && glob_match("", "", "/") && !glob_match("", "a", "/") && glob_match("*", "", "/")); VK_REACH("null end"); }
