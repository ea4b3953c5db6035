/* evfs_vfs_path_normalize / path_normalize_long against the contracts of
   range_token, range_cat_range_no_nul, range_cat_char_no_nul and
   m_path_root_component: the emitted sequence is the reference reduction.
   Paths are unbounded in length; NT bounds the number of segments. */
#include "common.h"

#ifndef NT
#  define NT 12
#endif
#define SLOT 4

static char g_whole[4 + NT * SLOT + 1];
#define g_text (g_whole + 4)
#define TEXTSZ (NT * SLOT + 1)
static int  g_kind[NT];           /* 0 name, 1 ".", 2 ".." */
static size_t g_len[NT];
static int  g_ntok, g_abs, g_rootlen, g_idx, g_passes;
static int  g_failat;             /* index of the append that does not fit, or -1 */

static int g_out[2 * NT + 8], g_nout, g_appends;
#define EV_ROOT 1000
#define EV_SEP  1001
static const char *g_path_start;
static char g_norm[8];
static int g_bad;

bool evfs_vfs_path_is_absolute(Evfs *vfs, const char *path) { return g_abs; }

/* contract: NULL continues after token->end; yields token g_idx */
bool range_token(const char *str, const char *delim, StringRange *token) {
  if(str) { if(str != g_path_start) g_bad = 1; g_idx = 0; g_passes++; }
  else {
    if(g_idx <= 0 || token->end != g_text + (g_idx - 1) * SLOT + g_len[g_idx - 1]) g_bad = 1;
  }
  if(g_idx >= g_ntok) return false;
  token->start = g_text + g_idx * SLOT;
  token->end = token->start + g_len[g_idx];
  g_idx++;
  return true;
}

static int append(int what) {
  if(g_nout < (int)(sizeof g_out / sizeof *g_out)) g_out[g_nout++] = what; else g_bad = 1;
  return g_appends++ == g_failat ? -1 : 1;
}

int range_cat_range_no_nul(AppendRange *rng, StringRange *src) {
  if(rng->end != g_norm + sizeof g_norm) g_bad = 1;
  if(VK_SAME(src->start, g_whole, sizeof g_whole)) {
    long off = src->start - g_text;
    int i = (int)(off / SLOT);
    if(i >= g_ntok || off % SLOT || (size_t)range_size(src) != g_len[i]) { g_bad = 1; return 1; }
    return append(i);
  }
  return append(EV_ROOT); /* the copied root */
}
int range_cat_char_no_nul(AppendRange *rng, char ch) {
  if(ch != '/' || rng->end != g_norm + sizeof g_norm) g_bad = 1;
  return append(EV_SEP);
}
/* unused by the functions under contract here, present for linking */
int range_cat_range(AppendRange *a, StringRange *b) { g_bad = 1; return -1; }
int range_cat_char(AppendRange *a, char c) { g_bad = 1; return -1; }
void range_terminate(AppendRange *a) { g_bad = 1; }
size_t range_strlen(StringRange *a) { g_bad = 1; return 0; }
bool char_match(char ch, const char *set) { return vk_is_sep(ch); }

static bool tok_root(Evfs *vfs, const char *path, StringRange *root) {
  root->start = path;
  root->end = path + g_rootlen;
  return g_abs;
}

/* room for the segment stack; the request size is an obligation */
static StringRange g_stack[NT];
static size_t g_req;
static void *tok_malloc(size_t n) { g_req = n; return VK_IN_BOOL("oom") ? NULL : g_stack; }
static void tok_free(void *p) { if(p != (void *)g_stack) g_bad = 1; }
#undef evfs_malloc
#undef evfs_free
#define evfs_malloc(n) tok_malloc(n)
#define evfs_free(p) tok_free(p)

#include "src/evfs_path.c"

static void run(int use_long) {
  static Evfs vfs;
  vfs.m_path_root_component = tok_root;
  g_ntok = (int)VK_IN_RANGE("ntok", 0, NT);
  g_abs = VK_IN_BOOL("abs");
  g_failat = (int)VK_IN_RANGE("failat", -1, 2 * NT + 4);
  g_nout = g_appends = g_idx = g_passes = g_bad = 0;
  for(int i = 0; i < NT; i++) {
    char *t = g_text + i * SLOT;
    g_len[i] = (size_t)VK_IN_RANGE("tlen", 1, SLOT);
    for(int k = 0; k < SLOT; k++) { t[k] = vk_in_char("tc", "..ab"); VK_REQUIRE(t[k] != 0 && !vk_is_sep(t[k])); }
    g_kind[i] = g_len[i] == 1 && t[0] == '.' ? 1 : g_len[i] == 2 && t[0] == '.' && t[1] == '.' ? 2 : 0;
  }
  /* an absolute path has its root component immediately before the first token */
  g_rootlen = g_abs ? (int)VK_IN_RANGE("rootlen", 1, 4) : 0;
  char *path = g_text - g_rootlen;
  for(int i = 0; i < 4; i++) g_whole[i] = '/';
  g_path_start = g_text;
  StringRange norm;
  range_init(&norm, g_norm, sizeof g_norm);
  int rval;
#ifdef HAVE_LONG
  if(use_long) rval = path_normalize_long(&vfs, path, (AppendRange *)&norm);
  else
#endif
  rval = evfs_vfs_path_normalize(&vfs, path, &norm);
  if(rval == EVFS_ERR_ALLOC) return;

  /* reference reduction */
  int stk[NT], sp = 0, low = 0;
  for(int i = 0; i < NT; i++) if(i < g_ntok) {
    if(g_kind[i] == 1) continue;
    if(g_kind[i] == 2) {
      if(sp > low) sp--;
      else if(!g_abs) { stk[sp++] = i; low = sp; }
    } else stk[sp++] = i;
  }
  int o = 0;
  VK_ENSURE("callees are used within their contracts", !g_bad);
  if(g_abs) { VK_ENSURE("an absolute path starts with its root", g_nout > 0 && g_out[0] == EV_ROOT); o = 1; }
  VK_ENSURE("exactly the surviving segments and their separators are emitted", g_nout == o + (sp ? 2 * sp - 1 : 0));
  int k = (int)VK_IN_RANGE("k", 0, NT - 1);
  if(k < sp) VK_ENSURE("surviving segments are emitted in order", g_out[o + 2 * k] == stk[k]);
  if(k + 1 < sp) VK_ENSURE("segments are joined by one separator", g_out[o + 2 * k + 1] == EV_SEP);
  if(g_abs && k < sp) VK_ENSURE("no parent reference survives in an absolute path", g_kind[stk[k]] != 2);
  VK_ENSURE("success is reported exactly when every part fit", (rval == EVFS_OK) == !(g_failat >= 0 && g_failat < g_appends));
  VK_ENSURE("result is NUL terminated", g_norm[0] == 0);
  if(use_long) VK_ENSURE("the segment stack is large enough", g_req >= (size_t)sp * sizeof(StringRange));
  VK_REACH("normalized");
}
void h_tok_short(void) { run(0); }
#ifdef HAVE_LONG
void h_tok_long(void) { run(1); }
#endif
