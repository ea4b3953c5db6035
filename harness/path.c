/* Contracts for src/evfs_path.c (C04, C05, C06). */
#include "common.h"
#include "src/evfs_path.c"

#ifndef N
#  define N 9      /* input buffer incl. NUL */
#endif
#ifndef OUTN
#  define OUTN N
#endif
#ifndef ROOTFN
#  define ROOTFN vk_unix_root
#endif
#ifndef ALPHA
#  define ALPHA PATH_ALPHA
#endif

static char g_cwd[N];

bool evfs_vfs_path_is_absolute(Evfs *vfs, const char *path) {
  StringRange root;
  return vfs->m_path_root_component(vfs, path, &root);
}

/* contract of m_get_cur_dir: the whole cwd with NUL, or an error */
static int vk_get_cwd(Evfs *vfs, StringRange *r) {
  size_t n = strlen(g_cwd);
  if(range_size(r) < (ptrdiff_t)n + 1) return EVFS_ERR_OVERFLOW;
  for(size_t i = 0; i <= n; i++) ((char *)r->start)[i] = g_cwd[i];
  return EVFS_OK;
}

/* ---- spec functions, written from the documentation ---- */

/* Normal form of `in`: reduced root, no empty or "." segments, ".." cancels
   the preceding segment, leading ".." kept only for relative paths, '/' as
   separator, no trailing separator. Returns length. */
static size_t spec_normalize(Evfs *vfs, const char *in, char *out) {
  StringRange root;
  bool abs = vfs->m_path_root_component(vfs, in, &root);
  size_t rl = range_size(&root);
  size_t o = 0, i = 0;
  size_t base;              /* start of the segment area */
  if(abs) {
    i = rl;
    size_t keep = rl;       /* trim separators of the root to one */
    while(keep > 1 && vk_is_sep(in[keep-1]) && vk_is_sep(in[keep-2])) keep--;
    for(size_t k = 0; k < keep; k++) out[o++] = vk_is_sep(in[k]) ? '/' : in[k];
  }
  base = o;
  size_t floor_ = base;     /* nothing below this may be cancelled */
  for(;;) {
    while(vk_is_sep(in[i])) i++;
    if(!in[i]) break;
    size_t s = i;
    while(in[i] && !vk_is_sep(in[i])) i++;
    size_t l = i - s;
    if(l == 1 && in[s] == '.') continue;
    if(l == 2 && in[s] == '.' && in[s+1] == '.') {
      if(o > floor_) {      /* drop last segment */
        while(o > base && out[o-1] != '/') o--;
        if(o > base) o--;   /* and its separator */
        if(o < floor_) o = floor_;
        continue;
      }
      if(abs) continue;
      if(o > base) out[o++] = '/';
      out[o++] = '.'; out[o++] = '.';
      floor_ = o;
      continue;
    }
    if(o > base) out[o++] = '/';
    for(size_t k = 0; k < l; k++) out[o++] = in[s+k];
  }
  out[o] = 0;
  return o;
}

static bool str_same(const char *a, const char *b) {
  size_t i = 0;
  for(; a[i] && a[i] == b[i]; i++) {}
  return a[i] == b[i];
}

#define GUARD 4
/* one object, so that overlap tests between input and output are defined */
static struct { char in[N], gap[8], out[OUTN + 2*GUARD + N]; } g_m;
#define g_in g_m.in
#define g_outbuf g_m.out
static char g_spec[2*N + 4];
static Evfs g_vfs;

static void setup(void) {
  g_vfs.m_path_root_component = ROOTFN;
  g_vfs.m_get_cur_dir = vk_get_cwd;
}

static void check_guards(char *buf, size_t size) {
  for(size_t i = 0; i < GUARD; i++)
    VK_ENSURE("nothing is written before or past the output range", buf[i] == 0x55 && buf[GUARD + size + i] == 0x55);
}

static void prep_out(size_t size) {
  for(size_t i = 0; i < sizeof g_outbuf; i++) g_outbuf[i] = 0x55;
  (void)size;
}

static void do_normalize(int force_long, int in_place) {
  setup();
  size_t len = vk_in_str("ch", g_in, N, ALPHA);
  size_t size = (size_t)VK_IN_RANGE("outsize", 0, OUTN);
  size_t want = spec_normalize(&g_vfs, g_in, g_spec);
  prep_out(size);
  StringRange r;
  range_init(&r, g_outbuf + GUARD, size);
  const char *src = g_in;
  if(in_place) {
    VK_REQUIRE(size >= len + 1);
    for(size_t i = 0; i <= len; i++) g_outbuf[GUARD + i] = g_in[i];
    src = g_outbuf + GUARD;
  }
  int rval;
#ifdef HAVE_LONG
  if(force_long) { VK_REQUIRE(size > 0); rval = path_normalize_long(&g_vfs, src, (AppendRange *)&r); }
  else
#endif
  rval = evfs_vfs_path_normalize(&g_vfs, src, &r);
  check_guards(g_outbuf, size);
  if(want + 1 <= size) {
    VK_ENSURE("a normal form that fits is reported as success (or allocation failure)", rval == EVFS_OK || (rval == EVFS_ERR_ALLOC));
    if(rval == EVFS_OK)
      VK_ENSURE("normalized path equals the reference normal form", str_same(g_outbuf + GUARD, g_spec));
    if(rval == EVFS_OK) VK_REACH("normalize success");
  } else {
    VK_ENSURE("a normal form that does not fit is an error", rval != EVFS_OK);
    if(!in_place) VK_REACH("normalize overflow");
  }
}

void h_normalize(void) { do_normalize(0, 0); }
void h_normalize_inplace(void) { do_normalize(0, 1); }
#ifdef HAVE_LONG
void h_normalize_long(void) { do_normalize(1, 0); }
#endif

/* idempotence, on the result of the real function */
void h_norm_idem(void) {
  setup();
  vk_in_str("ch", g_in, N, ALPHA);
  char o1[N + 2], o2[N + 2];
  StringRange r1, r2;
  range_init(&r1, o1, sizeof o1);
  range_init(&r2, o2, sizeof o2);
  int a = evfs_vfs_path_normalize(&g_vfs, g_in, &r1);
  VK_REQUIRE(a == EVFS_OK);
  int b = evfs_vfs_path_normalize(&g_vfs, o1, &r2);
  VK_ENSURE("normalizing a normalized path changes nothing", b == EVFS_OK && str_same(o1, o2));
  VK_REACH("idem");
}

/* many segments: mask limit and the allocating fallback agree with the spec */
#ifdef VK_NATIVE
void h_norm_many(void) {
  static char in[400], spec[900], out[500];
  setup();
  size_t n = 0;
  int segs = (int)VK_IN_RANGE("segs", 25, 60);
  if(VK_IN_RANGE("few", 0, 3) == 0) segs %= 6;
  if(VK_IN_RANGE("drive", 0, 3) == 0) { in[n++] = 'C'; in[n++] = ':'; }
  int lead = VK_IN_RANGE("abs", 0, 3); if(lead == 3) lead = VK_IN_RANGE("run", 10, 40);   /* long roots: many leading separators */
  for(; lead > 0; lead--) in[n++] = VK_IN_BOOL("rbs") ? '\\' : '/';
  static const char *pool[] = { "a", "..", ".", "bb", "...", "..a", "c.d", "", "a" };
  for(int i = 0; i < segs; i++) {
    const char *p = pool[VK_IN_RANGE("seg", 0, 8)];
    for(; *p; p++) in[n++] = *p;
    in[n++] = VK_IN_BOOL("bs") ? '\\' : '/';
  }
  if(n && VK_IN_BOOL("trim")) n--;
  in[n] = 0;
  size_t want = spec_normalize(&g_vfs, in, spec);
  size_t size = VK_IN_BOOL("tight") ? want + 1 - (size_t)VK_IN_RANGE("short", 0, 1) : sizeof out;
  char *o = malloc(size ? size : 1);
  StringRange r; range_init(&r, o, size);
  int rv = evfs_vfs_path_normalize(&g_vfs, in, &r);
  if(want + 1 <= size) VK_ENSURE("normalized path with many segments equals the reference normal form", rv == EVFS_OK && !strcmp(o, spec));
  else VK_ENSURE("a normal form that does not fit is an error", rv != EVFS_OK);
  free(o);
}
#endif

/* ---- absolute ---- */
static char g_join[3*N + 8];

/* spec: normalise(path) if absolute; else normalise(cwd + "/" + path), where a
   relative root prefix ("C:") of path stays in front and replaces the root of cwd */
static size_t spec_absolute(const char *path, char *out) {
  StringRange root;
  if(g_vfs.m_path_root_component(&g_vfs, path, &root)) return spec_normalize(&g_vfs, path, out);
  size_t rl = range_size(&root), o = 0, c = 0;
  for(size_t i = 0; i < rl; i++) g_join[o++] = path[i];
  if(rl) {
    StringRange cr;
    g_vfs.m_path_root_component(&g_vfs, g_cwd, &cr);
    if(range_size(&cr) > 1) c = range_size(&cr) - 1;
  }
  for(; g_cwd[c]; c++) g_join[o++] = g_cwd[c];
  g_join[o++] = '/';
  for(size_t i = rl; path[i]; i++) g_join[o++] = path[i];
  g_join[o] = 0;
  return spec_normalize(&g_vfs, g_join, out);
}

/* absolute against the contract of normalize: exactly one normalize call, on
   the joined text, into the caller's whole range, and its result returned */
static const char *c_want; static int c_calls, c_ret; static char *c_lo, *c_hi;
int C_normalize(Evfs *vfs, const char *path, StringRange *out) {
  c_calls++;
  VK_ENSURE("normalize receives cwd/path (or the absolute path)", str_same(path, c_want));
  VK_ENSURE("normalize writes into the caller's range", out->start == c_lo && out->end == c_hi);
  c_ret = VK_IN_BOOL("nret") ? EVFS_OK : EVFS_ERR_OVERFLOW;
  return c_ret;
}
static void do_absolute_c(int overlap) {
  setup();
  size_t len = vk_in_str("ch", g_in, N, ALPHA);
  vk_in_str("cwd", g_cwd, N, ALPHA);
  StringRange cr, pr;
  VK_REQUIRE(g_vfs.m_path_root_component(&g_vfs, g_cwd, &cr));
  VK_REQUIRE(range_size(&cr) < 2 || !vk_is_sep(cr.end[-2])); /* backends keep a normalized cwd */
  bool abs = g_vfs.m_path_root_component(&g_vfs, g_in, &pr);
  size_t cl = strlen(g_cwd), rl = range_size(&pr), o = 0;
  if(abs) { for(size_t i = 0; i < N; i++) g_join[i] = g_in[i]; }
  else {
    size_t c = 0;
    for(size_t i = 0; i < rl; i++) g_join[o++] = g_in[i];
    if(rl && range_size(&cr) > 1) c = range_size(&cr) - 1;
    if(overlap && rl && cl == (size_t)range_size(&cr)) c = cl; /* bare root: the added separator is part of it */
    for(size_t i = 0; i < N; i++) if(i >= c && i < cl) g_join[o++] = g_cwd[i];
    if(overlap || cl - c != (size_t)(c ? 1 : range_size(&cr))) g_join[o++] = '/';
    for(size_t i = 0; i < N; i++) if(i >= rl && i < len) g_join[o++] = g_in[i];
    g_join[o] = 0;
  }
  size_t size = (size_t)VK_IN_RANGE("outsize", 0, OUTN);
  prep_out(size);
  StringRange r;
  const char *src = g_in;
  range_init(&r, g_outbuf + GUARD, size);
  if(overlap) {
    VK_REQUIRE(size >= len + 1);
    for(size_t i = 0; i <= len; i++) g_outbuf[GUARD + i] = g_in[i];
    src = g_outbuf + GUARD;
  }
  c_want = g_join; c_lo = g_outbuf + GUARD; c_hi = c_lo + size; c_calls = 0;
  int rval = evfs_vfs_path_absolute(&g_vfs, src, &r);
  check_guards(g_outbuf, size);
  if(rval == EVFS_OK) { VK_ENSURE("success comes from normalizing exactly once", c_calls == 1 && c_ret == EVFS_OK); VK_REACH("abs ok"); }
  else if(c_calls) { VK_ENSURE("a normalize error is reported", rval == c_ret && c_calls == 1); VK_REACH("abs err"); }
  if(size >= rl + cl + len + 4) VK_ENSURE("conversion with room reaches normalize", c_calls == 1);
  if(abs || (overlap ? size >= cl + len + 2 : size >= rl + cl + 1)) VK_ENSURE("only a working directory that does not fit, or memory, stops the conversion early", c_calls == 1 || rval == EVFS_ERR_ALLOC);
}
void h_absolute_c(void) { do_absolute_c(0); }
void h_absolute_overlap_c(void) { do_absolute_c(1); }

#ifndef CWDN
#  define CWDN N
#endif
static void do_absolute(int overlap) {
  setup();
  size_t len = vk_in_str("ch", g_in, N, ALPHA);
  vk_in_str("cwd", g_cwd, CWDN, ALPHA);
  StringRange cr;
  VK_REQUIRE(g_vfs.m_path_root_component(&g_vfs, g_cwd, &cr)); /* a cwd is absolute */
  size_t size = (size_t)VK_IN_RANGE("outsize", 0, OUTN);
  size_t want = spec_absolute(g_in, g_spec);
  prep_out(size);
  StringRange r;
  const char *src = g_in;
  range_init(&r, g_outbuf + GUARD, size);
  int sh = 0;
  if(overlap) {
#ifdef VK_NATIVE
    StringRange pr;
    if(VK_IN_RANGE("part", 0, 2) == 0 && !g_vfs.m_path_root_component(&g_vfs, g_in, &pr)) sh = VK_IN_RANGE("shift", -GUARD, 4);   /* partial overlap: a relative path that ends inside the range */
#endif
    VK_REQUIRE((long)size >= sh + (long)len + 1 && sh + (long)len + 1 > 0);
    for(size_t i = 0; i <= len; i++) g_outbuf[GUARD + sh + (long)i] = g_in[i];
    src = g_outbuf + GUARD + sh;
  }
  char before[GUARD]; memcpy(before, g_outbuf, GUARD);
  int rval = evfs_vfs_path_absolute(&g_vfs, src, &r);
  VK_ENSURE("nothing is written before the output range", !memcmp(before, g_outbuf, GUARD));
  if(sh < 0) memset(g_outbuf, 0x55, GUARD);
  check_guards(g_outbuf, size);
  if(rval == EVFS_OK) {
    VK_ENSURE("success implies the result fits its buffer", want + 1 <= size);
    VK_ENSURE("absolute path equals normalise(cwd/path)", str_same(g_outbuf + GUARD, g_spec));
    VK_REACH("absolute success");
  } else {
    VK_REACH("absolute error");
  }
#ifdef VK_NATIVE
  bool is_abs = g_vfs.m_path_root_component(&g_vfs, g_in, &r);
  size_t rlen = is_abs ? 0 : range_size(&r), cwl = is_abs ? 0 : strlen(g_cwd);
  if(want + 1 <= size && (is_abs || (overlap ? size >= len + cwl + 2 : size >= rlen + cwl + 1)))
    VK_ENSURE("a result that fits, beside what has to be held while composing it, is no error", rval == EVFS_OK);
  /* with room for the intermediate join the conversion cannot fail */
  if(size >= strlen(g_cwd) + 2*len + 4 && size <= EVFS_MAX_PATH) VK_ENSURE("conversion with ample room succeeds", rval == EVFS_OK);
#endif
}
void h_absolute(void) { do_absolute(0); }
void h_absolute_overlap(void) { do_absolute(1); }

/* ---- join ---- */
void h_join(void) {
  setup();
  static char hd[N], tl[N];
  size_t hl = vk_in_str("hd", hd, N, ALPHA), tll = vk_in_str("tl", tl, N, ALPHA);
  size_t size = (size_t)VK_IN_RANGE("outsize", 0, 2*N + 2);
  static char buf[2*N + 2 + 2*GUARD];
  for(size_t i = 0; i < sizeof buf; i++) buf[i] = 0x55;
  StringRange r; range_init(&r, buf + GUARD, size);
  int rval = evfs_vfs_path_join_str(&g_vfs, hd, tl, &r);
  check_guards(buf, size);
  StringRange root;
  g_vfs.m_path_root_component(&g_vfs, hd, &root);
  bool sep = hl > 0 && hl != (size_t)range_size(&root);
  size_t want = hl + (sep ? 1 : 0) + tll;
  VK_ENSURE("join succeeds exactly when the joined path and its NUL fit", (rval == EVFS_OK) == (want + 1 <= size && want < EVFS_MAX_PATH));
  if(rval == EVFS_OK) {
    char *j = buf + GUARD;
    size_t k = (size_t)VK_IN_RANGE("k", 0, 2*N);
    if(k < hl) VK_ENSURE("join starts with head", j[k] == hd[k]);
    if(sep) VK_ENSURE("one separator between head and tail", j[hl] == '/');
    if(k < tll) VK_ENSURE("join ends with tail", j[hl + sep + k] == tl[k]);
    VK_ENSURE("join is NUL terminated", j[want] == 0);
    VK_REACH("join ok");
  } else VK_REACH("join error");
}

/* ---- splitting ---- */
void h_basename(void) {
  vk_in_str("ch", g_in, N, ALPHA);
  StringRange t;
  int rval = evfs_path_basename(g_in, &t);
  VK_ENSURE("basename succeeds", rval == EVFS_OK);
  VK_ENSURE("basename is a suffix of path", t.end == g_in + strlen(g_in) && t.start >= g_in && t.start <= t.end);
  size_t s = t.start - g_in;
  size_t k = (size_t)VK_IN_RANGE("k", 0, N - 1);
  if(k >= s && k < strlen(g_in)) VK_ENSURE("basename has no separator", !vk_is_sep(g_in[k]));
  if(s > 0) VK_ENSURE("basename begins after the last separator", vk_is_sep(g_in[s-1]));
  VK_REACH("basename");
}

void h_extname(void) {
  size_t len = vk_in_str("ch", g_in, N, ALPHA);
  StringRange e;
  int rval = evfs_path_extname(g_in, &e);
  VK_ENSURE("extname succeeds", rval == EVFS_OK);
  /* spec: os.path.splitext */
  size_t b = len;
  while(b > 0 && !vk_is_sep(g_in[b-1])) b--;
  size_t nm = b;
  while(g_in[nm] == '.') nm++;
  size_t p = len;
  for(size_t i = len; i > nm; i--) if(g_in[i-1] == '.') { p = i - 1; break; }
  VK_ENSURE("extension starts at the last period after the leading ones", e.start == g_in + p);
  VK_ENSURE("extension ends with the path", e.end == g_in + len);
  VK_REACH("extname");
}

void h_dirname(void) {
  setup();
  size_t len = vk_in_str("ch", g_in, N, ALPHA);
  StringRange h, root;
  int rval = evfs_vfs_path_dirname(&g_vfs, g_in, &h);
  VK_ENSURE("dirname succeeds", rval == EVFS_OK);
  g_vfs.m_path_root_component(&g_vfs, g_in, &root);
  size_t rl = range_size(&root);
  size_t b = len;
  while(b > 0 && !vk_is_sep(g_in[b-1])) b--;
  size_t want = b > 0 ? b - 1 : 0;             /* up to the last separator */
  if(b > 0 && rl > 0 && b == rl) want = rl;    /* a bare root keeps its separators */
  VK_ENSURE("dirname starts with the path", h.start == g_in);
  VK_ENSURE("dirname ends at the last separator, or is the whole root", h.end == g_in + want);
  VK_REACH("dirname");
}

void h_scan(void) {
  setup();
  vk_in_str("ch", g_in, N, ALPHA);
  StringRange el, root;
  bool abs = g_vfs.m_path_root_component(&g_vfs, g_in, &root);
  const char *p = g_in + (abs ? range_size(&root) : 0);
  const char *path = g_in;
  for(int n = 0; n < N; n++) {
    while(vk_is_sep(*p)) p++;
    int rval = evfs_vfs_scan_path(&g_vfs, path, &el);
    path = NULL;
    if(!*p) { VK_ENSURE("scan ends after the last segment", rval != EVFS_OK); VK_REACH("scan end"); break; }
    const char *q = p;
    while(*q && !vk_is_sep(*q)) q++;
    VK_ENSURE("scan yields each path segment in order", rval == EVFS_OK && el.start == p && el.end == q);
    p = q;
  }
}
