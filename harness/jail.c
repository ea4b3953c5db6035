/* C01, C03: contracts of the jail shim over a recording base. */
#define VK_HAVE_EVFS_C
#define VK_GHOST_ALLOC
#include "common.h"
#include "src/evfs.c"
#define B_OWN_ROOT
static void see_path(int k, const char *p);
#define B_PATH(k, p) see_path(k, p)
static bool bm_root(Evfs *v, const char *p, StringRange *r);
#include "mock_base.h"
#include "src/shim_jail.c"

static struct { Evfs v; JailData d; } S;
static struct { JailFile f; BFile b; } F;
static struct { JailDir d; BDir b; } D;

#if !defined VK_NATIVE

/* ---- unjail_path as a contract: succeeds with the converted path, NUL terminated inside the range, or fails.
   g_tag identifies which client path a converted path came from. ---- */
static char P[6], Q[6]; static char seen[2]; static int g_conv[2]; static int g_convs;
static void see_path(int k, const char *p) { VK_ENSURE("only converted paths reach the base", p[0] == 'P' || p[0] == 'Q'); seen[k] = p[0]; }
static bool bm_root(Evfs *v, const char *p, StringRange *r) { b_log(B_ROOT, v, p, r, 0, 0, 0); r->start = p; r->end = p + 1; return b_ret & 1; }
int C_unjail(Evfs *vfs, const char *path, StringRange *real) {
  VK_ENSURE("conversion is asked of the shim for the caller's path", vfs == &S.v && (path == P || path == Q));
  VK_ENSURE("conversion writes inside its buffer", range_size(real) >= EVFS_MAX_PATH && __CPROVER_w_ok(real->start, range_size(real)));
  int k = path == P ? 0 : 1; g_convs++;
  int st = k == 0 ? g_conv[0] : g_conv[1];
  if(st != EVFS_OK) { VK_ASSUME(st < 0); ((char *)real->start)[0] = 'x'; return st; }
  ((char *)real->start)[0] = path == P ? 'P' : 'Q'; ((char *)real->start)[1] = 0;
  return EVFS_OK;
}
static void jsetup(void) {
  vk_alloc_reset(); vk_oom_ok = true; base_setup(); seen[0] = seen[1] = 0; g_convs = 0; VK_ANY_TEXT("p", P); VK_ANY_TEXT("q", Q);
  S.v.fs_data = &S.d; S.v.vfs_name = "j"; S.d.base_vfs = &BV; S.d.vfs_name = "j"; S.d.shim_vfs = &S.v; S.d.jail_root = "/r";
  S.v.m_stat = jail__stat; S.v.m_path_root_component = jail__path_root_component; S.v.m_get_cur_dir = jail__get_cur_dir;
  F.f.base.methods = &s_jail_methods; F.f.shim_data = &S.d; F.f.base_file = &F.b.base; F.b.base.methods = &BFM;
  D.d.base.methods = &s_jail_dir_methods; D.d.shim_data = &S.d; D.d.base_dir = &D.b.base; D.b.base.methods = &BDM;
  g_conv[0] = VK_IN_BOOL("c0") ? 0 : VK_IN_RANGE("cr0", INT_MIN, -1); g_conv[1] = VK_IN_BOOL("c1") ? 0 : VK_IN_RANGE("cr1", INT_MIN, -1);
}
void h_j_file(void) { jsetup(); check_file(&F.f.base, &F.b.base); VK_REACH("jail file end"); }
void h_j_dir(void) { jsetup(); check_dir(&D.d.base, &D.b.base); VK_REACH("jail dir end"); }
#define REFUSED(st) (r == (st) && b_n == 0)
void h_j_vfs(void) {
  jsetup(); int c = g_conv[0], c2 = g_conv[1], r, br = (int)b_ret, k = VK_IN_RANGE("cmd", INT_MIN, INT_MAX), fl = VK_IN_RANGE("fl", 0, 63); char arg[4]; EvfsInfo i; StringRange rg = {P, P + 1};
  VK_REQUIRE(k != EVFS_CMD_UNREGISTER);
  switch(VK_IN_RANGE("op", 0, 5)) {
    case 0: r = jail__stat(&S.v, P, &i); VK_ENSURE("stat is the base stat of the converted path", c ? REFUSED(c) : r == br && ONCE(B_STAT) && seen[0] == 'P' && info_is(&i)); break;
    case 1: r = jail__delete(&S.v, P); VK_ENSURE("delete is the base delete of the converted path", c ? REFUSED(c) : r == br && ONCE(B_DELETE) && seen[0] == 'P'); break;
    case 2: r = jail__rename(&S.v, P, Q); VK_ENSURE("rename is the base rename of both converted paths", c || c2 ? r < 0 && b_n == 0 : r == br && ONCE(B_RENAME) && seen[0] == 'P' && seen[1] == 'Q'); break;
    case 3: r = jail__make_dir(&S.v, P); VK_ENSURE("make_dir is the base make_dir of the converted path", c ? REFUSED(c) : r == br && ONCE(B_MKDIR) && seen[0] == 'P'); break;
    case 4: r = jail__vfs_ctrl(&S.v, k, arg); VK_ENSURE("vfs control is passed through", r == br && ONCE(B_CTRL) && b_p == arg && b_i == k); break;
    default: VK_ENSURE("root component is the base's", jail__path_root_component(&S.v, P, &rg) == (br & 1) && ONCE(B_ROOT) && b_p == P && b_q == &rg); break;
  }
  VK_ENSURE("the base filesystem is used", b_n == 0 || b_self == &BV);
  VK_REACH("jail vfs end");
}
#ifndef FILE_OPEN
#define FILE_OPEN 0
#endif
void h_j_open(void) {
  jsetup(); int fl = VK_IN_RANGE("fl", 0, 63), br = (int)b_ret, r; int c = g_conv[0];
  if(FILE_OPEN) {
    r = jail__open(&S.v, P, &F.f.base, fl);
    VK_ENSURE("open is the base open of the converted path", c ? b_n == 0 : ONCE(B_OPEN) && b_self == &BV && seen[0] == 'P' && b_i == fl);
    VK_ENSURE("the result is the base's", c ? r == c : br == EVFS_OK && b_bad ? r < 0 : r == br);
    VK_ENSURE("a handle is usable exactly on success", (F.f.base.methods != NULL) == (r == EVFS_OK));
    if(r == EVFS_OK) VK_ENSURE("the handle is the shim's, over the base handle", F.f.base.methods == &s_jail_methods && (const void *)F.f.base_file == b_q);
    if(c == 0) VK_ENSURE("the base handle lies inside the allocation", b_q == &F.b);
  } else {
    r = jail__open_dir(&S.v, P, &D.d.base);
    VK_ENSURE("open_dir is the base open_dir of the converted path", c ? b_n == 0 : ONCE(B_OPENDIR) && b_self == &BV && seen[0] == 'P');
    VK_ENSURE("the result is the base's", c ? r == c : br == EVFS_OK && b_bad ? r < 0 : r == br);
    VK_ENSURE("a directory is usable exactly on success", (D.d.base.methods != NULL) == (r == EVFS_OK));
    if(r == EVFS_OK) VK_ENSURE("the directory is the shim's, over the base directory", D.d.base.methods == &s_jail_dir_methods && (const void *)D.d.base_dir == b_q);
    if(c == 0) VK_ENSURE("the base directory lies inside the allocation", b_q == &D.b);
  }
  VK_REACH("jail open end");
}

/* ---- unjail_path itself, over the contract of evfs_vfs_path_absolute (C05) ---- */
static char g_abs[EVFS_MAX_PATH + 1], g_root[EVFS_MAX_PATH]; static size_t g_al, g_rc; static int g_absr; static const char *g_at; static int g_abscalls; static const char *g_lo, *g_hi;
int C_absolute(Evfs *vfs, const char *path, StringRange *abs) {
  VK_ENSURE("the client path is made absolute by the shim", vfs == &S.v && path == P);
  g_abscalls++; g_at = abs->start;
  VK_ENSURE("the result range lies inside the output range", VK_SAME(abs->start, g_lo, 1) && abs->start >= g_lo && abs->end <= g_hi && abs->start <= abs->end);
  size_t room = range_size(abs);
  if(g_absr != EVFS_OK || g_al + 1 > room) { if(room) ((char *)abs->start)[0] = VK_HAVOC_CHAR(); return g_absr != EVFS_OK ? g_absr : EVFS_ERR_OVERFLOW; }
  for(size_t i = 0; i <= g_al; i++) ((char *)abs->start)[i] = g_abs[i];
  return EVFS_OK;
}
static bool C_root(Evfs *v, const char *p, StringRange *r) { if(p == g_at) { r->start = p; r->end = p + g_rc; return true; } r->start = r->end = p; return false; }
#ifndef RMAX
#define RMAX 6
#define OMAX 20
#endif
void h_j_unjail(void) {
  jsetup(); S.v.m_path_root_component = C_root;
  size_t rl = VK_IN_RANGE("rl", 1, RMAX - 1); g_al = VK_IN_RANGE("al", 1, OMAX - 1); g_rc = VK_IN_RANGE("rc", 1, OMAX - 1); VK_REQUIRE(g_rc <= g_al);
  size_t out = VK_IN_RANGE("out", 1, OMAX); g_absr = VK_IN_BOOL("absok") ? 0 : VK_IN_RANGE("absr", INT_MIN, -1);
  static char buf[OMAX + 4];
  for(size_t i = 0; i < OMAX; i++) { char ch = VK_HAVOC_CHAR(); VK_ASSUME(ch != 0); g_abs[i] = i < g_al ? ch : 0; }
  for(size_t i = 0; i < RMAX; i++) { char ch = VK_HAVOC_CHAR(); VK_ASSUME(ch != 0); g_root[i] = i < rl ? ch : 0; }
  for(size_t i = 0; i < sizeof buf; i++) buf[i] = 0x55;
  S.d.jail_root = g_root; StringRange r = {buf, buf + out}; g_lo = buf; g_hi = buf + out; g_abscalls = 0;
  int st = unjail_path(&S.v, P, &r);
  bool fits = rl + 1 + g_al + 1 <= out;
  if(st == EVFS_OK) {
    VK_ENSURE("a path is converted only if it could be made absolute", g_absr == EVFS_OK && rl + 1 + (g_al - g_rc) + 1 <= out);
    size_t k = VK_IN_RANGE("k", 0, OMAX);
    if(k < rl) VK_ENSURE("the converted path starts with the jail root", buf[k] == g_root[k]);
    if(k == rl) VK_ENSURE("a separator follows the jail root", buf[k] == '/');
    if(k > rl && k <= rl + 1 + g_al - g_rc) VK_ENSURE("then the absolute path without its root, NUL terminated", buf[k] == g_abs[k - rl - 1 + g_rc]);
  } else VK_ENSURE("conversion fails only for a reason, with an error", st < 0 && (!fits || st == g_absr));
  for(size_t i = 0; i < sizeof buf; i++) if(i >= out) VK_ENSURE("nothing is written past the range", buf[i] == 0x55);
  VK_REACH("unjail end");
}
/* unjail_path for roots, paths and buffers of any size, over the contracts of the range functions (C07) */
static char a_buf[70000]; static const char *a_root_at, *a_sep_at; static size_t a_rl; static char a_sep; static int a_moves; static const void *a_md, *a_ms; static size_t a_mn; static bool a_over;
static void a_range(const AppendRange *r) { VK_ENSURE("the range stays inside the output range", VK_SAME(r->start, a_buf, 1) && r->start >= g_lo && r->start <= r->end && r->end <= g_hi); }
int C_cat_str(AppendRange *r, const char *s) {
  a_range(r); VK_ENSURE("the jail root is appended", s == g_root);
  if(a_rl + 1 > (size_t)(r->end - r->start)) { a_over = true; return -1; }
  a_root_at = r->start; r->start += a_rl; return (int)a_rl;
}
int C_cat_char(AppendRange *r, char ch) { a_range(r); if(r->end - r->start < 2) { a_over = true; return -1; } a_sep = ch; a_sep_at = r->start++; return 1; }
int C_abs_any(Evfs *vfs, const char *path, StringRange *abs) {
  VK_ENSURE("the client path is made absolute by the shim", vfs == &S.v && path == P); a_range((AppendRange *)abs); g_at = abs->start; g_abscalls++;
  if(g_absr != EVFS_OK) return g_absr;
  if(g_al + 1 > (size_t)range_size(abs)) { a_over = true; return EVFS_ERR_OVERFLOW; }
  return EVFS_OK;
}
size_t C_range_strlen(StringRange *r) { VK_ENSURE("only the absolute path is measured", r->start == g_at && (size_t)range_size(r) > g_al); return g_al; }
void *C_memmove(void *d, const void *s, size_t n) { a_moves++; a_md = d; a_ms = s; a_mn = n; return d; }
void h_j_unjail_any(void) {
  jsetup(); S.v.m_path_root_component = C_root; a_rl = VK_IN_RANGE("rl", 1, 65536); g_al = VK_IN_RANGE("al", 1, 65536); g_rc = VK_IN_RANGE("rc", 1, 65536); VK_REQUIRE(g_rc <= g_al);
  size_t out = VK_IN_RANGE("out", 1, 65536); g_absr = VK_IN_BOOL("absok") ? 0 : VK_IN_RANGE("absr", INT_MIN, -1);
  S.d.jail_root = g_root; StringRange r = {a_buf, a_buf + out}; g_lo = a_buf; g_hi = a_buf + out; g_abscalls = a_moves = 0; __CPROVER_havoc_object(a_buf); a_root_at = a_sep_at = NULL; a_over = false;
  int st = unjail_path(&S.v, P, &r);
  if(st == EVFS_OK) {
    VK_ENSURE("the jail root comes first, then a separator, then the absolute path", g_absr == EVFS_OK && !a_over && a_root_at == a_buf && a_sep == '/' && a_sep_at == a_buf + a_rl && g_abscalls == 1 && g_at == a_sep_at + 1);
    VK_ENSURE("the root of the absolute path is dropped, with its terminator moved along", a_moves == 1 && a_md == g_at && a_ms == g_at + g_rc && a_mn == g_al - g_rc + 1);
  } else VK_ENSURE("conversion fails only for a reason, with an error", st < 0 && (a_over || st == g_absr));
  VK_REACH("unjail any end");
}
/* ---- working directory ---- */
static const char *C_lpath; static int g_exist_calls; static bool g_exists;
int C_abs_cwd(Evfs *vfs, const char *path, StringRange *abs) {
  VK_ENSURE("the client path is made absolute by the shim", vfs == &S.v && path == P); g_abscalls++;
  VK_ENSURE("the result range is a whole path buffer", range_size(abs) >= EVFS_MAX_PATH && __CPROVER_w_ok(abs->start, range_size(abs)));
  if(g_absr != EVFS_OK) { ((char *)abs->start)[0] = 'x'; return g_absr; }
  ((char *)abs->start)[0] = '/'; ((char *)abs->start)[1] = 'N'; ((char *)abs->start)[2] = 0; return EVFS_OK;
}
bool C_existing(Evfs *vfs, const char *path) { g_exist_calls++; VK_ENSURE("the absolute path is tested inside the jail", vfs == &S.v && path[0] == '/' && path[1] == 'N' && path[2] == 0); return g_exists; }
void h_j_cwd(void) {
  jsetup(); g_absr = VK_IN_BOOL("absok") ? 0 : VK_IN_RANGE("absr", INT_MIN, -1); g_exists = VK_IN_BOOL("exists"); g_abscalls = g_exist_calls = 0;
  S.d.cur_dir[0] = '/'; S.d.cur_dir[1] = 'o'; S.d.cur_dir[2] = 0;
  int r = jail__set_cur_dir(&S.v, P);
  VK_ENSURE("set_cur_dir succeeds exactly for an existing directory", (r == EVFS_OK) == (g_absr == EVFS_OK && g_exists) && r <= 0);
  VK_ENSURE("the working directory changes exactly on success", S.d.cur_dir[0] == '/' && S.d.cur_dir[1] == (r == EVFS_OK ? 'N' : 'o') && S.d.cur_dir[2] == 0);
  VK_ENSURE("the base is not asked with an unconverted path", b_n == 0);
  char out[8]; for(int i = 0; i < 8; i++) out[i] = 0x55; size_t n = VK_IN_RANGE("outn", 0, 6); StringRange rg = {out, out + n}; char nm = S.d.cur_dir[1];
  r = jail__get_cur_dir(&S.v, &rg);
  VK_ENSURE("the working directory is reported, or an error when it does not fit", n >= 3 ? r == EVFS_OK && out[0] == '/' && out[1] == nm && out[2] == 0 : r < 0);
  for(size_t i = 0; i < 8; i++) if(i >= n) VK_ENSURE("nothing is written past the range", out[i] == 0x55);
  VK_REACH("jail cwd end");
}
/* ---- registration ---- */
static Evfs *g_reg, g_shim; static JailData g_data; static bool g_def, g_have; static int g_regs; static const char *g_find; static char g_nm[4], g_jr[4];
int C_register(Evfs *v, bool d) { g_regs++; g_reg = v; g_def = d; g_shim = *v; JailData *q = (JailData *)v->fs_data; g_data.base_vfs = q->base_vfs; g_data.jail_root = q->jail_root; g_data.cur_dir[0] = q->cur_dir[0]; g_data.cur_dir[1] = q->cur_dir[1];
  strncpy(g_nm, v->vfs_name, 3); strncpy(g_jr, q->jail_root, 3); return 0; }
Evfs *C_find(const char *n) { g_find = n; return g_have ? &BV : NULL; }
int C_abs_reg(Evfs *vfs, const char *path, StringRange *abs) {
  VK_ENSURE("the jail root is made absolute on the base", vfs == &BV && path == P);
  VK_ENSURE("the result range is a whole path buffer", range_size(abs) >= EVFS_MAX_PATH && __CPROVER_w_ok(abs->start, range_size(abs)));
  if(g_absr != EVFS_OK) { ((char *)abs->start)[0] = 0; return g_absr; }
  ((char *)abs->start)[0] = '/'; ((char *)abs->start)[1] = 'R'; ((char *)abs->start)[2] = 0; return EVFS_OK;
}
#ifndef ABSOK
#define ABSOK 0
#endif
void h_j_register(void) {
  jsetup(); bool def = VK_IN_BOOL("def"); g_regs = 0; g_have = ABSOK ? 1 : VK_IN_BOOL("have"); g_absr = ABSOK ? 0 : EVFS_ERR_OVERFLOW;
  int r = evfs_register_jail("jl", Q, P, def);
  VK_ENSURE("the named base is looked up", g_find == Q);
  if(!g_have) VK_ENSURE("a missing base is an error", r == EVFS_ERR_NO_VFS && g_regs == 0 && vk_live == 0);
  else if(g_absr) VK_ENSURE("a jail root that cannot be made absolute is an error", r == g_absr && g_regs == 0 && vk_live == 0);
  else if(vk_oom) VK_ENSURE("allocation failure is an error", r == EVFS_ERR_ALLOC && g_regs == 0);
  else {
    VK_ENSURE("the shim is registered once", r == EVFS_OK && g_regs == 1 && g_def == def && strcmp(g_nm, "jl") == 0);
    VK_ENSURE("the jail is the absolute root on the named base", g_data.base_vfs == &BV && strcmp(g_jr, "/R") == 0);
    VK_ENSURE("the working directory starts at the root", g_data.cur_dir[0] == '/' && g_data.cur_dir[1] == 0);
    VK_ENSURE("handles have room for the base handle", g_shim.vfs_file_size >= sizeof(JailFile) + sizeof(BFile) && g_shim.vfs_dir_size >= sizeof(JailDir) + sizeof(BDir));
    VK_ENSURE("every method is the shim's", g_shim.m_open == jail__open && g_shim.m_stat == jail__stat && g_shim.m_delete == jail__delete && g_shim.m_rename == jail__rename
      && g_shim.m_make_dir == jail__make_dir && g_shim.m_open_dir == jail__open_dir && g_shim.m_get_cur_dir == jail__get_cur_dir && g_shim.m_set_cur_dir == jail__set_cur_dir
      && g_shim.m_vfs_ctrl == jail__vfs_ctrl && g_shim.m_path_root_component == jail__path_root_component);
    b_n = 0; VK_ENSURE("unregistering frees the shim and leaves the base alone", jail__vfs_ctrl(g_reg, EVFS_CMD_UNREGISTER, NULL) == EVFS_OK && vk_live == 0 && b_n == 0);
  }
  VK_REACH("jail register end");
}

#else /* ---------------- native: whole histories on the real code against an independent path model ---------------- */
static char seen[2][1024]; static int n_seen;
static void see_path(int k, const char *p) { strncpy(seen[k], p, 1023); n_seen++; }
static bool g_dos;
static bool bm_root(Evfs *v, const char *p, StringRange *r) { return g_dos ? vk_dos_root(v, p, r) : vk_unix_root(v, p, r); }
static size_t rootlen(const char *p, bool *abs) { StringRange r; *abs = bm_root(NULL, p, &r); return (size_t)(r.end - r.start); }
/* segments of p (after its root) applied to out, a path of the form "" or "/a/b": ".." pops, never above the top */
static void apply(char *out, const char *p) {
  size_t i = 0;
  for(;;) {
    while(vk_is_sep(p[i])) i++;
    if(!p[i]) return;
    size_t s = i; while(p[i] && !vk_is_sep(p[i])) i++;
    size_t l = i - s;
    if(l == 1 && p[s] == '.') continue;
    if(l == 2 && p[s] == '.' && p[s+1] == '.') { char *q = strrchr(out, '/'); if(q) *q = 0; continue; }
    size_t o = strlen(out); out[o] = '/'; memcpy(out + o + 1, p + s, l); out[o + 1 + l] = 0;
  }
}
static char cwd[2048];     /* model: "" is the root */
static char jroot[600];    /* model: normalised segments of the jail root, and its drive */
static char jdrive[4];
static void jail_abs(const char *p, char *out) {   /* absolute form inside the jail without root */
  bool abs; size_t rl = rootlen(p, &abs);
  strcpy(out, abs ? "" : cwd); apply(out, p + rl);
}
static void check_real(int k, const char *client) {
  char want[4096], got[4096], real[4096]; char a[2048]; jail_abs(client, a);
  strcpy(want, jroot); strcat(want, a);
  bool abs; const char *p = seen[k]; size_t dl = strlen(jdrive);
  VK_ENSURE("the base path is on the jail's drive", strncmp(p, jdrive, dl) == 0);
  p += dl; VK_ENSURE("the base path is absolute", vk_is_sep(p[0]));
  /* containment: no prefix of the path leaves the jail root */
  got[0] = 0; size_t rl = strlen(jroot), i = 0; int depth = 0; bool inside = rl == 0;
  while(p[i]) {
    while(vk_is_sep(p[i])) i++;
    if(!p[i]) break;
    size_t s = i; while(p[i] && !vk_is_sep(p[i])) i++;
    char seg[2048]; memcpy(seg, p + s, i - s); seg[i - s] = 0; apply(got, seg);
    bool in = strncmp(got, jroot, rl) == 0 && (got[rl] == 0 || got[rl] == '/');
    if(inside) VK_ENSURE("no part of the base path leaves the jail root", in);
    inside |= in;
  }
  VK_ENSURE("the base path is at or beneath the jail root", inside);
  VK_ENSURE("the base path is the jail root plus the absolute client path", strcmp(got, want) == 0);
  (void)real; (void)abs; (void)depth;
}
static const char *const roots[] = {"/", "/jail", "/a/b/", "jail", "/x/../y//z/.", "\\w"};
static int rpath(const char *nm, char *p, size_t cap) {
  int kind = vk_in(nm, 0, 15); size_t n = 0;
  if(kind == 0) { n = vk_in("longlen", 200, cap - 1); for(size_t i = 0; i < n; i++) { char c = vk_in_char("pc", "//aaab..cd\\"); p[i] = c ? c : 'z'; } p[n] = 0; return n; }
  int segs = vk_in("segs", 0, 7);
  if(g_dos && vk_in("drv", 0, 3) == 0) { strcpy(p, vk_in("drvabs", 0, 1) ? "C:/" : "C:"); n = strlen(p); }
  else if(vk_in("lead", 0, 1)) { int m = vk_in("nlead", 1, 3); while(m--) p[n++] = vk_in("sep", 0, 3) ? '/' : '\\'; }
  static const char *const segt[] = {"..", "..", "..", ".", "a", "b", "jail", "..a", "a.", "...", "y", "z", "C:", "dir with space"};
  for(int i = 0; i < segs; i++) { const char *s = segt[vk_in("seg", 0, 13)]; memcpy(p + n, s, strlen(s)); n += strlen(s); int m = vk_in("nsep", i + 1 < segs ? 1 : 0, 2); while(m--) p[n++] = vk_in("sep", 0, 3) ? '/' : '\\'; }
  p[n] = 0; return n;
}
static int dummy_cwd(Evfs *v, StringRange *r) { if(range_size(r) < 4) return EVFS_ERR_OVERFLOW; strcpy((char *)r->start, g_dos ? "C:/" : "/h"); return 0; }
void h_jail_hist(void) {
  evfs_init(); base_setup(); g_dos = VK_IN_BOOL("dos"); BV.m_get_cur_dir = dummy_cwd; vk_alloc_reset(); vk_oom_ok = false;
  s_vfs_list = NULL; s_default_vfs = NULL; evfs_register(&BV, false);
  char rp[300]; int rk = vk_in("root", 0, 7);
  if(rk < 6) strcpy(rp, roots[rk]); else { strcpy(rp, rk == 6 && g_dos ? "C:/q" : "/"); if(rk == 7) { size_t n = vk_in("rlen", 100, 240); memset(rp + 1, 'r', n); rp[n + 1] = 0; } }
  jdrive[0] = 0; jroot[0] = 0; { bool abs; size_t l = rootlen(rp, &abs); if(!abs) { if(!g_dos) strcpy(jroot, "/h"); else strcpy(jdrive, "C:"); } else if(rp[0] == 'C' && g_dos) strcpy(jdrive, "C:"); apply(jroot, rp + l); }
  int r = evfs_register_jail("j", "base", rp, true);
  VK_ENSURE("the jail registers", r == EVFS_OK);
  cwd[0] = 0; Evfs *v = evfs_find_vfs("j"); VK_ENSURE("the jail is found", v != NULL);
  { static char g[300]; StringRange c; range_init(&c, g, sizeof g); VK_ENSURE("the working directory starts at /", v->m_get_cur_dir(v, &c) == 0 && strcmp(g, "/") == 0); }
  int steps = vk_in("steps", 1, 10);
  for(int s = 0; s < steps; s++) {
    static char p[400], q[400]; rpath("pk", p, sizeof p); rpath("qk", q, sizeof q);
    b_ret = vk_in("ret", 0, 2) ? 0 : vk_in("err", -20, -1); b_type = vk_in("dir", 0, 2) ? EVFS_FILE_DIR : 0; b_n = 0; n_seen = 0; b_bad = false; b_size = vk_in("sz", 0, 99);
    int op = vk_in("op", 0, 8), br = (int)b_ret, fl = vk_in("fl", 0, 63); EvfsInfo inf; EvfsFile *f = NULL; EvfsDir *d = NULL; bool two = false;
    static const int id[] = {B_STAT, B_DELETE, B_RENAME, B_MKDIR, B_OPEN, B_OPENDIR, B_STAT};
    switch(op) {
      case 0: r = evfs_stat_ex(p, &inf, "j"); break;
      case 1: r = evfs_delete_ex(p, "j"); break;
      case 2: r = evfs_rename_ex(p, q, "j"); two = true; break;
      case 3: r = v->m_make_dir(v, p); break;
      case 4: r = evfs_open_ex(p, &f, fl, "j"); break;
      case 5: r = evfs_open_dir_ex(p, &d, "j"); break;
      case 6: r = evfs_set_cur_dir_ex(p, "j"); break;
      default: {
        static char out[300]; memset(out, 0x55, sizeof out); size_t n = vk_in("on", 0, 280); StringRange c = {out, out + n};
        r = v->m_get_cur_dir(v, &c); const char *w = cwd[0] ? cwd : "/";
        /* a drive prefix given to set_cur_dir may be kept in the reported path */
        if(n >= strlen(w) + 5) { bool abs; size_t l; VK_ENSURE("get_cur_dir succeeds", r == EVFS_OK); l = rootlen(out, &abs); VK_ENSURE("the working directory is reported relative to the jail", abs && strcmp(out + l, w + 1) == 0); }
        else if(n < strlen(w) + 1) VK_ENSURE("a working directory that does not fit is an error", r < 0);
        for(size_t i = n; i < sizeof out; i++) VK_ENSURE("nothing is written past the range", out[i] == 0x55);
        VK_ENSURE("get_cur_dir does not reach the base", b_n == 0);
        continue; }
    }
    if(b_n == 0) {   /* refused without calling the base: only for paths that do not fit */
      size_t l = strlen(p) > strlen(q) && two || !two ? strlen(p) : strlen(q);
      VK_ENSURE("a refused operation is an error", r < 0);
      VK_ENSURE("operations are refused only for long paths", strlen(rp) + strlen(jroot) + 2 * (strlen(cwd) + l) + 8 >= EVFS_MAX_PATH / 2);
    } else {
      VK_ENSURE("the operation reaches the base once", ONCE(id[op]) && b_self == &BV);
      check_real(0, p); if(two) check_real(1, q);
      VK_ENSURE("the converted path fits", strlen(seen[0]) < EVFS_MAX_PATH);
      if(op != 6) VK_ENSURE("the base result is returned", r == br);
      if(op == 0) VK_ENSURE("the base information is returned", info_is(&inf));
      if(op == 4) { VK_ENSURE("open flags are the caller's", b_i == fl); VK_ENSURE("a handle exactly on success", (f != NULL) == (r == 0)); if(f) { EvfsFile *bf = ((JailFile *)f)->base_file; b_n = 0; VK_ENSURE("file size is the base's", evfs_file_size(f) == 0 || b_n == 1); (void)bf; b_ret = 0; evfs_file_close(f); } }
      if(op == 5) { VK_ENSURE("a directory exactly on success", (d != NULL) == (r == 0)); if(d) { b_ret = 0; evfs_dir_close(d); } }
      if(op == 6) { bool ok = br == EVFS_OK && (b_type & EVFS_FILE_DIR); VK_ENSURE("set_cur_dir succeeds exactly for an existing directory", (r == EVFS_OK) == ok && r <= 0); if(ok) { static char a[2048]; jail_abs(p, a); strcpy(cwd, a); } }
    }
  }
  VK_ENSURE("unregister", evfs_unregister(v) == EVFS_OK); VK_ENSURE("nothing is leaked", vk_live == 0);
}
void h_j_file(void) { base_setup(); F.f.base.methods = &s_jail_methods; F.f.shim_data = &S.d; F.f.base_file = &F.b.base; F.b.base.methods = &BFM; check_file(&F.f.base, &F.b.base); }
void h_j_dir(void) { base_setup(); D.d.base.methods = &s_jail_dir_methods; D.d.shim_data = &S.d; D.d.base_dir = &D.b.base; D.b.base.methods = &BDM; check_dir(&D.d.base, &D.b.base); }
#endif
