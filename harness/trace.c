/* C02: contracts of the trace shim over a recording base. */
#define VK_HAVE_EVFS_C
#define VK_GHOST_ALLOC
#include "common.h"
#include "src/evfs.c"
#include "mock_base.h"
#include "src/shim_trace.c"

#ifndef VK_NATIVE
/* contracts standing for the formatting helpers: they only build report text */
char *C_vmprintf(const char *fmt, va_list args) {
  VK_ENSURE("a report has a format", fmt != NULL);
  char *s = vk_malloc(sizeof(vk_handle_t)); if(s) s[0] = 0; return s;
}
StringRange g_any;
/* evfs_path_basename (C06): a range inside the path, ending with it */
int C_basename(const char *path, StringRange *tail) { size_t k = VK_HAVOC_ULONG(), n = strlen(path); VK_ASSUME(k <= n); tail->start = path + k; tail->end = path + n; return VK_HAVOC_INT(); }
size_t C_strlcpy(char *d, const char *s, size_t n) {
  VK_ENSURE("strlcpy: the destination has the size it is given", n == 0 || __CPROVER_w_ok(d, n)); VK_ENSURE("strlcpy: source", s != NULL);
  if(n) { __CPROVER_havoc_slice(d, n); size_t k = VK_HAVOC_ULONG(); VK_ASSUME(k < n); d[k] = 0; }
  return VK_HAVOC_ULONG();
}
#endif

static int g_reports; static char g_ctx[2];
static int report(const char *buf, void *ctx) { g_reports++; VK_ENSURE("a report carries text and the caller's context", buf != NULL && ctx == g_ctx); return (int)b_ret; }

static struct { Evfs v; TraceData d; } S;
static struct { TraceFile f; BFile b; VK_NATIVE_ONLY(char behind[300];) } F;
static struct { TraceDir d; BDir b; VK_NATIVE_ONLY(char behind[300];) } D;
#ifndef PLEN
#define PLEN 8
#endif
static char P[PLEN], Q[PLEN];
static bool same(const void *a, const char *b) { return a == (const void *)b || a && strcmp((const char *)a, b) == 0; }
static void tsetup(void) {
  vk_alloc_reset(); vk_oom_ok = true; base_setup(); g_reports = 0;
  memset(&S, 0, sizeof S); S.v.fs_data = &S.d; S.v.vfs_name = "tr"; S.d.base_vfs = &BV; S.d.report = report; S.d.ctx = g_ctx; S.d.vfs_name = "tr"; S.d.shim_vfs = &S.v;
  memset(&F, 0, sizeof F); F.f.base.methods = &s_trace_methods; F.f.shim_data = &S.d; F.f.base_file = &F.b.base; F.b.base.methods = &BFM;
  memset(&D, 0, sizeof D); D.d.base.methods = &s_trace_dir_methods; D.d.shim_data = &S.d; D.d.base_dir = &D.b.base; D.b.base.methods = &BDM;
  vk_in_str("p", P, PLEN, PATH_ALPHA); vk_in_str("q", Q, PLEN, PATH_ALPHA);
  VK_NATIVE_ONLY(memset(F.behind, 0x33, sizeof F.behind); memset(D.behind, 0x33, sizeof D.behind); if(vk_in("long_names", 0, 1)) for(int k = 1; P[k]; k++) if(vk_is_sep(P[k])) P[k] = 'n';)
}
static void tdone(void) { VK_NATIVE_ONLY(for(int k = 0; k < 300; k++) VK_ENSURE("nothing is written behind a handle", F.behind[k] == 0x33 && D.behind[k] == 0x33);) VK_ENSURE("report buffers are freed", vk_live == 0); }
void h_tr_file(void) { tsetup(); check_file(&F.f.base, &F.b.base); tdone(); VK_REACH("trace file end"); }
void h_tr_dir(void) { tsetup(); check_dir(&D.d.base, &D.b.base); tdone(); VK_REACH("trace dir end"); }
void h_tr_vfs(void) {
  tsetup(); int r = (int)b_ret, k = VK_IN_RANGE("cmd", INT_MIN, INT_MAX); char arg[4]; EvfsInfo i; StringRange rg = {P, P + 1}; memset(&i, 0, sizeof i);
  VK_REQUIRE(k != EVFS_CMD_UNREGISTER);
  switch(VK_IN_RANGE("op", 0, 7)) {
    case 0: VK_ENSURE("stat is passed through", trace__stat(&S.v, P, &i) == r && ONCE(B_STAT) && same(b_p, P) && info_is(&i)); break;
    case 1: VK_ENSURE("delete is passed through", trace__delete(&S.v, P) == r && ONCE(B_DELETE) && same(b_p, P)); break;
    case 2: VK_ENSURE("rename is passed through", trace__rename(&S.v, P, Q) == r && ONCE(B_RENAME) && same(b_p, P) && same(b_q, Q)); break;
    case 3: VK_ENSURE("make_dir is passed through", trace__make_dir(&S.v, P) == r && ONCE(B_MKDIR) && same(b_p, P)); break;
    case 4: VK_ENSURE("get_cur_dir is passed through", trace__get_cur_dir(&S.v, &rg) == r && ONCE(B_GETCWD) && b_p == &rg); break;
    case 5: VK_ENSURE("set_cur_dir is passed through", trace__set_cur_dir(&S.v, P) == r && ONCE(B_SETCWD) && same(b_p, P)); break;
    case 6: VK_ENSURE("vfs control is passed through", trace__vfs_ctrl(&S.v, k, arg) == r && ONCE(B_CTRL) && b_p == arg && b_i == k); break;
    default: VK_ENSURE("root component is passed through", trace__path_root_component(&S.v, P, &rg) == (r & 1) && ONCE(B_ROOT) && b_p == P && b_q == &rg); break;
  }
  VK_ENSURE("the base filesystem is used", b_self == &BV); tdone();
  VK_REACH("trace vfs end");
}
#ifdef VK_NATIVE
#define FILE_OPEN VK_IN_BOOL("file")
#elif !defined FILE_OPEN
#define FILE_OPEN 0
#endif
void h_tr_open(void) {
  tsetup(); int fl = VK_IN_RANGE("flags", 0, 63), r = (int)b_ret;
  if(FILE_OPEN) {
    memset(&F, 0x33, sizeof F); int s = trace__open(&S.v, P, &F.f.base, fl);
    VK_ENSURE("open is passed through", ONCE(B_OPEN) && b_self == &BV && same(b_p, P) && b_i == fl);
    VK_ENSURE("the base handle lies inside the allocation", b_q == &F.b.base || (const char *)b_q >= (const char *)&F + sizeof F.f && (const char *)b_q + sizeof(BFile) <= (const char *)(&F + 1));
    if(r == EVFS_OK && b_bad) VK_ENSURE("an open without methods is an error", s < 0);
    else VK_ENSURE("the base result is returned", s == r);
    VK_ENSURE("a handle is usable exactly on success", (F.f.base.methods != NULL) == (s == EVFS_OK));
    if(s == EVFS_OK) { VK_ENSURE("the handle is the shim's, over the base handle", F.f.base.methods == &s_trace_methods && F.f.shim_data == &S.d && (const void *)F.f.base_file == b_q); VK_NATIVE_ONLY(check_file(&F.f.base, (EvfsFile *)b_q);) }
  } else {
    memset(&D, 0x33, sizeof D); int s = trace__open_dir(&S.v, P, &D.d.base);
    VK_ENSURE("open_dir is passed through", ONCE(B_OPENDIR) && b_self == &BV && same(b_p, P));
    VK_ENSURE("the base directory lies inside the allocation", b_q == &D.b.base || (const char *)b_q >= (const char *)&D + sizeof D.d && (const char *)b_q + sizeof(BDir) <= (const char *)(&D + 1));
    if(r == EVFS_OK && b_bad) VK_ENSURE("an open_dir without methods is an error", s < 0);
    else VK_ENSURE("the base result is returned", s == r);
    VK_ENSURE("a directory is usable exactly on success", (D.d.base.methods != NULL) == (s == EVFS_OK));
    if(s == EVFS_OK) { VK_ENSURE("the directory is the shim's, over the base directory", D.d.base.methods == &s_trace_dir_methods && D.d.shim_data == &S.d && (const void *)D.d.base_dir == b_q); VK_NATIVE_ONLY(check_dir(&D.d.base, (EvfsDir *)b_q);) }
  }
  tdone();
  VK_REACH("trace open end");
}
/* registration */
static Evfs *g_reg; static bool g_def; static int g_regs, g_regret; static const char *g_find; static bool g_have;
static Evfs g_shim; static TraceData g_data; static char g_nm[4];
int C_register(Evfs *v, bool d) { g_regs++; g_reg = v; g_def = d; g_shim = *v; g_data = *(TraceData *)v->fs_data; strncpy(g_nm, v->vfs_name, 3); return g_regret; }
Evfs *C_find(const char *n) { g_find = n; return g_have ? &BV : NULL; }
void h_tr_register(void) {
  tsetup(); bool def = VK_IN_BOOL("def"); g_regs = 0; g_regret = 0; g_have = VK_IN_BOOL("have"); const char *nm = "tr";
  int r = evfs_register_trace(nm, P, report, g_ctx, def);
  VK_ENSURE("the named base is looked up", g_find == P);
  if(!g_have) VK_ENSURE("a missing base is an error", r == EVFS_ERR_NO_VFS && g_regs == 0 && vk_live == 0);
  else if(vk_oom) VK_ENSURE("allocation failure is an error", r == EVFS_ERR_ALLOC && g_regs == 0);
  else {
    VK_ENSURE("the shim is registered once", r == EVFS_OK && g_regs == 1 && g_def == def && strcmp(g_nm, nm) == 0);
    VK_ENSURE("the shim wraps the named base", g_data.base_vfs == &BV && g_data.report == report && g_data.ctx == g_ctx && g_data.vfs_name != NULL);
    VK_ENSURE("handles have room for the base handle", g_shim.vfs_file_size >= sizeof(TraceFile) + sizeof(BFile) && g_shim.vfs_dir_size >= sizeof(TraceDir) + sizeof(BDir));
    VK_ENSURE("every method is the shim's", g_shim.m_open == trace__open && g_shim.m_stat == trace__stat && g_shim.m_delete == trace__delete && g_shim.m_rename == trace__rename
      && g_shim.m_make_dir == trace__make_dir && g_shim.m_open_dir == trace__open_dir && g_shim.m_get_cur_dir == trace__get_cur_dir && g_shim.m_set_cur_dir == trace__set_cur_dir
      && g_shim.m_vfs_ctrl == trace__vfs_ctrl && g_shim.m_path_root_component == trace__path_root_component);
    b_n = 0; VK_ENSURE("unregistering frees the shim and leaves the base alone", trace__vfs_ctrl(g_reg, EVFS_CMD_UNREGISTER, NULL) == EVFS_OK && vk_live == 0 && b_n == 0);
  }
  VK_REACH("trace register end");
}
