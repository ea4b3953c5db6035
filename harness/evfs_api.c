/* Contracts for src/evfs.c: registry (C09), dispatch and handles (C10), copy (C11), make_path (C12). */
#define VK_HAVE_EVFS_C
#define VK_GHOST_ALLOC
#include "common.h"
#include "src/evfs.c"

bool glob_match(const char *pattern, const char *str, const char *dir_separators);

/* ---------- recording mock VFS: every method logs its arguments and returns a free value ---------- */
enum { M_NONE, M_OPEN, M_STAT, M_DELETE, M_RENAME, M_MKDIR, M_OPENDIR, M_GETCWD, M_SETCWD, M_CTRL, M_ROOT,
       F_CTRL, F_CLOSE, F_READ, F_WRITE, F_TRUNC, F_SYNC, F_SIZE, F_SEEK, F_TELL, F_EOF, D_CLOSE, D_READ, D_REWIND, M_LAST };
static int r_n, r_id; static const void *r_o, *r_p, *r_q; static long r_l, r_m;
static long r_ret; static int r_sync;

static void rec(int id, const void *o, const void *p, const void *q, long l, long m) {
  r_n++; r_id = id; r_o = o; r_p = p; r_q = q; r_l = l; r_m = m;
}
static int m_open(Evfs *v, const char *p, EvfsFile *f, int fl);
static int m_stat(Evfs *v, const char *p, EvfsInfo *i) { rec(M_STAT, v, p, i, 0, 0); i->type = (uint8_t)r_l; return (int)r_ret; }
static int m_delete(Evfs *v, const char *p) { rec(M_DELETE, v, p, 0, 0, 0); return (int)r_ret; }
static int m_rename(Evfs *v, const char *p, const char *q) { rec(M_RENAME, v, p, q, 0, 0); return (int)r_ret; }
static int m_mkdir(Evfs *v, const char *p) { rec(M_MKDIR, v, p, 0, 0, 0); return (int)r_ret; }
static int m_opendir(Evfs *v, const char *p, EvfsDir *d);
static int m_getcwd(Evfs *v, StringRange *p) { rec(M_GETCWD, v, p, 0, 0, 0); return (int)r_ret; }
static int m_setcwd(Evfs *v, const char *p) { rec(M_SETCWD, v, p, 0, 0, 0); return (int)r_ret; }
static int g_unreg; static Evfs *g_unreg_vfs;
static int m_ctrl(Evfs *v, int c, void *a) {
  if(c == EVFS_CMD_UNREGISTER) { g_unreg++; g_unreg_vfs = v; }
  rec(M_CTRL, v, a, 0, c, 0); return (int)r_ret;
}
static bool m_root(Evfs *v, const char *p, StringRange *r) { rec(M_ROOT, v, p, r, 0, 0); r->start = p; r->end = p; return r_ret & 1; }
static int f_ctrl(EvfsFile *f, int c, void *a) { rec(F_CTRL, f, a, 0, c, 0); return (int)r_ret; }
static int f_close(EvfsFile *f) { rec(F_CLOSE, f, 0, 0, 0, 0); return (int)r_ret; }
static ptrdiff_t f_read(EvfsFile *f, void *b, size_t n) { rec(F_READ, f, b, 0, (long)n, 0); return r_ret; }
static ptrdiff_t f_write(EvfsFile *f, const void *b, size_t n) { rec(F_WRITE, f, b, 0, (long)n, 0); return r_ret; }
static int f_trunc(EvfsFile *f, evfs_off_t n) { rec(F_TRUNC, f, 0, 0, n, 0); return (int)r_ret; }
static int f_sync(EvfsFile *f) { r_sync++; if(r_n == 0 && r_m == 77) return (int)r_l; rec(F_SYNC, f, 0, 0, 0, 0); return (int)r_ret; }
static evfs_off_t f_size(EvfsFile *f) { rec(F_SIZE, f, 0, 0, 0, 0); return (evfs_off_t)r_ret; }
static int f_seek(EvfsFile *f, evfs_off_t o, EvfsSeekDir w) { rec(F_SEEK, f, 0, 0, o, w); return (int)r_ret; }
static evfs_off_t f_tell(EvfsFile *f) { rec(F_TELL, f, 0, 0, 0, 0); return (evfs_off_t)r_ret; }
static bool f_eof(EvfsFile *f) { rec(F_EOF, f, 0, 0, 0, 0); return r_ret & 1; }
static int d_close(EvfsDir *d) { rec(D_CLOSE, d, 0, 0, 0, 0); return (int)r_ret; }
static int d_read(EvfsDir *d, EvfsInfo *i) { rec(D_READ, d, i, 0, 0, 0); return (int)r_ret; }
static int d_rewind(EvfsDir *d) { rec(D_REWIND, d, 0, 0, 0, 0); return (int)r_ret; }
static const EvfsFileMethods FM = { f_ctrl, f_close, f_read, f_write, f_trunc, f_sync, f_size, f_seek, f_tell, f_eof };
static const EvfsDirMethods DM = { d_close, d_read, d_rewind };
typedef vk_handle_t XFile;
typedef struct { EvfsDir base; long pad[5]; } XDir;
static int m_open(Evfs *v, const char *p, EvfsFile *f, int fl) { rec(M_OPEN, v, p, f, fl, 0); f->methods = &FM; return (int)r_ret; }
static int m_opendir(Evfs *v, const char *p, EvfsDir *d) { rec(M_OPENDIR, v, p, d, 0, 0); d->methods = &DM; return (int)r_ret; }

static Evfs VA, VB, VC;
static void full_vfs(Evfs *v, const char *name) {
  memset(v, 0, sizeof *v);
  v->vfs_name = name; v->vfs_file_size = sizeof(XFile); v->vfs_dir_size = sizeof(XDir);
  v->m_open = m_open; v->m_stat = m_stat; v->m_delete = m_delete; v->m_rename = m_rename; v->m_make_dir = m_mkdir;
  v->m_open_dir = m_opendir; v->m_get_cur_dir = m_getcwd; v->m_set_cur_dir = m_setcwd; v->m_vfs_ctrl = m_ctrl;
  v->m_path_root_component = m_root;
}
static void api_setup(void) {
  r_ret = 0; r_n = 0; vk_alloc_reset(); vk_oom_ok = true;
  s_vfs_list = NULL; s_default_vfs = NULL;
  s_evfs_initialized = true;
  full_vfs(&VA, "a"); full_vfs(&VB, "bb");
  memset(&VC, 0, sizeof VC); VC.vfs_name = "min"; VC.vfs_file_size = sizeof(XFile); VC.vfs_dir_size = sizeof(XDir);
  VC.m_open = m_open; VC.m_stat = m_stat;
  VK_ENSURE("registering succeeds", evfs_register(&VA, true) == EVFS_OK);
  VK_ENSURE("registering succeeds", evfs_register(&VB, false) == EVFS_OK);
  VK_ENSURE("registering succeeds", evfs_register(&VC, false) == EVFS_OK);
  r_n = 0; r_id = 0; r_o = r_p = r_q = 0; r_l = r_m = 0; r_sync = 0;
}
static const char *pick_vfs(Evfs **want) {
  switch(VK_IN_RANGE("vfs", 0, 3)) {
    case 0: *want = &VA; return NULL;          /* default */
    case 1: *want = &VA; return "nosuch";      /* unknown: default */
    case 2: *want = &VB; return "bb";
    default: *want = &VA; return "a";
  }
}
#define ONCE(id, o) (r_n == 1 && r_id == (id) && r_o == (const void *)(o))

/* C10: path-level calls */
void h_dispatch(void) {
  api_setup();
  Evfs *v; const char *nm = pick_vfs(&v);
  static char pb[6], qb[6]; static char tmp[8]; VK_ANY_TEXT("p", pb); VK_ANY_TEXT("q", qb);
  const char *p = VK_IN_BOOL("pnull") ? NULL : pb, *q = VK_IN_BOOL("qnull") ? NULL : qb;
  int arg = VK_IN_INT("arg");
  long op = VK_IN_RANGE("op", 0, 11);
  r_ret = VK_IN_INT("ret");
  long ret = (int)r_ret;
  StringRange sr = {tmp, tmp + 8};
  StringRange *psr = VK_IN_BOOL("snull") ? NULL : &sr;
  EvfsInfo info, *pi = VK_IN_BOOL("inull") ? NULL : &info;
  int rv; bool b;
  uint8_t ty = VK_IN_U8("type");
  switch(op) {
  case 0:
    rv = evfs_delete_ex(p, nm);
    if(p) VK_ENSURE("delete is forwarded once with its path and result", ONCE(M_DELETE, v) && r_p == p && rv == ret);
    else VK_ENSURE("null path is rejected without a call", rv == EVFS_ERR_BAD_ARG && r_n == 0);
    VK_REACH("delete"); break;
  case 1:
    rv = evfs_rename_ex(p, q, nm);
    if(p && q) VK_ENSURE("rename is forwarded once with both paths in order", ONCE(M_RENAME, v) && r_p == p && r_q == q && rv == ret);
    else VK_ENSURE("null path is rejected without a call", rv == EVFS_ERR_BAD_ARG && r_n == 0);
    VK_REACH("rename"); break;
  case 2:
    rv = evfs_make_dir_ex(p, nm);
    if(p) VK_ENSURE("make_dir is forwarded once", ONCE(M_MKDIR, v) && r_p == p && rv == ret);
    else VK_ENSURE("null path is rejected without a call", rv == EVFS_ERR_BAD_ARG && r_n == 0);
    VK_REACH("mkdir"); break;
  case 3:
    rv = evfs_get_cur_dir_ex(psr, nm);
    if(psr) VK_ENSURE("get_cur_dir is forwarded once", ONCE(M_GETCWD, v) && r_p == psr && rv == ret);
    else VK_ENSURE("null range is rejected without a call", rv == EVFS_ERR_BAD_ARG && r_n == 0);
    VK_REACH("getcwd"); break;
  case 4:
    rv = evfs_set_cur_dir_ex(p, nm);
    if(p) VK_ENSURE("set_cur_dir is forwarded once", ONCE(M_SETCWD, v) && r_p == p && rv == ret);
    else VK_ENSURE("null path is rejected without a call", rv == EVFS_ERR_BAD_ARG && r_n == 0);
    VK_REACH("setcwd"); break;
  case 5:
    rv = evfs_vfs_ctrl_ex(arg, tmp, nm);
    VK_ENSURE("vfs_ctrl is forwarded once with command and argument", ONCE(M_CTRL, v) && r_l == arg && r_p == tmp && rv == ret);
    VK_REACH("ctrl"); break;
  case 6:
    r_l = ty;
    rv = evfs_stat_ex(p, pi, nm);
    if(p && pi) VK_ENSURE("stat is forwarded once", ONCE(M_STAT, v) && r_p == p && r_q == pi && rv == ret);
    else VK_ENSURE("null argument is rejected without a call", rv == EVFS_ERR_BAD_ARG && r_n == 0);
    VK_REACH("stat"); break;
  case 7: case 8:
    VK_ASSUME(p != NULL);
    { long keep = ty; r_l = keep; }
    b = op == 7 ? evfs_existing_file_ex(p, nm) : evfs_existing_dir_ex(p, nm);
    VK_ENSURE("existence test asks stat once", ONCE(M_STAT, v) && r_p == p);
    break;
  case 9:
    b = evfs_path_root_component_ex(p ? p : pb, &sr, nm);
    VK_ENSURE("root_component is forwarded once", ONCE(M_ROOT, v) && r_q == &sr && b == (ret & 1));
    VK_REACH("root"); break;
  case 10:
    VK_ASSUME(p != NULL);
    b = evfs_path_is_absolute_ex(p, nm);
    VK_ENSURE("is_absolute asks for the root once", ONCE(M_ROOT, v) && r_p == p && b == (ret & 1));
    VK_REACH("isabs"); break;
  default:
    VK_ASSUME(p != NULL);
    b = evfs_vfs_path_is_absolute(v, p);
    VK_ENSURE("is_absolute asks for the root once", ONCE(M_ROOT, v) && r_p == p && b == (ret & 1));
    VK_REACH("visabs"); break;
  }
  VK_ENSURE("no allocation is left behind", vk_live == 0);
}

/* existence tests: the answer is the type bit of a successful stat */
static uint8_t e_type; static int e_ret;
static int e_stat(Evfs *v, const char *p, EvfsInfo *i) { r_n++; i->type = e_type; return e_ret; }
void h_exists(void) {
  api_setup();
  VA.m_stat = e_stat;
  e_type = VK_IN_U8("type"); e_ret = VK_IN_BOOL("ok") ? EVFS_OK : VK_IN_INT("ret");
  static char p[4] = "x";
  bool f = evfs_existing_file_ex(p, "a"), d = evfs_existing_dir_ex(p, "a"), d2 = evfs__vfs_existing_dir(&VA, p);
  VK_ENSURE("existing_file is true exactly for a plain file", f == (e_ret == EVFS_OK && e_type == 0));
  VK_ENSURE("existing_dir is true exactly for a directory", d == (e_ret == EVFS_OK && (e_type & EVFS_FILE_DIR)));
  VK_ENSURE("internal directory test agrees", d2 == d);
  VK_REACH("exists");
}

/* C10: missing optional methods */
void h_defaults(void) {
  api_setup();
  char pb[6]; VK_ANY_TEXT("p", pb); char tmp[8]; StringRange sr = {tmp, tmp + 8};
  r_ret = VK_IN_INT("ret");
  VK_ENSURE("delete unsupported", evfs_delete_ex(pb, "min") == EVFS_ERR_NO_SUPPORT);
  VK_ENSURE("rename unsupported", evfs_rename_ex(pb, pb, "min") == EVFS_ERR_NO_SUPPORT);
  VK_ENSURE("make_dir unsupported", evfs_make_dir_ex(pb, "min") == EVFS_ERR_NO_SUPPORT);
  VK_ENSURE("get_cur_dir unsupported", evfs_get_cur_dir_ex(&sr, "min") == EVFS_ERR_NO_SUPPORT);
  VK_ENSURE("set_cur_dir unsupported", evfs_set_cur_dir_ex(pb, "min") == EVFS_ERR_NO_SUPPORT);
  VK_ENSURE("vfs_ctrl unsupported", evfs_vfs_ctrl_ex(VK_IN_INT("cmd"), tmp, "min") == EVFS_ERR_NO_SUPPORT);
  EvfsDir *dh = NULL;
  VK_ENSURE("open_dir unsupported", evfs_open_dir_ex(pb, &dh, "min") == EVFS_ERR_NO_SUPPORT && dh == NULL);
  VK_ENSURE("open_dir unsupported", evfs_vfs_open_dir(&VC, pb, &dh) == EVFS_ERR_NO_SUPPORT && dh == NULL);
  VK_ENSURE("nothing allocated and no method called", vk_live == 0 && r_n == 0);
  VK_REACH("defaults");
}

/* C10: handle lifecycle */
void h_open(void) {
  api_setup();
  Evfs *v; const char *nm = pick_vfs(&v);
  static char pb[6]; VK_ANY_TEXT("p", pb);
  r_ret = VK_IN_BOOL("ok") ? EVFS_OK : VK_IN_INT("ret");
  long ret = (int)r_ret;
  int fl = VK_IN_INT("flags");
  long op = VK_IN_RANGE("op", 0, 3);
  EvfsFile *fh = (EvfsFile *)pb; EvfsDir *dh = (EvfsDir *)pb;
  if(VK_IN_BOOL("bad")) {
    int a = evfs_open_ex(NULL, &fh, fl, nm), b = evfs_open_ex(pb, NULL, fl, nm), c = evfs_open_dir_ex(NULL, &dh, nm), d = evfs_open_dir_ex(pb, NULL, nm);
    VK_ENSURE("null arguments are rejected without a call", a == EVFS_ERR_BAD_ARG && b == a && c == a && d == a && r_n == 0 && vk_live == 0);
    VK_REACH("open bad arg");
    return;
  }
  int rv = op == 0 ? evfs_open_ex(pb, &fh, fl, nm) : op == 1 ? evfs_vfs_open(v, pb, &fh, fl)
         : op == 2 ? evfs_open_dir_ex(pb, &dh, nm) : evfs_vfs_open_dir(v, pb, &dh);
  void *h = op < 2 ? (void *)fh : (void *)dh;
  if(vk_oom) {
    VK_ENSURE("allocation failure is reported, nothing is called", rv == EVFS_ERR_ALLOC && r_n == 0 && h == NULL && vk_live == 0);
    VK_REACH("open oom");
    return;
  }
  VK_ENSURE("open reaches the VFS once with path and flags", ONCE(op < 2 ? M_OPEN : M_OPENDIR, v) && r_p == pb && (op >= 2 || r_l == fl));
  VK_ENSURE("open returns the VFS result", rv == ret);
  VK_ENSURE("one allocation of the declared size", vk_allocs == 1);
  if(rv != EVFS_OK) {
    VK_ENSURE("refused open leaves a null handle and frees it", h == NULL && vk_live == 0);
    VK_REACH("open refused");
    return;
  }
  VK_ENSURE("handle is the one given to the VFS", h == r_q && vk_live == 1 && vk_blk[0] == h);
  VK_ENSURE("handle has the size the VFS declares", vk_blk_size[0] == (op < 2 ? sizeof(XFile) : sizeof(XDir)));
  r_n = 0; r_ret = VK_IN_INT("cret"); ret = (int)r_ret;
  rv = op < 2 ? evfs_file_close(fh) : evfs_dir_close(dh);
  VK_ENSURE("close reaches the handle once and returns its result", ONCE(op < 2 ? F_CLOSE : D_CLOSE, h) && rv == ret);
  VK_ENSURE("close frees the handle exactly once", vk_live == 0 && vk_frees == 1);
  VK_REACH("open and close");
}

/* C10: handle-level calls */
void h_file_ops(void) {
  api_setup();
  static XFile xf; static XDir xd; static char buf[8];
  xf.base.methods = &FM; xd.base.methods = &DM;
  bool nul = VK_IN_BOOL("null");
  EvfsFile *f = nul ? NULL : &xf.base; EvfsDir *d = nul ? NULL : &xd.base;
  void *b = VK_IN_BOOL("bnull") ? NULL : buf;
  size_t n = VK_IN_ULONG("n");
  evfs_off_t off = VK_IN_INT("off");
  int wh = VK_IN_INT("wh");
  r_ret = VK_IN_LONG("ret");
  long full = r_ret, ret = (int)r_ret;
  long op = VK_IN_RANGE("op", 0, 11), rv;
  bool bad = nul;
  switch(op) {
  case 0: VK_ASSUME(!nul); rv = evfs_file_ctrl(f, wh, b); VK_ENSURE("file_ctrl forwarded", ONCE(F_CTRL, f) && r_l == wh && r_p == b && rv == ret); VK_REACH("fctrl"); break;
  case 1: bad = nul || !b; rv = evfs_file_read(f, b, n); if(!bad) VK_ENSURE("read forwarded with buffer and size", ONCE(F_READ, f) && r_p == b && (size_t)r_l == n && rv == full); VK_REACH("fread"); break;
  case 2: bad = nul || !b; rv = evfs_file_write(f, b, n); if(!bad) VK_ENSURE("write forwarded with buffer and size", ONCE(F_WRITE, f) && r_p == b && (size_t)r_l == n && rv == full); VK_REACH("fwrite"); break;
  case 3: rv = evfs_file_truncate(f, off); if(!bad) VK_ENSURE("truncate forwarded", ONCE(F_TRUNC, f) && r_l == off && rv == ret); VK_REACH("ftrunc"); break;
  case 4: rv = evfs_file_sync(f); if(!bad) VK_ENSURE("sync forwarded", ONCE(F_SYNC, f) && rv == ret); VK_REACH("fsync"); break;
  case 5: r_m = 77; rv = evfs_file_size(f); if(!bad) VK_ENSURE("size forwarded after a sync", ONCE(F_SIZE, f) && r_sync == 1 && rv == ret); VK_REACH("fsize"); break;
  case 6: rv = evfs_file_seek(f, off, wh); if(!bad) VK_ENSURE("seek forwarded with offset and origin", ONCE(F_SEEK, f) && r_l == off && r_m == (long)(EvfsSeekDir)wh && rv == ret); VK_REACH("fseek"); break;
  case 7: rv = evfs_file_tell(f); if(!bad) VK_ENSURE("tell forwarded", ONCE(F_TELL, f) && rv == ret); VK_REACH("ftell"); break;
  case 8: VK_ASSUME(!nul); rv = evfs_file_eof(f); VK_ENSURE("eof forwarded", ONCE(F_EOF, f) && rv == (full & 1)); VK_REACH("feof"); break;
  case 9: { EvfsInfo *pi = VK_IN_BOOL("inull") ? NULL : (EvfsInfo *)vk_alloc(sizeof(EvfsInfo)); bad = nul || !pi;
    rv = evfs_dir_read(d, pi); if(!bad) VK_ENSURE("dir_read forwarded", ONCE(D_READ, d) && r_p == pi && rv == ret); VK_REACH("dread"); break; }
  case 10: rv = evfs_dir_rewind(d); if(!bad) VK_ENSURE("dir_rewind forwarded", ONCE(D_REWIND, d) && rv == ret); VK_REACH("drewind"); break;
  default: VK_ASSUME(nul); rv = evfs_file_close(f); VK_ENSURE("close of a null handle is rejected", rv == EVFS_ERR_BAD_ARG); rv = evfs_dir_close(d); break;
  }
  if(bad) VK_ENSURE("null arguments are rejected without a call", rv == EVFS_ERR_BAD_ARG && r_n == 0);
  VK_ENSURE("no allocation is left behind", vk_live == 0);
}

/* C10: puts writes the string's bytes, dir_find stops at the first match */
void h_puts(void) {
  api_setup();
  static XFile xf; xf.base.methods = &FM;
  static char s[10]; size_t len = vk_in_str("s", s, sizeof s, "abc%");
  r_ret = VK_IN_INT("ret");
  int rv = evfs_file_puts(&xf.base, s);
  VK_ENSURE("puts writes exactly the string once", ONCE(F_WRITE, &xf.base) && r_p == s && (size_t)r_l == len && rv == (int)r_ret);
  VK_REACH("puts");
}

#ifndef VK_NATIVE
static size_t sl_len; static const char *sl_str;
size_t C_strlen_any(const char *s) { VK_ENSURE("the length of the given text", s == sl_str); return sl_len; }
void h_puts_any(void) {
  api_setup();
  static XFile xf; xf.base.methods = &FM; static char s[1]; sl_str = s; sl_len = VK_IN_ULONG("len"); VK_REQUIRE(sl_len > 0 && sl_len <= PTRDIFF_MAX);
  r_ret = VK_IN_INT("ret"); int rv = evfs_file_puts(&xf.base, s);
  VK_ENSURE("puts writes exactly the string once", ONCE(F_WRITE, &xf.base) && r_p == s && (size_t)r_l == sl_len && rv == (int)r_ret);
  VK_REACH("puts any");
}
#endif
#ifdef VK_NATIVE
static char pf_buf[64]; static size_t pf_len;
static ptrdiff_t pf_write(EvfsFile *f, const void *b, size_t n) { r_n++; VK_ENSURE("printf output fits expectation", n < sizeof pf_buf); memcpy(pf_buf, b, n); pf_len = n; return r_ret; }
void h_printf(void) {
  api_setup();
  static XFile xf; EvfsFileMethods fm = FM; fm.m_write = pf_write; xf.base.methods = &fm;
  static char s[20]; vk_in_str("s", s, sizeof s, "abc%");
  int k = VK_IN_INT("k"); r_ret = VK_IN_INT("ret");
  char want[64]; int wl = snprintf(want, sizeof want, "<%s|%d>", s, k);
  int rv = evfs_file_printf(&xf.base, "<%s|%d>", s, k);
  if(vk_oom) VK_ENSURE("printf reports allocation failure", rv == EVFS_ERR_ALLOC && r_n == 0);
  else VK_ENSURE("printf writes the formatted text once and returns the write result", r_n == 1 && rv == (int)r_ret && pf_len == (size_t)wl && !memcmp(want, pf_buf, wl));
  VK_ENSURE("printf leaves nothing allocated", vk_live == 0);
}
#endif

#ifndef FN_READS
#  define FN_READS 4
#endif
static int df_i, df_end, df_endret, df_match; static bool df_m[FN_READS + 1]; static char df_names[FN_READS + 1];
static const char *df_pat;
static int df_read(EvfsDir *d, EvfsInfo *i) {
  if(df_i >= df_end) { df_i++; return df_endret; }
  i->name = &df_names[df_i]; i->type = 7; df_i++;
  return EVFS_OK;
}
static const EvfsDirMethods DFM = { d_close, df_read, d_rewind };
#ifndef REAL_GLOB
bool char_match(char ch, const char *set) { while(*set) if(*set++ == ch) return true; return false; }
bool glob_match(const char *pattern, const char *str, const char *seps) {
  VK_ENSURE("find matches the pattern against the entry name", pattern == df_pat && df_i > 0 && str == &df_names[df_i - 1]);
  return df_m[df_i - 1];
}
#endif
void h_dir_find(void) {
  api_setup();
  static XDir xd; xd.base.methods = &DFM; static char pat[2]; df_pat = pat; df_i = 0;
  df_end = (int)VK_IN_RANGE("end", 0, FN_READS);
  df_endret = VK_IN_INT("endret"); VK_ASSUME(df_endret != EVFS_OK);
  int first = -1;
  for(int i = 0; i < FN_READS; i++) { df_m[i] = VK_IN_BOOL("m"); if(df_m[i] && first < 0 && i < df_end) first = i; }
  EvfsInfo info;
  int rv = evfs_dir_find(&xd.base, pat, &info);
  if(first >= 0) {
    VK_ENSURE("find returns the first matching entry", rv == EVFS_OK && info.name == &df_names[first] && info.type == 7 && df_i == first + 1);
    VK_REACH("find hit");
  } else {
    VK_ENSURE("find reports why the listing ended, with no entry", rv == df_endret && info.name == NULL && df_i == df_end + 1);
    VK_REACH("find miss");
  }
}

/* ---------- C09: registry ---------- */
#ifndef REG_N
#  define REG_N 4
#endif
static Evfs RV0, RV1, RV2, RV3, RV4, RV5;   /* separate objects: cheap case splits */
static Evfs *rvp(int i) { switch(i) { case 0: return &RV0; case 1: return &RV1; case 2: return &RV2; case 3: return &RV3; case 4: return &RV4; default: return &RV5; } }
static bool in_list(Evfs *v) { Evfs *c = s_vfs_list; for(int i = 0; i <= REG_N && c; i++, c = c->next) if(c == v) return true; return false; }
static const char *const REG_NAMES[5] = {"x", "yy", "xy", "z", "x1"};

#ifndef VK_NATIVE
#ifdef REG_STRCMP
/* names come from one table of distinct strings, so equal text means equal pointer (trusted: libc strcmp) */
int strcmp(const char *a, const char *b) { return a == b ? 0 : 1; }
#endif
#endif
/* model */
static bool m_reg[REG_N]; static int m_def, m_count;
static int m_find(const char *nm) { for(int i = 0; i < REG_N; i++) if(m_reg[i] && !strcmp(rvp(i)->vfs_name, nm)) return i; return -1; }

static void reg_init(void) {
  vk_alloc_reset();
  for(int i = 0; i < REG_N; i++) { full_vfs(rvp(i), REG_NAMES[i % (REG_N > 3 ? 3 : 2)]); m_reg[i] = false; } /* the last object shares a name */
  s_vfs_list = NULL; s_default_vfs = NULL; m_def = -1; m_count = 0; g_unreg = 0;
}
static void reg_check(void) {
  for(int k = 0; k < 5; k++) {
    int w = m_find(REG_NAMES[k]);
    Evfs *f = evfs_find_vfs(REG_NAMES[k]);
    VK_ENSURE("lookup finds exactly the registered object of that name", f == (w >= 0 ? rvp(w) : NULL));
  }
  const char *dn = evfs_default_vfs_name();
  if(m_count == 0) VK_ENSURE("no default without registered VFS", s_default_vfs == NULL && dn[0] == 0);
  else {
    int d = -1;
    for(int i = 0; i < REG_N; i++) if(s_default_vfs == rvp(i)) d = i;
    VK_ENSURE("the default is a registered VFS", d >= 0 && m_reg[d]);
    if(m_def >= 0) VK_ENSURE("the default follows the rules", d == m_def);
    else m_def = d;   /* unspecified choice: any registered one */
    VK_ENSURE("default name belongs to the default", !strcmp(dn, rvp(d)->vfs_name));
  }
}
static void reg_step(void) {
  int i = (int)VK_IN_RANGE("obj", 0, REG_N - 1);
  r_ret = VK_IN_INT("ret"); r_n = 0; g_unreg = 0;
  if(VK_IN_BOOL("reg")) {
    bool mk = VK_IN_BOOL("mk");
    int ex = m_find(rvp(i)->vfs_name);
    int rv = evfs_register(rvp(i), mk);
    VK_ENSURE("register succeeds", rv == EVFS_OK);
    VK_ENSURE("registering calls no method", r_n == 0);
    int t = ex >= 0 ? ex : i;
    if(ex < 0) { m_reg[i] = true; m_count++; }
    if(m_count == 1) m_def = t;
    else if(mk) m_def = t;
    else if(m_def == t) m_def = -1 - 1;   /* moves to another one */
    if(m_def == -2) {
      int d = -1; for(int k = 0; k < REG_N; k++) if(s_default_vfs == rvp(k)) d = k;
      VK_ENSURE("default moves to another registered VFS", d >= 0 && d != t && m_reg[d]);
      m_def = d;
    }
  } else {
    int rv = evfs_unregister(rvp(i));
    if(m_reg[i]) {
      VK_ENSURE("unregister succeeds", rv == EVFS_OK);
      VK_ENSURE("unregister notifies the VFS exactly once", g_unreg == 1 && g_unreg_vfs == rvp(i) && r_n == 1);
      m_reg[i] = false; m_count--;
      if(m_def == i) m_def = -1;
    } else {
      VK_ENSURE("unregistering an unknown VFS fails without a call", rv != EVFS_OK && r_n == 0);
    }
  }
}
#ifndef REG_OPS
#  define REG_OPS 4
#endif
void h_registry(void) {
  reg_init();
  s_evfs_initialized = true;
  VK_PROOF_ONLY(int ops = REG_OPS;)
  VK_NATIVE_ONLY(int ops = (int)VK_IN_RANGE("ops", 0, 30);)
  for(int k = 0; k < ops; k++) { reg_step(); VK_NATIVE_ONLY(reg_check();) }
  reg_check();
  VK_REACH("registry history");
  evfs_unregister_all();
  VK_ENSURE("unregister_all empties the registry", s_vfs_list == NULL && s_default_vfs == NULL);
}
/* one call from any reachable registry state over REG_N objects: the representation invariant is inductive,
   so the contract covers histories of any length */
void h_registry_step(void) {
  reg_init();
  s_evfs_initialized = true;
  for(int k = 0; k < REG_N; k++) {
    int i = (int)VK_IN_RANGE("pick", -1, REG_N - 1);
    if(i < 0) continue;
    VK_ASSUME(!m_reg[i] && m_find(rvp(i)->vfs_name) < 0);
    rvp(i)->next = s_vfs_list; s_vfs_list = rvp(i); m_reg[i] = true; m_count++;
  }
  if(m_count) { m_def = (int)VK_IN_RANGE("def", 0, REG_N - 1); VK_ASSUME(m_reg[m_def]); s_default_vfs = rvp(m_def); }
  reg_step();
  reg_check();
  /* representation: the list holds each registered object once */
  int n = 0; Evfs *c = s_vfs_list;
  for(int k = 0; k <= REG_N; k++) if(c) { n++; c = c->next; }
  VK_ENSURE("the list is finite and holds each registered object once", c == NULL && n == m_count);
  for(int k = 0; k < REG_N; k++) VK_ENSURE("membership is exact", in_list(rvp(k)) == m_reg[k]);
  VK_REACH("registry step");
}
void h_register_noinit(void) {
  reg_init();
  s_evfs_initialized = false;
  int rv = evfs_register(rvp(0), VK_IN_BOOL("mk"));
  VK_ENSURE("registering before initialisation fails", rv == EVFS_ERR_INIT && s_vfs_list == NULL && s_default_vfs == NULL);
  EvfsFile *fh; EvfsInfo info; char p[2] = "x";
  VK_ENSURE("calls without any VFS report it", evfs_open_ex(p, &fh, 0, NULL) == EVFS_ERR_NO_VFS && evfs_stat_ex(p, &info, "x") == EVFS_ERR_NO_VFS
            && evfs_delete_ex(p, NULL) == EVFS_ERR_NO_VFS && evfs_set_cur_dir_ex(p, NULL) == EVFS_ERR_NO_VFS);
  evfs_init();
  rv = evfs_register(rvp(0), VK_IN_BOOL("mk"));
  VK_ENSURE("registering after initialisation works", rv == EVFS_OK && evfs_find_vfs(rvp(0)->vfs_name) == rvp(0));
  VK_REACH("noinit");
}

