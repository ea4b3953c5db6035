/* C25: lock balance of every function that takes a lock, over the lock contracts of what it calls.
   Built with threads; the lock primitives are replaced by their contracts with a ghost owner. */
#define VK_HAVE_EVFS_C
#include "common.h"
#include "evfs/util/range_strings.h"
#if defined VK_NATIVE
#define H_BOOL(n) VK_IN_BOOL(n)
#else
#define H_BOOL(n) VK_HAVOC_BOOL()
#endif
static int lk_held; static bool lk_lib;           /* locks held; the registry lock is held by the caller */
#if MOD < 7
#define LKST(l) (*(unsigned char *)(l))            /* 0 free, 1 held, 2 not initialised */
int evfs__lock_init(EvfsLock *l) { if(H_BOOL("lockinit")) return EVFS_ERR; LKST(l) = 0; return EVFS_OK; }
int evfs__lock_destroy(EvfsLock *l) { VK_ENSURE("a lock is free when it is destroyed", LKST(l) == 0); LKST(l) = 2; return EVFS_OK; }
int evfs__lock(EvfsLock *l) { VK_ENSURE("no lock is taken twice", LKST(l) != 1); VK_ENSURE("only a live lock is taken", LKST(l) == 0); LKST(l) = 1; lk_held++; return EVFS_OK; }
int evfs__unlock(EvfsLock *l) { VK_ENSURE("only a held lock is released", LKST(l) == 1); LKST(l) = 0; lk_held--; return EVFS_OK; }
void evfs__init_once(void) { evfs__lib_init(); }
#endif
#define BALANCED() VK_ENSURE("every lock taken is released", lk_held == 0)
#ifndef OPLO
#define OPLO 0
#define OPHI 7
#endif
static const char *const NM[] = {"a", "b", "c"};

#if MOD == 1                       /* registry */
#undef atexit
#define atexit(f) 0
#include "src/evfs.c"
static Evfs V[3];
static int cb_ctrl(Evfs *v, int cmd, void *a) { return H_BOOL("ctrl") ? EVFS_OK : EVFS_ERR; }
int C_unreg(Evfs *v) { VK_ENSURE("the registry is entered without its lock", lk_held == 0); VK_ENSURE("a registered filesystem is removed", v == s_vfs_list); s_vfs_list = v->next; v->next = NULL; return EVFS_OK; }
void h_lk_registry(void) {
  s_evfs_initialized = H_BOOL("init"); s_vfs_list = NULL; int n = VK_IN_RANGE("n", 0, OPLO >= 4 ? 2 : 3); LKST(&s_evfs_lock) = 0; lk_held = 0;
  for(int i = 0; i < 3; i++) { V[i].vfs_name = NM[i]; V[i].m_vfs_ctrl = cb_ctrl; V[i].next = NULL; }
  for(int i = 0; i < 3; i++) if(i < n) { V[i].next = s_vfs_list; s_vfs_list = &V[i]; }
  s_default_vfs = n ? &V[0] : NULL; static Evfs W; W.vfs_name = NM[VK_IN_RANGE("w", 0, 2)]; W.m_vfs_ctrl = cb_ctrl; W.next = NULL;
  switch(VK_IN_RANGE("op", OPLO, OPHI)) {
    case 0: evfs_find_vfs(H_BOOL("null") ? NULL : NM[VK_IN_RANGE("k", 0, 2)]); break;
    case 1: evfs_register(H_BOOL("null") ? NULL : &V[VK_IN_RANGE("k", 0, 2)], H_BOOL("def")); break;
    case 2: evfs_register(&W, H_BOOL("def")); break;
    case 3: evfs_unregister(H_BOOL("null") ? NULL : &V[VK_IN_RANGE("k", 0, 2)]); break;
    case 4: evfs_unregister_all(); break;
    case 5: evfs_default_vfs_name(); break;
    case 6: evfs__get_vfs(H_BOOL("null") ? NULL : NM[VK_IN_RANGE("k", 0, 2)]); break;
    default: evfs_init(); break;
  }
  BALANCED(); evfs_find_vfs(NM[0]); BALANCED();
  VK_REACH("registry end");
}
#endif

#if MOD >= 2 && MOD <= 6
/* contracts of the library functions the modules call, as far as locks go */
void evfs__err_printf(const char *f, int l, const char *m, ...) {}
void evfs__dbg_printf(const char *m, ...) {}
void evfs__lib_init(void) {}
#define NOT_LIB() VK_ENSURE("the registry is not entered while its lock is held", !lk_lib)
static Evfs *g_base; static int g_deep;
Evfs *evfs_find_vfs(const char *n) { NOT_LIB(); return H_BOOL("find") ? g_base : NULL; }
int evfs_register(Evfs *v, bool d) { NOT_LIB(); VK_ENSURE("the registry is entered without filesystem locks", lk_held == 0); return H_BOOL("reg") ? EVFS_OK : EVFS_ERR_INIT; }
int evfs_unregister(Evfs *v) { NOT_LIB(); VK_ENSURE("the registry is entered without filesystem locks", lk_held == 0); return EVFS_OK; }
bool evfs_vfs_path_is_absolute(Evfs *v, const char *p) { StringRange r = {p, p}; if(v->m_path_root_component) v->m_path_root_component(v, p, &r); return H_BOOL("isabs"); }
int evfs_vfs_path_absolute(Evfs *v, const char *p, StringRange *a) {
  char t[4]; StringRange r = {t, t + 4}; if(v->m_get_cur_dir && H_BOOL("cwd")) v->m_get_cur_dir(v, &r); r = (StringRange){p, p}; if(v->m_path_root_component) v->m_path_root_component(v, p, &r);
  int st = H_BOOL("absok") ? EVFS_OK : EVFS_ERR_OVERFLOW; if(range_size(a) > 0) { ((char *)a->start)[0] = MOD == 5 || H_BOOL("slash") ? '/' : 'x'; if(range_size(a) > 1) ((char *)a->start)[1] = 0; else ((char *)a->start)[0] = 0; } return st;
}
int evfs_vfs_path_join_str(Evfs *v, const char *h, const char *t, StringRange *j) { return H_BOOL("join") ? EVFS_OK : EVFS_ERR_OVERFLOW; }
int evfs_vfs_open_dir(Evfs *v, const char *p, EvfsDir **d) { *d = NULL; return EVFS_ERR_NO_PATH; }
int evfs_dir_read(EvfsDir *d, EvfsInfo *i) { return EVFS_DONE; }
int evfs_dir_close(EvfsDir *d) { return EVFS_OK; }
int evfs_dir_find(EvfsDir *d, const char *p, EvfsInfo *i) { return EVFS_DONE; }
bool evfs__vfs_existing_dir(Evfs *v, const char *p) { EvfsInfo i; if(g_deep++ < 1) v->m_stat(v, p, &i); return H_BOOL("exists"); }
bool evfs_vfs_existing_file(Evfs *v, const char *p) { EvfsInfo i; if(g_deep++ < 1) v->m_stat(v, p, &i); return H_BOOL("exists"); }
static EvfsFile g_file; static const EvfsFileMethods g_fm;
int evfs_vfs_open(Evfs *v, const char *p, EvfsFile **f, int fl) { *f = NULL; if(H_BOOL("open")) { *f = &g_file; return EVFS_OK; } return EVFS_ERR; }
int evfs_file_seek(EvfsFile *f, evfs_off_t o, EvfsSeekDir d) { return H_BOOL("seek") ? EVFS_OK : EVFS_ERR; }
ptrdiff_t evfs_file_read(EvfsFile *f, void *b, size_t n) { ptrdiff_t r = VK_IN_RANGE("rd", -1, 4); VK_ASSUME(r <= (ptrdiff_t)n || r < 0); return r; }
ptrdiff_t evfs_file_write(EvfsFile *f, const void *b, size_t n) { return VK_IN_RANGE("wr", -1, 4); }
evfs_off_t evfs_file_size(EvfsFile *f) { return VK_IN_RANGE("fsz", 0, 2000); }
evfs_off_t evfs__absolute_offset(EvfsFile *f, evfs_off_t o, EvfsSeekDir d) { return VK_IN_RANGE("aoff", -5, 2000); }
int evfs_file_close(EvfsFile *f) { return EVFS_OK; }
int evfs_file_ctrl(EvfsFile *f, int c, void *a) { return EVFS_ERR_NO_SUPPORT; }
int evfs_file_sync(EvfsFile *f) { return EVFS_OK; }
int evfs_file_truncate(EvfsFile *f, evfs_off_t n) { return H_BOOL("trunc") ? EVFS_OK : EVFS_ERR; }
evfs_off_t evfs_file_tell(EvfsFile *f) { return 0; }
int range_cat_str(AppendRange *r, const char *s) { return H_BOOL("cat") ? 0 : -1; }
int range_cat_char(AppendRange *r, char c) { return H_BOOL("catc") ? 0 : -1; }
void range_terminate(AppendRange *r) {}
size_t range_strlen(StringRange *r) { return 1; }
#include "evfs/util/dhash.h"
bool dh_lookup(dhash *h, dhKey k, void *v) { if(H_BOOL("hit")) { memset(v, H_BOOL("neg") ? 0xff : 0, 4); return true; } return false; }
void dh_free(dhash *h) {}
/* handles and filesystem under test */
static EvfsInfo g_info; static char g_buf[8]; static unsigned g_u;
static void file_op(EvfsFile *f) {
  const EvfsFileMethods *m = f->methods; if(!m) return;
  switch(VK_IN_RANGE("fop", 0, 9)) {
    case 0: m->m_read(f, g_buf, VK_IN_RANGE("n", 0, 8)); break; case 1: m->m_write(f, g_buf, VK_IN_RANGE("n", 0, 8)); break;
    case 2: m->m_seek(f, VK_IN_RANGE("off", -4, 2000), (EvfsSeekDir)VK_IN_RANGE("org", 0, 2)); break; case 3: m->m_tell(f); break; case 4: m->m_eof(f); break;
    case 5: m->m_size(f); break; case 6: m->m_sync(f); break; case 7: m->m_truncate(f, VK_IN_RANGE("tr", 0, 9)); break; case 8: { void *a; m->m_ctrl(f, VK_IN_RANGE("cmd", 0, 40), &a); break; }
    default: m->m_close(f); break;
  }
  BALANCED();
}
static void vfs_op(Evfs *v, EvfsFile *fh, EvfsDir *dh, bool unreg) {
  static const char *P[] = {"/a", "a", "", "a/b"}; const char *p = P[VK_IN_RANGE("path", 0, 3)], *q = P[VK_IN_RANGE("path2", 0, 3)]; StringRange r = {g_buf, g_buf + 8};
  switch(VK_IN_RANGE("op", 0, 9)) {
    case 0: v->m_open(v, p, fh, VK_IN_RANGE("fl", 0, 63)); BALANCED(); break;
    case 1: v->m_stat(v, p, &g_info); break;
    case 2: if(v->m_delete) v->m_delete(v, p); break;
    case 3: if(v->m_rename) v->m_rename(v, p, q); break;
    case 4: if(v->m_make_dir) v->m_make_dir(v, p); break;
    case 5: if(v->m_open_dir && dh) v->m_open_dir(v, p, dh); break;
    case 6: v->m_get_cur_dir(v, &r); break;
    case 7: v->m_set_cur_dir(v, p); break;
    case 8: { int c = VK_IN_RANGE("cmd", 0, 40); VK_REQUIRE(c != EVFS_CMD_UNREGISTER); v->m_vfs_ctrl(v, c, &g_u); break; }
    default: if(unreg) { lk_lib = true; v->m_vfs_ctrl(v, EVFS_CMD_UNREGISTER, NULL); lk_lib = false; } break;
  }
  BALANCED();
}
#undef evfs_malloc
#undef evfs_free
static void *lk_malloc(size_t n) { if(H_BOOL("oom")) return NULL; VK_PROOF_ONLY(VK_ASSUME(n <= 1600); n = 1600;) return malloc(n); }
static bool g_keep;
#define evfs_malloc(n) lk_malloc(n)
#define evfs_free(p) ((void)(p))         /* memory is not the subject; destroyed locks stay visible */
#endif

#define strncpy(d, s, n) ((d)[0] = (s)[0], (d)[1] = 0, (d))
#if MOD == 2 || MOD == 3
#include "tar_iter.h"
#include "tar_iter_rsrc.h"
bool dh_init(dhash *h, dhConfig *c, void *x) { return H_BOOL("dhi"); }
bool dh_insert(dhash *h, dhKey k, void *v) { return H_BOOL("dhn"); }
dhIKey dh_gen_hash_string(dhKey k) { return 0; }
bool dh_equal_hash_keys_string(dhKey a, dhKey b, void *c) { return false; }
int range_cat_range_no_nul(AppendRange *r, StringRange *s) { return 0; }
int range_cat_range(AppendRange *r, StringRange *s) { return 0; }
int range_cat_char_no_nul(AppendRange *r, char c) { return 0; }
#if MOD == 2
void tar_iter_init(TarFileIterator *t, EvfsFile *f) {}
bool tar_iter_seek(TarFileIterator *t, evfs_off_t o) { return H_BOOL("beg"); }
bool tar_iter_next(TarFileIterator *t) { return false; }
#include "src/tar_fs.c"
static int register_it(void) { return evfs_register_tar_fs("t", &g_file, H_BOOL("def")); }
#define BIND D.tar_file = &g_file
#else
void tar_rsrc_iter_init(TarRsrcIterator *t, uint8_t *r, size_t n) {}
static TarHeader g_th;
bool tar_rsrc_iter_seek(TarRsrcIterator *t, evfs_off_t o) { t->cur_header = &g_th; return H_BOOL("beg"); }
bool tar_rsrc_iter_next(TarRsrcIterator *t) { return false; }
#include "src/tar_rsrc_fs.c"
static int register_it(void) { static uint8_t r[8]; return evfs_register_tar_rsrc_fs("t", r, sizeof r, H_BOOL("def")); }
static uint8_t g_res[4096];
#define BIND (D.resource = g_res, D.resource_len = sizeof g_res)
#endif
#if MOD == 2
int C_build(TarFileIterator *t,
#else
int C_build(TarRsrcIterator *t,
#endif
  EvfsTarIndex *x) { return H_BOOL("build") ? EVFS_OK : EVFS_ERR; }
static Evfs S; static TarfsData D; static TarfsFile F;
static void setup(void) {
  lk_held = 0; lk_lib = false; g_deep = 0;
  memset(&D, 0, sizeof D); S.fs_data = &D; S.vfs_name = "t"; S.m_open = tarfs__open; S.m_stat = tarfs__stat; S.m_get_cur_dir = tarfs__get_cur_dir; S.m_set_cur_dir = tarfs__set_cur_dir; S.m_vfs_ctrl = tarfs__vfs_ctrl; BIND;
  D.cur_dir[0] = '/'; F.base.methods = &s_tarfs_methods; F.fs_data = &D; F.file_size = VK_IN_RANGE("size", 0, 2000); F.read_pos = VK_IN_RANGE("pos", 0, 2100); F.is_open = H_BOOL("isopen");
}
void h_lk_file(void) { setup(); file_op(&F.base); VK_REACH("lock file end"); }
void h_lk_vfs(void) { setup(); vfs_op(&S, &F.base, NULL, true); VK_REACH("lock vfs end"); }
#endif

#if MOD == 4
#include "evfs/romfs_common.h"
int romfs_init(Romfs *f, RomfsConfig *c) { VK_ENSURE("the image is read without the lock of the new filesystem held", lk_held == 0); return H_BOOL("rinit") ? EVFS_OK : EVFS_ERR; }
void romfs_unmount(Romfs *f) {}
bool romfs_read_file_header(Romfs *f, long o, RomfsFileHead *h) { memset(h, 0, sizeof *h); h->offset = VK_IN_RANGE("nh", 0, 64); return H_BOOL("hdr"); }
static int r_lookup(Romfs *f, const char *p, RomfsFileHead *h) { memset(h, 0, sizeof *h); h->offset = VK_IN_RANGE("nh", 0, 64); return H_BOOL("look") ? EVFS_OK : EVFS_ERR_NO_FILE; }
static ptrdiff_t r_read(Romfs *f, evfs_off_t o, void *b, size_t n) { return VK_IN_RANGE("rd", -1, 4); }
#include "src/romfs_fs.c"
static int register_it(void) { static uint8_t r[8]; return H_BOOL("rsrc") ? evfs_register_rsrc_romfs("r", r, sizeof r, H_BOOL("def")) : evfs_register_romfs("r", &g_file, H_BOOL("def")); }
static Evfs S; static RomfsData D; static RomfsFile F; static RomfsDir R;
static void setup(void) {
  lk_held = 0; lk_lib = false; g_deep = 0;
  memset(&D, 0, sizeof D); S.fs_data = &D; S.vfs_name = "r"; S.m_open = romfs__open; S.m_stat = romfs__stat; S.m_open_dir = romfs__open_dir; S.m_get_cur_dir = romfs__get_cur_dir; S.m_set_cur_dir = romfs__set_cur_dir; S.m_vfs_ctrl = romfs__vfs_ctrl;
  D.vfs = &S; D.cur_dir[0] = '/'; D.romfs.read_data = r_read; D.romfs.lookup_abs_path = r_lookup; F.base.methods = &s_romfs_methods; F.fs_data = &D; F.hdr.size = VK_IN_RANGE("size", 0, 2000); F.read_pos = VK_IN_RANGE("pos", 0, 2100);
  R.base.methods = &s_romfs_dir_methods; R.fs_data = &D; R.is_reset = H_BOOL("reset");
}
void h_lk_file(void) { setup(); file_op(&F.base); VK_REACH("lock file end"); }
void h_lk_vfs(void) { setup(); vfs_op(&S, &F.base, &R.base, true); VK_REACH("lock vfs end"); }
void h_lk_dir(void) { setup(); switch(VK_IN_RANGE("dop", 0, 2)) { case 0: romfs__dir_read(&R.base, &g_info); break; case 1: romfs__dir_rewind(&R.base); break; default: romfs__dir_close(&R.base); } BALANCED(); VK_REACH("lock dir end"); }
#endif

#if MOD == 5 || MOD == 6          /* shims over a base that answers freely and locks nothing of theirs */
#include "mock_base.h"
#endif
#if MOD == 5
#ifndef VK_NATIVE             /* the text of names and paths is not the subject */
#define memset(p, c, n) ((void)0)
#define strcpy(d, s) ((void)0)
#define strlen(s) 1
#endif
#include "src/shim_jail.c"
#undef memset
#undef strcpy
#undef strlen
static int register_it(void) { base_setup(); g_base = &BV; return evfs_register_jail("j", "b", "/", H_BOOL("def")); }
static struct { Evfs v; JailData d; } S; static struct { JailFile f; BFile b; } F; static struct { JailDir d; BDir b; } D;
static void setup(void) {
  lk_held = 0; lk_lib = false; g_deep = 0;
  base_setup(); memset(&S, 0, sizeof S); S.v.fs_data = &S.d; S.v.vfs_name = "j"; S.d.base_vfs = &BV; S.d.shim_vfs = &S.v; S.d.jail_root = "/r";
  S.v.m_open = jail__open; S.v.m_stat = jail__stat; S.v.m_delete = jail__delete; S.v.m_rename = jail__rename; S.v.m_make_dir = jail__make_dir; S.v.m_open_dir = jail__open_dir;
  S.v.m_get_cur_dir = jail__get_cur_dir; S.v.m_set_cur_dir = jail__set_cur_dir; S.v.m_vfs_ctrl = jail__vfs_ctrl; S.v.m_path_root_component = jail__path_root_component;
  F.f.base.methods = &s_jail_methods; F.f.shim_data = &S.d; F.f.base_file = &F.b.base; F.b.base.methods = &BFM;
}
size_t strlcpy(char *d, const char *s, size_t n) { if(n) d[0] = 0; return 0; }
void h_lk_file(void) { setup(); file_op(&F.f.base); VK_REACH("lock file end"); }
void h_lk_vfs(void) { setup(); vfs_op(&S.v, &F.f.base, &D.d.base, true); VK_REACH("lock vfs end"); }
#endif

#if MOD == 6
#undef strncpy
#ifndef VK_NATIVE
#define snprintf(...) 0
#endif
#include "src/shim_rotate.c"
static struct { Evfs v; RotateData d; } S; static RotateState R;
static void rsetup(void) {
  lk_held = 0; lk_lib = false; g_deep = 0; base_setup(); memset(&S, 0, sizeof S); memset(&R, 0, sizeof R); S.v.fs_data = &S.d; S.d.base_vfs = &BV; S.d.shim_vfs = &S.v;
  R.base.buf = &S.d.buf; R.base.container_path = "/c"; R.base.chunk_size = R.cfg.chunk_size = 16; R.cfg.max_chunks = VK_IN_RANGE("max", 1, 4);
  R.start_chunk.chunk = VK_IN_RANGE("sc", 0, 3); R.end_chunk.chunk = VK_IN_RANGE("ec", 0, 3); R.start_chunk.gen = VK_IN_RANGE("sg", 0, 1); R.end_chunk.gen = VK_IN_RANGE("eg", 0, 1);
  VK_REQUIRE(R.start_chunk.chunk < (int)R.cfg.max_chunks && R.end_chunk.chunk < (int)R.cfg.max_chunks); R.base.active_chunk.chunk = VK_IN_RANGE("ac", -1, 3); R.base.active_chunk_fh = H_BOOL("afh") ? &g_file : NULL;
}
void h_lk_rotate(void) {
  rsetup(); VK_REQUIRE(b_size >= 0); ChunkId id = {VK_IN_RANGE("c", 0, 3), VK_IN_RANGE("g", 0, 1)}; evfs_off_t sz; EvfsFile *f;
  switch(VK_IN_RANGE("op", 0, 3)) {
    case 0: chunk_exists(&BV, &R.base, id, H_BOOL("szp") ? &sz : NULL); break; case 1: evict_chunk(&BV, &R.base, id, H_BOOL("szp") ? &sz : NULL); break;
    case 2: activate_chunk(&BV, &R.base, id); break; default: append_new_chunk(&BV, &R, &f); break;
  }
  BALANCED(); VK_REACH("rotate end");
}
bool C_is_rotate(Evfs *b, const char *p) { return H_BOOL("isrot"); }
int C_find_chunks(Evfs *b, RotateState *r) { BALANCED(); return H_BOOL("fc") ? EVFS_OK : EVFS_ERR; }
void h_lk_ropen(void) { rsetup(); static RotateFile F; F.shim_data = &S.d; open_rotate_container(&S.v, "/c", &F, VK_IN_RANGE("fl", 0, 63)); BALANCED(); VK_REACH("rotate open end"); }
#endif

#if MOD >= 2 && MOD <= 5
void h_lk_register(void) { lk_held = 0; register_it(); BALANCED(); VK_REACH("lock register end"); }
#endif

#if MOD >= 7                      /* the primitives themselves, over the contracts of the host's mutexes */
static EvfsLock L; static int st, calls, fail; static const void *on;
#if MOD == 7
#define NEXT(d, from, to, E0) (calls++, on = m, fail ? 5 : (st = (to), 0))
#undef pthread_mutex_init
int C_mtx_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { calls += 1; on = m; if(fail) return 5; st = 1; return 0; }
int C_mtx_destroy(pthread_mutex_t *m) { calls += 10; on = m; if(fail) return 5; st = 0; return 0; }
int C_mtx_lock(pthread_mutex_t *m) { calls += 100; on = m; if(fail) return 5; st = 2; return 0; }
int C_mtx_unlock(pthread_mutex_t *m) { calls += 1000; on = m; if(fail) return 5; st = 1; return 0; }
static int onces; int C_once(pthread_once_t *o, void (*f)(void)) { if(!onces++) f(); return 0; }
#define pthread_mutex_init C_mtx_init
#define pthread_mutex_destroy C_mtx_destroy
#define pthread_mutex_lock C_mtx_lock
#define pthread_mutex_unlock C_mtx_unlock
#define pthread_once C_once
#include "src/evfs_pthread.c"
#else
int C_mtx_init(mtx_t *m, int k) { calls += 1; on = m; if(fail) return thrd_error; st = 1; return thrd_success; }
void C_mtx_destroy(mtx_t *m) { calls += 10; on = m; st = 0; }
int C_mtx_lock(mtx_t *m) { calls += 100; on = m; if(fail) return thrd_error; st = 2; return thrd_success; }
int C_mtx_unlock(mtx_t *m) { calls += 1000; on = m; if(fail) return thrd_error; st = 1; return thrd_success; }
static int onces; void C_once(once_flag *o, void (*f)(void)) { if(!onces++) f(); }
#define mtx_init C_mtx_init
#define mtx_destroy C_mtx_destroy
#define mtx_lock C_mtx_lock
#define mtx_unlock C_mtx_unlock
#define call_once C_once
#include "src/evfs_c11_thread.c"
#endif
static int libs; void evfs__lib_init(void) { libs++; }
void h_lk_prim(void) {
  fail = VK_IN_BOOL("fail"); calls = 0; on = NULL; st = -1; int r, op = VK_IN_RANGE("op", 0, 4); libs = onces = 0;
  switch(op) {
    case 0: r = evfs__lock_init(&L); VK_ENSURE("initialising makes the lock free", calls == 1 && on == &L && (fail || st == 1)); break;
    case 1: r = evfs__lock_destroy(&L); VK_ENSURE("destroying destroys the lock", calls == 10 && on == &L); break;
    case 2: r = evfs__lock(&L); VK_ENSURE("locking takes the lock once", calls == 100 && on == &L && (fail || st == 2)); break;
    case 3: r = evfs__unlock(&L); VK_ENSURE("unlocking releases the lock once", calls == 1000 && on == &L && (fail || st == 1)); break;
    default: evfs__init_once(); evfs__init_once(); VK_ENSURE("initialisation runs once", libs == 1); r = EVFS_OK; fail = 0; break;
  }
  if(MOD == 7 || op != 1) VK_ENSURE("the host's answer is reported", (r == EVFS_OK) == !fail && r <= 0);
  VK_REACH("primitive end");
}
#endif
