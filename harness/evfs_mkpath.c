/* Contract for evfs_make_path (C12). */
#define VK_HAVE_EVFS_C
#define VK_GHOST_ALLOC
#include "common.h"
#include "src/evfs.c"
static Evfs VA;
static void setup1(void) {
  vk_alloc_reset(); vk_oom_ok = true; s_evfs_initialized = true;
  memset(&VA, 0, sizeof VA); VA.vfs_name = "a";
  s_vfs_list = &VA; s_default_vfs = &VA;
}
/* ---------- C12: make_path ---------- */
#ifndef MPN
#  define MPN 7
#endif
static char mp_in[MPN]; static size_t mp_len;      /* path and range length */
static char mp_full[MPN + 1];                      /* root, then the segments joined by '/' */
static size_t mp_end[MPN]; static int mp_nseg;      /* end of each segment in mp_full */
static int mp_cur;                                  /* segments handled so far */
static int mp_state; static int mp_err; static bool mp_stop; static int mp_asked;
static void mp_spec(void) {
  size_t i = 0, o = 0;
  bool first = true, in = false;
  mp_nseg = 0;
  while(i < mp_len && vk_is_sep(mp_in[i])) { mp_full[o++] = mp_in[i]; i++; }
  for(; i < mp_len; i++) {
    if(vk_is_sep(mp_in[i])) { if(in) mp_end[mp_nseg++] = o; in = false; continue; }
    if(!in && !first) mp_full[o++] = '/';
    in = true; first = false;
    mp_full[o++] = mp_in[i];
  }
  if(in) mp_end[mp_nseg++] = o;
}
static void mp_expect(const char *p) {
  VK_ENSURE("nothing beyond the path is asked for", mp_cur < mp_nseg);
  size_t e = mp_end[mp_cur];
  for(size_t i = 0; i < MPN; i++) {
    if(i < e) VK_ENSURE("each path names exactly the next prefix of the request", p[i] == mp_full[i]);
    if(i == e) VK_ENSURE("each path ends with its last segment", p[i] == 0);
  }
}
static int mp_stat(Evfs *v, const char *p, EvfsInfo *info) {
  VK_ENSURE("nothing is asked after an error", !mp_stop);
  VK_ENSURE("a missing directory is made before its child is asked for", mp_state == 0);
  mp_expect(p);
  mp_asked++;
  long k = VK_IN_RANGE("stat", 0, 3);
  if(k == 0 || k == 3) { mp_cur++; return EVFS_OK; }
  if(k == 1) { mp_state = 1; return EVFS_ERR_NO_FILE; }
  mp_stop = true; mp_err = EVFS_ERR_IO; return EVFS_ERR_IO;
}
static int mp_mkdir(Evfs *v, const char *p) {
  VK_ENSURE("only a directory just found missing is made", mp_state == 1 && !mp_stop);
  mp_expect(p);
  mp_state = 0; mp_cur++;
  if(VK_IN_RANGE("mk", 0, 3) == 3) { mp_stop = true; mp_err = VK_IN_INT("mkerr"); VK_ASSUME(mp_err != EVFS_OK); return mp_err; }
  return EVFS_OK;
}
void h_make_path(void) {
  setup1();
  VA.m_stat = mp_stat; VA.m_make_dir = mp_mkdir; VA.m_path_root_component = vk_unix_root;
  size_t len = vk_in_str("p", mp_in, MPN, "//ab\\");
  bool whole = VK_IN_BOOL("whole");
  mp_len = whole ? len : (size_t)VK_IN_RANGE("rlen", 0, (long)len);
  mp_spec();
  mp_cur = 0; mp_state = 0; mp_stop = false; mp_err = 0; mp_asked = 0;
  StringRange r = {mp_in, mp_in + mp_len};
  int rv = whole ? evfs_make_path_ex(mp_in, "a") : evfs_make_path_range_ex(&r, "a");
  VK_ENSURE("the caller's range is not changed", r.start == mp_in && r.end == mp_in + mp_len);
  VK_ENSURE("make_path leaves nothing allocated", vk_live == 0);
  if(vk_oom) { VK_ENSURE("allocation failure is reported", rv == EVFS_ERR_ALLOC && mp_asked == 0); return; }
  if(mp_stop) { VK_ENSURE("the first error stops and is returned", rv == mp_err); VK_REACH("make_path err"); }
  else {
    VK_ENSURE("every missing directory was made", rv == EVFS_OK && mp_state == 0 && mp_cur == mp_nseg);
    VK_REACH("make_path ok");
  }
}
