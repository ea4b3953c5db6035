/* Contract for evfs_copy_to_file (C11). */
#define VK_HAVE_EVFS_C
#define VK_GHOST_ALLOC
#include "common.h"
#include "src/evfs.c"
static Evfs VA;
static void setup1(void) {
  vk_alloc_reset(); vk_oom_ok = true; s_evfs_initialized = true;
  memset(&VA, 0, sizeof VA); VA.vfs_name = "a";
  s_vfs_list = &VA; s_default_vfs = &VA;
}
/* ---------- C11: copy ---------- */
#ifndef COK
#  define COK 0
#endif
#ifndef CP_READS
#  define CP_READS 3
#endif
typedef vk_handle_t XFile;
static XFile c_src; static long c_size, c_rpos, c_wpos, c_k; static unsigned char c_v, c_got;
static bool c_seen, c_fault, c_open; static int c_openret, c_reads, c_closed; static char *c_buf; static size_t c_bufsize; static Evfs *c_vfs; static const char *c_path;
static int c_flags; static bool c_err_r, c_err_w; static long c_errval;
static int c_m_open(Evfs *v, const char *p, EvfsFile *f, int fl);
static evfs_off_t c_f_size(EvfsFile *f) { VK_ENSURE("source size is asked", f == &c_src.base); return (evfs_off_t)c_size; }
static int c_f_sync(EvfsFile *f) { return 0; }
static ptrdiff_t c_f_read(EvfsFile *f, void *b, size_t n) {
  VK_ENSURE("copy reads the source", f == &c_src.base);
  if(c_buf) VK_ENSURE("reads stay inside the caller's buffer", VK_SAME(b, c_buf, c_bufsize) && (char *)b >= c_buf && (char *)b + n <= c_buf + c_bufsize);
  else { VK_ENSURE("temporary buffer is the allocated one", vk_live >= 1);
    bool ok = false; for(int i = 0; i < VK_MAXBLK; i++) if(vk_blk[i] && VK_SAME(b, vk_blk[i], vk_blk_size[i]) && (char *)b >= (char *)vk_blk[i] && (char *)b + n <= (char *)vk_blk[i] + vk_blk_size[i]) ok = true;
    VK_ENSURE("reads stay inside the temporary buffer", ok); }
  VK_ASSUME(c_reads < CP_READS); c_reads++;
  long left = c_size - c_rpos;
  if(VK_IN_RANGE("rfault", 0, 7) == 7) { c_fault = true; long e = VK_IN_RANGE("rerr", -30, 0); if(e < 0) c_errval = e; return e; }
  long mx = (long)n < left ? (long)n : left;
  long r = mx;
  if(VK_IN_BOOL("short")) r = VK_IN_RANGE("r", 0, mx < 1 ? 0 : mx);
  if(r == 0) c_fault = true;
  if(c_k >= c_rpos && c_k < c_rpos + r) ((unsigned char *)b)[c_k - c_rpos] = c_v;
  c_rpos += r;
  return r;
}
static ptrdiff_t c_f_write(EvfsFile *f, const void *b, size_t n) {
  VK_ENSURE("copy writes the destination", (void *)f == vk_blk[0] && c_open);
  VK_ENSURE("everything read is written, in order", c_wpos + (long)n == c_rpos && n > 0);
  long w = (long)n;
  if(VK_IN_RANGE("wfault", 0, 7) == 7) { c_fault = true; w = VK_IN_RANGE("w", -30, (long)n - 1); if(w <= 0) return w; }
  if(c_k >= c_wpos && c_k < c_wpos + w) { c_seen = true; c_got = ((const unsigned char *)b)[c_k - c_wpos]; }
  c_wpos += w;
  return w;
}
static int c_f_close(EvfsFile *f) { c_closed++; VK_ENSURE("the destination is closed", (void *)f == vk_blk[0]); return VK_IN_INT("closeret"); }
static const EvfsFileMethods CM = { .m_close = c_f_close, .m_read = c_f_read, .m_write = c_f_write, .m_sync = c_f_sync, .m_size = c_f_size };
static int c_m_open(Evfs *v, const char *p, EvfsFile *f, int fl) {
  VK_ENSURE("destination is opened once on the chosen VFS", v == c_vfs && p == c_path && !c_open);
  c_flags = fl; f->methods = &CM; c_open = c_openret == EVFS_OK; return c_openret;
}
void h_copy(void) {
  setup1(); VA.vfs_file_size = sizeof(XFile);
  const char *nm = VK_IN_BOOL("named") ? "a" : NULL;
  c_vfs = &VA;
  VA.m_open = c_m_open;
  c_src.base.methods = &CM;
  static char path[2] = "d"; c_path = path;
  static char cbuf[CBUF];
#ifdef VK_NATIVE
  c_size = VK_IN_RANGE("size", 0, 400);
#else
  c_size = VK_IN_RANGE("size", 0, INT_MAX);
#endif
  c_bufsize = (size_t)VK_IN_RANGE("bs", 0, CBUF);
#ifdef OWN
  bool own = OWN;
#else
  bool own = VK_IN_BOOL("own");
#endif
  if(own) VK_ASSUME(c_bufsize > 0);
  c_buf = own ? cbuf : NULL;
  c_k = VK_IN_RANGE("k", 0, INT_MAX - 1); VK_NATIVE_ONLY(if(c_size) c_k %= c_size;)
  c_v = VK_IN_U8("v");
  c_openret = (COK || VK_IN_BOOL("ook")) ? EVFS_OK : VK_IN_INT("oret");
  c_rpos = c_wpos = 0; c_seen = c_fault = c_open = false; c_reads = c_closed = 0; c_errval = 0;
  int rv = (nm == NULL && VK_IN_BOOL("inl")) ? evfs_copy_to_file(path, &c_src.base, c_buf, c_bufsize)
                                             : evfs_copy_to_file_ex(path, &c_src.base, c_buf, c_bufsize, nm);
  VK_ENSURE("copy leaves nothing allocated", vk_live == 0);
  if(c_open) VK_ENSURE("destination is closed exactly once", c_closed == 1);
  else VK_ENSURE("failed open transfers nothing", c_reads == 0 && c_closed == 0 && rv != EVFS_OK);
  if(c_open) VK_ENSURE("destination is created, never replaced", (c_flags & EVFS_WRITE) && (c_flags & EVFS_NO_EXIST) && !(c_flags & (EVFS_OVERWRITE | EVFS_APPEND)));
  if(c_fault || vk_oom) { VK_ENSURE("a failed transfer is reported", rv != EVFS_OK); if(c_errval) VK_ENSURE("a read error code is passed on", rv == c_errval); VK_REACH("copy fault"); }
  if(rv == EVFS_OK) {
    VK_ENSURE("success means every byte was written", c_wpos == c_size);
    if(c_k < c_size) VK_ENSURE("each byte is copied unchanged", c_seen && c_got == c_v);
    VK_REACH("copy ok");
  }
  if(c_open && !c_fault && !vk_oom) VK_ENSURE("a fault free copy succeeds", rv == EVFS_OK);
}

