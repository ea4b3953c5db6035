/* C26: positioning in the rotating container shim: the container itself and normal files seen through the shim. */
#define VK_HAVE_EVFS_C
#include "common.h"
#include "src/shim_rotate.c"

static int b_calls, b_dir; static evfs_off_t b_off; static long b_ret; static EvfsFile s_base; static bool b_ok;
#define ONCE(f) (b_calls++, b_ok = b_ok && (f) == &s_base)
static int bm_seek(EvfsFile *f, evfs_off_t o, EvfsSeekDir d) { ONCE(f); b_off = o; b_dir = d; return (int)b_ret; }
static evfs_off_t bm_tell(EvfsFile *f) { ONCE(f); return (evfs_off_t)b_ret; }
static evfs_off_t bm_size(EvfsFile *f) { ONCE(f); return (evfs_off_t)b_ret; }
static bool bm_eof(EvfsFile *f) { ONCE(f); return b_ret & 1; }
static int bm_other(EvfsFile *f) { VK_ENSURE("positioning only asks the base for positioning", false); return 0; }
static int bm_ctrl(EvfsFile *f, int c, void *a) { return bm_other(f); }
static ptrdiff_t bm_read(EvfsFile *f, void *b, size_t s) { return bm_other(f); }
static ptrdiff_t bm_write(EvfsFile *f, const void *b, size_t s) { return bm_other(f); }
static int bm_trunc(EvfsFile *f, evfs_off_t s) { return bm_other(f); }
static int bm_sync(EvfsFile *f) { return 0; }   /* asking for the size may flush first */
static const EvfsFileMethods s_bm = { .m_ctrl = bm_ctrl, .m_close = bm_other, .m_sync = bm_sync, .m_read = bm_read, .m_write = bm_write, .m_truncate = bm_trunc, .m_seek = bm_seek, .m_tell = bm_tell, .m_size = bm_size, .m_eof = bm_eof };

static RotateFile s_fil; static RotateState s_rs;
static void setup(void) {
  s_base.methods = &s_bm; s_fil.base.methods = &s_rotate_methods; s_fil.base_file = &s_base; b_calls = 0; b_ok = true; b_ret = VK_IN_RANGE("bret", INT32_MIN, INT32_MAX);
}
static void normal_file(EvfsFile *f, long off, int org) {   /* the base file decides */
  s_fil.rot_state = NULL;
  VK_ENSURE("tell of a normal file is that of the base", (long)evfs_file_tell(f) == b_ret && b_calls == 1 && b_ok); b_calls = 0;
  VK_ENSURE("size of a normal file is that of the base", (long)evfs_file_size(f) == b_ret && b_calls == 1 && b_ok); b_calls = 0;
  VK_ENSURE("end of a normal file is that of the base", evfs_file_eof(f) == (b_ret & 1) && b_calls == 1 && b_ok); b_calls = 0;
  int r = evfs_file_seek(f, off, org);
  VK_ENSURE("seek on a normal file is the same seek on the base", r == (int)b_ret && b_calls == 1 && b_ok && (long)b_off == off && b_dir == org);
  VK_REACH("rotate normal file");
}
static void container(EvfsFile *f, long off, int org) {
  s_fil.rot_state = &s_rs;
  s_rs.base.total_size = VK_IN_RANGE("total", 0, INT32_MAX); s_rs.base.file_pos = VK_IN_RANGE("pos", 0, INT32_MAX);
  s_rs.base.chunk_size = s_rs.cfg.chunk_size = VK_IN_RANGE("chunk", 32, 4096); s_rs.base.flags = VK_IN_RANGE("flags", 0, 63);
  VK_REQUIRE(s_rs.base.file_pos <= s_rs.base.total_size);
  RotateState old = s_rs;
  VK_ENSURE("tell", (long)evfs_file_tell(f) == (long)old.base.file_pos);
  VK_ENSURE("size", (long)evfs_file_size(f) == (long)old.base.total_size);
  VK_ENSURE("eof", evfs_file_eof(f) == (old.base.file_pos >= old.base.total_size));
  int r = evfs_file_seek(f, off, org);
  long t = org == EVFS_SEEK_TO ? off : org == EVFS_SEEK_REL ? (long)old.base.file_pos + off : (long)old.base.total_size - off;
  if(t < 0) t = 0;
  if(t <= (long)old.base.total_size) VK_ENSURE("the position is the origin plus the offset, not before the start", r == EVFS_OK && (long)s_rs.base.file_pos == t);
  else VK_ENSURE("a position behind the end is refused or is the end", (r < 0 && s_rs.base.file_pos == old.base.file_pos) || (r == EVFS_OK && s_rs.base.file_pos == old.base.total_size));
  VK_ENSURE("only the position changes", s_rs.base.total_size == old.base.total_size && s_rs.base.chunk_size == old.base.chunk_size && s_rs.base.flags == old.base.flags);
  VK_ENSURE("the base file is not touched", b_calls == 0);
  VK_REACH("rotate pos end");
}
void h_rot_pos(void) {
  setup(); long off = VK_IN_RANGE("off", INT32_MIN, INT32_MAX); int org = VK_IN_RANGE("org", 1, 3);
  if(VK_IN_BOOL("container")) container((EvfsFile *)&s_fil, off, org); else normal_file((EvfsFile *)&s_fil, off, org);
}
