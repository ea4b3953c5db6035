/* C16, C17, C20, C25, C26: contracts of the tar filesystem functions.
   -DRSRC selects tar_rsrc_fs.c / tar_iter_rsrc.c, otherwise tar_fs.c / tar_iter.c. */
#define VK_HAVE_EVFS_C
#include "common.h"
#ifdef RSRC
#include "src/tar_rsrc_fs.c"
typedef size_t off_tt;
#else
#include "src/tar_fs.c"
typedef evfs_off_t off_tt;
#endif

/* ---- contract of the archive file: any result, calls recorded ---- */
static int b_seeks, b_reads, b_others; static evfs_off_t b_off; static int b_dir; static size_t b_size; static void *b_buf;
static int b_seek_r; static long b_read_r;
static int bm_ctrl(EvfsFile *f, int c, void *a) { b_others++; return -1; }
static int bm_close(EvfsFile *f) { b_others++; return 0; }
static ptrdiff_t bm_read(EvfsFile *f, void *b, size_t s) {
  VK_ENSURE("archive is read only after a successful seek", b_seeks == 1 && b_seek_r == EVFS_OK);
  b_reads++; b_buf = b; b_size = s; VK_REQUIRE(b_read_r <= (long)s); return b_read_r; }
static ptrdiff_t bm_write(EvfsFile *f, const void *b, size_t s) { b_others++; return -1; }
static int bm_trunc(EvfsFile *f, evfs_off_t s) { b_others++; return -1; }
static int bm_sync(EvfsFile *f) { return 0; }
static evfs_off_t bm_size(EvfsFile *f) { return VK_IN_RANGE("bsize", 0, INT32_MAX); }
static int bm_seek(EvfsFile *f, evfs_off_t o, EvfsSeekDir d) { b_seeks++; b_off = o; b_dir = d; return b_seek_r; }
static evfs_off_t bm_tell(EvfsFile *f) { return VK_IN_RANGE("btell", 0, INT32_MAX); }
static bool bm_eof(EvfsFile *f) { return false; }
static EvfsFileMethods s_bm = {bm_ctrl, bm_close, bm_read, bm_write, bm_trunc, bm_sync, bm_size, bm_seek, bm_tell, bm_eof};
static EvfsFile s_base;

/* ---- the index: contract of dh_lookup ---- */
static int l_calls; static bool l_found; static EvfsTarEntry l_entry; static const char *l_key; static size_t l_keylen;
bool C_dh_lookup(dhash *ht, dhKey key, void *value) {
  l_calls++; l_key = key.data; l_keylen = key.length;
  if(l_found && value) *(EvfsTarEntry *)value = l_entry;
  return l_found;
}
/* ---- path library contracts (C04, C05, C10) ---- */
static bool p_abs; static int p_status; static char p_text[4]; static const char *p_out; static int p_calls;
bool C_is_absolute(Evfs *vfs, const char *path) { return p_abs; }
int C_path_absolute(Evfs *vfs, const char *path, StringRange *absolute) {
  p_calls++;
  VK_ENSURE("output range is writable", absolute->end - absolute->start >= 2);
  if(p_status != EVFS_OK) return p_status;
  ((char *)absolute->start)[0] = '/'; ((char *)absolute->start)[1] = p_text[0]; ((char *)absolute->start)[2] = p_text[0] ? p_text[1] : 0;
  if(p_text[0]) ((char *)absolute->start)[3] = 0;
  p_out = absolute->start; return EVFS_OK;
}

static TarfsData s_data; static TarfsFile s_fil; static Evfs s_vfs;
static uint8_t *s_rsrc_mem; static long s_rsrc_len;
#define HDR_MAX ((long)EVFS_OFF_MAX - 1024)

/* data-structure invariant of an open tar file handle (established by open, preserved by every operation) */
static bool inv(const TarfsFile *f) {
  return (long)f->header_offset >= 0 && (long)f->file_size >= 0 && (long)f->read_pos >= 0 && f->read_pos <= f->file_size &&
         (long)f->file_size <= HDR_MAX && (long)f->header_offset <= HDR_MAX - (long)f->file_size;
}
static void setup(void) {
  s_base.methods = &s_bm; s_fil.base.methods = &s_tarfs_methods; s_fil.fs_data = &s_data; s_vfs.fs_data = &s_data;
  s_fil.header_offset = VK_IN_RANGE("hoff", 0, HDR_MAX); s_fil.file_size = VK_IN_RANGE("fsize", 0, HDR_MAX);
  s_fil.read_pos = VK_IN_RANGE("rpos", 0, HDR_MAX); s_fil.is_open = VK_IN_BOOL("open");
  VK_REQUIRE(inv(&s_fil));
  b_seeks = b_reads = b_others = l_calls = p_calls = 0;
  b_seek_r = VK_IN_RANGE("seek_r", -40, 0); b_read_r = VK_IN_RANGE("read_r", -40, HDR_MAX);
#ifndef RSRC
  s_data.tar_file = &s_base;
#endif
}

/* contract of memcpy: the ghosts say what would be copied */
static int m_calls; static const char *m_dst, *m_src; static size_t m_n;
void *C_memcpy(void *d, const void *s_, size_t n) {
  m_calls++; m_dst = d; m_src = s_; m_n = n;
  return d;
}
void h_tar_read(void) {
  setup();
  TarfsFile old = s_fil;
  size_t n = VK_IN_ULONG("n");
#ifdef RSRC
  s_rsrc_len = s_fil.header_offset + 512 + s_fil.file_size; s_rsrc_mem = vk_alloc(s_rsrc_len); s_data.resource = s_rsrc_mem; s_data.resource_len = s_rsrc_len;
  old = s_fil;
  size_t rem = old.file_size - old.read_pos, want = n < rem ? n : rem;
  uint8_t *buf = vk_alloc(want + 1); m_calls = 0;
#else
  static char dummy[4]; void *buf = dummy;
  size_t rem = old.file_size - old.read_pos, want = n < rem ? n : rem;
#endif
  ptrdiff_t r = evfs_file_read((EvfsFile *)&s_fil, buf, n);
  VK_ENSURE("the handle invariant holds", inv(&s_fil));
  VK_ENSURE("only the position changes", s_fil.header_offset == old.header_offset && s_fil.file_size == old.file_size && s_fil.is_open == old.is_open);
  if(!old.is_open) { VK_ENSURE("a closed handle does not read", r == EVFS_ERR_NOT_OPEN && b_seeks == 0 && b_reads == 0 && s_fil.read_pos == old.read_pos); return; }
#ifdef RSRC
  VK_ENSURE("all the remaining bytes asked for are read", r == (ptrdiff_t)want && s_fil.read_pos == old.read_pos + want);
  VK_ENSURE("the bytes copied are the member's bytes at the position, into the caller's buffer",
    want == 0 || m_calls == 1 && m_n == want && m_dst == (char *)buf && m_src == (char *)s_rsrc_mem + old.header_offset + 512 + old.read_pos);
#else
  VK_ENSURE("the archive is not modified", b_others == 0);
  if(rem == 0) { VK_ENSURE("end of file", r == 0 && b_reads == 0); }
  else {
    VK_ENSURE("one seek to the member's data at the position", b_seeks == 1 && b_dir == EVFS_SEEK_TO && (long)b_off == (long)old.header_offset + 512 + old.read_pos);
    if(b_seek_r != EVFS_OK) VK_ENSURE("a failed seek is reported and nothing is read", r == b_seek_r && b_reads == 0);
    else VK_ENSURE("one read into the caller's buffer of no more than remains", b_reads == 1 && b_buf == buf && b_size == want && r == b_read_r);
  }
  VK_ENSURE("the position advances by what was read", (long)s_fil.read_pos == (long)old.read_pos + (r > 0 ? r : 0));
#endif
  VK_REACH("tar read end");
}

void h_tar_pos(void) {   /* seek, tell, size, eof */
  setup();
  TarfsFile old = s_fil;
  long off = VK_IN_RANGE("off", INT32_MIN, INT32_MAX); int org = VK_IN_RANGE("org", 1, 3);
  VK_ENSURE("tell", (long)evfs_file_tell((EvfsFile *)&s_fil) == (old.is_open ? (long)old.read_pos : 0));
  VK_ENSURE("size", (long)evfs_file_size((EvfsFile *)&s_fil) == (old.is_open ? (long)old.file_size : 0));
  VK_ENSURE("eof", evfs_file_eof((EvfsFile *)&s_fil) == (!old.is_open || old.read_pos >= old.file_size));
  int r = evfs_file_seek((EvfsFile *)&s_fil, off, org);
  long t = org == EVFS_SEEK_TO ? off : org == EVFS_SEEK_REL ? (long)old.read_pos + off : (long)old.file_size - off;
  if(t < 0) t = 0; if(t > (long)old.file_size) t = old.file_size;
  if(!old.is_open) VK_ENSURE("a closed handle does not seek", r < 0 && s_fil.read_pos == old.read_pos);
  else VK_ENSURE("the position is the origin plus the offset, within the file", r == EVFS_OK && (long)s_fil.read_pos == t);
  VK_ENSURE("the handle invariant holds", inv(&s_fil));
  VK_ENSURE("only the position changes", s_fil.header_offset == old.header_offset && s_fil.file_size == old.file_size && s_fil.is_open == old.is_open);
  VK_ENSURE("the archive is not touched", b_seeks == 0 && b_reads == 0 && b_others == 0);
  VK_REACH("tar pos end");
}

void h_tar_readonly(void) {   /* C20 */
  setup();
  TarfsFile old = s_fil; char c = 0;
  VK_ENSURE("write is refused", evfs_file_write((EvfsFile *)&s_fil, &c, VK_IN_ULONG("n")) < 0);
  VK_ENSURE("truncate is refused", evfs_file_truncate((EvfsFile *)&s_fil, VK_IN_RANGE("t", INT32_MIN, INT32_MAX)) < 0);
  VK_ENSURE("nothing changes", s_fil.read_pos == old.read_pos && s_fil.file_size == old.file_size && s_fil.header_offset == old.header_offset && s_fil.is_open == old.is_open);
  int cmd = VK_IN_INT("cmd"); VK_REQUIRE(cmd != EVFS_CMD_GET_RSRC_ADDR);
  VK_ENSURE("unknown control commands are refused", evfs_file_ctrl((EvfsFile *)&s_fil, cmd, &c) < 0);
  VK_ENSURE("the archive is not touched", b_seeks == 0 && b_reads == 0 && b_others == 0);
  VK_REACH("tar readonly end");
}

void h_tar_open(void) {
  setup();
  int flags = VK_IN_INT("flags"); p_abs = VK_IN_BOOL("abs"); p_status = VK_IN_BOOL("pfail") ? EVFS_ERR_OVERFLOW : EVFS_OK;
  l_found = VK_IN_BOOL("found"); bool isdir = VK_IN_BOOL("isdir");
  l_entry.header_offset = isdir ? -1 : VK_IN_RANGE("eh", 0, HDR_MAX); l_entry.file_size = isdir ? -1 : VK_IN_RANGE("es", 0, HDR_MAX);
  VK_REQUIRE(isdir || (long)l_entry.header_offset <= HDR_MAX - (long)l_entry.file_size);
  char path[4]; vk_in_str("path", path, 4, "/ab"); p_text[0] = vk_in_char("p0", "ab/"); p_text[1] = vk_in_char("p1", "ab/"); p_text[2] = 0;
  if(!p_text[0]) p_text[1] = 0;
  TarfsFile f; int r = s_vfs.m_open ? 0 : tarfs__open(&s_vfs, path, (EvfsFile *)&f, flags);
  bool w = flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND);
  VK_ENSURE("methods are set", f.base.methods == &s_tarfs_methods);
  if(w) VK_ENSURE("write-capable opens are refused without looking at the archive", r < 0 && !f.is_open);
  else if(!p_abs && p_status != EVFS_OK) VK_ENSURE("path errors are reported", r == p_status && !f.is_open && l_calls == 0);
  else {
    const char *ap = p_abs ? path : p_out;
    VK_ENSURE("the absolute path is looked up once, without its leading separator", l_calls == (ap[0] == '/') && (!l_calls || l_key == ap + 1 && l_keylen == strlen(ap + 1)));
    bool found = l_calls && l_found;
    if(!found) VK_ENSURE("a missing name does not open", r < 0 && !f.is_open);
    else if(isdir) VK_ENSURE("a directory does not open", r == EVFS_ERR_IS_DIR && !f.is_open);
    else VK_ENSURE("the member opens at its start", r == EVFS_OK && f.is_open && f.read_pos == 0 && (long)f.header_offset == (long)l_entry.header_offset && (long)f.file_size == (long)l_entry.file_size && f.fs_data == &s_data && inv(&f));
  }
  VK_ENSURE("the archive is not touched", b_seeks == 0 && b_reads == 0 && b_others == 0);
  l_calls = 0;
  EvfsInfo info; int s = tarfs__stat(&s_vfs, path, &info);
  if(!p_abs && p_status != EVFS_OK) VK_ENSURE("stat reports path errors", s == p_status);
  else if(!(l_calls && l_found)) VK_ENSURE("stat of a missing name fails", s < 0);
  else if(isdir) VK_ENSURE("stat of a directory", s == EVFS_OK && (info.type & EVFS_FILE_DIR) && info.size == 0);
  else VK_ENSURE("stat of a file", s == EVFS_OK && !(info.type & EVFS_FILE_DIR) && (long)info.size == (long)l_entry.file_size);
  if(f.is_open) { VK_ENSURE("close", tarfs__file_close((EvfsFile *)&f) == EVFS_OK && !f.is_open); }
  VK_REACH("tar open end");
}
