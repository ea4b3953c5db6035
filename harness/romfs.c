/* C18, C19, C20, C26: contracts of the romfs functions. */
#define VK_HAVE_EVFS_C
#include "common.h"
#include "src/romfs_common.c"
#undef SUPERBLOCK_LEN
#undef CHUNK_LEN
#include "src/romfs_fs.c"

static Romfs s_fs; static RomfsData s_data; static RomfsFile s_fil; static RomfsDir s_dir; static Evfs s_vfs;

/* ---- contract of the image: any content, any read result ---- */
static int r_calls; static evfs_off_t r_off; static size_t r_size; static void *r_buf; static long r_ret; static uint8_t s_hb[48];
static bool r_fill;
static ptrdiff_t C_image_read(Romfs *fs, evfs_off_t off, void *buf, size_t size) {
  r_calls++; r_off = off; r_size = size; r_buf = buf;
  VK_REQUIRE(r_ret <= (long)size);
  if(r_fill) for(int i = 0; i < 48; i++) if(i < r_ret) ((uint8_t *)buf)[i] = s_hb[i];
  return r_ret;
}
static uint32_t rd32(const uint8_t *p) { return (uint32_t)p[0] << 24 | (uint32_t)p[1] << 16 | (uint32_t)p[2] << 8 | p[3]; }

void h_header(void) {
  for(int i = 0; i < 48; i++) s_hb[i] = VK_IN_U8("b");
  s_fs.total_size = VK_IN_RANGE("total", 0, INT32_MAX); s_fs.read_data = C_image_read; r_fill = true; r_calls = 0; r_ret = VK_IN_RANGE("ret", -40, 48);
  long pos = VK_IN_RANGE("pos", INT32_MIN, UINT32_MAX);
  int nul = 16; while(nul < 48 && s_hb[nul] && nul < r_ret) nul++;   /* bytes not delivered read as zero */
  int hl = nul >= 48 ? 0 : (nul + 1 + 15) & ~15;
  uint32_t sum = 0; for(int i = 0; i < 48; i += 4) if(i < hl) { uint32_t w = 0; for(int k = 0; k < 4; k++) w = w << 8 | (i + k < r_ret ? s_hb[i + k] : 0); sum += w; }
  bool inside = pos >= 0 && pos < s_fs.total_size;
  static RomfsFileHead hdr;
  bool r = romfs_read_file_header(&s_fs, pos, &hdr);
  if(!inside) VK_ENSURE("no header outside the image is read", !r && r_calls == 0);
  else {
    VK_ENSURE("the header is read once from its position", r_calls == 1 && r_off == pos && r_buf == &hdr && r_size == sizeof hdr);
    bool ok = r_ret >= ROMFS_MIN_HEADER_SIZE && nul < 48 && sum == 0;
    uint8_t b[48]; for(int i = 0; i < 48; i++) b[i] = i < r_ret ? s_hb[i] : 0;
    if(ok && (b[3] & 7) == FILE_TYPE_REGULAR_FILE) ok = pos + hl + (long)rd32(b + 8) <= s_fs.total_size;
    VK_ENSURE("a header is accepted exactly when its checksum, name and extent are valid", r == ok);
    if(r) {
      VK_ENSURE("the fields are the recorded ones", hdr.offset == rd32(b) && hdr.spec_info == rd32(b + 4) && hdr.size == rd32(b + 8) && hdr.header_len == (uint32_t)hl);
      VK_ENSURE("the name is the recorded one, terminated", !memcmp(hdr.file_name, b + 16, nul + 1 - 16));
    }
  }
  VK_REACH("romfs header end");
}

/* ---- contract of romfs_read_file_header for its callers: a table of headers, one per call ---- */
#define HN 5
static int h_calls; static bool h_ok[HN]; static RomfsFileHead h_hdr[HN]; static long h_pos[HN];
bool C_read_header(Romfs *fs, long pos, RomfsFileHead *hdr) {
  int k = h_calls < HN ? h_calls : HN - 1; h_calls++;
  h_pos[k] = pos; *hdr = h_hdr[k];
  return h_ok[k];
}
static void hdr_in(int k) {
  h_ok[k] = VK_IN_BOOL("hok");
  h_hdr[k].offset = VK_IN_UINT("off"); h_hdr[k].spec_info = VK_IN_UINT("spec"); h_hdr[k].size = VK_IN_UINT("size"); h_hdr[k].header_len = VK_IN_RANGE("hl", 1, 3) * 16;
  h_hdr[k].file_name[0] = 'a' + k; h_hdr[k].file_name[1] = 0;
}
#define TYPE(h) ((h).offset & 7)
#define NEXT(h) ((h).offset & ~15u)

void h_follow(void) {
  hdr_in(0); h_calls = 0; RomfsFileHead h; h.offset = VK_IN_UINT("o"); h.spec_info = VK_IN_RANGE("s", 0, INT32_MAX); h.size = VK_IN_UINT("z"); h.header_len = 16; h.file_name[0] = 0;
  RomfsFileHead old = h; evfs_off_t pos = VK_IN_RANGE("p", 0, INT32_MAX), opos = pos;
  bool r = romfs__follow_link(&s_fs, &pos, &h);
  if(TYPE(old) != FILE_TYPE_HARD_LINK) VK_ENSURE("anything but a hard link is kept", r && h_calls == 0 && pos == opos && h.offset == old.offset && h.spec_info == old.spec_info && h.size == old.size);
  else {
    VK_ENSURE("a hard link is followed once, to its target", h_calls == 1 && h_pos[0] == (long)old.spec_info);
    VK_ENSURE("a link to a missing header or to another link is rejected", r == (h_ok[0] && TYPE(h_hdr[0]) != FILE_TYPE_HARD_LINK));
    if(r) VK_ENSURE("the target's header and position are returned", pos == (evfs_off_t)old.spec_info && h.offset == h_hdr[0].offset && h.size == h_hdr[0].size && h.spec_info == h_hdr[0].spec_info);
  }
  VK_REACH("romfs follow end");
}

/* invariant of an open file: its data lies inside the image and the position inside the file (see h_header, h_open) */
static bool inv(const RomfsFile *f) {
  return f->hdr.size <= INT32_MAX && f->read_pos >= 0 && f->read_pos <= (long)f->hdr.size &&
         (long)(f->hdr.offset & ~15u) + f->hdr.header_len + (long)f->hdr.size <= s_data.romfs.total_size;
}
static void setup(void) {
  s_fil.base.methods = &s_romfs_methods; s_fil.fs_data = &s_data; s_vfs.fs_data = &s_data; s_data.romfs.read_data = C_image_read;
  s_data.romfs.total_size = VK_IN_RANGE("total", 0, INT32_MAX);
  s_fil.hdr.offset = VK_IN_RANGE("off", 0, INT32_MAX); s_fil.hdr.header_len = VK_IN_RANGE("hl", 1, 3) * 16; s_fil.hdr.size = VK_IN_RANGE("size", 0, INT32_MAX);
  s_fil.read_pos = VK_IN_RANGE("pos", 0, INT32_MAX); VK_REQUIRE(inv(&s_fil));
  r_fill = false; r_calls = 0; r_ret = VK_IN_RANGE("ret", -40, INT32_MAX);
}
void h_rom_read(void) {
  setup(); RomfsFile old = s_fil; size_t n = VK_IN_ULONG("n"); static char dummy[4];
  size_t rem = old.hdr.size - old.read_pos, want = n < rem ? n : rem;
  ptrdiff_t r = evfs_file_read((EvfsFile *)&s_fil, dummy, n);
  VK_ENSURE("the handle invariant holds", inv(&s_fil));
  VK_ENSURE("only the position changes", s_fil.hdr.size == old.hdr.size && s_fil.hdr.offset == old.hdr.offset && s_fil.hdr.header_len == old.hdr.header_len);
  if(rem == 0) VK_ENSURE("end of file", r == 0 && r_calls == 0);
  else VK_ENSURE("one read of the remaining bytes asked for, at the position, into the caller's buffer",
      r_calls == 1 && (long)r_off == (long)(old.hdr.offset & ~15u) + old.hdr.header_len + old.read_pos && r_buf == dummy && r_size == want && r == r_ret);
  VK_ENSURE("the position advances by what was read", (long)s_fil.read_pos == (long)old.read_pos + (r > 0 ? r : 0));
  VK_REACH("romfs read end");
}
void h_rom_pos(void) {
  setup(); RomfsFile old = s_fil;
  VK_ENSURE("tell", evfs_file_tell((EvfsFile *)&s_fil) == old.read_pos);
  VK_ENSURE("size", evfs_file_size((EvfsFile *)&s_fil) == (evfs_off_t)old.hdr.size);
  VK_ENSURE("eof", evfs_file_eof((EvfsFile *)&s_fil) == (old.read_pos >= (long)old.hdr.size));
  long off = VK_IN_RANGE("off", INT32_MIN, INT32_MAX); int org = VK_IN_RANGE("org", 1, 3);
  long t = org == EVFS_SEEK_TO ? off : org == EVFS_SEEK_REL ? (long)old.read_pos + off : (long)old.hdr.size - off;
  if(t < 0) t = 0; if(t > (long)old.hdr.size) t = old.hdr.size;
  VK_ENSURE("the position is the origin plus the offset, within the file", evfs_file_seek((EvfsFile *)&s_fil, off, org) == EVFS_OK && s_fil.read_pos == t);
  VK_ENSURE("the handle invariant holds", inv(&s_fil));
  char c = 0;
  VK_ENSURE("write is refused", evfs_file_write((EvfsFile *)&s_fil, &c, VK_IN_ULONG("n")) < 0);
  VK_ENSURE("truncate is refused", evfs_file_truncate((EvfsFile *)&s_fil, VK_IN_RANGE("t", INT32_MIN, INT32_MAX)) < 0);
  VK_ENSURE("only the position changes", s_fil.read_pos == t && s_fil.hdr.size == old.hdr.size && s_fil.hdr.offset == old.hdr.offset && s_fil.hdr.header_len == old.hdr.header_len);
  VK_ENSURE("the image is not touched", r_calls == 0);
  VK_REACH("romfs pos end");
}

/* ---- lookup contract for open, stat and open_dir ---- */
static int l_calls; static int l_status; static RomfsFileHead l_hdr; static const char *l_path;
static int C_lookup(Romfs *fs, const char *path, RomfsFileHead *hdr) {
  l_calls++; l_path = path;
  if(l_status == EVFS_OK) *hdr = l_hdr;
  return l_status;
}
static bool p_abs; static int p_status; static const char *p_out;
bool C_is_absolute(Evfs *vfs, const char *path) { return p_abs; }
int C_path_absolute(Evfs *vfs, const char *path, StringRange *a) {
  VK_ENSURE("output range is writable", a->end - a->start >= 2);
  if(p_status != EVFS_OK) return p_status;
  ((char *)a->start)[0] = '/'; ((char *)a->start)[1] = 0; p_out = a->start; return EVFS_OK;
}
void h_rom_open(void) {
  setup(); s_data.romfs.lookup_abs_path = C_lookup; l_calls = 0;
  int flags = VK_IN_INT("flags"); p_abs = VK_IN_BOOL("abs"); p_status = VK_IN_BOOL("pfail") ? EVFS_ERR_OVERFLOW : EVFS_OK;
  l_status = VK_IN_BOOL("found") ? EVFS_OK : EVFS_ERR_NO_PATH; hdr_in(0); l_hdr = h_hdr[0];
  VK_REQUIRE(l_hdr.size <= INT32_MAX && (TYPE(l_hdr) != FILE_TYPE_REGULAR_FILE || (long)NEXT(l_hdr) + l_hdr.header_len + l_hdr.size <= s_data.romfs.total_size));
  char path[3]; vk_in_str("path", path, 3, "/a");
  RomfsFile f; RomfsDir d; EvfsInfo info;
  bool conv = p_abs || p_status == EVFS_OK, found = conv && l_status == EVFS_OK;
  int r = romfs__open(&s_vfs, path, (EvfsFile *)&f, flags);
  bool w = flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND);
  VK_ENSURE("methods are set", f.base.methods == &s_romfs_methods);
  if(w) VK_ENSURE("write-capable opens are refused without a lookup", r < 0 && l_calls == 0);
  else {
    VK_ENSURE("the absolute path is looked up once", l_calls == conv && (!conv || l_path == (p_abs ? path : p_out)));
    VK_ENSURE("exactly the regular files open", (r == EVFS_OK) == (found && TYPE(l_hdr) == FILE_TYPE_REGULAR_FILE) && (r == EVFS_OK || r < 0));
    if(r == EVFS_OK) VK_ENSURE("the file opens at its start with its recorded size and place", f.read_pos == 0 && f.hdr.size == l_hdr.size && f.hdr.offset == l_hdr.offset && f.hdr.header_len == l_hdr.header_len && f.fs_data == &s_data && inv(&f));
  }
  int s = romfs__stat(&s_vfs, path, &info);
  VK_ENSURE("stat succeeds exactly for paths that are found", (s == EVFS_OK) == found);
  if(s == EVFS_OK && TYPE(l_hdr) != FILE_TYPE_HARD_LINK) VK_ENSURE("stat reports the recorded size and type", info.size == (evfs_off_t)l_hdr.size && !!(info.type & EVFS_FILE_DIR) == (TYPE(l_hdr) == FILE_TYPE_DIRECTORY));
  int o = romfs__open_dir(&s_vfs, path, (EvfsDir *)&d);
  VK_ENSURE("exactly the directories open as directories", (o == EVFS_OK) == (found && TYPE(l_hdr) == FILE_TYPE_DIRECTORY));
  if(o == EVFS_OK) VK_ENSURE("the directory opens at its start", d.base.methods == &s_romfs_dir_methods && d.is_reset && d.dir_pos == (evfs_off_t)NEXT(l_hdr) && d.fs_data == &s_data);
  VK_ENSURE("the image is not touched", r_calls == 0);
  VK_REACH("romfs open end");
}

void h_dir_read(void) {   /* one step of a listing */
  s_dir.fs_data = &s_data; s_dir.base.methods = &s_romfs_dir_methods;
  for(int k = 0; k < HN; k++) hdr_in(k);
  h_calls = 0; bool reset = VK_IN_BOOL("reset"); s_data.cfg_no_dir_dots = VK_IN_BOOL("nodots");
  s_dir.is_reset = reset; s_dir.dir_pos = VK_IN_RANGE("dpos", 0, INT32_MAX); s_dir.cur_file.offset = VK_IN_RANGE("cur", 0, INT32_MAX);
  for(int k = 0; k < HN; k++) VK_REQUIRE(h_hdr[k].offset <= INT32_MAX && h_hdr[k].spec_info <= INT32_MAX && h_hdr[k].size <= INT32_MAX);
  int start = 0; evfs_off_t next = NEXT(s_dir.cur_file);
  if(reset) { start = 1; next = h_hdr[0].spec_info; if(s_data.cfg_no_dir_dots) { start = 3; next = NEXT(h_hdr[2]); } }
  EvfsInfo info; evfs_off_t dpos = s_dir.dir_pos;
  /* headers that cannot be read deliver nothing usable: only the case of a valid image up to the entry is specified */
  for(int k = 0; k < start; k++) VK_REQUIRE(h_ok[k]);
  int r = romfs__dir_read((EvfsDir *)&s_dir, &info);
  VK_ENSURE("the listing is no longer at its start", !s_dir.is_reset && s_dir.dir_pos == dpos);
  if(reset) VK_ENSURE("a listing starts from the directory's own header", h_pos[0] == dpos);
  if(reset && s_data.cfg_no_dir_dots) VK_ENSURE("the two dot entries are skipped in order", h_pos[1] == (long)h_hdr[0].spec_info && h_pos[2] == (long)NEXT(h_hdr[1]));
  if(next == 0) VK_ENSURE("the end of the list ends the listing", r == EVFS_DONE && h_calls == start);
  else if(start < HN) {
    VK_ENSURE("the next entry in the list is read", h_calls > start && h_pos[start] == next);
    VK_ENSURE("an unreadable entry ends the listing", (r == EVFS_OK) == h_ok[start] && (r == EVFS_OK || r == EVFS_DONE));
    if(r == EVFS_OK) {
      VK_ENSURE("the entry's name is reported", info.name && info.name[0] == 'a' + start && !info.name[1]);
      RomfsFileHead *t = &h_hdr[start];
      if(TYPE(*t) == FILE_TYPE_HARD_LINK && start + 1 < HN) { VK_ENSURE("a link's target is consulted", h_pos[start + 1] == (long)t->spec_info); if(h_ok[start + 1]) t = &h_hdr[start + 1]; }
      if(start + 1 < HN || TYPE(*t) != FILE_TYPE_HARD_LINK) VK_ENSURE("size and type", info.size == (evfs_off_t)t->size && !!(info.type & EVFS_FILE_DIR) == (TYPE(*t) == FILE_TYPE_DIRECTORY));
      VK_ENSURE("the list position is the entry", s_dir.cur_file.offset == h_hdr[start].offset);
    }
  }
  VK_ENSURE("rewind restarts the listing", romfs__dir_rewind((EvfsDir *)&s_dir) == EVFS_OK && s_dir.is_reset && s_dir.dir_pos == dpos);
  VK_REACH("romfs dir read end");
}

/* the in-memory image reader */
static int m_calls; static const char *m_dst, *m_src; static size_t m_n;
void *C_memcpy(void *d, const void *s_, size_t n) { m_calls++; m_dst = d; m_src = s_; m_n = n; return d; }
void h_rsrc_read(void) {
  long len = VK_IN_RANGE("len", 0, INT32_MAX); static uint8_t *mem; mem = vk_alloc(len + 1);
  s_fs.ctx = mem; s_fs.total_size = len; evfs_off_t off = VK_IN_RANGE("off", INT32_MIN, INT32_MAX); size_t n = VK_IN_ULONG("n"); char b[4]; m_calls = 0;
  ptrdiff_t r = romfs_read_rsrc(&s_fs, off, b, n);
  if(off < 0 || off >= len) VK_ENSURE("nothing outside the image is read", r < 0 && m_calls == 0);
  else VK_ENSURE("bytes of the image up to its end", r == (ptrdiff_t)(n < (size_t)(len - off) ? n : (size_t)(len - off)) && (r == 0 || m_calls == 1 && m_n == (size_t)r && m_src == (char *)mem + off && m_dst == b));
  VK_REACH("romfs rsrc read end");
}
