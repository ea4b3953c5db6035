/* C16: contracts of the tar iterators.  -DRSRC selects tar_iter_rsrc.c. */
#define VK_HAVE_EVFS_C
#include "common.h"
#ifdef RSRC
#include "src/tar_iter_rsrc.c"
#else
#include "src/tar_iter.c"
#endif
/* contract of tar__valid_header: any answer (its own contract is checked in rt.tar_iter, rt.tar_damage and tar.valid) */
static bool v_ok; static int v_calls; static TarHeader *v_hdr;
bool C_valid_header(TarHeader *h) { v_calls++; v_hdr = h; return v_ok; }

/* the numeric value of a 12 byte octal field, by the definition of strtol (leading spaces and sign allowed) */
static long spec_octal(const uint8_t *f) {
  int i = 0; bool neg = false; long v = 0;
  while(i < 12 && (f[i] == ' ' || f[i] >= 9 && f[i] <= 13)) i++;
  if(i < 12 && (f[i] == '-' || f[i] == '+')) { neg = f[i] == '-'; i++; }
  for(; i < 12 && f[i] >= '0' && f[i] <= '7'; i++) v = v * 8 + (f[i] - '0');
  return neg ? -v : v;
}
#ifndef VK_NATIVE
/* strtol for base 8 (C standard); fields are at most 12 digits so it cannot saturate */
long __isoc23_strtol(const char *s, char **e, int base) {
  VK_ENSURE("octal", base == 8);
  int i = 0; bool neg = false; long v = 0;
  while(s[i] == ' ' || s[i] >= 9 && s[i] <= 13) i++;
  if(s[i] == '-' || s[i] == '+') { neg = s[i] == '-'; i++; }
  for(; s[i] >= '0' && s[i] <= '7'; i++) v = v * 8 + (s[i] - '0');
  return neg ? -v : v;
}
#endif
static uint8_t s_sizefield[12];

/* contract of tar__get_size in the resource iterator */
static bool g_ok; static long g_size; static void *g_hdr; static size_t g_max; static int g_calls;
bool C_get_size(TarHeader *h, size_t max, size_t *size) { g_calls++; g_hdr = h; g_max = max; if(g_ok && (size_t)g_size <= max) { *size = g_size; return true; } return false; }
#ifdef RSRC
void h_tar_size(void) {
  static TarHeader h; size_t max = VK_IN_ULONG("max"), out = 77;
  for(int i = 0; i < 12; i++) h.size[i] = s_sizefield[i] = VK_IN_U8("sz");
  long size = spec_octal(s_sizefield);
  bool r = tar__get_size(&h, max, &out);
  VK_ENSURE("a size is accepted exactly when it is within the limit", r == (size >= 0 && (size_t)size <= max));
  VK_ENSURE("the size is the octal value of the field", !r || out == (size_t)size);
  VK_REACH("tar size end");
}
void h_tar_it(void) {
  long len = VK_IN_RANGE("len", 0, 1L << 40); uint8_t *mem = vk_alloc(len + 1);
  TarRsrcIterator it; tar_rsrc_iter_init(&it, mem, len);
  VK_ENSURE("a fresh iterator covers the resource", it.resource == mem && it.resource_len == (size_t)len);
  bool nxt = VK_IN_BOOL("next"); long off;
  v_ok = VK_IN_BOOL("valid"); v_calls = 0;
  if(nxt) {   /* state of an iterator at a member accepted before */
    it.header_offset = VK_IN_RANGE("hoff", 0, 1L << 40); it.file_size = VK_IN_RANGE("fsize", 0, 1L << 40);
    VK_REQUIRE((long)it.header_offset + 512 + (long)it.file_size <= len);
    off = it.header_offset + 512 + (it.file_size + 511) / 512 * 512;
  } else off = VK_IN_RANGE("off", INT32_MIN, INT32_MAX);
  g_ok = VK_IN_BOOL("gok"); g_size = VK_IN_RANGE("gsize", 0, 1L << 36); g_calls = 0;
  bool r = nxt ? tar_rsrc_iter_next(&it) : tar_rsrc_iter_seek(&it, off);
  bool inside = off >= 0 && off + 512 <= len;
  if(!inside) VK_ENSURE("no header outside the archive is looked at", !r && v_calls == 0);
  else if(!v_ok) VK_ENSURE("an invalid header stops the iteration", !r);
  else VK_ENSURE("a member is accepted exactly when its data is inside the archive", r == (g_ok && off + 512 + g_size <= len) && g_calls == 1 && g_hdr == mem + off);
  if(r) {
    VK_ENSURE("the header validated is the one at the offset", v_hdr == (TarHeader *)(mem + off) && it.cur_header == (TarHeader *)(mem + off));
    VK_ENSURE("offset, size and data position", (long)it.header_offset == off && (long)it.file_size == g_size && it.read_pos == mem + off + 512);
    VK_ENSURE("data offset", (long)tar_rsrc_iter_file_offset(&it) == off + 512);
  } else VK_ENSURE("a stopped iterator shows no member", it.cur_header == NULL && it.file_size == 0);
  VK_ENSURE("the resource is unchanged", it.resource == mem && it.resource_len == (size_t)len);
  VK_REACH("tar rsrc it end");
}
#else
static int f_seeks, f_reads, f_tells; static evfs_off_t f_off[2]; static int f_dir[2], f_r[2]; static long f_read_r, f_tell_r; static void *f_buf; static size_t f_size;
static ptrdiff_t fm_read(EvfsFile *f, void *b, size_t s) {
  VK_ENSURE("the header is read after a successful seek, into the iterator, no more than the header", f_seeks == 1 && f_r[0] == EVFS_OK && s <= TAR_HEADER_SIZE);
  f_reads++; f_buf = b; f_size = s; VK_REQUIRE(f_read_r <= (long)s);
#ifndef VK_NATIVE
  __CPROVER_havoc_slice(b, s);
#endif
  if(f_read_r == TAR_HEADER_SIZE) memcpy((uint8_t *)b + 124, s_sizefield, 12);
  return f_read_r; }
static int fm_seek(EvfsFile *f, evfs_off_t o, EvfsSeekDir d) { VK_ENSURE("at most two seeks", f_seeks < 2); f_off[f_seeks] = o; f_dir[f_seeks] = d; return f_r[f_seeks++]; }
static evfs_off_t fm_tell(EvfsFile *f) { f_tells++; return f_tell_r; }
static int fm_none(EvfsFile *f) { VK_ENSURE("no other file operation", 0); return 0; }
static EvfsFileMethods s_fm = {.m_read = fm_read, .m_seek = fm_seek, .m_tell = fm_tell, .m_close = fm_none, .m_sync = fm_none};
void h_tar_it(void) {
  static EvfsFile file; file.methods = &s_fm;
  static TarFileIterator it; tar_iter_init(&it, &file);
  VK_ENSURE("a fresh iterator uses the file", it.fd == &file);
  bool nxt = VK_IN_BOOL("next"); long off;
  v_ok = VK_IN_BOOL("valid"); v_calls = 0; f_seeks = f_reads = 0;
  for(int i = 0; i < 12; i++) s_sizefield[i] = VK_IN_U8("sz");
  f_r[0] = VK_IN_RANGE("r0", -40, 0); f_r[1] = VK_IN_RANGE("r1", -40, 0); f_read_r = VK_IN_RANGE("rr", -40, TAR_HEADER_SIZE); f_tell_r = VK_IN_RANGE("tell", -40, INT32_MAX);
  if(nxt) {
    it.header_offset = VK_IN_RANGE("hoff", 0, INT32_MAX); it.file_size = VK_IN_RANGE("fsize", 0, INT32_MAX);
    VK_REQUIRE((long)it.header_offset + it.file_size <= (long)EVFS_OFF_MAX - 1024);   /* invariant of an accepted member */
    off = it.header_offset + 512L + (it.file_size + 511L) / 512 * 512;
    VK_ENSURE("the next header offset is representable", off <= EVFS_OFF_MAX);
  } else off = VK_IN_RANGE("off", INT32_MIN, INT32_MAX);
  if(f_tell_r >= 0) VK_REQUIRE(f_tell_r == off);   /* a successful seek positions the archive file */
  long size = spec_octal(s_sizefield);
  bool r = nxt ? tar_iter_next(&it) : tar_iter_seek(&it, off);
  VK_ENSURE("the archive is positioned at the member's header first", f_off[0] == off && f_dir[0] == EVFS_SEEK_TO);
  bool want = f_r[0] == EVFS_OK && f_tell_r >= 0 && f_tell_r <= (long)EVFS_OFF_MAX - 1024 && f_read_r == TAR_HEADER_SIZE && v_ok &&
              size >= 0 && size <= (long)EVFS_OFF_MAX - 1024 - off && f_r[1] == EVFS_OK;
  VK_ENSURE("a member is accepted exactly when its header is readable, valid and representable", r == want);
  if(r) {
    VK_ENSURE("the header validated is the iterator's", v_hdr == &it.cur_header && f_buf == &it.cur_header);
    VK_ENSURE("offset and size", it.header_offset == off && it.file_size == size);
    VK_ENSURE("the archive is left at the member's data", f_seeks == 2 && (f_dir[1] == EVFS_SEEK_REL ? off + 500 + f_off[1] : f_off[1]) == off + 512);
    VK_ENSURE("data offset", tar_iter_file_offset(&it) == off + 512);
    VK_ENSURE("the invariant of an accepted member holds", (long)it.header_offset + it.file_size <= (long)EVFS_OFF_MAX - 1024);
  }
  VK_ENSURE("the file is unchanged", it.fd == &file);
  VK_REACH("tar it end");
}
#endif

/* the checksum and magic test, all 500 header bytes unconstrained except that all but W are zero in the quick tier */
void h_tar_valid(void) {
  static TarHeader h; uint8_t *raw = (uint8_t *)&h;
#ifndef VK_NATIVE
  __CPROVER_havoc_object(raw);
#else
  for(int i = 0; i < 500; i++) raw[i] = vk_in("b", 0, 255);
#endif
  long v = 0; int i = 148;   /* "NUL terminated octal with '0' padding" */
  for(; i < 156 && raw[i] >= '0' && raw[i] <= '7'; i++) v = v * 8 + (raw[i] - '0');
  VK_REQUIRE(i > 148 && i < 156);
  uint32_t sum = 0;
  for(int k = 0; k < TAR_HEADER_SIZE; k++) sum += k >= 148 && k < 156 ? ' ' : raw[k];
  bool r = tar__valid_header(&h);
  VK_ENSURE("a header is valid exactly when its magic and checksum are right", r == (!memcmp(raw + 257, "ustar  ", 8) && (uint32_t)v == sum));
  VK_REACH("tar valid end");
}
