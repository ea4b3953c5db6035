/* C16, C17, C20: tar iterators and filesystems evaluated natively against the archive model. */
#define VK_HAVE_EVFS_C
#include "common.h"
#include "tar_iter.h"
#include "tar_iter_rsrc.h"
#include "tar_fs.h"
#include "tar_rsrc_fs.h"
#include "tar_model.h"
size_t __sanitizer_get_current_allocated_bytes(void);

static uint8_t *s_copy;   /* exactly-sized copy, so that any access outside it is reported */
static MemFile *s_mf, s_mf_iter;
static TarFileIterator s_fi; static TarRsrcIterator s_ri;
static int s_rsrc;

static bool it_begin(void) {
  if(s_rsrc) { tar_rsrc_iter_init(&s_ri, s_copy, s_arlen); return tar_rsrc_iter_begin(&s_ri); }
  s_mf = &s_mf_iter; mem_open(s_mf, s_copy, s_arlen); tar_iter_init(&s_fi, (EvfsFile *)s_mf); return tar_iter_begin(&s_fi);
}
static bool it_next(void) { return s_rsrc ? tar_rsrc_iter_next(&s_ri) : tar_iter_next(&s_fi); }
static bool it_seek(long off) { return s_rsrc ? tar_rsrc_iter_seek(&s_ri, off) : tar_iter_seek(&s_fi, off); }
static bool it_reset(void) { return s_rsrc ? tar_rsrc_iter_reset(&s_ri) : tar_iter_reset(&s_fi); }
static long it_size(void) { return s_rsrc ? (long)s_ri.file_size : s_fi.file_size; }
static long it_hoff(void) { return s_rsrc ? (long)s_ri.header_offset : s_fi.header_offset; }
static long it_doff(void) { return s_rsrc ? (long)tar_rsrc_iter_file_offset(&s_ri) : tar_iter_file_offset(&s_fi); }
static TarHeader *it_hdr(void) { return s_rsrc ? s_ri.cur_header : &s_fi.cur_header; }

static bool m_first(int i, const uint8_t *b, long n) { for(long k = 0; k < n && k < s_mem[i].size; k++) if(b[k] != data_at(i, k)) return false; return true; }
static void check_member(int i) {
  Member *m = &s_mem[i];
  VK_ENSURE("member header offset", it_hoff() == m->hoff);
  VK_ENSURE("member data offset", it_doff() == m->hoff + 512);
  VK_ENSURE("member size", it_size() == m->size);
  VK_ENSURE("member name, time and type", !memcmp(it_hdr(), m->hdr, 500));
  if(s_rsrc) VK_ENSURE("iterator is positioned at the member data", s_ri.read_pos == s_copy + m->hoff + 512);
  else VK_ENSURE("archive file is positioned at the member data", s_mf->pos == m->hoff + 512);
}
static void use_copy(void) { s_copy = vk_alloc(s_arlen); memcpy(s_copy, s_ar, s_arlen); }

void h_tar_iter(void) {
  s_rsrc = vk_in("rsrc", 0, 1); s_mem_faults = 0;
  gen_archive(); use_copy();
  int i = 0;
  for(bool ok = it_begin(); ok; ok = it_next(), i++) {
    VK_ENSURE("no more members than the archive has", i < s_nmem);
    check_member(i);
    if(vk_in("useit", 0, 3) == 0) {   /* reading the member's data or revisiting does not disturb the iteration */
      if(!s_rsrc) { uint8_t b[64]; long n = mem_read((EvfsFile *)s_mf, b, 64); VK_ENSURE("data at the position", n == 0 || m_first(i, b, n)); }
    }
    if(vk_in("reset", 0, 3) == 0) { VK_ENSURE("resetting revisits the member", it_reset()); check_member(i); }
  }
  VK_ENSURE("every member is visited", i == s_nmem);
  if(s_nmem) {
    int k = vk_in("sk", 0, s_nmem - 1);
    VK_ENSURE("seeking to a member offset finds it", it_seek(s_mem[k].hoff)); check_member(k);
    bool n = it_next(); VK_ENSURE("iteration continues from there", n == (k + 1 < s_nmem)); if(n) check_member(k + 1);
  }
}

void h_tar_damage(void) {   /* damaged and truncated archives */
  s_rsrc = vk_in("rsrc", 0, 1); s_mem_faults = 0;
  gen_archive();
  int nd = vk_in("damage", 0, 3);
  for(int k = 0; k < nd && s_arlen; k++) {
    long at = vk_in("dk", 0, 2) && s_nmem ? s_mem[vk_in("dm", 0, s_nmem - 1)].hoff + (vk_in("dsz", 0, 1) ? 124 + vk_in("dso", 0, 11) : vk_in("do", 0, 511)) : vk_in("dany", 0, s_arlen - 1);
    if(at >= s_arlen) continue;
    s_ar[at] = vk_in("dchr", 0, 1) ? "01777-+x"[vk_in("dc", 0, 7)] : vk_in("dv", 0, 255);
    if(vk_in("fixsum", 0, 1)) { long h = at / 512 * 512; if(!memcmp(s_ar + h + 257, "ustar", 5)) tar_checksum((TarHeader *)(s_ar + h)); }
  }
  if(vk_in("trunc", 0, 1)) s_arlen -= vk_in("cut", 0, s_arlen > 1100 ? 1100 : s_arlen);
  use_copy();
  long off = 0, size = 0; int i = 0;
  bool ok = it_begin();
  for(;; i++) {
    bool want = ref_header(s_copy, s_arlen, off, s_rsrc, &size);
    VK_ENSURE("iteration stops exactly where no valid member header follows", ok == want);
    if(!ok || i > 200) break;
    VK_ENSURE("member offset and size come from its header", it_hoff() == off && it_size() == size);
    VK_ENSURE("member header is copied exactly", !memcmp(it_hdr(), s_copy + off, 500));
    off += 512 + (size + 511) / 512 * 512;
    ok = it_next();
  }
  VK_ENSURE("iteration terminates", i <= 200);
  long so = vk_in("seekany", 0, 1) ? vk_in("so1", INT32_MIN, INT32_MAX) : vk_in("so", -5, s_arlen + 5);
  bool r = it_seek(so);
  if(so >= 0) VK_ENSURE("seeking anywhere accepts only valid headers", r == ref_header(s_copy, s_arlen, so, s_rsrc, &size));
}

/* ---------------- mounted archives ---------------- */
typedef struct { EvfsFile *fh; int m; long pos; } Hnd;
static int mount_it(void) {
  if(s_rsrc) return evfs_register_tar_rsrc_fs("tarm", s_copy, s_arlen, true);
  s_mf = malloc(sizeof *s_mf); s_closes = s_writes = 0; mem_open(s_mf, s_copy, s_arlen);   /* freed by evfs_file_close() */
  s_mf->pos = vk_in("startpos", 0, s_arlen);   /* the archive file need not be at its start */
  int r = evfs_register_tar_fs("tarm", (EvfsFile *)s_mf, true);
  if(r != EVFS_OK) { VK_ENSURE("a failed mount leaves the archive file open", s_closes == 0); free(s_mf); }
  return r;
}
static int find_member(const char *key) {
  int f = -1;
  for(int i = 0; i < s_nmem; i++) if((s_mem[i].type == '0' || s_mem[i].type == '5') && !strcmp(s_mem[i].key, key)) f = i;
  return f;
}
static void gen_path(char *p) {   /* an existing key or a near miss */
  if(s_nmem && vk_in("pk", 0, 7)) {
    Member *m = &s_mem[vk_in("pm", 0, s_nmem - 1)];
    sprintf(p, "/%s", m->key);
    switch(vk_in("near", 0, 9)) {
    case 0: p[strlen(p) - 1] = 0; break;
    case 1: { size_t l = strlen(p); p[l] = vk_in("nearc", 33, 126); p[l + 1] = 0; } break;
    case 5: { size_t l = strlen(p), k = vk_in("neark", 0, l - 1); p[k] = vk_in("nearc", 33, 126); } break;   /* one character differs */
    case 2: strcat(p, "/"); break;
    case 3: { char *s = strchr(p + 1, '/'); if(s) *s = 0; } break;
    case 4: memmove(p, p + 1, strlen(p)); break;    /* relative to the working directory */
    default: break;
    }
  } else { strcpy(p, "/nosuch"); if(vk_in("pe", 0, 1)) p[1] = 0; }
}
static int s_first = 1;
static void fs_session(void) {
  if(s_first) { evfs_init(); s_first = 0; }
  gen_archive(); use_copy();
  s_mem_faults = 0;
  size_t heap0 = __sanitizer_get_current_allocated_bytes();
  int nidx = 0; for(int i = 0; i < s_nmem; i++) nidx += s_mem[i].type == '0' || s_mem[i].type == '5';
  int st = mount_it();
  if(s_nmem == 0) { VK_ENSURE("an archive without members does not mount", st < 0); return; }
  VK_REQUIRE(nidx > 0 || st == EVFS_OK);
  VK_ENSURE("a valid archive mounts", st == EVFS_OK || nidx == 0);
  if(st != EVFS_OK) return;
  int fault_ok = !s_rsrc && vk_in("faults", 0, 3) == 0;
  Hnd h[3] = {{0}};
  int ops = vk_in("ops", 1, 40);
  for(int o = 0; o < ops; o++) {
    Hnd *x = &h[vk_in("h", 0, 2)];
    if(!x->fh) {
      char p[300]; gen_path(p);
      int flags = EVFS_READ; bool w = false;
      if(vk_in("wr", 0, 3) == 0) { flags = vk_in("flags", 0, 63); w = (flags & ~EVFS_READ) != 0; }
      EvfsFile *fh = (EvfsFile *)s_copy;
      int r = evfs_open_ex(p, &fh, flags, "tarm");
      bool rel = p[0] != '/';
      int m = rel ? -2 : find_member(p + 1);
      if(w) { VK_ENSURE("read-only: write-capable open is refused", r < 0 && !fh); }
      else if(rel) {  /* the path is first made absolute and normalised, and may exceed the path limit */
        if(r >= 0) { x->fh = fh; m = -3; char a[EVFS_MAX_PATH]; StringRange ar = RANGE_FROM_ARRAY(a);
          VK_ENSURE("relative open succeeded so the absolute form exists", evfs_path_absolute_ex(p, &ar, "tarm") == EVFS_OK);
          m = find_member(a + 1); VK_ENSURE("relative open finds the member of the absolute path", m >= 0 && s_mem[m].type == '0'); x->m = m; x->pos = 0; }
        else { VK_ENSURE("a failed open leaves no handle", !fh); char a[EVFS_MAX_PATH]; StringRange ar = RANGE_FROM_ARRAY(a);
          if(evfs_path_absolute_ex(p, &ar, "tarm") == EVFS_OK) { m = find_member(a + 1); VK_ENSURE("a relative path to a member file opens", p[0] == 92 || m < 0 || s_mem[m].type != '0'); } }
      }
      else if(m < 0) VK_ENSURE("a missing name fails to open", r < 0 && !fh);
      else if(s_mem[m].type == '5') VK_ENSURE("a directory does not open as a file", r == EVFS_ERR_IS_DIR && !fh);
      else { VK_ENSURE("a member opens", r == EVFS_OK && fh); x->fh = fh; x->m = m; x->pos = 0; }
      EvfsInfo inf; memset(&inf, 0x5a, sizeof inf);
      if(!rel) {
        int sr = evfs_stat_ex(p, &inf, "tarm");
        if(m < 0) VK_ENSURE("stat of a missing name fails", sr < 0);
        else if(s_mem[m].type == '5') VK_ENSURE("stat of a directory", sr == EVFS_OK && (inf.type & EVFS_FILE_DIR));
        else VK_ENSURE("stat of a file", sr == EVFS_OK && inf.size == s_mem[m].size && !(inf.type & EVFS_FILE_DIR));
        EvfsInfo di;
        if(m >= 0 && s_mem[m].type == '5' && strlen(p) < 200 && p[strlen(p) - 1] != '.' && !strstr(p, "/.") && !strstr(p, "./") && !strstr(p, "//") && vk_in("cd", 0, 2) == 0) {
          VK_ENSURE("changing to an existing directory", evfs_set_cur_dir_ex(p, "tarm") == EVFS_OK);
          char cd[EVFS_MAX_PATH]; StringRange cr = RANGE_FROM_ARRAY(cd);
          VK_ENSURE("the working directory is reported", evfs_get_cur_dir_ex(&cr, "tarm") == EVFS_OK && !strcmp(cd, p));
        }
        (void)di;
      }
      VK_ENSURE("read-only: delete, rename and mkdir are refused", evfs_delete_ex(p, "tarm") < 0 && evfs_rename_ex(p, "/q", "tarm") < 0 && evfs_make_dir_ex("/q", "tarm") < 0);
      continue;
    }
    Member *m = &s_mem[x->m];
    s_mem_faults = fault_ok;
    switch(vk_in("op", 0, 8)) {
    case 0: case 1: case 2: {
      size_t n = vk_in("rn", 0, 3) ? vk_in("n", 0, 700) : (size_t)vk_in("nbig", 0, 1500);
      size_t ask = n; if(vk_in("huge", 0, 9) == 0) { n = 1500; ask = (size_t)vk_in("hugen", 0, 2) == 0 ? (size_t)0x7fffffff : SIZE_MAX - vk_in("hn", 0, 5); }
      uint8_t *b = malloc((n > 1500 ? n : 1500) + 1); memset(b, 0xEE, 1501);
      long left = m->size - x->pos; if(left < 0) left = 0;
      long want = ask < (size_t)left ? (long)ask : left;
      if(s_rsrc && ask > n) ask = ask > 0x7fffffff ? 0x7fffffff : ask;
      ptrdiff_t r = evfs_file_read(x->fh, b, ask);
      if(s_mem_faults) VK_ENSURE("a read returns an error or at most the bytes there are", r <= want);
      else VK_ENSURE("a read returns all the bytes there are", r == want);
      for(long k = 0; k < r; k++) VK_ENSURE("exactly the member's bytes", b[k] == data_at(x->m, x->pos + k));
      for(long k = r > 0 ? r : 0; k < 1501 && !s_mem_faults; k++) VK_ENSURE("nothing written past the data read", b[k] == 0xEE);
      if(r > 0) x->pos += r;
      free(b);
      break; }
    case 3: case 4: {
      evfs_off_t off = vk_in("so", 0, 2) ? vk_in("soff", -100, 1700) : (evfs_off_t)vk_in("sbig", INT32_MIN, INT32_MAX);
      int org = vk_in("org", 1, 3);
      long t = org == EVFS_SEEK_TO ? off : org == EVFS_SEEK_REL ? x->pos + (long)off : m->size - (long)off;
      if(t < 0) t = 0; if(t > m->size) t = m->size;
      VK_ENSURE("seek succeeds", evfs_file_seek(x->fh, off, org) == EVFS_OK);
      x->pos = t; break; }
    case 5: VK_ENSURE("size is the member size", evfs_file_size(x->fh) == m->size); break;
    case 6:
      VK_ENSURE("read-only: write and truncate are refused", evfs_file_write(x->fh, "x", 1) < 0 && evfs_file_truncate(x->fh, 0) < 0); break;
    case 7: {
      if(s_rsrc) { uint8_t *a = 0; VK_ENSURE("resource address", evfs_file_ctrl(x->fh, EVFS_CMD_GET_RSRC_ADDR, &a) == EVFS_OK && a == s_copy + m->hoff + 512); }
      break; }
    case 8: if(vk_in("close", 0, 3) == 0) { VK_ENSURE("close succeeds", evfs_file_close(x->fh) == EVFS_OK); x->fh = 0; } break;
    }
    s_mem_faults = 0;
    for(int k = 0; k < 3; k++) if(h[k].fh) {
      VK_ENSURE("position", evfs_file_tell(h[k].fh) == h[k].pos);
      VK_ENSURE("end of file exactly at the end", evfs_file_eof(h[k].fh) == (h[k].pos >= s_mem[h[k].m].size));
    }
    VK_ENSURE("archive bytes are never modified", !memcmp(s_copy, s_ar, s_arlen) && s_writes == 0);
  }
  for(int k = 0; k < 3; k++) if(h[k].fh) VK_ENSURE("close succeeds", evfs_file_close(h[k].fh) == EVFS_OK);
  evfs_unregister(evfs_find_vfs("tarm"));
  if(!s_rsrc) VK_ENSURE("the archive file is closed once on unregister", s_closes == 1);
  VK_ENSURE("nothing is leaked", __sanitizer_get_current_allocated_bytes() == heap0);
}
void h_tar_fs(void) { s_rsrc = 0; fs_session(); }
void h_tar_rsrc_fs(void) { s_rsrc = 1; fs_session(); }

/* mounting damaged archives: memory safety, leaks, and reads stay inside the archive */
void h_tar_fs_damage(void) {
  s_rsrc = vk_in("rsrc", 0, 1); s_mem_faults = 0;
  if(s_first) { evfs_init(); s_first = 0; }
  gen_archive();
  for(int k = vk_in("damage", 0, 3); k > 0 && s_arlen; k--) {
    long at = s_nmem && vk_in("dk", 0, 1) ? s_mem[vk_in("dm", 0, s_nmem - 1)].hoff + vk_in("do", 0, 511) : vk_in("dany", 0, s_arlen - 1);
    if(at >= s_arlen) continue;
    s_ar[at] = vk_in("dv", 0, 255);
    if(vk_in("fixsum", 0, 1)) { long h = at / 512 * 512; if(!memcmp(s_ar + h + 257, "ustar", 5)) tar_checksum((TarHeader *)(s_ar + h)); }
  }
  if(vk_in("trunc", 0, 1)) s_arlen -= vk_in("cut", 0, s_arlen > 1100 ? 1100 : s_arlen);
  use_copy();
  size_t heap0 = __sanitizer_get_current_allocated_bytes();
  if(mount_it() == EVFS_OK) {
    for(int i = 0; i < s_nmem; i++) {
      char p[300]; sprintf(p, "/%s", s_mem[i].key);
      EvfsFile *fh;
      if(evfs_open_ex(p, &fh, EVFS_READ, "tarm") == EVFS_OK) {
        uint8_t *b = malloc(4000); long sz = evfs_file_size(fh);
        VK_ENSURE("size is not negative", sz >= 0);
        ptrdiff_t n = evfs_file_read(fh, b, 4000);
        VK_ENSURE("reads stay within the member", n <= sz && n <= 4000);
        free(b); evfs_file_close(fh);
      }
    }
    evfs_unregister(evfs_find_vfs("tarm"));
  }
  VK_ENSURE("nothing is leaked", __sanitizer_get_current_allocated_bytes() == heap0);
}
