/* C18, C19, C20, C26: romfs evaluated natively against a model of generated images.
   -DSLOW removes the hashed index, so that lookups walk the image. */
#define VK_HAVE_EVFS_C
#include "common.h"
#ifdef SLOW
#include "evfs_config.h"
#undef EVFS_USE_ROMFS_FAST_INDEX
#endif
#include "src/romfs_common.c"
#undef SUPERBLOCK_LEN
#undef CHUNK_LEN
#include "src/romfs_fs.c"
#include "tar_model.h"   /* in-memory EvfsFile */
size_t __sanitizer_get_current_allocated_bytes(void);

#define NMAX 24
typedef struct { char name[32]; int type, parent; long size, hoff, doff; int link; char path[200]; int kids[NMAX], nkids; } Node;
static Node s_n[NMAX]; static int s_nn;
static uint8_t s_img[NMAX * 800 + 4096]; static long s_len; static uint8_t *s_cp; static MemFile *s_mf; static int s_rsrc;

static void be32(uint8_t *p, uint32_t v) { p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; }
static uint32_t rd32(const uint8_t *p) { return (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
static void fix_sum(uint8_t *p, long n, long at) {
  be32(p + at, 0); uint32_t s = 0;
  for(long i = 0; i + 3 < n; i += 4) s += rd32(p + i);
  be32(p + at, -s);
}
static long put_hdr(long pos, int type, int exec, uint32_t spec, uint32_t size, const char *name) {
  uint8_t *p = s_img + pos; long hl = 16 + ((strlen(name) + 1 + 15) & ~15L);
  memset(p, 0, hl); be32(p, type | (exec ? 8 : 0)); be32(p + 4, spec); be32(p + 8, size); strcpy((char *)p + 16, name);
  return hl;
}
static long hdr_len(long pos) { return 16 + ((strlen((char *)s_img + pos + 16) + 1 + 15) & ~15L); }
static void set_next(long pos, uint32_t next) { be32(s_img + pos, next | (rd32(s_img + pos) & 15)); }
/* write the children list of directory node d (-1: root); returns position after it */
static long write_dir(int d, long pos, long self, long parent) {
  long prev = 0;
  for(int pass = 0; pass < 2; pass++) {       /* "." and ".." */
    if(d < 0 && pass == 0) { pos += put_hdr(pos, FILE_TYPE_DIRECTORY, 1, self, 0, "."); prev = self; }
    else { long at = pos; pos += put_hdr(at, FILE_TYPE_HARD_LINK, 0, pass ? parent : self, 0, pass ? ".." : "."); if(prev) set_next(prev, at); prev = at; }
  }
  for(int i = 0; i < s_nn; i++) if(s_n[i].parent == d) {
    Node *n = &s_n[i]; long at = pos; n->hoff = at;
    pos += put_hdr(at, n->type, vk_in("exec", 0, 1), 0, n->type == FILE_TYPE_REGULAR_FILE || n->type == FILE_TYPE_SYM_LINK ? n->size : 0, n->name);
    n->doff = pos;
    if(n->type == FILE_TYPE_REGULAR_FILE || n->type == FILE_TYPE_SYM_LINK) {
      for(long k = 0; k < n->size; k++) s_img[pos + k] = data_at(i, k);
      pos += (n->size + 15) & ~15L;
    } else if(n->type == FILE_TYPE_DIRECTORY) { be32(s_img + at + 4, pos); pos = write_dir(i, pos, at, self); }
    set_next(prev, at); prev = at;
  }
  return pos;
}
static void gen_image(void) {
  memset(s_img, 0, sizeof s_img); s_nn = vk_in("nodes", 0, NMAX - 1);
  if(vk_in("few", 0, 1)) s_nn %= 5;
  for(int i = 0; i < s_nn; i++) {
    Node *n = &s_n[i]; memset(n, 0, sizeof *n); n->parent = -1; n->link = -1;
    static const int types[] = {2, 2, 2, 2, 1, 1, 1, 0, 3, 6};
    n->type = types[vk_in("type", 0, 9)];
    int dirs[NMAX], nd = 0; for(int k = 0; k < i; k++) if(s_n[k].type == FILE_TYPE_DIRECTORY && strlen(s_n[k].path) < 120) dirs[nd++] = k;
    if(nd && vk_in("deep", 0, 2)) n->parent = dirs[vk_in("par", 0, nd - 1)];
    if(n->type == FILE_TYPE_HARD_LINK) {   /* to a regular file made before */
      int f[NMAX], nf = 0; for(int k = 0; k < i; k++) if(s_n[k].type == FILE_TYPE_REGULAR_FILE) f[nf++] = k;
      if(nf) n->link = f[vk_in("lnk", 0, nf - 1)]; else n->type = FILE_TYPE_REGULAR_FILE;
    }
    int l = vk_in("nlk", 0, 3) ? 1 + vk_in("nl", 0, 5) : vk_in("nl2", 14, 31);
    for(int k = 0; k < l; k++) n->name[k] = k == 0 ? 'a' + i : "abcdeA.-_"[vk_in("c", 0, 8)];
    if(n->type == FILE_TYPE_REGULAR_FILE) n->size = vk_in("szk", 0, 3) ? vk_in("size", 0, 60) : vk_in("size2", 0, 500);
    if(n->type == FILE_TYPE_SYM_LINK) n->size = 3;
    snprintf(n->path, sizeof n->path, "%s/%s", n->parent < 0 ? "" : s_n[n->parent].path, n->name);
  }
  memcpy(s_img, "-rom1fs-", 8);
  int vl = vk_in("vl", 0, 31); for(int k = 0; k < vl; k++) s_img[16 + k] = 'V';
  long root = (16 + vl + 1 + 15) & ~15L;
  long end = write_dir(-1, root, root, root);
  for(int i = 0; i < s_nn; i++) if(s_n[i].link >= 0) be32(s_img + s_n[i].hoff + 4, s_n[s_n[i].link].hoff);
  /* checksums: every header reachable */
  fix_sum(s_img + root, hdr_len(root), 12);
  long p = root;
  for(int d = -1; d < s_nn; d++) {
    if(d >= 0 && s_n[d].type != FILE_TYPE_DIRECTORY) continue;
    for(p = d < 0 ? root : (long)rd32(s_img + s_n[d].hoff + 4); p; p = rd32(s_img + p) & ~15u) fix_sum(s_img + p, hdr_len(p), 12);
  }
  s_len = (end + 1023) & ~1023L;
  if(vk_in("nopad", 0, 1)) s_len = end;
  be32(s_img + 8, vk_in("smaller", 0, 3) ? s_len : end);
  fix_sum(s_img, s_len < 512 ? s_len : 512, 12);
}
static void use_copy(void) { s_cp = vk_alloc(s_len); memcpy(s_cp, s_img, s_len); }   /* exactly sized */
static int mount_rom(void) {
  if(s_rsrc) return evfs_register_rsrc_romfs("romm", s_cp, s_len, true);
  s_mf = malloc(sizeof *s_mf); s_closes = s_writes = 0; mem_open(s_mf, s_cp, s_len);
  int r = evfs_register_romfs("romm", (EvfsFile *)s_mf, true);
  if(r != EVFS_OK) { VK_ENSURE("a failed mount leaves the image open", s_closes == 0); free(s_mf); }
  return r;
}
static int node_of(const char *path) { for(int i = 0; i < s_nn; i++) if(!strcmp(s_n[i].path, path)) return i; return -1; }
static int target(int i) { return i >= 0 && s_n[i].link >= 0 ? s_n[i].link : i; }
static void gen_path(char *p) {
  if(!s_nn || vk_in("pk", 0, 9) == 0) { strcpy(p, vk_in("pr", 0, 1) ? "/" : "/zz"); return; }
  strcpy(p, s_n[vk_in("pn", 0, s_nn - 1)].path); size_t l = strlen(p);
  switch(vk_in("near", 0, 9)) {
  case 0: p[l - 1] = 0; if(!p[0]) strcpy(p, "/"); if(p[1] && p[strlen(p) - 1] == '/') p[strlen(p) - 1] = 0; break;
  case 1: strcat(p, "q"); break;
  case 2: strcat(p, "/q"); break;
  case 3: p[l - 1] ^= 0x20; break;
  case 4: { char *s = strrchr(p, '/'); memmove(p, s, strlen(s) + 1); } break;   /* last component at the root */
  default: break;
  }
  /* only canonical absolute paths: how others are looked up is left open */
}
static bool canonical(const char *p) {
  if(p[0] != '/' || strchr(p, '\\')) return false;
  if(!p[1]) return true;
  for(const char *s = p; *s; s++) if(*s == '/' && (s[1] == '/' || !s[1] || s[1] == '.' && (!s[2] || s[2] == '/' || s[2] == '.' && (!s[3] || s[3] == '/')))) return false;
  return true;
}
static int s_first = 1;

/* directory listing against the model */
static void check_dir(int d, bool dots) {
  EvfsDir *dh = (EvfsDir *)1; const char *path = d < 0 ? "/" : s_n[d].path;
  VK_ENSURE("a directory opens", evfs_open_dir_ex(path, &dh, "romm") == EVFS_OK && dh);
  int rounds = 1 + vk_in("rounds", 0, 2), stop = vk_in("stop", 0, 40);
  for(int rd = 0; rd < rounds; rd++) {
    EvfsInfo inf; int at = 0, i = -1, steps = 0;
    for(;;) {
      if(rd + 1 < rounds && steps == stop) break;   /* rewind part way */
      int r = evfs_dir_read(dh, &inf); steps++;
      if(dots && at < 2) { VK_ENSURE("dot entries come first, as directories", r == EVFS_OK && !strcmp(inf.name, at ? ".." : ".") && (inf.type & EVFS_FILE_DIR)); at++; continue; }
      do i++; while(i < s_nn && s_n[i].parent != d);
      if(i >= s_nn) { VK_ENSURE("the listing ends after the last entry", r == EVFS_DONE); break; }
      VK_ENSURE("each entry is listed once, in order", r == EVFS_OK && !strcmp(inf.name, s_n[i].name));
      int t = target(i);
      VK_ENSURE("entry type", !!(inf.type & EVFS_FILE_DIR) == (s_n[t].type == FILE_TYPE_DIRECTORY));
      VK_ENSURE("entry size", inf.size == (s_n[t].type == FILE_TYPE_REGULAR_FILE || s_n[t].type == FILE_TYPE_SYM_LINK ? s_n[t].size : 0));
    }
    VK_ENSURE("rewind", evfs_dir_rewind(dh) == EVFS_OK);
  }
  VK_ENSURE("directory close", evfs_dir_close(dh) == EVFS_OK);
}

typedef struct { EvfsFile *fh; int n; long pos; } Hnd;
void h_romfs(void) {
  if(s_first) { evfs_init(); s_first = 0; }
  s_rsrc = vk_in("rsrc", 0, 1); s_mem_faults = 0;
  gen_image();
  use_copy();
  size_t heap0 = __sanitizer_get_current_allocated_bytes();
  VK_ENSURE("a valid image mounts", mount_rom() == EVFS_OK);
  bool dots = true;
  if(vk_in("nodots", 0, 1)) { unsigned v = 1; VK_ENSURE("no-dots option", evfs_vfs_ctrl_ex(EVFS_CMD_SET_NO_DIR_DOTS, &v, "romm") == EVFS_OK); dots = false; }
  for(int i = 0; i < s_nn; i++) {     /* every entry is found */
    EvfsInfo inf; int t = target(i);
    VK_ENSURE("every entry is found with its size and type", evfs_stat_ex(s_n[i].path, &inf, "romm") == EVFS_OK &&
      !!(inf.type & EVFS_FILE_DIR) == (s_n[t].type == FILE_TYPE_DIRECTORY) && (s_n[t].type != FILE_TYPE_REGULAR_FILE || inf.size == s_n[t].size));
  }
  EvfsInfo ri; VK_ENSURE("the root is a directory", evfs_stat_ex("/", &ri, "romm") == EVFS_OK && (ri.type & EVFS_FILE_DIR));
  bool fault_ok = !s_rsrc && vk_in("faults", 0, 3) == 0;
  Hnd h[3] = {{0}};
  for(int o = vk_in("ops", 0, 30); o > 0; o--) {
    Hnd *x = &h[vk_in("h", 0, 2)];
    if(!x->fh) {
      char p[260]; gen_path(p); if(!canonical(p)) continue;
      int n = node_of(p), t = target(n);
      EvfsInfo inf; int sr = evfs_stat_ex(p, &inf, "romm");
      VK_ENSURE("only existing paths are found", (sr == EVFS_OK) == (n >= 0 || !strcmp(p, "/")));
      if(n >= 0 && s_n[t].type == FILE_TYPE_DIRECTORY || !strcmp(p, "/")) {
        if(vk_in("ls", 0, 1)) check_dir(n, dots);
        if(vk_in("cd", 0, 1)) { char cd[EVFS_MAX_PATH]; StringRange cr = RANGE_FROM_ARRAY(cd);
          VK_ENSURE("changing to an existing directory", evfs_set_cur_dir_ex(p, "romm") == EVFS_OK && evfs_get_cur_dir_ex(&cr, "romm") == EVFS_OK && !strcmp(cd, p));
          int k = s_nn ? (int)vk_in("rel", 0, s_nn - 1) : -1;
          if(k >= 0 && s_n[k].parent == n) { VK_ENSURE("relative lookup from the working directory", evfs_stat_ex(s_n[k].name, &inf, "romm") == EVFS_OK); }
          VK_ENSURE("relative lookup of a missing name fails", evfs_stat_ex("zz", &inf, "romm") < 0); }
      } else {
        EvfsDir *dh = (EvfsDir *)s_cp; VK_ENSURE("only directories open as directories", evfs_open_dir_ex(p, &dh, "romm") < 0 && !dh);
        VK_ENSURE("only directories become the working directory", evfs_set_cur_dir_ex(p, "romm") < 0);
      }
      int flags = EVFS_READ; if(vk_in("wr", 0, 3) == 0) flags = vk_in("flags", 0, 63);
      EvfsFile *fh = (EvfsFile *)s_cp; int r = evfs_open_ex(p, &fh, flags, "romm");
      if(flags & ~EVFS_READ) VK_ENSURE("read-only: write-capable open is refused", r < 0 && !fh);
      else if(n >= 0 && s_n[t].type == FILE_TYPE_REGULAR_FILE) { VK_ENSURE("a file opens", r == EVFS_OK && fh); x->fh = fh; x->n = t; x->pos = 0; }
      else VK_ENSURE("only files open", r < 0 && !fh);
      VK_ENSURE("read-only: delete, rename and mkdir are refused", evfs_delete_ex(p, "romm") < 0 && evfs_rename_ex(p, "/q", "romm") < 0 && evfs_make_dir_ex("/q", "romm") < 0);
      continue;
    }
    Node *m = &s_n[x->n]; s_mem_faults = fault_ok;
    switch(vk_in("op", 0, 7)) {
    case 0: case 1: case 2: {
      size_t n = vk_in("n", 0, 300), ask = vk_in("huge", 0, 9) ? n : SIZE_MAX - vk_in("hn", 0, 3); uint8_t b[601]; memset(b, 0xEE, sizeof b);
      long left = m->size - x->pos, want = ask < (size_t)left ? (long)ask : left;
      ptrdiff_t r = evfs_file_read(x->fh, b, ask);
      if(s_mem_faults) VK_ENSURE("a read returns an error or at most the bytes there are", r <= want);
      else VK_ENSURE("a read returns all the bytes there are", r == want);
      for(long k = 0; k < r; k++) VK_ENSURE("exactly the recorded bytes", b[k] == data_at(x->n, x->pos + k));
      for(long k = want; k < 601; k++) VK_ENSURE("nothing written past the data read", b[k] == 0xEE);
      if(r > 0) x->pos += r;
      break; }
    case 3: case 4: {
      evfs_off_t off = vk_in("so", 0, 2) ? vk_in("soff", -100, 600) : (evfs_off_t)vk_in("sbig", INT32_MIN, INT32_MAX); int org = vk_in("org", 1, 3);
      long t = org == EVFS_SEEK_TO ? off : org == EVFS_SEEK_REL ? x->pos + (long)off : m->size - (long)off;
      if(t < 0) t = 0; if(t > m->size) t = m->size;
      VK_ENSURE("seek succeeds", evfs_file_seek(x->fh, off, org) == EVFS_OK); x->pos = t; break; }
    case 5: VK_ENSURE("read-only: write and truncate are refused", evfs_file_write(x->fh, "x", 1) < 0 && evfs_file_truncate(x->fh, 0) < 0); break;
    case 6: { uint8_t *a = 0; int r = evfs_file_ctrl(x->fh, EVFS_CMD_GET_RSRC_ADDR, &a);
      VK_ENSURE("resource address", s_rsrc ? r == EVFS_OK && a == s_cp + m->doff : r < 0); break; }
    case 7: if(vk_in("close", 0, 2) == 0) { VK_ENSURE("close succeeds", evfs_file_close(x->fh) == EVFS_OK); x->fh = 0; } break;
    }
    s_mem_faults = 0;
    for(int k = 0; k < 3; k++) if(h[k].fh) {
      VK_ENSURE("size", evfs_file_size(h[k].fh) == s_n[h[k].n].size);
      VK_ENSURE("position", evfs_file_tell(h[k].fh) == h[k].pos);
      VK_ENSURE("end of file exactly at the end", evfs_file_eof(h[k].fh) == (h[k].pos >= s_n[h[k].n].size));
    }
    VK_ENSURE("image bytes are never modified", !memcmp(s_cp, s_img, s_len) && s_writes == 0);
  }
  if(vk_in("lsall", 0, 1)) { check_dir(-1, dots); for(int i = 0; i < s_nn; i++) if(s_n[i].type == FILE_TYPE_DIRECTORY) check_dir(i, dots); }
  for(int k = 0; k < 3; k++) if(h[k].fh) VK_ENSURE("close succeeds", evfs_file_close(h[k].fh) == EVFS_OK);
  evfs_unregister(evfs_find_vfs("romm"));
  if(!s_rsrc) VK_ENSURE("the image is closed once on unregister", s_closes == 1);
  VK_ENSURE("nothing is leaked", __sanitizer_get_current_allocated_bytes() == heap0);
}

void h_romfs_damage(void) {
  if(s_first) { evfs_init(); s_first = 0; }
  s_rsrc = vk_in("rsrc", 0, 1); s_mem_faults = 0;
  gen_image();
  bool sup = false;
  for(int k = vk_in("damage", 0, 4); k > 0; k--) {
    long h = s_nn && vk_in("dk", 0, 3) ? s_n[vk_in("dn", 0, s_nn - 1)].hoff : vk_in("dany", 0, s_len - 1) & ~15L;
    long at = h + vk_in("do", 0, 31); if(at >= s_len) continue;
    if(vk_in("ptr", 0, 2) == 0 && h + 8 <= s_len) be32(s_img + h + 4 * vk_in("w", 0, 1), (s_nn ? s_n[vk_in("tgt", 0, s_nn - 1)].hoff : 64) | vk_in("md", 0, 15));
    else if(vk_in("hi", 0, 3) == 0) s_img[h] = vk_in("dv", 0, 255);
    else s_img[at] = vk_in("dv", 0, 255);
    if(vk_in("fix", 0, 3)) { long hl = strnlen((char *)s_img + h + 16, 100); if(hl < 80) { hl = 16 + ((hl + 16) & ~15L); if(h + hl <= s_len) fix_sum(s_img + h, hl, 12); } }
    sup |= h < 512;
  }
  if(vk_in("trunc", 0, 2) == 0) { s_len -= vk_in("cut", 0, s_len > 600 ? 600 : s_len - 1); if(vk_in("fixsz", 0, 1) && s_len >= 16) be32(s_img + 8, s_len); sup = true; }
  if(sup && vk_in("fixsup", 0, 3) && s_len >= 16) fix_sum(s_img, s_len < 512 ? s_len : 512, 12);
  use_copy();
  size_t heap0 = __sanitizer_get_current_allocated_bytes();
  /* independent superblock check */
  uint32_t sum = 0; long n = s_len < 512 ? s_len & ~3L : 512; for(long i = 0; i < n; i += 4) sum += rd32(s_img + i);
  bool valid = s_len >= 18 && !memcmp(s_img, "-rom1fs-", 8) && rd32(s_img + 8) <= (uint32_t)s_len && sum == 0;
  int st = mount_rom();
  VK_ENSURE("an image with a bad superblock is rejected", valid || st != EVFS_OK);
  if(s_len >= 512) VK_ENSURE("an image with a valid superblock mounts", !valid || st == EVFS_OK);
  if(st == EVFS_OK) {
    for(int i = 0; i < s_nn; i++) {
      EvfsFile *fh; EvfsDir *dh;
      if(evfs_open_ex(s_n[i].path, &fh, EVFS_READ, "romm") == EVFS_OK) {
        uint8_t *b = malloc(2000); long sz = evfs_file_size(fh);
        VK_ENSURE("a file lies inside the image", sz >= 0 && sz <= s_len);
        ptrdiff_t r = evfs_file_read(fh, b, 2000); VK_ENSURE("reads stay within the file", r == (sz < 2000 ? sz : 2000));
        free(b); evfs_file_close(fh);
      }
      if(evfs_open_dir_ex(s_n[i].path, &dh, "romm") == EVFS_OK) {
        EvfsInfo inf; for(int k = 0; k < 60 && evfs_dir_read(dh, &inf) == EVFS_OK; k++) VK_ENSURE("listed names are terminated", strlen(inf.name) < EVFS_ROMFS_MAX_NAME_LEN);
        evfs_dir_close(dh);
      }
    }
    evfs_unregister(evfs_find_vfs("romm"));
  }
  VK_ENSURE("nothing is leaked", __sanitizer_get_current_allocated_bytes() == heap0);
}
