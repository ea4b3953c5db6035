/* Reference model of a tar archive and a mock EvfsFile over a memory buffer (native evaluation). */
#ifndef TAR_MODEL_H
#define TAR_MODEL_H
#include "tar_common.h"

/* ---- in-memory file standing in for the archive file ---- */
typedef struct { EvfsFile base; const uint8_t *data; long len; long pos; } MemFile;
static int s_closes, s_writes;
static EvfsFileMethods s_mem_methods;
static int mem_ctrl(EvfsFile *f, int c, void *a) { return EVFS_ERR_NO_SUPPORT; }
static int mem_close(EvfsFile *f) { s_closes++; return EVFS_OK; }
static int s_mem_faults;   /* inject read and seek faults */
static ptrdiff_t mem_read(EvfsFile *f, void *buf, size_t size) {
  MemFile *m = (MemFile *)f;
  if(s_mem_faults && vk_in("fault", 0, 7) == 7) return EVFS_ERR_CORRUPTION;
  long n = m->len - m->pos; if(n < 0) n = 0; if(n > (long)size) n = size;
  if(s_mem_faults && n > 1 && vk_in("short", 0, 3) == 3) n = 1 + vk_in("shortn", 0, n - 1);
  memcpy(buf, m->data + (m->pos > m->len ? m->len : m->pos), n); m->pos += n; return n;
}
static ptrdiff_t mem_write(EvfsFile *f, const void *b, size_t s) { s_writes++; return EVFS_ERR; }
static int mem_trunc(EvfsFile *f, evfs_off_t s) { s_writes++; return EVFS_ERR; }
static int mem_sync(EvfsFile *f) { return EVFS_OK; }
static evfs_off_t mem_size(EvfsFile *f) { return ((MemFile *)f)->len; }
static int mem_seek(EvfsFile *f, evfs_off_t o, EvfsSeekDir d) {
  MemFile *m = (MemFile *)f;
  if(s_mem_faults && vk_in("sfault", 0, 15) == 15) return EVFS_ERR_BAD_ARG;
  long p = d == EVFS_SEEK_TO ? o : d == EVFS_SEEK_REL ? m->pos + o : m->len - o;
  if(p < 0) p = 0;
  m->pos = p; return EVFS_OK;
}
static evfs_off_t mem_tell(EvfsFile *f) { return ((MemFile *)f)->pos; }
static bool mem_eof(EvfsFile *f) { MemFile *m = (MemFile *)f; return m->pos >= m->len; }
static void mem_open(MemFile *m, const uint8_t *data, long len) {
  s_mem_methods = (EvfsFileMethods){mem_ctrl, mem_close, mem_read, mem_write, mem_trunc, mem_sync, mem_size, mem_seek, mem_tell, mem_eof};
  memset(m, 0, sizeof *m); m->base.methods = &s_mem_methods; m->data = data; m->len = len;
}

/* ---- archive generator ---- */
#define TM_MAX 8
typedef struct { char path[260]; char key[260]; char type; long size, hoff; uint8_t hdr[500]; } Member;
static Member s_mem[TM_MAX]; static int s_nmem;
static uint8_t s_ar[TM_MAX * 2600 + 4096]; static long s_arlen;
static uint8_t data_at(int m, long off) { return (uint8_t)(37 * m + off * 31 + (off >> 8) * 7 + 1); }

static void tar_checksum(TarHeader *h) {
  uint32_t sum = 0; uint8_t *raw = (uint8_t *)h;
  memset(h->checksum, ' ', 8);
  for(int k = 0; k < 512; k++) sum += raw[k];
  snprintf((char *)h->checksum, 8, "%06o", sum);
}
static int gen_len(const char *n, int max) {
  switch(vk_in(n, 0, 5)) { case 0: return max; case 1: return max - 1; case 2: return 1 + vk_in("lenr", 0, max - 1); default: return 1 + vk_in("lens", 0, 5); }
}
static void gen_archive(void) {
  s_nmem = vk_in("members", 0, TM_MAX); long at = 0;
  if(s_nmem == 0 && vk_in("nonempty", 0, 3)) s_nmem = 1;
  memset(s_ar, 0, sizeof s_ar);
  for(int i = 0; i < s_nmem; i++) {
    Member *m = &s_mem[i]; TarHeader *h = (TarHeader *)(s_ar + at);
    static const char types[] = "000005521x";
    m->type = types[vk_in("type", 0, 9)]; m->hoff = at;
    char name[101], pre[156]; int nl = gen_len("namelen", 100), pl = vk_in("haspre", 0, 2) ? 0 : gen_len("prelen", 155);
    if(m->type == '5' && nl < 2) nl = 2;
    for(int k = 0; k < nl; k++) name[k] = k == 0 ? 'A' + i : "abcdefgh./"[vk_in("c", 0, 9)];
    for(int k = 0; k < pl; k++) pre[k] = k == 0 ? 'p' : "pqrs/"[vk_in("p", 0, 4)];
    if(name[nl - 1] == '/') name[nl - 1] = 'z';
    if(pl && pre[pl - 1] == '/') pre[pl - 1] = 'y';
    if(m->type == '5') { if(nl > 1 && name[nl - 2] == '/') name[nl - 2] = 'w'; if(vk_in("slash", 0, 1)) name[nl - 1] = '/'; }
    name[nl] = 0; pre[pl] = 0;
    if(i && vk_in("dup", 0, 5) == 0) {   /* an archive can hold several members of the same name: the last one counts */
      TarHeader *o = (TarHeader *)s_mem[vk_in("dupof", 0, i - 1)].hdr;
      nl = strnlen((char *)o->file_name, 100); pl = strnlen((char *)o->file_prefix, 155);
      memcpy(name, o->file_name, nl); memcpy(pre, o->file_prefix, pl);
      if(m->type != '5' && nl > 1 && name[nl - 1] == '/') nl--;
      name[nl] = 0; pre[pl] = 0;
    }
    m->size = m->type == '0' || m->type == 'x' ? (vk_in("szk", 0, 2) ? vk_in("size", 0, 1500) : 512 * vk_in("blk", 0, 2)) : 0;
    memcpy(h->file_name, name, nl); memcpy(h->file_prefix, pre, pl);
    memcpy(h->mode, "0000644", 8); memcpy(h->uid, "0001750", 8); memcpy(h->gid, "0001750", 8);
    snprintf((char *)h->size, 12, "%011lo", m->size);
    snprintf((char *)h->mtime, 12, "%011lo", 01000000000L + vk_in("mtime", 0, 99999));
    h->type_flag = m->type; memcpy(h->magic, "ustar ", 6); memcpy(h->version, " ", 2);
    if(m->type == '2' || m->type == '1') memset(h->link_name, 'L', 1 + vk_in("ll", 0, 99));
    strcpy((char *)h->uname, "user"); strcpy((char *)h->gname, "grp");
    tar_checksum(h);
    memcpy(m->hdr, h, 500);
    sprintf(m->path, "%s%s%s", pre, pl ? "/" : "", name);
    strcpy(m->key, m->path);
    size_t l = strlen(m->key); if(m->type == '5' && m->key[l - 1] == '/') m->key[l - 1] = 0;
    at += 512;
    for(long k = 0; k < m->size; k++) s_ar[at + k] = data_at(i, k);
    at += (m->size + 511) / 512 * 512;
  }
  s_arlen = at + 512 * vk_in("marker", 0, 2);
}
/* independent parse of arbitrary bytes: is there a valid member header at off? */
static bool ref_header(const uint8_t *d, long len, long off, bool rsrc, long *size) {
  if(off < 0 || off + (rsrc ? 512 : 500) > len) return false;
  const uint8_t *h = d + off;
  if(memcmp(h + 257, "ustar  ", 8)) return false;
  uint32_t sum = 0;
  for(int k = 0; k < 500; k++) sum += k >= 148 && k < 156 ? ' ' : h[k];
  char f[14] = {0}; memcpy(f, h + 148, 9);
  if((uint32_t)strtol(f, NULL, 8) != sum) return false;
  memset(f, 0, sizeof f); memcpy(f, h + 124, 12);
  long s = strtol(f, NULL, 8);
  if(s < 0) return false;
  if(rsrc ? off + 512 + s > len : s > INT32_MAX - 1024 - off) return false;
  *size = s; return true;
}
#endif
