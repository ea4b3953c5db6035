/* A recording base filesystem: every method logs its call and answers with free results. */
enum { B_NONE, B_OPEN, B_STAT, B_DELETE, B_RENAME, B_MKDIR, B_OPENDIR, B_GETCWD, B_SETCWD, B_CTRL, B_ROOT,
       B_FCTRL, B_CLOSE, B_READ, B_WRITE, B_TRUNC, B_SYNC, B_SIZE, B_SEEK, B_TELL, B_EOF, B_DCLOSE, B_DREAD, B_DREWIND };
static int b_n, b_id, b_i; static const void *b_self, *b_p, *b_q; static long b_a; static size_t b_sz;
static long b_ret; static bool b_bad;                     /* free result; a base that opens without methods */
static uint8_t b_type; static long b_size, b_mtime; static const char *b_name;
static void b_log(int id, const void *self, const void *p, const void *q, long a, size_t sz, int i) { b_n++; b_id = id; b_self = self; b_p = p; b_q = q; b_a = a; b_sz = sz; b_i = i; }
#ifndef B_PATH      /* called with every path handed to the base, at call time */
#define B_PATH(k, p)
#endif
static void b_info(EvfsInfo *i) { memset(i, 0, sizeof *i); i->type = b_type; i->size = (evfs_off_t)b_size; i->mtime = b_mtime; i->name = (char *)b_name; }
static int bf_ctrl(EvfsFile *f, int c, void *a) { b_log(B_FCTRL, f, a, 0, 0, 0, c); return (int)b_ret; }
static int bf_close(EvfsFile *f) { b_log(B_CLOSE, f, 0, 0, 0, 0, 0); return (int)b_ret; }
static ptrdiff_t bf_read(EvfsFile *f, void *b, size_t n) { b_log(B_READ, f, b, 0, 0, n, 0); return b_ret; }
static ptrdiff_t bf_write(EvfsFile *f, const void *b, size_t n) { b_log(B_WRITE, f, b, 0, 0, n, 0); return b_ret; }
static int bf_trunc(EvfsFile *f, evfs_off_t n) { b_log(B_TRUNC, f, 0, 0, n, 0, 0); return (int)b_ret; }
static int bf_sync(EvfsFile *f) { b_log(B_SYNC, f, 0, 0, 0, 0, 0); return (int)b_ret; }
static evfs_off_t bf_size(EvfsFile *f) { b_log(B_SIZE, f, 0, 0, 0, 0, 0); return (evfs_off_t)b_ret; }
static int bf_seek(EvfsFile *f, evfs_off_t o, EvfsSeekDir w) { b_log(B_SEEK, f, 0, 0, o, 0, w); return (int)b_ret; }
static evfs_off_t bf_tell(EvfsFile *f) { b_log(B_TELL, f, 0, 0, 0, 0, 0); return (evfs_off_t)b_ret; }
static bool bf_eof(EvfsFile *f) { b_log(B_EOF, f, 0, 0, 0, 0, 0); return b_ret & 1; }
static int bd_close(EvfsDir *d) { b_log(B_DCLOSE, d, 0, 0, 0, 0, 0); return (int)b_ret; }
static int bd_read(EvfsDir *d, EvfsInfo *i) { b_log(B_DREAD, d, i, 0, 0, 0, 0); b_info(i); return (int)b_ret; }
static int bd_rewind(EvfsDir *d) { b_log(B_DREWIND, d, 0, 0, 0, 0, 0); return (int)b_ret; }
static const EvfsFileMethods BFM = { bf_ctrl, bf_close, bf_read, bf_write, bf_trunc, bf_sync, bf_size, bf_seek, bf_tell, bf_eof };
static const EvfsDirMethods BDM = { bd_close, bd_read, bd_rewind };
typedef struct { EvfsFile base; long pad[2]; } BFile;
typedef struct { EvfsDir base; long pad[2]; } BDir;
static int bm_open(Evfs *v, const char *p, EvfsFile *f, int fl) { B_PATH(0, p); memset(f, 0x5a, sizeof(BFile)); b_log(B_OPEN, v, p, f, 0, 0, fl); f->methods = b_bad || (int)b_ret != EVFS_OK ? NULL : &BFM; return (int)b_ret; }
static int bm_stat(Evfs *v, const char *p, EvfsInfo *i) { B_PATH(0, p); b_log(B_STAT, v, p, i, 0, 0, 0); b_info(i); return (int)b_ret; }
static int bm_delete(Evfs *v, const char *p) { B_PATH(0, p); b_log(B_DELETE, v, p, 0, 0, 0, 0); return (int)b_ret; }
static int bm_rename(Evfs *v, const char *p, const char *q) { B_PATH(0, p); B_PATH(1, q); b_log(B_RENAME, v, p, q, 0, 0, 0); return (int)b_ret; }
static int bm_mkdir(Evfs *v, const char *p) { B_PATH(0, p); b_log(B_MKDIR, v, p, 0, 0, 0, 0); return (int)b_ret; }
static int bm_opendir(Evfs *v, const char *p, EvfsDir *d) { B_PATH(0, p); memset(d, 0x5a, sizeof(BDir)); b_log(B_OPENDIR, v, p, d, 0, 0, 0); d->methods = b_bad || (int)b_ret != EVFS_OK ? NULL : &BDM; return (int)b_ret; }
static int bm_getcwd(Evfs *v, StringRange *r) { b_log(B_GETCWD, v, r, 0, 0, 0, 0); return (int)b_ret; }
static int bm_setcwd(Evfs *v, const char *p) { B_PATH(0, p); b_log(B_SETCWD, v, p, 0, 0, 0, 0); return (int)b_ret; }
static int bm_ctrl(Evfs *v, int c, void *a) { b_log(B_CTRL, v, a, 0, 0, 0, c); return (int)b_ret; }
#ifndef B_OWN_ROOT
static bool bm_root(Evfs *v, const char *p, StringRange *r) { b_log(B_ROOT, v, p, r, 0, 0, 0); r->start = p; r->end = p + 1; return b_ret & 1; }
#endif
static Evfs BV;
static void base_setup(void) {
  memset(&BV, 0, sizeof BV); BV.vfs_name = "base"; BV.vfs_file_size = sizeof(BFile); BV.vfs_dir_size = sizeof(BDir);
  BV.m_open = bm_open; BV.m_stat = bm_stat; BV.m_delete = bm_delete; BV.m_rename = bm_rename; BV.m_make_dir = bm_mkdir; BV.m_open_dir = bm_opendir;
  BV.m_get_cur_dir = bm_getcwd; BV.m_set_cur_dir = bm_setcwd; BV.m_vfs_ctrl = bm_ctrl; BV.m_path_root_component = bm_root;
  b_n = 0; b_id = 0; b_self = b_p = b_q = 0; b_a = 0; b_sz = 0; b_i = 0;
  b_ret = VK_IN_BOOL("bok") ? 0 : VK_IN_RANGE("bret", INT_MIN, INT_MAX); b_bad = VK_IN_BOOL("bbad");
  b_type = VK_IN_U8("btype"); b_size = VK_IN_RANGE("bsize", INT_MIN, INT_MAX); b_mtime = VK_IN_RANGE("bmtime", 0, INT_MAX); b_name = "n";
}
static bool info_is(const EvfsInfo *i) { return i->type == b_type && i->size == (evfs_off_t)b_size && i->mtime == b_mtime && i->name == b_name; }
#define ONCE(id) (b_n == 1 && b_id == (id))

/* every file method of the wrapper is the same method of the base file, once, with the same arguments and result */
static void check_file(EvfsFile *fh, EvfsFile *base) {
  const EvfsFileMethods *m = fh->methods; static char buf[4]; b_n = 0; int r = (int)b_ret;
  size_t n = VK_IN_ULONG("n"); evfs_off_t off = VK_IN_RANGE("off", INT32_MIN, INT32_MAX); int k = VK_IN_RANGE("k", INT_MIN, INT_MAX);
  int op = VK_IN_RANGE("fop", 0, 9);
  switch(op) {
    case 0: VK_ENSURE("file control is passed through", m->m_ctrl(fh, k, buf) == r && ONCE(B_FCTRL) && b_p == buf && b_i == k); break;
    case 1: VK_ENSURE("close is passed through", m->m_close(fh) == r && ONCE(B_CLOSE));
            VK_ENSURE("a handle is disabled exactly when it was closed", (fh->methods == NULL) == (r == EVFS_OK)); break;
    case 2: VK_ENSURE("read is passed through", m->m_read(fh, buf, n) == b_ret && ONCE(B_READ) && b_p == buf && b_sz == n); break;
    case 3: VK_ENSURE("write is passed through", m->m_write(fh, buf, n) == b_ret && ONCE(B_WRITE) && b_p == buf && b_sz == n); break;
    case 4: VK_ENSURE("truncate is passed through", m->m_truncate(fh, off) == r && ONCE(B_TRUNC) && b_a == off); break;
    case 5: VK_ENSURE("sync is passed through", m->m_sync(fh) == r && ONCE(B_SYNC)); break;
    case 6: VK_ENSURE("size is passed through", m->m_size(fh) == (evfs_off_t)b_ret && ONCE(B_SIZE)); break;
    case 7: VK_ENSURE("seek is passed through", m->m_seek(fh, off, (EvfsSeekDir)k) == r && ONCE(B_SEEK) && b_a == off && b_i == k); break;
    case 8: VK_ENSURE("tell is passed through", m->m_tell(fh) == (evfs_off_t)b_ret && ONCE(B_TELL)); break;
    default: VK_ENSURE("eof is passed through", m->m_eof(fh) == (b_ret & 1) && ONCE(B_EOF)); break;
  }
  VK_ENSURE("the base handle is used", b_self == base);
  if(op != 1) VK_ENSURE("the handle stays usable", fh->methods == m);
  VK_ENSURE("the base handle is left alone", base->methods == &BFM);
}
static void check_dir(EvfsDir *dh, EvfsDir *base) {
  const EvfsDirMethods *m = dh->methods; b_n = 0; int r = (int)b_ret; EvfsInfo i; memset(&i, 0x11, sizeof i);
  switch(VK_IN_RANGE("dop", 0, 2)) {
    case 0: VK_ENSURE("directory close is passed through", m->m_close(dh) == r && ONCE(B_DCLOSE));
            VK_ENSURE("a directory is disabled exactly when it was closed", (dh->methods == NULL) == (r == EVFS_OK)); break;
    case 1: VK_ENSURE("directory read is passed through", m->m_read(dh, &i) == r && ONCE(B_DREAD) && info_is(&i)); break;
    default: VK_ENSURE("directory rewind is passed through", m->m_rewind(dh) == r && ONCE(B_DREWIND)); break;
  }
  VK_ENSURE("the base directory is used", b_self == base && base->methods == &BDM);
}
