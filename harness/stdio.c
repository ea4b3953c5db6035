/* C20, C21, C26: contracts of the stdio backend over a model of the host functions. */
#define VK_HAVE_EVFS_C
#include "common.h"
#include <sys/stat.h>
#include <unistd.h>
#include <dirent.h>
#include <errno.h>

/* ---- host model ---- */
static int g_mut, g_calls, g_open, g_closed;     /* mutating calls, all calls, streams opened and closed */
static bool f_exists, f_created, f_truncated, f_read, f_write, f_append, f_fail; static int f_errno; static int g_errno;
static bool f_sfail, f_any, f_ofail[3]; static int g_nopen;   /* every host call can fail on its own */
static long f_pos, f_size; static const char *g_path, *g_path2;
static long g_newpos = -1; static int g_ret; static void *g_buf; static size_t g_n; static size_t g_count; static bool g_ferr; static long g_trunc; static int g_flushes, g_flush_ret;
#ifdef VK_NATIVE
static char s_stream[4];
#define STREAM ((FILE *)s_stream)
#else
static char s_stream[4];
#define STREAM ((FILE *)s_stream)
#endif
static FILE *m_fopen(const char *path, const char *mode) {
  g_calls++; g_path = path;
  bool plus = false, x = false; char k = mode[0];
  VK_ENSURE("mode is r, w or a", k == 'r' || k == 'w' || k == 'a');
  for(int i = 1; i < 5 && mode[i]; i++) { plus |= mode[i] == '+'; x |= mode[i] == 'x'; VK_ENSURE("mode string is terminated", i < 4); }
  if(k != 'r') g_mut++; else if(plus) g_mut++;
  f_fail = f_ofail[g_nopen < 2 ? g_nopen : 2]; g_nopen++;
  if(f_fail) { f_any = true; g_errno = f_errno; return NULL; }
  if(k == 'r' && !f_exists) { g_errno = ENOENT; return NULL; }
  if(k == 'w' && x && f_exists) { g_errno = EEXIST; return NULL; }
  if(!f_exists) { f_created = true; f_exists = true; }
  else if(k == 'w') f_truncated = true;
  f_read = k == 'r' || plus; f_write = k != 'r' || plus; f_append = k == 'a';
  g_open++;
  return STREAM;
}
static int m_fclose(FILE *f) { VK_ENSURE("stream is open", f == STREAM); g_calls++; g_closed++; return g_ret; }
static size_t m_fread(void *b, size_t s, size_t n, FILE *f) { VK_ENSURE("stream", f == STREAM); g_calls++; g_buf = b; g_n = s * n; return s ? g_count / s : 0; }
static size_t m_fwrite(const void *b, size_t s, size_t n, FILE *f) { VK_ENSURE("stream", f == STREAM); g_calls++; g_mut++; g_buf = (void *)b; g_n = s * n; return s ? g_count / s : 0; }
static int m_ferror(FILE *f) { return g_ferr; }
static void m_clearerr(FILE *f) { g_ferr = false; }
static int m_fflush(FILE *f) { VK_ENSURE("stream", f == STREAM); g_flushes++; if(g_flush_ret) g_errno = EIO; return g_flush_ret; }
static int m_fileno(FILE *f) { VK_ENSURE("stream", f == STREAM); return 5; }
static int m_ftruncate(int fd, off_t n) { VK_ENSURE("descriptor of the stream, flushed before", fd == 5 && g_flushes > 0); g_mut++; g_trunc = n; if(g_ret) g_errno = f_errno; return g_ret; }
static int m_fstat(int fd, struct stat *s) { VK_ENSURE("descriptor of the stream", fd == 5); memset(s, 0, sizeof *s); s->st_size = f_size; return 0; }
static int m_fseek(FILE *f, long off, int wh) { VK_ENSURE("stream", f == STREAM); g_calls++;
  g_newpos = wh == SEEK_SET ? off : wh == SEEK_CUR ? f_pos + off : f_size + off; if(g_ret == 0) f_pos = g_newpos; return g_ret; }
static long m_ftell(FILE *f) { VK_ENSURE("stream", f == STREAM); return f_pos; }
static int g_feof; static int m_feof(FILE *f) { return g_feof; }
static unsigned s_mode; static long s_mtime;
static int m_stat(const char *p, struct stat *s) { g_path = p; g_calls++;
  if(!f_exists || f_sfail) { g_errno = f_exists ? f_errno : f_errno ? f_errno : ENOENT; return -1; }
  memset(s, 0, sizeof *s); s->st_mode = s_mode; s->st_size = f_size; s->st_mtime = s_mtime; return 0; }
static int m_unary(const char *p) { g_path = p; g_mut++; g_calls++; if(g_ret) g_errno = f_errno; return g_ret; }
static int m_remove(const char *p) { return m_unary(p); }
static int m_mkdir(const char *p, mode_t m) { return m_unary(p); }
static int m_chdir(const char *p) { g_path = p; g_calls++; if(g_ret) g_errno = f_errno; return g_ret; }
static int m_rename(const char *a, const char *b) { g_path2 = b; return m_unary(a); }
static char s_dirp[4]; static int d_open, d_closed, d_rewound;
static DIR *m_opendir(const char *p) { g_path = p; if(g_ret) { g_errno = f_errno; return NULL; } d_open++; return (DIR *)s_dirp; }
static int m_closedir(DIR *d) { VK_ENSURE("directory is open", d == (DIR *)s_dirp); d_closed++; return 0; }
static struct dirent s_e0, s_e1, s_e2, s_e3; static int s_nent, s_at;   /* (separate objects: CBMC mishandles arrays of struct dirent) */
static struct dirent *ent(int i) { return i == 0 ? &s_e0 : i == 1 ? &s_e1 : i == 2 ? &s_e2 : &s_e3; }
static struct dirent *m_readdir(DIR *d) { VK_ENSURE("directory is open", d == (DIR *)s_dirp); return s_at < s_nent ? ent(s_at++) : NULL; }
static void m_rewinddir(DIR *d) { VK_ENSURE("directory is open", d == (DIR *)s_dirp); d_rewound++; s_at = 0; }
static char *m_getcwd(char *b, size_t n) { g_buf = b; g_n = n; if(g_ret) { g_errno = f_errno; return NULL; } return b; }
#undef errno
#define errno g_errno
#define fopen m_fopen
#define fclose m_fclose
#define fread m_fread
#define fwrite m_fwrite
#undef ferror
#define ferror m_ferror
#undef clearerr
#define clearerr m_clearerr
#define fflush m_fflush
#undef fileno
#define fileno m_fileno
#define ftruncate m_ftruncate
#define fstat m_fstat
#define fseek m_fseek
#define ftell m_ftell
#define fseeko m_fseek
#define ftello m_ftell
#undef feof
#define feof m_feof
#define stat(a, b) m_stat(a, b)
#define remove m_remove
#define unlink m_remove
#define rmdir m_remove
#define mkdir m_mkdir
#define chdir m_chdir
#define rename m_rename
#define opendir m_opendir
#define closedir m_closedir
#define readdir m_readdir
#define rewinddir m_rewinddir
#define getcwd m_getcwd
#include "src/stdio_fs.c"

static const int errs[][2] = {{EIO, EVFS_ERR_IO}, {ENOENT, EVFS_ERR_NO_FILE}, {EEXIST, EVFS_ERR_EXISTS}, {ENOTDIR, EVFS_ERR_NO_PATH}, {EISDIR, EVFS_ERR_IS_DIR},
  {ENOTEMPTY, EVFS_ERR_NOT_EMPTY}, {ERANGE, EVFS_ERR_OVERFLOW}, {EINVAL, EVFS_ERR_BAD_ARG}, {ENOSPC, EVFS_ERR_FS_FULL}, {ENOMEM, EVFS_ERR_ALLOC},
  {ENAMETOOLONG, EVFS_ERR_TOO_LONG}, {EACCES, EVFS_ERR_AUTH}};
static bool err_ok(int host, int r) {
  for(unsigned i = 0; i < COUNT_OF(errs); i++) if(errs[i][0] == host) return r == errs[i][1];
  return r < 0;
}
static StdioFile s_f; static StdioDir s_d; static bool s_ro;
static void setup(void) {
  g_mut = g_calls = g_open = g_closed = g_flushes = d_open = d_closed = d_rewound = s_at = s_nent = 0; g_path = g_path2 = NULL; g_newpos = -1; g_trunc = -1; g_buf = 0; g_n = 0; g_errno = VK_IN_RANGE("errno0", 0, 40);
  f_created = f_truncated = f_read = f_write = f_append = false;
  f_exists = VK_IN_BOOL("exists"); f_fail = f_any = false; g_nopen = 0; f_sfail = VK_IN_BOOL("sfail"); f_ofail[0] = VK_IN_BOOL("ofail0"); f_ofail[1] = VK_IN_BOOL("ofail1"); f_ofail[2] = VK_IN_BOOL("ofail2"); f_errno = VK_IN_RANGE("errno", 1, 133); f_pos = VK_IN_RANGE("pos", 0, INT32_MAX); f_size = VK_IN_RANGE("size", 0, INT32_MAX);
  g_ret = VK_IN_BOOL("ret") ? -1 : 0; g_flush_ret = VK_IN_BOOL("fret") ? -1 : 0; g_ferr = VK_IN_BOOL("ferr"); g_feof = VK_IN_BOOL("feof") ? 16 : 0;
  s_ro = VK_IN_BOOL("ro"); s_stdio_data.cfg_readonly = 0; s_stdio_data.cfg_no_dir_dots = 0;
  unsigned v = s_ro ? VK_IN_RANGE("rov", 1, 255) : 0; VK_ENSURE("read-only option", stdio__vfs_ctrl(&s_stdio_vfs, EVFS_CMD_SET_READONLY, &v) == EVFS_OK);
  s_f.base.methods = &s_stdio_methods; s_f.fs_data = &s_stdio_data; s_f.fp = STREAM;
  s_d.base.methods = &s_stdio_dir_methods; s_d.fs_data = &s_stdio_data; s_d.dp = (DIR *)s_dirp;
}
void h_st_open(void) {
  setup(); int fl = VK_IN_RANGE("flags", 0, 63); char path[6]; VK_ANY_TEXT("path", path); bool existed = f_exists;
  StdioFile f; int r = stdio__open(&s_stdio_vfs, path, (EvfsFile *)&f, fl);
  bool R = fl & EVFS_READ, W = fl & EVFS_WRITE, N = fl & EVFS_OPEN_OR_NEW, X = fl & EVFS_NO_EXIST, O = fl & EVFS_OVERWRITE, A = fl & EVFS_APPEND;
  VK_ENSURE("methods are set", f.base.methods == &s_stdio_methods);
  if(s_ro && (W || N || X || O || A)) { VK_ENSURE("read-only: write-capable open is refused, the host is not touched", r < 0 && g_calls == 0 && g_mut == 0); return; }
  if(s_ro) VK_ENSURE("read-only: nothing on the host is changed", !f_created && !f_truncated && (r != EVFS_OK || !f_write));
  VK_REQUIRE(!(A && (X || O)));   /* contradictory combinations are not specified */
  VK_ENSURE("a handle is kept exactly on success", g_open - g_closed == (r == EVFS_OK) && (r == EVFS_OK) == (f.fp != NULL));
  VK_ENSURE("the path is the caller's", g_path == path);
  if(r == EVFS_OK) {
    if(existed) VK_ENSURE("fail-if-exists opens never touch an existing file", !X);
    bool may_create = W && !R || N || X || O || A;
    if(!existed) VK_ENSURE("a missing file is created only when asked", may_create && f_created);
    VK_ENSURE("an existing file is truncated only when asked", f_truncated == (existed && (O || W && !R && !N && !A)));
    VK_ENSURE("append mode exactly when asked", f_append == A);
    if(W) VK_ENSURE("write access", f_write);
    if(R && (W || !(O || X || A))) VK_ENSURE("read access", f_read);
    if(!W && !O && !X && !A) VK_ENSURE("a read-only open cannot write", !f_write);
    VK_ENSURE("the handle belongs to this filesystem", f.fs_data == &s_stdio_data);
  } else {
    VK_ENSURE("an open only fails for a reason", f_any || X && existed || !existed && !(W && !R || N || X || O || A));
    VK_ENSURE("a failed open does not truncate", !f_truncated);
    VK_ENSURE("the host error is reported", err_ok(f_fail ? f_errno : X && existed ? EEXIST : ENOENT, r));
  }
  VK_REACH("stdio open end");
}
void h_st_rw(void) {
  setup(); static char b[4]; size_t n = VK_IN_ULONG("n"); VK_REQUIRE(n <= LONG_MAX); g_count = VK_IN_ULONG("count"); VK_REQUIRE(g_count <= n); bool ferr = g_ferr;
  bool wr = VK_IN_BOOL("wr");
  if(!wr) {
    ptrdiff_t r = stdio__file_read((EvfsFile *)&s_f, b, n);
    VK_ENSURE("one transfer of the caller's size into the caller's buffer", n == 0 || g_calls == 1 && g_buf == b && g_n == n);
    VK_ENSURE("the count of bytes read, or an error when nothing could be read because of one", n == 0 ? r == 0 : g_count ? r == (ptrdiff_t)g_count : ferr ? r < 0 : r == 0);
    VK_ENSURE("the host is not changed", g_mut == 0);
  } else {
    ptrdiff_t r = stdio__file_write((EvfsFile *)&s_f, b, n);
    if(s_ro) VK_ENSURE("read-only: write is refused, the host is not touched", r < 0 && g_calls == 0 && g_mut == 0);
    else { VK_ENSURE("one transfer of the caller's size from the caller's buffer", n == 0 || g_calls == 1 && g_buf == b && g_n == n);
      VK_ENSURE("the count of bytes written, or an error when nothing could be written", n == 0 ? r == 0 : g_count ? r == (ptrdiff_t)g_count : r < 0); }
  }
  VK_REACH("stdio rw end");
}
void h_st_pos(void) {
  setup(); evfs_off_t off = VK_IN_RANGE("off", INT32_MIN, INT32_MAX); int org = VK_IN_RANGE("org", 1, 3); long pos = f_pos, size = f_size;
  long t = org == EVFS_SEEK_TO ? off : org == EVFS_SEEK_REL ? pos + off : size - off; if(t < 0) t = 0; if(t > EVFS_OFF_MAX) t = EVFS_OFF_MAX;
  VK_ENSURE("tell", stdio__file_tell((EvfsFile *)&s_f) == pos);
  VK_ENSURE("size", stdio__file_size((EvfsFile *)&s_f) == size);
  VK_ENSURE("eof", stdio__file_eof((EvfsFile *)&s_f) == (g_feof != 0));
  int r = stdio__file_seek((EvfsFile *)&s_f, off, org);
  VK_ENSURE("the host position is the origin plus the offset, clamped at the start", g_newpos == t);
  VK_ENSURE("the host result is reported", (r == EVFS_OK) == (g_ret == 0) && (r == EVFS_OK || r < 0));
  VK_ENSURE("the host is not changed", g_mut == 0);
  VK_REACH("stdio pos end");
}
void h_st_misc(void) {   /* close, sync, truncate */
  setup(); evfs_off_t n = VK_IN_RANGE("tn", INT32_MIN, INT32_MAX);
  int r = stdio__file_truncate((EvfsFile *)&s_f, n);
  if(s_ro) VK_ENSURE("read-only: truncate is refused, the host is not touched", r < 0 && g_mut == 0);
  else if(g_flush_ret) VK_ENSURE("a failed flush is reported", r < 0);
  else { VK_ENSURE("the file is cut to the given size", g_trunc == n && g_mut == 1); VK_ENSURE("the host result is reported", g_ret ? err_ok(f_errno, r) : r == EVFS_OK); }
  int k = g_flushes; r = stdio__file_sync((EvfsFile *)&s_f);
  VK_ENSURE("sync flushes the stream and reports its result", g_flushes == k + 1 && (r == EVFS_OK) == (g_flush_ret == 0) && r <= 0);
  r = stdio__file_close((EvfsFile *)&s_f);
  VK_ENSURE("close closes the stream once and reports its result", g_closed == 1 && (r == EVFS_OK) == (g_ret == 0) && r <= 0 && s_f.fp == NULL);
  VK_REACH("stdio misc end");
}
void h_st_path(void) {   /* path operations */
  setup(); char a[6], b[6]; VK_ANY_TEXT("a", a); VK_ANY_TEXT("b", b); int op = VK_IN_RANGE("op", 0, 5); int r;
  if(op <= 2) {
    r = op == 0 ? stdio__delete(&s_stdio_vfs, a) : op == 1 ? stdio__rename(&s_stdio_vfs, a, b) : stdio__make_dir(&s_stdio_vfs, a);
    if(s_ro) VK_ENSURE("read-only: delete, rename and mkdir are refused, the host is not touched", r < 0 && g_mut == 0 && g_calls == 0);
    else VK_ENSURE("one host operation on the caller's paths, its result reported", g_mut == 1 && g_path == a && (op != 1 || g_path2 == b) && (g_ret ? err_ok(f_errno, r) : r == EVFS_OK));
  } else if(op == 3) {
    s_mode = VK_IN_UINT("mode"); s_mtime = VK_IN_RANGE("mtime", 0, INT32_MAX); EvfsInfo i; bool ok = f_exists && !f_sfail;
    r = stdio__stat(&s_stdio_vfs, a, &i);
    VK_ENSURE("stat result", ok ? r == EVFS_OK : err_ok(f_errno, r));
    if(ok) VK_ENSURE("size, time and type of the host file", i.size == f_size && i.mtime == s_mtime && !!(i.type & EVFS_FILE_DIR) == !!S_ISDIR(s_mode));
    VK_ENSURE("the host is not changed", g_mut == 0);
  } else if(op == 4) {
    r = stdio__set_cur_dir(&s_stdio_vfs, a);
    VK_ENSURE("one chdir, its result reported", g_path == a && g_calls == 1 && (g_ret ? err_ok(f_errno, r) : r == EVFS_OK));
  } else {
    char cd[8]; StringRange cr; range_init(&cr, cd, 8);
    r = stdio__get_cur_dir(&s_stdio_vfs, &cr);
    VK_ENSURE("the working directory is written inside the caller's range, its result reported", g_buf == cd && g_n <= 8 && g_n > 0 && (g_ret ? err_ok(f_errno, r) : r == EVFS_OK));
  }
  VK_REACH("stdio path end");
}
void h_st_dir(void) {
  setup(); StdioDir d; char a[6]; VK_ANY_TEXT("a", a);
  int r = stdio__open_dir(&s_stdio_vfs, a, (EvfsDir *)&d);
  VK_ENSURE("open_dir result", g_path == a && (g_ret ? err_ok(f_errno, r) && d.dp == NULL : r == EVFS_OK && d.dp == (DIR *)s_dirp && d.base.methods == &s_stdio_dir_methods));
  if(g_ret) return;
  s_nent = VK_IN_RANGE("nent", 0, 4); s_at = VK_IN_RANGE("at", 0, 4); VK_REQUIRE(s_at <= s_nent);
  int dot = VK_IN_RANGE("dot", 0, 4), dd = VK_IN_RANGE("dd", 0, 4); VK_REQUIRE(dot != dd);   /* a host directory lists "." and ".." at most once */
  for(int i = 0; i < 4; i++) { char *q = ent(i)->d_name; q[0] = i == dot || i == dd || i < 2 ? '.' : 'c'; q[1] = i == dd ? '.' : i == dot ? 0 : i == 0 ? 'a' : i == 1 ? '.' : 0; q[2] = i == 1 && i != dd ? 'b' : 0; q[3] = 0; ent(i)->d_type = VK_IN_U8("dt"); }
  unsigned v = VK_IN_BOOL("nodots") ? VK_IN_RANGE("ndv", 1, 255) : 0; stdio__vfs_ctrl(&s_stdio_vfs, EVFS_CMD_SET_NO_DIR_DOTS, &v);
  int want = s_at; while(v && want < s_nent && (want == dot || want == dd)) want++;
  EvfsInfo i; r = stdio__dir_read((EvfsDir *)&d, &i);
  if(want == s_nent) VK_ENSURE("the end of the host directory ends the listing", r == EVFS_DONE && i.name == NULL);
  else VK_ENSURE("the next host entry is reported (without dot entries when configured)", r == EVFS_OK && i.name == ent(want)->d_name && s_at == want + 1 && !!(i.type & EVFS_FILE_DIR) == (ent(want)->d_type == DT_DIR));
  VK_ENSURE("rewind", stdio__dir_rewind((EvfsDir *)&d) == EVFS_OK && d_rewound == 1);
  VK_ENSURE("close", stdio__dir_close((EvfsDir *)&d) == EVFS_OK && d_closed == 1);
  VK_ENSURE("the host is not changed", g_mut == 0);
  VK_REACH("stdio dir end");
}
