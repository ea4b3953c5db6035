/* Shared by all contract harnesses. */
#ifndef VK_COMMON_H
#define VK_COMMON_H
#include <time.h>
#include "vk.h"
#include "evfs.h"
#include "evfs_internal.h"

/* Diagnostics have no contract beyond "returns": stubbed for both readings. */
#ifndef VK_HAVE_EVFS_C
void evfs__err_printf(const char *fname, int line, const char *msg, ...) {}
void evfs__dbg_printf(const char *msg, ...) {}
#endif

/* Allocation with ghost accounting; either outcome of an allocation is possible. */
#ifdef VK_GHOST_ALLOC
#undef evfs_malloc
#undef evfs_free
#define evfs_malloc(b) vk_malloc(b)
#define evfs_free(p)   vk_free(p)
#ifndef VK_MAXBLK
#define VK_MAXBLK 4
#endif
static void *vk_blk[VK_MAXBLK]; static size_t vk_blk_size[VK_MAXBLK];
static int vk_allocs, vk_frees, vk_live, vk_oom;
static bool vk_oom_ok = true;
static void vk_alloc_reset(void) { vk_allocs = vk_frees = vk_live = vk_oom = 0; for(int i = 0; i < VK_MAXBLK; i++) vk_blk[i] = 0; }
typedef struct { EvfsFile base; long pad[3]; } vk_handle_t;
static void *vk_malloc(size_t n) {
#ifdef VK_NATIVE
  bool fail = vk_oom_ok && vk_in("oom", 0, 15) == 15;
#else
  bool fail = vk_oom_ok && VK_IN_BOOL("oom");
#endif
  if(fail) { vk_oom++; return NULL; }
#if defined VK_POOL && !defined VK_NATIVE
  /* fixed-size backing keeps the verifier's memory model small; sizes are checked against the ghost record */
  void *p;
  if(n == sizeof(vk_handle_t)) p = malloc(sizeof(vk_handle_t));
  else { VK_ASSUME(n <= VK_POOL); p = malloc(VK_POOL); }   /* the pool size is part of the stated bound */
  VK_ASSUME(p != NULL);
#else
  void *p = malloc(n);
  VK_ASSUME(p != NULL);
#endif
  vk_allocs++; vk_live++;
  for(int i = 0; i < VK_MAXBLK; i++) if(!vk_blk[i]) { vk_blk[i] = p; vk_blk_size[i] = n; return p; }
  return p;
}
static void vk_free(void *p) {
  if(!p) return;
  int k = -1;
  for(int i = 0; i < VK_MAXBLK; i++) if(vk_blk[i] == p) k = i;
  VK_ENSURE("only live allocations are freed, once", k >= 0);
  vk_blk[k] = 0; vk_frees++; vk_live--;
  free(p);
}
#endif

#ifndef VK_NATIVE
/* diagnostics output has no contract */
#undef fprintf
#undef vfprintf
#define fprintf(...) ((void)0)
#define vfprintf(...) ((void)0)
/* libc functions CBMC has no model for (trusted, from the C standard) */
size_t strspn(const char *s, const char *set) {
  size_t n = 0;
  for(; s[n]; n++) { size_t k = 0; while(set[k] && set[k] != s[n]) k++; if(!set[k]) break; }
  return n;
}
size_t strcspn(const char *s, const char *set) {
  size_t n = 0;
  for(; s[n]; n++) { size_t k = 0; while(set[k] && set[k] != s[n]) k++; if(set[k]) break; }
  return n;
}
void *memchr(const void *p, int c, size_t n) { for(size_t i = 0; i < n; i++) if(((const unsigned char *)p)[i] == (unsigned char)c) return (void *)((const unsigned char *)p + i); return NULL; }
int atexit(void (*f)(void)) { return 0; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while(n < m && s[n]) n++; return n; }
#endif

#define PATH_ALPHA "//\\..ab."

static inline bool vk_is_sep(char c) { return c == '/' || c == '\\'; }

/* contract of the default m_path_root_component: the maximal run of leading separators */
static bool vk_unix_root(Evfs *vfs, const char *path, StringRange *root) {
  size_t n = 0;
  while(vk_is_sep(path[n])) n++;
  root->start = path; root->end = path + n;
  return n > 0;
}

/* drive-letter flavour: "C:" is a relative root, "C:/" an absolute one */
static bool vk_dos_root(Evfs *vfs, const char *path, StringRange *root) {
  size_t n = 0; bool abs = false;
  if(path[0] == 'C' && path[1] == ':') n = 2;
  while(vk_is_sep(path[n])) { n++; abs = true; }
  root->start = path; root->end = path + n;
  return abs;
}
#endif
