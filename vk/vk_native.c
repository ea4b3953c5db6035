/* Native replay / seeded search driver for the contract harnesses. */
#define _GNU_SOURCE
#include <setjmp.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <limits.h>
#include <time.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>

void VK_ENTRY(void);

static jmp_buf s_skip;
static uint64_t s_rng;
static int s_dump, s_replay;
static FILE *s_dumpf;
static unsigned long s_accepted;

typedef struct { char name[64]; long val; int used; } In;
static In *s_ins; static size_t s_nins;

static void *s_blocks[4096]; static int s_nblocks;

static uint64_t rnd(void) {
  s_rng ^= s_rng << 13; s_rng ^= s_rng >> 7; s_rng ^= s_rng << 17;
  return s_rng * 0x2545F4914F6CDD1DULL;
}

void vk_require(int c) { if(!c) longjmp(s_skip, 1); }

void vk_fail(const char *lbl) {
  printf("VK-FAIL: %s\n", lbl);
  fflush(stdout);
  if(s_dumpf) fflush(s_dumpf);
  _exit(10);
}

static long pick(const char *name, long lo, long hi) {
  if(s_replay) {
    for(size_t i = 0; i < s_nins; i++)
      if(!s_ins[i].used && !strcmp(s_ins[i].name, name)) {
        s_ins[i].used = 1;
        long v = s_ins[i].val;
        if(v < lo || v > hi) { /* reinterpret narrower encodings */
          if(lo == 0 && hi == 255) v &= 0xff;
          else if(v < lo) v = lo; else v = hi;
        }
        return v;
      }
    return lo <= 0 && hi >= 0 ? 0 : lo;
  }
  uint64_t span = (uint64_t)hi - (uint64_t)lo;
  uint64_t r = rnd();
  if(span != UINT64_MAX && span <= 256) return lo + (long)(r % (span + 1));
  switch((r >> 56) % 8) {
  case 0: { long c[] = {lo, hi, 0, 1, -1, lo + 1, hi - 1}; long v = c[r % 7]; return v < lo ? lo : v > hi ? hi : v; }
  case 1: case 2: case 3: { long v = (long)(r % 16); return v < lo ? lo + v : v > hi ? hi : v; }
  case 4: { long v = (long)(r % 600); return v < lo ? lo + v : v > hi ? hi : v; }
  case 5: { long v = -(long)(r % 16); return v < lo ? lo : v > hi ? hi : v; }
  case 6: { int sh = (int)((r >> 8) % 63); long v = (long)(1ULL << sh) + (long)(r % 3) - 1; return v < lo ? lo : v > hi ? hi : v; }
  default: return span == UINT64_MAX ? (long)r : lo + (long)(r % (span + 1));
  }
}

long vk_in(const char *name, long lo, long hi) {
  long v = pick(name, lo, hi);
  if(s_dumpf) { fprintf(s_dumpf, "%s %ld\n", name, v); fflush(s_dumpf); }
  return v;
}

char vk_in_char(const char *name, const char *alpha) {
  long v;
  if(s_replay) v = pick(name, 0, 255);
  else {
    uint64_t r = rnd();
    size_t n = strlen(alpha);
    if(n && (r >> 60)) v = (unsigned char)alpha[(r >> 8) % n];
    else v = 1 + (long)((r >> 8) % 255);
  }
  if(s_dumpf) { fprintf(s_dumpf, "%s %ld\n", name, v); fflush(s_dumpf); }
  return (char)v;
}

void *vk_alloc(size_t n) {
  unsigned char *p = malloc(n ? n : 1);
  if(!p) vk_require(0);
  for(size_t i = 0; i < n; i++) p[i] = s_replay ? 0xA5 : (unsigned char)(rnd() >> 24);
  if(s_nblocks < 4096) s_blocks[s_nblocks++] = p;
  return p;
}

static void run_one(void) {
  s_nblocks = 0;
  if(!setjmp(s_skip)) { VK_ENTRY(); s_accepted++; }
  /* harness blocks are leaked on purpose in replay; freed in search */
  for(int i = 0; i < s_nblocks; i++) free(s_blocks[i]);
  s_nblocks = 0;
}

static uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; x ^= x >> 31; return x ? x : 1;
}

int main(int argc, char **argv) {
  setvbuf(stdout, NULL, _IOLBF, 0);
  if(argc >= 3 && !strcmp(argv[1], "replay")) {
    FILE *f = fopen(argv[2], "r"); if(!f) return 3;
    char nm[64]; long v; size_t cap = 0;
    while(fscanf(f, "%63s %ld", nm, &v) == 2) {
      if(nm[0] == '#') continue;
      if(s_nins == cap) { cap = cap ? cap * 2 : 256; s_ins = realloc(s_ins, cap * sizeof *s_ins); }
      strcpy(s_ins[s_nins].name, nm); s_ins[s_nins].val = v; s_ins[s_nins++].used = 0;
    }
    fclose(f);
    s_replay = 1;
    run_one();
    printf("VK-REPLAY-OK accepted=%lu\n", s_accepted);
    return 0;
  }
  if(argc >= 4 && !strcmp(argv[1], "one")) { /* one <seed> <dumpfile> */
    s_dumpf = fopen(argv[3], "w");
    s_rng = mix(strtoull(argv[2], NULL, 10));
    run_one();
    printf("VK-ONE-OK\n");
    return 0;
  }
  if(argc >= 6 && !strcmp(argv[1], "search")) { /* search <seed> <secs> <maxiter> <statefile> */
    uint64_t seed = strtoull(argv[2], NULL, 10); double secs = atof(argv[3]);
    uint64_t maxit = strtoull(argv[4], NULL, 10);
    int fd = open(argv[5], O_RDWR | O_CREAT | O_TRUNC, 0600);
    if(fd < 0 || ftruncate(fd, 8)) return 3;
    uint64_t *cur = mmap(NULL, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    struct timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0);
    uint64_t i;
    for(i = 0; i < maxit; i++) {
      uint64_t s = seed * 1000000007ULL + i;
      *cur = s; s_rng = mix(s);
      run_one();
      if((i & 63) == 0) {
        clock_gettime(CLOCK_MONOTONIC, &t);
        if((t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) / 1e9 > secs) break;
      }
    }
    printf("VK-SEARCH-OK iterations=%llu accepted=%lu\n", (unsigned long long)i, s_accepted);
    return 0;
  }
  return 3;
}
