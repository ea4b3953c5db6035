/* C22: the hash map is a finite map. The representation invariant below is assumed for an arbitrary
 * table, one real operation is executed, and its effect on the map and the invariant are proved:
 * every history of operations then keeps both. */
#define VK_GHOST_ALLOC
#include "common.h"
#ifndef EXT
#define EXT 0
#endif
#ifndef VK_NATIVE
/* allocator model: a cleared block of the requested size, or none */
static void *k_calloc(size_t n, size_t s); static void k_free(void *p);
#undef calloc
#undef free
static void *k_memset(void *p, int c, size_t n);
#if EXT
#define memset k_memset
#endif
#define calloc k_calloc
#define free k_free
#endif
#include "src/util/dhash.c"
#undef memset

#ifndef NB
#define NB 5               /* buckets; the modulus arithmetic of the real table sizes is decided apart */
#endif
#ifndef NK
#define NK (NB + 1)              /* distinct keys */
#endif
typedef struct { dhKey key; dhIKey ikey; uint16_t probe_count: PROBE_COUNT_BITS; uint16_t deleted: 1; uintptr_t v; } Bkt;
_Static_assert(sizeof(Bkt) == BUCKET_SIZE(8) && offsetof(Bkt, v) == offsetof(dhBucketEntry, value_obj), "bucket layout");
static dhash H; static int C;                    /* C: the context object */
static dhIKey g_h[NK];                           /* the user's hash function: any */
#ifdef SEP
/* the buckets as separate objects: dh__get_entry_unsafe is replaced by its contract */
static Bkt e0, e1, e2, e3, e4;
#define AT(i) (*((i) == 0 ? &e0 : (i) == 1 ? &e1 : (i) == 2 ? &e2 : (i) == 3 ? &e3 : &e4))
#else
#define AT(i) tab[i]
#endif
static Bkt tab[NB];
dhBucketEntry *C_get_entry(dhash *hash, dhBucketIndex b) { VK_ENSURE("buckets are addressed inside the table", hash == &H && b >= 0 && b < NB); return (dhBucketEntry *)&AT(b); }
dhIKey C_hash_int(dhIKey k) { return k; }        /* mixing an arbitrary hash gives an arbitrary hash */
static dhBucketIndex g_home, g_pos;
#define HOME_OF(k) ((k) < NB ? (dhBucketIndex)(k) : (dhBucketIndex)(k) - NB)
dhBucketIndex C_next(dhash *hash, dhBucketIndex b) { VK_ENSURE("the next bucket of a bucket of this table is wanted", hash == &H && b >= 0 && b < NB); return b + 1 < NB ? b + 1 : 0; }
/* contracts of the callees, with the bucket as a constant of the analysed case */
dhBucketIndex C_home(dhash *hash, dhIKey k) { VK_ENSURE("the probe starts at the key's own bucket", HOME_OF(k) == g_home); return g_home; }
dhBucketIndex C_find(dhash *hash, dhKey key, dhBucketEntry **e) { VK_ENSURE("the key is searched", hash == &H && key.data == (void *)1); *e = g_pos < 0 ? NULL : (dhBucketEntry *)&AT(g_pos); return g_pos; }
bool C_grow(dhash *hash, dhBucketIndex n) { VK_ENSURE("the table grows only at its load limit", false); return false; }

static dhKey mk(int k) { return (dhKey){(void *)(uintptr_t)(k + 1), 4}; }
static int id(dhKey k) { return (int)(uintptr_t)k.data - 1; }
static dhIKey k_gen(dhKey k) { int i = id(k); VK_ENSURE("only keys of the caller are hashed", i >= 0 && i < NK); return g_h[i]; }
static bool k_eq(dhKey a, dhKey b, void *c) { VK_ENSURE("the context is handed to the callbacks", c == &C); return a.data == b.data; }
static int d_n, d_k; static uintptr_t d_v;
static void k_destroy(dhKey k, void *v, void *c) { VK_ENSURE("the context is handed to the callbacks", c == &C); d_n++; d_k = id(k); d_v = *(uintptr_t *)v; }
static int rp_n, rp_k, rp_ok; static uintptr_t rp_o, rp_w;
static bool k_replace(dhKey k, void *o, void *n, void *c) { VK_ENSURE("the context is handed to the callbacks", c == &C); rp_n++; rp_k = id(k); rp_o = *(uintptr_t *)o; rp_w = *(uintptr_t *)n; return rp_ok; }

#ifndef VK_NATIVE
static Bkt pool[47]; static int a_n, f_n; static bool a_oom; static size_t a_size; static void *f_p;
static void *k_calloc(size_t n, size_t s) { VK_ENSURE("one table is allocated", a_n == 0); if(VK_IN_BOOL("oom")) { a_oom = true; return NULL; } VK_ENSURE("the table size is sane", n == 1 && s <= sizeof pool); a_n++; a_size = s; memset(pool, 0, sizeof pool); return pool; }
static void k_free(void *p) { VK_ENSURE("a table is freed once", f_n == 0); f_n++; f_p = p; }
static int home(int k) { return g_h[k] < NB ? g_h[k] : g_h[k] - NB; }
/* the representation invariant */
static bool inv(void) {
  int used = 0; bool ok = true; unsigned seen = 0;
  for(int b = 0; b < NB; b++) {
    Bkt *e = &AT(b), *n = &AT((b + 1) % NB);
    ok &= !e->deleted && n->probe_count <= e->probe_count + 1;                /* Robin Hood order, no gap before a displaced entry */
    if(!e->probe_count) continue;
    used++; int k = id(e->key);
    if(k < 0 || k >= NK) { ok = false; continue; }
    ok &= e->key.length == 4 && e->ikey == g_h[k] && e->probe_count <= NB && !(seen >> k & 1);
    int p = home(k) + e->probe_count - 1; ok &= (p < NB ? p : p - NB) == b;   /* the probe count is the distance from the initial bucket */
    seen |= 1u << k;
  }
  return ok && used == H.used_buckets && used < NB && H.num_buckets == NB && H.prime_ix == 0 && H.value_size == 8;
}
/* the abstract map */
static bool has(int k, uintptr_t *v) { bool f = false; for(int b = 0; b < NB; b++) if(AT(b).probe_count && id(AT(b).key) == k) { f = true; *v = AT(b).v; } return f; }
static void any_table(void) {
  for(int k = 0; k < NK; k++) { g_h[k] = VK_IN_RANGE("h", 0, 2 * NB - 1); }
  H = (dhash){.num_buckets = NB, .prime_ix = 0, .value_size = 8, .ctx = &C, .destroy_item = k_destroy, .gen_hash = k_gen, .is_equal = k_eq, .replace_item = VK_IN_BOOL("repl") ? k_replace : NULL};
  H.static_buckets = VK_IN_BOOL("static");
#ifdef SEP
  H.buckets = &e0;
#else
  H.buckets = tab;
#endif
  for(int b = 0; b < NB; b++) { Bkt *e = &AT(b); e->probe_count = VK_IN_RANGE("pc", 0, NB); e->deleted = 0; e->key = mk(VK_IN_RANGE("k", 0, NK - 1)); e->ikey = g_h[id(e->key)]; e->v = VK_IN_ULONG("v"); }
  H.used_buckets = VK_IN_RANGE("used", 0, NB - 1);
  VK_REQUIRE(inv());
#ifdef HOME
  VK_REQUIRE(HOME_OF(g_h[0]) == HOME); g_home = HOME;
#endif
  rp_ok = VK_IN_BOOL("rp_ok");
}
/* wlog the operation's key is key 0: the hash of every key is arbitrary */
void h_lookup(void) {
  any_table(); uintptr_t want, got = 7; void *ip = &got; bool h = has(0, &want);
  int op = VK_IN_RANGE("op", 0, 2); bool r = op == 0 ? dh_lookup(&H, mk(0), &got) : op == 1 ? dh_exists(&H, mk(0)) : dh_lookup_in_place(&H, mk(0), &ip);
  VK_ENSURE("a lookup finds a key exactly when it is in the map", r == h);
  if(op == 0) VK_ENSURE("the stored value is returned", got == (h ? want : 7));
  if(op == 2) VK_ENSURE("the place of the stored value is returned", h ? ip && *(uintptr_t *)ip == want : ip == NULL);
  VK_ENSURE("a lookup changes nothing", inv() && d_n == 0 && rp_n == 0);
  VK_REACH("lookup end");
}
void h_insert(void) {
  any_table(); uintptr_t want, v = VK_IN_ULONG("nv"), ov, nv; bool h = has(0, &want); int k2 = VK_IN_RANGE("k2", 1, NK - 1); bool h2 = has(k2, &ov); int u = H.used_buckets;
  VK_REQUIRE(H.used_buckets < NB * 15 / 16);
  uintptr_t arg = v; bool r = dh_insert(&H, mk(0), &arg);
  VK_ENSURE("the caller's value is not changed", arg == v);
  bool no = h && H.replace_item && !rp_ok;
  VK_ENSURE("an insertion fails only when the replacement is refused", r == !no);
  VK_ENSURE("the invariant is kept", inv());
  bool n0 = has(0, &nv); VK_ENSURE("the key is in the map with its new value", n0 && nv == (no ? want : v));
  uintptr_t n2; bool hh = has(k2, &n2); VK_ENSURE("no other key is added, lost or changed", hh == h2 && (!hh || n2 == ov));
  VK_ENSURE("the number of items is exact", H.used_buckets == u + !h);
  VK_ENSURE("exactly the replaced item is destroyed", h && !no ? d_n == 1 && d_k == 0 && d_v == want : d_n == 0);
  VK_ENSURE("a replacement is announced once", h && H.replace_item ? rp_n == 1 && rp_k == 0 && rp_o == want && rp_w == v : rp_n == 0);
  VK_REACH("insert end");
}
void h_remove(void) {
  any_table(); uintptr_t want, got = 7, ov, nv; bool h = has(0, &want); int k2 = VK_IN_RANGE("k2", 1, NK - 1); bool h2 = has(k2, &ov); int u = H.used_buckets;
#ifdef POS
  VK_REQUIRE(POS < 0 ? !h : h && AT(POS).probe_count && id(AT(POS).key) == 0); g_pos = POS;
#endif
  bool out = VK_IN_BOOL("out"), r = out ? dh_remove(&H, mk(0), &got) : dh_delete(&H, mk(0));
  VK_ENSURE("a removal succeeds exactly when the key was in the map", r == h);
  VK_ENSURE("the invariant is kept", inv());
  VK_ENSURE("the key is gone", !has(0, &nv));
  uintptr_t n2; bool hh = has(k2, &n2); VK_ENSURE("no other key is added, lost or changed", hh == h2 && (!hh || n2 == ov));
  VK_ENSURE("the number of items is exact", H.used_buckets == u - h);
  if(out) VK_ENSURE("the removed value is handed over, not destroyed", d_n == 0 && got == (h ? want : 7)); else VK_ENSURE("exactly the removed item is destroyed", h ? d_n == 1 && d_k == 0 && d_v == want : d_n == 0);
  VK_REACH("remove end");
}

/* iteration, foreach and free visit each used bucket once */
static int v_n; static unsigned v_seen; static int v_stop;
static bool k_visit(dhKey k, void *v, void *c) { VK_ENSURE("the context is handed to the callbacks", c == &C); int i = id(k); uintptr_t w; VK_ENSURE("each item is visited once with its value", i >= 0 && i < NK && !(v_seen >> i & 1) && has(i, &w) && *(uintptr_t *)v == w); v_seen |= 1u << i; v_n++; return v_n != v_stop; }
static void k_destroy_all(dhKey k, void *v, void *c) { k_visit(k, v, c); }
void h_iter(void) {
  any_table(); dhIter it; dhKey k; void *v; dh_iter_init(&H, &it); int n = 0;
  while(n <= NB && dh_iter_next(&it, &k, &v)) { n++; k_visit(k, v, &C); VK_ENSURE("the whole key is given", k.length == 4); }
  VK_ENSURE("every item is visited", v_n == H.used_buckets); VK_ENSURE("the end stays the end", !dh_iter_next(&it, &k, &v) && !dh_iter_next(&it, &k, &v));
  v_n = 0; v_seen = 0; v_stop = VK_IN_RANGE("stop", 1, NB + 1); dh_foreach(&H, k_visit, &C);
  VK_ENSURE("every item is visited until the visitor stops", v_n == (v_stop < H.used_buckets ? v_stop : H.used_buckets));
  VK_ENSURE("iteration changes nothing", inv() && d_n == 0); VK_ENSURE("the number of items is reported", dh_num_items(&H) == (size_t)v_n || v_n == v_stop);
  VK_REACH("iter end");
}
void h_free(void) {
  any_table(); H.destroy_item = k_destroy_all; v_stop = -1;
  H.static_buckets = true; int u = H.used_buckets; dh_free(&H);
  VK_ENSURE("every item is destroyed once", v_n == u); VK_ENSURE("the hash is empty", H.buckets == NULL && H.num_buckets == 0);
  dh_free(&H); VK_ENSURE("freeing twice does nothing", v_n == u);
  VK_REACH("free end");
}
void h_free_heap(void) {
  H = (dhash){.num_buckets = 0, .value_size = 8, .ctx = &C, .destroy_item = k_destroy, .gen_hash = k_gen, .is_equal = k_eq}; H.static_buckets = VK_IN_BOOL("static"); H.buckets = pool;
  dh_free(&H); VK_ENSURE("exactly the bucket array of the hash itself is freed", f_n == !H.static_buckets && (!f_n || f_p == pool) && d_n == 0 && !H.buckets); VK_REACH("free_heap end");
}
/* the load limit */
static int gr_n, in_n; static bool gr_ok, in_ok; static void *in_v; static dhKey in_k; static dhBucketIndex gr_b;
bool C_grow2(dhash *hash, dhBucketIndex n) { VK_ENSURE("this hash grows", hash == &H && in_n == 0); gr_n++; gr_b = n; return gr_ok; }
bool C_insert2(dhash *hash, dhKey k, void *v) { VK_ENSURE("this hash takes the item", hash == &H); in_n++; in_k = k; in_v = v; return in_ok; }
void h_insert_limit(void) {
  H.num_buckets = VK_IN_RANGE("nb", NB, INT_MAX); H.used_buckets = VK_IN_RANGE("used", 0, INT_MAX); gr_ok = VK_IN_BOOL("g"); in_ok = VK_IN_BOOL("i"); uintptr_t v;
  bool r = dh_insert(&H, mk(1), &v), full = H.used_buckets >= (uint64_t)H.num_buckets * 15 / 16;
  VK_ENSURE("the table grows exactly at its load limit", gr_n == full);
  VK_ENSURE("an item is inserted unless the table had to grow and could not", in_n == (!full || gr_ok) && r == (in_n && in_ok));
  if(in_n) VK_ENSURE("the item is the caller's", in_k.data == mk(1).data && in_k.length == 4 && in_v == &v);
  VK_REACH("insert_limit end");
}
void h_reserve(void) {
  H.num_buckets = VK_IN_RANGE("nb", NB, 1 << 26); H.used_buckets = VK_IN_RANGE("used", 0, 1 << 26); size_t cap = (uint64_t)H.num_buckets * 15 / 16; VK_REQUIRE((size_t)H.used_buckets <= cap); size_t add = VK_IN_RANGE("add", 0, 1 << 26);
  gr_ok = VK_IN_BOOL("g"); H.static_buckets = VK_IN_BOOL("static"); VK_ENSURE("capacity", dh_cur_capacity(&H) == cap);
  bool r = dh_reserve_capacity(&H, add), enough = H.used_buckets + add <= cap;
  VK_ENSURE("the table grows exactly when it must and can", gr_n == (!enough && !H.static_buckets));
  VK_ENSURE("success means that the capacity is there", r == (enough || (gr_n && gr_ok)));
  if(gr_n) VK_ENSURE("the new size holds all items", MAX_LOAD_FACTOR((uint64_t)gr_b) >= H.used_buckets + add);
  VK_REACH("reserve end");
}
/* growing: a fresh table of the next size takes every item once */
static int gi_n, gh_n; static unsigned gi_seen; static size_t gh_max; static bool gh_ok; static void *o_bk;
bool C_insert_ex(dhash *hash, dhKey k, void *v, dhIKey ik) {
  VK_ENSURE("items move to the new table", hash == &H && H.buckets && H.buckets != o_bk && H.num_buckets == 11 && H.prime_ix == 0); int i = id(k); uintptr_t w;
  VK_ENSURE("each item moves once with its key, hash and value", i >= 0 && i < NK && !(gi_seen >> i & 1) && has(i, &w) && *(uintptr_t *)v == w && k.length == 4 && ik == g_h[i]);
  gi_seen |= 1u << i; gi_n++; H.used_buckets++; return true; }
static bool k_grow(size_t m, void *c) { VK_ENSURE("the context is handed to the callbacks", c == &C); gh_n++; gh_max = m; return gh_ok; }
void h_grow(void) {
  any_table(); o_bk = H.buckets; int u = H.used_buckets;
  H.grow_hash = VK_IN_BOOL("gh") ? k_grow : NULL; gh_ok = VK_IN_BOOL("ghok"); H.max_storage = VK_IN_BOOL("lim") ? VK_IN_RANGE("max", 1, 400) : 0;
  bool r = dh__grow(&H, VK_IN_RANGE("nb", 0, 11));
  bool must_fail = H.static_buckets || H.max_storage && H.max_storage / sizeof(Bkt) < 11 || H.grow_hash && !gh_ok;
  VK_ENSURE("growing fails exactly when it is not allowed or memory runs out", r == !(must_fail || a_oom));
  if(r) { VK_ENSURE("every item moves", gi_n == u && H.used_buckets == u); VK_ENSURE("the old table is freed", f_n == 1 && f_p == o_bk && H.buckets == pool && a_n == 1 && a_size == 11 * sizeof(Bkt)); VK_ENSURE("the table has the next size", H.num_buckets == 11 && H.prime_ix == 0); if(H.grow_hash) VK_ENSURE("the owner is told the capacity", gh_n == 1 && gh_max == 10);
    VK_ENSURE("the settings are kept", H.value_size == 8 && H.ctx == &C && H.destroy_item == k_destroy && H.gen_hash == k_gen && H.is_equal == k_eq && !H.static_buckets); }
  else VK_ENSURE("a failed growth leaves the table as it was", H.buckets == o_bk && H.num_buckets == NB && H.used_buckets == u && f_n == 0 && a_n == 0 && gi_n == 0);
  VK_REACH("grow end");
}
void h_fresh(void) {
  H = (dhash){.value_size = VK_IN_RANGE("vs", 0, 24), .num_buckets = 3}; size_t n = VK_IN_ULONG("n"), m = n < 11 ? 11 : n, bs = 24 + (H.value_size + 7) / 8 * 8; 
  bool big = m > SIZE_MAX / bs; VK_REQUIRE(big || m * bs <= sizeof pool); bool r = dh__alloc_buckets(&H, n);
  VK_ENSURE("allocation fails only without memory or when the size overflows", r == !(a_oom || big));
  if(r) VK_ENSURE("a table of the wanted number of buckets is allocated", (size_t)H.num_buckets == m && H.buckets == pool && a_size == m * bs);
  else VK_ENSURE("a failed allocation changes nothing", H.num_buckets == 3 && !H.buckets && a_n == 0);
  VK_REACH("fresh end");
}
void h_address(void) {
  static char base[1 << 20]; H.buckets = base; H.value_size = VK_IN_RANGE("vs", 0, 64); dhBucketIndex b = VK_IN_RANGE("b", 0, 4000);
  VK_ENSURE("buckets lie one after another", (char *)dh__get_entry_unsafe(&H, b) == base + b * (24 + (H.value_size + 7) / 8 * 8)); VK_REACH("address end");
}
/* the modulus arithmetic of every table size */
void h_modulus(void) {
  dhBucketIndex last = 0;
  for(int i = 0; i < PRIME_LIST_LEN; i++) {
    H.prime_ix = i; dhBucketIndex p = get_prime(i); VK_ENSURE("table sizes increase", p > last && p >= 11); last = p; H.num_buckets = p;
    dhBucketIndex b = VK_IN_RANGE("b", 0, INT_MAX); VK_REQUIRE(b < p); dhBucketIndex q = next_bucket(&H, b); VK_ENSURE("the next bucket follows and wraps", q == (b + 1 == p ? 0 : b + 1));
  }
  VK_ENSURE("get_prime saturates", get_prime(PRIME_LIST_LEN) == last); VK_REACH("modulus end");
}
void h_probe(void) {
  dhIKey k = VK_IN_UINT("k");
#define PT(i, p) VK_ENSURE("the initial bucket is the hash modulo the table size", s_prime_modulus[i] == p && dh__pm_##i(k) == (dhBucketIndex)(k % p) && s_prime_modulus_funcs[i] == dh__pm_##i);
  PRIME_LIST_16(PT) PRIME_LIST(PT)
  H.prime_ix = 0; H.num_buckets = 11; VK_ENSURE("the function of the table size is used", dh__initial_probe(&H, k) == (dhBucketIndex)(k % 11));
  VK_REACH("probe end");
}
static Bkt ext[32]; static size_t m_n; static int m_c = 1;
static void *k_memset(void *p, int c, size_t n) { VK_ENSURE("the external storage is cleared", p == ext); m_c = c; m_n = n; return p; }
void h_init(void) { dhConfig c = {.init_buckets = VK_IN_RANGE("ib", 0, 30), .value_size = 8, .max_storage = VK_IN_RANGE("ms", 0, (int)sizeof ext), .destroy_item = VK_IN_BOOL("d") ? k_destroy : NULL, .gen_hash = VK_IN_BOOL("g") ? k_gen : NULL, .is_equal = VK_IN_BOOL("e") ? k_eq : NULL, .replace_item = k_replace, .grow_hash = VK_IN_BOOL("gh") ? k_grow : NULL};
  bool ex = EXT; if(ex) c.ext_storage = ext; gh_ok = VK_IN_BOOL("ghok");
  size_t want = c.init_buckets <= 11 ? 11 : c.init_buckets <= 29 ? 29 : 47, bs = sizeof(Bkt); bool ok = c.destroy_item && c.gen_hash && c.is_equal;
  if(ex) ok = ok && c.max_storage / bs >= 11; else ok = ok && (c.max_storage == 0 || c.max_storage / bs >= want) && (!c.grow_hash || gh_ok);
  bool r = dh_init(&H, &c, &C); VK_ENSURE("initialisation succeeds exactly when the configuration allows and memory suffices", r == (ok && !a_oom));
  if(r) {
    VK_ENSURE("the table starts empty with the configuration", H.used_buckets == 0 && H.value_size == c.value_size && H.max_storage == c.max_storage && H.ctx == &C && H.destroy_item == k_destroy && H.gen_hash == k_gen && H.is_equal == k_eq && H.replace_item == k_replace && H.grow_hash == c.grow_hash);
    if(ex) VK_ENSURE("external storage is used within its size", H.buckets == ext && H.static_buckets && H.num_buckets == (c.max_storage / bs >= 29 ? 29 : 11) && H.prime_ix == (H.num_buckets == 29) && a_n == 0);
    else VK_ENSURE("buckets are allocated", H.buckets == pool && !H.static_buckets && (size_t)H.num_buckets == want && H.prime_ix == (want == 47) + (want >= 29) && a_n == 1 && a_size == want * bs);
    if(ex) VK_ENSURE("every bucket is empty", m_c == 0 && m_n >= H.num_buckets * bs && m_n <= c.max_storage);
  } else VK_ENSURE("nothing is allocated on failure", a_n == 0);
  VK_ENSURE("missing arguments are rejected", !dh_init(NULL, &c, &C) && !dh_init(&H, NULL, &C));
  VK_REACH("init end");
}
#else   /* native: histories on the real map, real sizes, against a reference */
#define RK 400
static bool r_in[RK]; static uint8_t r_v[RK][24]; static dhIKey r_h[RK]; static size_t vs; static int w_n, w_k; static uint8_t w_v[24]; static bool w_rp, w_gr; static int w_rpn;
static void w_destroy(dhKey k, void *v, void *c) { VK_ENSURE("the context is handed to the callbacks", c == &C); w_n++; w_k = id(k); memcpy(w_v, v, vs); VK_ENSURE("only items of the map are destroyed, with their value", w_k >= 0 && w_k < RK && r_in[w_k] && !memcmp(r_v[w_k], v, vs)); }
static dhIKey w_gen(dhKey k) { return r_h[id(k)]; }
static bool w_replace(dhKey k, void *o, void *n, void *c) { w_rpn++; return w_rp; }
static bool w_grow(size_t m, void *c) { return w_gr; }
static int w_cnt; static bool w_seen[RK];
static bool w_visit(dhKey k, void *v, void *c) { int i = id(k); VK_ENSURE("each item is visited once with its value", i >= 0 && i < RK && r_in[i] && !w_seen[i] && !memcmp(v, r_v[i], vs)); w_seen[i] = true; w_cnt++; return true; }
void h_hist(void) {
  static uint8_t *ext; ext = NULL; int nk = vk_in("few", 0, 1) ? vk_in("nk", 1, 14) : vk_in("nk2", 1, RK), hk = vk_in("hk", 0, 3); vs = vk_in("vs", 1, 24);
  for(int k = 0; k < nk; k++) { r_in[k] = false; r_h[k] = hk == 0 ? 7 : hk == 1 ? vk_in("h", 0, 3) : hk == 2 ? k : (uint32_t)vk_in("h", 0, INT_MAX); }
  dhConfig c = {.init_buckets = vk_in("ib", 0, 100), .value_size = vs, .destroy_item = w_destroy, .gen_hash = w_gen, .is_equal = k_eq, .replace_item = vk_in("rp", 0, 1) ? w_replace : NULL, .grow_hash = vk_in("gr", 0, 1) ? w_grow : NULL};
  if(vk_in("ext", 0, 3) == 0) { c.max_storage = vk_in("ms", 0, 4000); ext = malloc(c.max_storage + 1); c.ext_storage = ext; } else if(vk_in("lim", 0, 3) == 0) c.max_storage = vk_in("ms", 0, 9000);
  w_gr = true; bool ok = dh_init(&H, &c, &C); size_t bs = BUCKET_SIZE(vs), n = 0; if(ext) VK_ENSURE("a large enough buffer is accepted", ok == (c.max_storage / bs >= 11));
  if(ok) {
    int ops = vk_in("ops", 0, 3) ? vk_in("n1", 0, 60) : vk_in("n2", 0, 3000), bias = vk_in("bias", 1, 9);
    for(int o = 0; o < ops; o++) {
      int k = vk_in("k", 0, nk - 1); uint8_t v[24], w[24]; for(size_t i = 0; i < sizeof v; i++) v[i] = w[i] = vk_in("v", 0, 255); w_n = w_rpn = 0; w_rp = vk_in("rpok", 0, 3) > 0; w_gr = vk_in("grok", 0, 4) > 0;
      int op = vk_in("op", 0, 11);
      if(op <= 6) {
        if(vk_in("b", 0, 9) < bias) {
          bool full = n >= dh_cur_capacity(&H), had = r_in[k]; bool r = dh_insert(&H, mk(k), w); VK_ENSURE("the caller's value is not changed", !memcmp(v, w, sizeof v));
          if(!r) VK_ENSURE("an insertion fails only at the limit or when the replacement is refused", w_n == 0 && (full || had && c.replace_item && !w_rp));
          else { VK_ENSURE("exactly the replaced item is destroyed", w_n == had && (!had || w_k == k)); VK_ENSURE("a refused replacement is not made", !(had && c.replace_item && !w_rp)); if(!had) n++; r_in[k] = true; memcpy(r_v[k], v, vs); }
        } else {
          bool had = r_in[k], out = vk_in("out", 0, 1); bool r = dh_remove(&H, mk(k), out ? w : NULL); VK_ENSURE("a removal succeeds exactly when the key was in the map", r == had);
          VK_ENSURE("removed items are handed over or destroyed", w_n == (had && !out)); if(had && out) VK_ENSURE("the removed value is handed over", !memcmp(w, r_v[k], vs)); if(had) n--; r_in[k] = false;
        }
      } else if(op <= 8) { bool r = dh_lookup(&H, mk(k), w); VK_ENSURE("a lookup finds a key exactly when it is in the map", r == r_in[k]); VK_ENSURE("the stored value is returned", !memcmp(w, r ? r_v[k] : v, vs) && !memcmp(w + vs, v + vs, sizeof v - vs)); }
      else if(op == 9) { void *p = v; bool r = dh_lookup_in_place(&H, mk(k), &p); VK_ENSURE("a lookup finds a key exactly when it is in the map", r == r_in[k] && (r ? !memcmp(p, r_v[k], vs) : !p)); if(r && vk_in("upd", 0, 1)) { memcpy(p, v, vs); memcpy(r_v[k], v, vs); } }
      else if(op == 10) { memset(w_seen, 0, sizeof w_seen); w_cnt = 0; dhIter it; dhKey key; void *p; if(vk_in("it", 0, 1)) { dh_iter_init(&H, &it); while(dh_iter_next(&it, &key, &p)) w_visit(key, p, &C); VK_ENSURE("the end stays the end", !dh_iter_next(&it, &key, &p)); } else dh_foreach(&H, w_visit, &C); VK_ENSURE("every item is visited", (size_t)w_cnt == n); }
      else if(vk_in("res", 0, 9) == 0) { size_t add = vk_in("add", 0, 60); if(dh_reserve_capacity(&H, add)) VK_ENSURE("success means that the capacity is there", dh_cur_capacity(&H) >= n + add); }
      VK_ENSURE("the number of items is exact", dh_num_items(&H) == n);
      VK_ENSURE("probe counts stay within the table", dh_max_probe_count(&H) <= H.num_buckets);
    }
    for(int k = 0; k < nk; k++) { uint8_t w[24]; bool r = dh_lookup(&H, mk(k), w); VK_ENSURE("the map holds exactly the reference's items", r == r_in[k] && (!r || !memcmp(w, r_v[k], vs))); }
    w_n = 0; dh_free(&H); VK_ENSURE("every item is destroyed once", (size_t)w_n == n);
  }
  free(ext);
}
#endif
