From 440a2cb5ed2a43fb7b414c183870f92e8835aba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:07 +0000
Subject: [PATCH 01/53] fix: range strings: keep writes to empty ranges in
 bounds and return documented truncation count

---
 src/util/range_strings.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index 2980afd..f0299fb 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -207,11 +207,14 @@ int range_copy_str(AppendRange *rng, const char *str, bool truncate) {
 
   if(!done) { // Truncated
     if(truncate) {
-      dest--;
-      *dest = '\0';
-      rval = -(rval-1);
+      if(dest > rng->start) {
+        dest--;
+        *dest = '\0';
+        rval--; // Last byte was replaced with NUL
+      }
+      rval = -rval - 1;
     } else {
-      if(rng->start)
+      if(rng->start < rng->end)
         *rng->start = '\0'; // Wipe partial string
       rval = -(rval + strlen(src)); // Add uncopied bytes
     }
@@ -321,7 +324,7 @@ int range_cat_str(AppendRange *rng, const char *str) {
   if(done) {
     rng->start = dest-1;
   } else { // Truncated
-    if(rng->start)
+    if(rng->start < rng->end)
       *rng->start = '\0'; // Wipe partial string
     rval = -(rval + strlen(src)); // Add uncopied bytes
   }
@@ -361,7 +364,7 @@ int range_cat_str_no_nul(AppendRange *rng, const char *str) {
   if(done) {
     rng->start = dest-1;
   } else { // Truncated
-    if(rng->start)
+    if(rng->start < rng->end)
       *rng->start = '\0'; // Wipe partial string
     rval = -(rval + strlen(src)); // Add uncopied bytes
   }
@@ -410,7 +413,7 @@ int range_cat_range(AppendRange *rng, StringRange *src_rng) {
   if(done) {
     rng->start = dest-1;
   } else { // Truncated
-    if(rng->start)
+    if(rng->start < rng->end)
       *rng->start = '\0'; // Wipe partial string
     rval = -(rval + strnlen(src, src_rng->end - src)); // Add uncopied bytes
   }
@@ -459,7 +462,7 @@ int range_cat_range_no_nul(AppendRange *rng, StringRange *src_rng) {
   if(done) {
     rng->start = dest;
   } else { // Truncated
-    if(rng->start)
+    if(rng->start < rng->end)
       *rng->start = '\0'; // Wipe partial string
     rval = -(rval + strnlen(src, src_rng->end - src)); // Add uncopied bytes
   }
@@ -801,6 +804,7 @@ Returns:
   Number of pad bytes written
 */
 int range_pad_right(StringRange *rng, char pad) {
+  if(range_size(rng) <= 0) return 0;
   size_t width = range_size(rng) - 1;
 
   size_t pad_num = 0;
@@ -877,7 +881,7 @@ void range_terminate(AppendRange *rng) {
   size_t maxlen = range_size(rng);
   size_t rlen = strnlen(rng->start, maxlen);
 
-  if(rlen == maxlen) { // No NUL found
+  if(maxlen > 0 && rlen == maxlen) { // No NUL found
     *(rng->end-1) = '\0';
   }
 }
-- 
2.43.0


From b772f9c018deae5391f6aae9ba180095ac003674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:07 +0000
Subject: [PATCH 02/53] fix: range_cat_str_no_nul drops the last appended
 character

---
 src/util/range_strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index f0299fb..44a6276 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -362,7 +362,7 @@ int range_cat_str_no_nul(AppendRange *rng, const char *str) {
   rval = src - str; // Number of bytes copied
 
   if(done) {
-    rng->start = dest-1;
+    rng->start = dest;
   } else { // Truncated
     if(rng->start < rng->end)
       *rng->start = '\0'; // Wipe partial string
-- 
2.43.0


From fc0be33c9a0c53b9fb7deb8ddfd587e2ca1e1987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:07 +0000
Subject: [PATCH 03/53] fix: range_cat_int formats INT32_MIN without signed
 overflow

---
 src/util/range_strings.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index 44a6276..59f54ff 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -560,12 +560,13 @@ Returns:
 */
 int range_cat_int(AppendRange *rng, int32_t n) {
   int s_chars = 0;
+  uint32_t mag = (uint32_t)n;
   if(n < 0) {
-    n = -n; // NOTE: Does not work with INT_MIN
+    mag = 0 - mag;
     s_chars = range_cat_char(rng, '-');
   }
 
-  int n_chars = range_cat_uint(rng, n);
+  int n_chars = range_cat_uint(rng, mag);
   if(n_chars < 0 && s_chars > 0)
     s_chars = -s_chars;
 
-- 
2.43.0


From 6f7624e93ad6610c4acd37d6d516cad206863b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:07 +0000
Subject: [PATCH 04/53] fix: range_token_limit reads past the limit and returns
 empty tokens after it

---
 src/util/range_strings.c | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index 59f54ff..4853ed2 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -1059,23 +1059,20 @@ bool range_token_limit(const char *str, const char *delim, StringRange *token, s
 
 
   // Skip leading delimiters
-  size_t consumed = strspn(str, delim);
+  size_t consumed = 0;
+  while(consumed < *limit && str[consumed] != '\0' && strchr(delim, str[consumed]))
+    consumed++;
+
   str += consumed;
-  if(*str == '\0') // No more tokens
+  if(consumed == *limit || *str == '\0') // No more tokens
     return false;
 
   // Get token length
-  size_t tok_len = strcspn(str, delim);
-  if(consumed + tok_len > *limit) {// Truncate token
-    if(consumed <= *limit)
-      tok_len = *limit - consumed;
-    else
-      tok_len = 0;
-  }
-  consumed += tok_len;
+  size_t tok_len = 0;
+  while(consumed + tok_len < *limit && str[tok_len] != '\0' && !strchr(delim, str[tok_len]))
+    tok_len++;
 
-  if(consumed > *limit)
-    consumed = *limit;
+  consumed += tok_len;
 
   *limit -= consumed;
 
-- 
2.43.0


From 4f6b798637f63732d87c4710a351fae2930c37af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:32 +0000
Subject: [PATCH 05/53] fix: path normalize treats names starting with '..' as
 a parent reference

---
 src/evfs_path.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index b36e66d..c11bd99 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -301,7 +301,7 @@ int evfs_vfs_path_normalize(Evfs *vfs, const char *path, StringRange *normalized
 
     // Skip '.' segments
     if(!(range_size(&token) == 1 && *token.start == '.')) {
-      if(!strncmp(token.start, "..", 2)) { // Token is '..', Remove previous segment
+      if(range_size(&token) == 2 && !strncmp(token.start, "..", 2)) { // Token is '..', Remove previous segment
         // Search back through mask for most recent kept segment and remove it
         // We preserve ".." segments if no preceding non-".." segment is found
         found_prev_dir = false;
@@ -423,7 +423,7 @@ static int path_normalize_long(Evfs *vfs, const char *path, AppendRange *normali
     // Add tokens except for '.'
     if(!(range_size(&token) == 1 && *token.start == '.')) {
       // Pop stack if token is '..' unless the stack is empty
-      if(!strncmp(token.start, "..", 2)) {
+      if(range_size(&token) == 2 && !strncmp(token.start, "..", 2)) {
         if(stack_head > preserved_parent_ref+1) {
           stack_head--;
         } else if(!is_absolute) { // Relative paths need leading ".." preserved
-- 
2.43.0


From 33a4ef7eb48de2ece48ddc094d76f33cbb558d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:32 +0000
Subject: [PATCH 06/53] fix: path normalize writes a NUL outside an empty
 output range

---
 src/evfs_path.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index c11bd99..82ae2ff 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -267,6 +267,8 @@ int evfs_vfs_path_normalize(Evfs *vfs, const char *path, StringRange *normalized
   Trailing slashes are removed
 */
 
+  if(range_size(normalized) <= 0) THROW(EVFS_ERR_OVERFLOW); // No room for the NUL
+
   AppendRange norm_r = *(AppendRange *)normalized; // Duplicate so we preserve original range
 
   unsigned seg_mask = 0; // Bitmask of path segments to retain
-- 
2.43.0


From cd9a3d50c23b80f3d5915c83c8b3652dbd1136a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:32 +0000
Subject: [PATCH 07/53] fix: path basename reads before the start of an empty
 path

---
 src/evfs_path.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index 82ae2ff..9950c0f 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -95,15 +95,12 @@ Returns:
 int evfs_path_basename(const char *path, StringRange *tail) {
   if(PTR_CHECK(path) || PTR_CHECK(tail)) return EVFS_ERR_BAD_ARG;
   const char *end = (char *)path + strlen(path);
-  const char *pos = end - 1;
+  const char *pos = end;
 
   // Look for rightmost delimiter
-  while(pos > path && !char_match(*pos, EVFS_PATH_SEPS)) // Skip basename
+  while(pos > path && !char_match(*(pos-1), EVFS_PATH_SEPS)) // Skip basename
     pos--;
 
-  if(char_match(*pos, EVFS_PATH_SEPS))
-    pos++;
-
   range_init(tail, pos, end-pos);
 
   return EVFS_OK;
-- 
2.43.0


From da4c7786c000c8726025319637920c37fb8d831c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:32 +0000
Subject: [PATCH 08/53] fix: path extname treats leading periods of a file name
 as an extension

---
 src/evfs_path.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index 9950c0f..52e857c 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -126,16 +126,19 @@ int evfs_path_extname(const char *path, StringRange *ext) {
   evfs_path_basename(path, ext);
   const char *pos = ext->end;
 
-  if(range_size(ext) > 0) {
-    // Scan back for first period
-    while(pos > ext->start) {
-      if(*pos == '.')
-        break;
-      pos--;
-    }
+  // Leading periods are part of the name
+  const char *name = ext->start;
+  while(name < ext->end && *name == '.')
+    name++;
+
+  // Scan back for first period
+  while(pos > name) {
+    if(*pos == '.')
+      break;
+    pos--;
   }
 
-  if(pos > ext->start) { // Extension found
+  if(pos > name) { // Extension found
     ext->start = pos;
   } else { // Return empty range
     ext->start = ext->end;
-- 
2.43.0


From d7ed72dc9c561f8859c0b17921402e7d116ae93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:32 +0000
Subject: [PATCH 09/53] fix: path join returns success for a joined path that
 does not fit with its NUL

---
 src/evfs_path.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index 52e857c..94bd7f5 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -193,26 +193,28 @@ int evfs_vfs_path_join(Evfs *vfs, StringRange *head, StringRange *tail, StringRa
 
   size_t head_len = range_strlen(head);
   size_t tail_len = range_strlen(tail);
+
+  // Join with the separator
+  // If head is empty no separator
+  // If head is only a root component we don't need to add an extra separator
+  StringRange root;
+  vfs->m_path_root_component(vfs, head->start, &root);
+  bool add_sep = head_len > 0 && head_len != (size_t)range_size(&root);
+
   // We need to fit in the joined string, possibly with a new separator
-  size_t joined_len = head_len + 1 + tail_len;
+  size_t joined_len = head_len + (add_sep ? 1 : 0) + tail_len;
 
 
 #ifndef ALLOW_LONG_PATHS
   if(ASSERT(joined_len < EVFS_MAX_PATH, "joined string too long")) return EVFS_ERR_OVERFLOW;
 #endif
 
-  if(ASSERT(joined_len <= (size_t)range_size(&joined_a), "joined string too long")) return EVFS_ERR_OVERFLOW;
+  if(ASSERT((ptrdiff_t)joined_len < range_size(&joined_a), "joined string too long")) return EVFS_ERR_OVERFLOW;
 
 
   range_cat_range(&joined_a, head);
 
-  // Join with the separator
-  // If head is empty no separator
-  // If head is only a root component we don't need to add an extra separator
-  StringRange root;
-  vfs->m_path_root_component(vfs, head->start, &root);
-
-  if(head_len > 0 && head_len != (size_t)range_size(&root))
+  if(add_sep)
     range_cat_char(&joined_a, EVFS_DIR_SEP);
 
   if(tail_len > 0)
-- 
2.43.0


From 636f70a9d38d42d1e2783493d19f3e68dbfd9478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:05 +0000
Subject: [PATCH 10/53] fix: get_cur_dir reports success with an empty path
 when the output range is too small

---
 src/littlefs_fs.c | 4 +++-
 src/romfs_fs.c    | 4 +++-
 src/shim_jail.c   | 4 +++-
 src/tar_fs.c      | 4 +++-
 src/tar_rsrc_fs.c | 4 +++-
 5 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index d84866a..a6fb106 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -461,7 +461,9 @@ static int littlefs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   LittlefsData *fs_data = (LittlefsData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
 
-  range_cat_str(&r, fs_data->cur_dir);
+  if(range_cat_str(&r, fs_data->cur_dir) < 0)
+    return EVFS_ERR_OVERFLOW;
+
   range_terminate(&r);
   return EVFS_OK;
 }
diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index 279cf7c..b1e87b1 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -430,7 +430,9 @@ static int romfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   RomfsData *fs_data = (RomfsData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
 
-  range_cat_str(&r, fs_data->cur_dir);
+  if(range_cat_str(&r, fs_data->cur_dir) < 0)
+    return EVFS_ERR_OVERFLOW;
+
   range_terminate(&r);
   return EVFS_OK;
 }
diff --git a/src/shim_jail.c b/src/shim_jail.c
index 70f3b2d..9bf867d 100644
--- a/src/shim_jail.c
+++ b/src/shim_jail.c
@@ -401,7 +401,9 @@ static int jail__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   JailData *fs_data = (JailData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
   
-  range_cat_str(&r, fs_data->cur_dir);
+  if(range_cat_str(&r, fs_data->cur_dir) < 0)
+    return EVFS_ERR_OVERFLOW;
+
   range_terminate(&r);
   return EVFS_OK;
 }
diff --git a/src/tar_fs.c b/src/tar_fs.c
index 9311e12..997027a 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -440,7 +440,9 @@ static int tarfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   TarfsData *fs_data = (TarfsData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
 
-  range_cat_str(&r, fs_data->cur_dir);
+  if(range_cat_str(&r, fs_data->cur_dir) < 0)
+    return EVFS_ERR_OVERFLOW;
+
   range_terminate(&r);
   return EVFS_OK;
 }
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index 15854db..d5cb825 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -461,7 +461,9 @@ static int tarfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   TarfsData *fs_data = (TarfsData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
 
-  range_cat_str(&r, fs_data->cur_dir);
+  if(range_cat_str(&r, fs_data->cur_dir) < 0)
+    return EVFS_ERR_OVERFLOW;
+
   range_terminate(&r);
   return EVFS_OK;
 }
-- 
2.43.0


From d3b5fa527b621aa83c09a2e719ae2f2184e86673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:21 +0000
Subject: [PATCH 11/53] fix: jail shim uses partial or unnormalized paths when
 path conversion fails

---
 src/shim_jail.c | 97 +++++++++++++++++++++----------------------------
 1 file changed, 41 insertions(+), 56 deletions(-)

diff --git a/src/shim_jail.c b/src/shim_jail.c
index 9bf867d..65030e0 100644
--- a/src/shim_jail.c
+++ b/src/shim_jail.c
@@ -81,17 +81,19 @@ typedef struct JailDir_s {
 
 
 // Convert a jailed path into a real path on the base VFS
-static void unjail_path(Evfs *vfs, const char *path, StringRange *real_path) {
+static int unjail_path(Evfs *vfs, const char *path, StringRange *real_path) {
   JailData *shim_data = (JailData *)vfs->fs_data;
 
   AppendRange real_r = *(AppendRange *)real_path;
 
   // Start with jail root
-  range_cat_str(&real_r, shim_data->jail_root);
-  range_cat_char(&real_r, EVFS_DIR_SEP);
+  if(range_cat_str(&real_r, shim_data->jail_root) < 0 || range_cat_char(&real_r, EVFS_DIR_SEP) < 0)
+    return EVFS_ERR_OVERFLOW;
 
   // Convert path to absolute within the jail subtree
-  evfs_vfs_path_absolute(vfs, path, (StringRange *)&real_r);
+  int status = evfs_vfs_path_absolute(vfs, path, (StringRange *)&real_r);
+  if(status != EVFS_OK)
+    return status;
 
 //  DPRINT("Unjail: '%.*s'", RANGE_FMT(real_path));
 
@@ -106,6 +108,7 @@ static void unjail_path(Evfs *vfs, const char *path, StringRange *real_path) {
   }
 
 //  DPRINT("\t\t'%.*s'", RANGE_FMT(real_path));
+  return EVFS_OK;
 }
 
 
@@ -276,9 +279,9 @@ static int jail__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
 
   LOCK();
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, path, &real_path_r);
-
-  int status = base_vfs->m_open(base_vfs, shim_data->tmp_path, fil->base_file, flags);
+  int status = unjail_path(vfs, path, &real_path_r);
+  if(status == EVFS_OK)
+    status = base_vfs->m_open(base_vfs, shim_data->tmp_path, fil->base_file, flags);
   UNLOCK();
   
   if(status == EVFS_OK) {
@@ -304,9 +307,9 @@ static int jail__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
 
   LOCK();
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, path, &real_path_r);
-
-  int status = base_vfs->m_stat(base_vfs, shim_data->tmp_path, info);
+  int status = unjail_path(vfs, path, &real_path_r);
+  if(status == EVFS_OK)
+    status = base_vfs->m_stat(base_vfs, shim_data->tmp_path, info);
   UNLOCK();
 
   return status;
@@ -320,9 +323,9 @@ static int jail__delete(Evfs *vfs, const char *path) {
 
   LOCK();
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, path, &real_path_r);
-
-  int status = base_vfs->m_delete(base_vfs, shim_data->tmp_path);
+  int status = unjail_path(vfs, path, &real_path_r);
+  if(status == EVFS_OK)
+    status = base_vfs->m_delete(base_vfs, shim_data->tmp_path);
   UNLOCK();
 
   return status;
@@ -335,13 +338,15 @@ static int jail__rename(Evfs *vfs, const char *old_path, const char *new_path) {
 
   LOCK();
   StringRange real_old_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, old_path, &real_old_path_r);
+  int status = unjail_path(vfs, old_path, &real_old_path_r);
 
   char real_new_path[EVFS_MAX_PATH];
   StringRange real_new_path_r = RANGE_FROM_ARRAY(real_new_path);
-  unjail_path(vfs, new_path, &real_new_path_r);
+  if(status == EVFS_OK)
+    status = unjail_path(vfs, new_path, &real_new_path_r);
 
-  int status = base_vfs->m_rename(base_vfs, shim_data->tmp_path, real_new_path);
+  if(status == EVFS_OK)
+    status = base_vfs->m_rename(base_vfs, shim_data->tmp_path, real_new_path);
   UNLOCK();
 
   return status;
@@ -354,9 +359,9 @@ static int jail__make_dir(Evfs *vfs, const char *path) {
 
   LOCK();
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, path, &real_path_r);
-
-  int status = base_vfs->m_make_dir(base_vfs, shim_data->tmp_path);
+  int status = unjail_path(vfs, path, &real_path_r);
+  if(status == EVFS_OK)
+    status = base_vfs->m_make_dir(base_vfs, shim_data->tmp_path);
   UNLOCK();
 
   return status;
@@ -374,9 +379,9 @@ static int jail__open_dir(Evfs *vfs, const char *path, EvfsDir *dh) {
 
   LOCK();
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, path, &real_path_r);
-
-  int status = base_vfs->m_open_dir(base_vfs, shim_data->tmp_path, dir->base_dir);
+  int status = unjail_path(vfs, path, &real_path_r);
+  if(status == EVFS_OK)
+    status = base_vfs->m_open_dir(base_vfs, shim_data->tmp_path, dir->base_dir);
   UNLOCK();
 
   if(status == EVFS_OK) {
@@ -413,41 +418,19 @@ static int jail__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
 static int jail__set_cur_dir(Evfs *vfs, const char *path) {
   JailData *shim_data = (JailData *)vfs->fs_data;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) { // Just assign absolute paths
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, path))
-      return EVFS_ERR_NO_PATH;
-
-    strlcpy(shim_data->cur_dir, path, sizeof(shim_data->cur_dir));
-    shim_data->cur_dir[sizeof(shim_data->cur_dir)-1] = '\0';
+  // Convert to a normalized absolute path within the jail
+  char abs_path[EVFS_MAX_PATH];
+  StringRange abs_path_r = RANGE_FROM_ARRAY(abs_path);
 
-  } else { // Path is relative: Join it to the existing directory
-    StringRange head, tail, joined;
+  int status = evfs_vfs_path_absolute(vfs, path, &abs_path_r);
+  if(status != EVFS_OK)
+    return status;
 
-    range_init(&head, shim_data->cur_dir, sizeof(shim_data->cur_dir));
-    range_init(&tail, (char *)path, strlen(path));
+  // Confirm the path exists
+  if(!evfs__vfs_existing_dir(vfs, abs_path))
+    return EVFS_ERR_NO_PATH;
 
-    // Note: evfs__vfs_existing_dir() below is going to take the lock (via jail__stat) so
-    //       we have to malloc a buffer.
-    size_t joined_size = strlen(shim_data->cur_dir) + 1 + strlen(path) + 1;
-    char *joined_path = evfs_malloc(joined_size);
-    if(MEM_CHECK(joined_path)) return EVFS_ERR_ALLOC;
-
-    range_init(&joined, joined_path, joined_size);
-
-    evfs_vfs_path_join(vfs, &head, &tail, &joined);
-
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, joined_path)) {
-      evfs_free(joined_path);
-      return EVFS_ERR_NO_PATH;
-    }
-
-    // Overwrite old cur_dir
-    evfs_vfs_path_normalize(vfs, joined_path, &head);
-
-    evfs_free(joined_path);
-  }
+  strlcpy(shim_data->cur_dir, abs_path, sizeof(shim_data->cur_dir));
 
   return EVFS_OK;
 }
@@ -497,7 +480,7 @@ Returns:
   EVFS_OK on success
 */
 int evfs_register_jail(const char *vfs_name, const char *old_vfs_name, const char *jail_root, bool default_vfs) {
-  if(PTR_CHECK(vfs_name) || PTR_CHECK(old_vfs_name)) return EVFS_ERR_BAD_ARG;
+  if(PTR_CHECK(vfs_name) || PTR_CHECK(old_vfs_name) || PTR_CHECK(jail_root)) return EVFS_ERR_BAD_ARG;
 
   Evfs *base_vfs, *shim_vfs;
   JailData *shim_data;
@@ -508,7 +491,9 @@ int evfs_register_jail(const char *vfs_name, const char *old_vfs_name, const cha
   // Convert jail root to absolute
   char abs_root[EVFS_MAX_PATH];
   StringRange abs_root_r = RANGE_FROM_ARRAY(abs_root);
-  evfs_vfs_path_absolute(base_vfs, jail_root, &abs_root_r);
+  int status = evfs_vfs_path_absolute(base_vfs, jail_root, &abs_root_r);
+  if(status != EVFS_OK)
+    return status;
 
   // Construct a new VFS
   // We have four objects allocated together [Evfs][JailData][char[]][char[]]
-- 
2.43.0


From d1ee6295f63e2892aefb6a3558ae51ee1b37cdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:30 +0000
Subject: [PATCH 12/53] fix: set_cur_dir stores or tests a bad path when the
 joined path does not fit or is unnormalized

---
 src/romfs_fs.c    | 47 +++++++++++------------------------------------
 src/tar_fs.c      | 45 ++++++++++++---------------------------------
 src/tar_rsrc_fs.c | 45 ++++++++++++---------------------------------
 3 files changed, 35 insertions(+), 102 deletions(-)

diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index b1e87b1..fd49a77 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -442,50 +442,25 @@ static int romfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
 static int romfs__set_cur_dir(Evfs *vfs, const char *path) {
   RomfsData *fs_data = (RomfsData *)vfs->fs_data;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) { // Just assign absolute paths
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, path))
-      return EVFS_ERR_NO_PATH;
+  // Convert to a normalized absolute path
+  char abs_path[EVFS_MAX_PATH];
+  StringRange abs_path_r = RANGE_FROM_ARRAY(abs_path);
 
-    strncpy(fs_data->cur_dir, path, EVFS_MAX_PATH-1);
-    fs_data->cur_dir[EVFS_MAX_PATH-1] = '\0';
-
-  } else { // Path is relative: Join it to the existing directory
-    StringRange head, tail, joined;
-
-    range_init(&head, fs_data->cur_dir, EVFS_MAX_PATH);
-    range_init(&tail, (char *)path, strlen(path));
-
-    size_t joined_size = strlen(fs_data->cur_dir) + 1 + strlen(path) + 1;
-    char *joined_path = evfs_malloc(joined_size);
-    if(MEM_CHECK(joined_path)) return EVFS_ERR_ALLOC;
-
-    range_init(&joined, joined_path, joined_size);
-
-    evfs_vfs_path_join(vfs, &head, &tail, &joined);
-
-    // We must normalize now because the fast index can't handle denormal paths
-    range_init(&joined, joined_path, joined_size);
-    evfs_vfs_path_normalize(vfs, joined_path, &joined);
-
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, joined_path)) {
-      evfs_free(joined_path);
-      return EVFS_ERR_NO_PATH;
-    }
+  int status = evfs_vfs_path_absolute(vfs, path, &abs_path_r);
+  if(status != EVFS_OK)
+    return status;
 
-    // Overwrite old cur_dir
-    range_init(&head, fs_data->cur_dir, EVFS_MAX_PATH);
-    range_cat_str((AppendRange *)&head, joined_path);
+  // Confirm the path exists
+  if(!evfs__vfs_existing_dir(vfs, abs_path))
+    return EVFS_ERR_NO_PATH;
 
-    evfs_free(joined_path);
-  }
+  strncpy(fs_data->cur_dir, abs_path, EVFS_MAX_PATH-1);
+  fs_data->cur_dir[EVFS_MAX_PATH-1] = '\0';
 
   return EVFS_OK;
 }
 
 
-
 static int romfs__vfs_ctrl(Evfs *vfs, int cmd, void *arg) {
   RomfsData *fs_data = (RomfsData *)vfs->fs_data;
 
diff --git a/src/tar_fs.c b/src/tar_fs.c
index 997027a..bf864eb 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -452,46 +452,25 @@ static int tarfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
 static int tarfs__set_cur_dir(Evfs *vfs, const char *path) {
   TarfsData *fs_data = (TarfsData *)vfs->fs_data;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) { // Just assign absolute paths
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, path))
-      return EVFS_ERR_NO_PATH;
-  
-    strncpy(fs_data->cur_dir, path, EVFS_MAX_PATH-1);
-    fs_data->cur_dir[EVFS_MAX_PATH-1] = '\0';
-
-  } else { // Path is relative: Join it to the existing directory
-    StringRange head, tail, joined;
-    
-    range_init(&head, fs_data->cur_dir, EVFS_MAX_PATH);
-    range_init(&tail, (char *)path, strlen(path));
-    
-    size_t joined_size = strlen(fs_data->cur_dir) + 1 + strlen(path) + 1;
-    char *joined_path = evfs_malloc(joined_size);
-    if(MEM_CHECK(joined_path)) return EVFS_ERR_ALLOC;
-
-    range_init(&joined, joined_path, joined_size);
-
-    evfs_vfs_path_join(vfs, &head, &tail, &joined);
-
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, joined_path)) {
-      evfs_free(joined_path);
-      return EVFS_ERR_NO_PATH;
-    }
+  // Convert to a normalized absolute path
+  char abs_path[EVFS_MAX_PATH];
+  StringRange abs_path_r = RANGE_FROM_ARRAY(abs_path);
 
-    // Overwrite old cur_dir
-    evfs_vfs_path_normalize(vfs, joined_path, &head);
+  int status = evfs_vfs_path_absolute(vfs, path, &abs_path_r);
+  if(status != EVFS_OK)
+    return status;
 
-    evfs_free(joined_path);
-  }
+  // Confirm the path exists
+  if(!evfs__vfs_existing_dir(vfs, abs_path))
+    return EVFS_ERR_NO_PATH;
+
+  strncpy(fs_data->cur_dir, abs_path, EVFS_MAX_PATH-1);
+  fs_data->cur_dir[EVFS_MAX_PATH-1] = '\0';
 
   return EVFS_OK;
 }
 
 
-
-
 static int tarfs__vfs_ctrl(Evfs *vfs, int cmd, void *arg) {
   TarfsData *fs_data = (TarfsData *)vfs->fs_data;
 
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index d5cb825..831ea86 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -473,46 +473,25 @@ static int tarfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
 static int tarfs__set_cur_dir(Evfs *vfs, const char *path) {
   TarfsData *fs_data = (TarfsData *)vfs->fs_data;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) { // Just assign absolute paths
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, path))
-      return EVFS_ERR_NO_PATH;
-  
-    strncpy(fs_data->cur_dir, path, EVFS_MAX_PATH-1);
-    fs_data->cur_dir[EVFS_MAX_PATH-1] = '\0';
-
-  } else { // Path is relative: Join it to the existing directory
-    StringRange head, tail, joined;
-    
-    range_init(&head, fs_data->cur_dir, EVFS_MAX_PATH);
-    range_init(&tail, (char *)path, strlen(path));
-    
-    size_t joined_size = strlen(fs_data->cur_dir) + 1 + strlen(path) + 1;
-    char *joined_path = evfs_malloc(joined_size);
-    if(MEM_CHECK(joined_path)) return EVFS_ERR_ALLOC;
-
-    range_init(&joined, joined_path, joined_size);
-
-    evfs_vfs_path_join(vfs, &head, &tail, &joined);
-
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, joined_path)) {
-      evfs_free(joined_path);
-      return EVFS_ERR_NO_PATH;
-    }
+  // Convert to a normalized absolute path
+  char abs_path[EVFS_MAX_PATH];
+  StringRange abs_path_r = RANGE_FROM_ARRAY(abs_path);
 
-    // Overwrite old cur_dir
-    evfs_vfs_path_normalize(vfs, joined_path, &head);
+  int status = evfs_vfs_path_absolute(vfs, path, &abs_path_r);
+  if(status != EVFS_OK)
+    return status;
 
-    evfs_free(joined_path);
-  }
+  // Confirm the path exists
+  if(!evfs__vfs_existing_dir(vfs, abs_path))
+    return EVFS_ERR_NO_PATH;
+
+  strncpy(fs_data->cur_dir, abs_path, EVFS_MAX_PATH-1);
+  fs_data->cur_dir[EVFS_MAX_PATH-1] = '\0';
 
   return EVFS_OK;
 }
 
 
-
-
 static int tarfs__vfs_ctrl(Evfs *vfs, int cmd, void *arg) {
   TarfsData *fs_data = (TarfsData *)vfs->fs_data;
 
-- 
2.43.0


From 99b2c5f5988914851c721042e528fd78789b1edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:44 +0000
Subject: [PATCH 13/53] fix: path conversion failure leaves the shared buffer
 locked

---
 src/romfs_fs.c    | 11 ++++++++++-
 src/tar_fs.c      | 11 ++++++++++-
 src/tar_rsrc_fs.c | 11 ++++++++++-
 3 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index fd49a77..5b60ffe 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -118,9 +118,18 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
   range_init(&abs_path_r, abs_path, abs_size);
 
   int status = evfs_vfs_path_absolute(vfs, path, (StringRange *)&abs_path_r);
-  if(status == EVFS_OK)
+  if(status == EVFS_OK) {
     *absolute = abs_path;
 
+  } else { // Caller won't use FREE_ABS()
+#ifdef EVFS_USE_ROMFS_SHARED_BUFFER
+    if(abs_path == fs_data->abs_path)
+      UNLOCK();
+    else
+#endif
+      evfs_free(abs_path);
+  }
+
   return status;
 }
 
diff --git a/src/tar_fs.c b/src/tar_fs.c
index bf864eb..94c486d 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -123,9 +123,18 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
   range_init(&abs_path_r, abs_path, abs_size);
 
   int status = evfs_vfs_path_absolute(vfs, path, (StringRange *)&abs_path_r);
-  if(status == EVFS_OK)
+  if(status == EVFS_OK) {
     *absolute = abs_path;
 
+  } else { // Caller won't use FREE_ABS()
+#ifdef EVFS_USE_TARFS_SHARED_BUFFER
+    if(abs_path == fs_data->abs_path)
+      UNLOCK();
+    else
+#endif
+      evfs_free(abs_path);
+  }
+
   return status;
 }
 
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index 831ea86..f0559b5 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -133,9 +133,18 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
   range_init(&abs_path_r, abs_path, abs_size);
 
   int status = evfs_vfs_path_absolute(vfs, path, (StringRange *)&abs_path_r);
-  if(status == EVFS_OK)
+  if(status == EVFS_OK) {
     *absolute = abs_path;
 
+  } else { // Caller won't use FREE_ABS()
+#ifdef EVFS_USE_TARFS_SHARED_BUFFER
+    if(abs_path == fs_data->abs_path)
+      UNLOCK();
+    else
+#endif
+      evfs_free(abs_path);
+  }
+
   return status;
 }
 
-- 
2.43.0


From fd9e5a551172998bead1691040879bad7e1d0c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:44 +0000
Subject: [PATCH 14/53] fix: tar open uses an uninitialized index entry for a
 missing file

---
 src/tar_fs.c      | 4 ++--
 src/tar_rsrc_fs.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tar_fs.c b/src/tar_fs.c
index 94c486d..6b194fb 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -380,7 +380,7 @@ static int tarfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   int err = EVFS_OK;
   TarfsData *fs_data = (TarfsData *)vfs->fs_data;
   TarfsFile *fil = (TarfsFile *)fh;
-  EvfsTarEntry entry;
+  EvfsTarEntry entry = {0};
 
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_tarfs_methods;
@@ -418,7 +418,7 @@ static int tarfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
 
 static int tarfs__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
   TarfsData *fs_data = (TarfsData *)vfs->fs_data;
-  EvfsTarEntry entry;
+  EvfsTarEntry entry = {0};
   int err;
 
   if(evfs_vfs_path_is_absolute(vfs, path)) {  
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index f0559b5..0a6e338 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -401,7 +401,7 @@ static int tarfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   int err = EVFS_OK;
   TarfsData *fs_data = (TarfsData *)vfs->fs_data;
   TarfsFile *fil = (TarfsFile *)fh;
-  EvfsTarEntry entry;
+  EvfsTarEntry entry = {0};
 
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_tarfs_methods;
@@ -439,7 +439,7 @@ static int tarfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
 
 static int tarfs__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
   TarfsData *fs_data = (TarfsData *)vfs->fs_data;
-  EvfsTarEntry entry;
+  EvfsTarEntry entry = {0};
   int err;
 
   if(evfs_vfs_path_is_absolute(vfs, path)) {  
-- 
2.43.0


From 75f3d5848550e734e7ffebdb385f7261a78ed906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:59 +0000
Subject: [PATCH 15/53] fix: path absolute drops a drive prefix that does not
 fit the output range

---
 src/evfs_path.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index 94bd7f5..86c16fd 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -558,8 +558,10 @@ int evfs_vfs_path_absolute(Evfs *vfs, const char *path, StringRange *absolute) {
   size_t root_len = range_size(&root);
   path_start += root_len;
 
-  if(range_size(&root) > 0) // Add any relative root prefix from path now
-    range_cat_range((AppendRange *)&joined_r, &root);
+  if(range_size(&root) > 0) { // Add any relative root prefix from path now
+    if(range_cat_range((AppendRange *)&joined_r, &root) < 0)
+      return EVFS_ERR_OVERFLOW;
+  }
 
   // Get current directory
   rval = vfs->m_get_cur_dir(vfs, &joined_r);
-- 
2.43.0


From 04989f8de31a1167ae0d6b8929392ee4f85655a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:27 +0000
Subject: [PATCH 16/53] fix: evfs_copy_to_file ignores the caller's transfer
 buffer

---
 include/evfs.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/evfs.h b/include/evfs.h
index c687258..19ffc8f 100644
--- a/include/evfs.h
+++ b/include/evfs.h
@@ -348,7 +348,7 @@ static inline int evfs_vfs_ctrl(int op, void *arg) {
 int evfs_copy_to_file_ex(const char *dest_path, EvfsFile *fh, char *buf, size_t buf_size, const char *vfs_name);
 
 static inline int evfs_copy_to_file(const char *dest_path, EvfsFile *fh, char *buf, size_t buf_size) {
-  return evfs_copy_to_file_ex(dest_path, fh, NULL, 0, NULL);
+  return evfs_copy_to_file_ex(dest_path, fh, buf, buf_size, NULL);
 }
 
 
-- 
2.43.0


From 759d24458489ccf3d21ef3bb8a5228266f36544a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:53 +0000
Subject: [PATCH 17/53] fix: make_path_range modifies the caller's range and
 overruns partial root components

---
 src/evfs.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/evfs.c b/src/evfs.c
index 8c3d0aa..07e2b46 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -698,19 +698,24 @@ int evfs_make_path_range_ex(StringRange *path, const char *vfs_name) {
   size_t limit = path_len;
 
   // Add root separator for absolute paths
+  const char *path_start = path->start;
   StringRange root;
   bool is_absolute = vfs->m_path_root_component(vfs, path->start, &root);
   if(is_absolute) {
+    // The root component may extend past the end of a partial path
+    size_t root_len = MIN((size_t)range_size(&root), path_len);
+    range_init(&root, (char *)path->start, root_len);
+
     // Skip over the root component
-    path->start += range_size(&root);
-    limit -= range_size(&root);
+    path_start += root_len;
+    limit -= root_len;
     range_cat_range(&cur_path_r, &root); // Add root component to the buffer
   }
 
 
   // Iterate over each segment of path creating any non-existant directories
   StringRange token;
-  bool new_tok = range_token_limit(path->start, EVFS_PATH_SEPS, &token, &limit);
+  bool new_tok = range_token_limit(path_start, EVFS_PATH_SEPS, &token, &limit);
   while(new_tok) {
     range_cat_range(&cur_path_r, &token); // Append new token
     EvfsInfo info;
-- 
2.43.0


From 8a6614c48278eafb5d1612e9178bff436e92769a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:41 +0000
Subject: [PATCH 18/53] fix: seek offset arithmetic overflows

---
 src/evfs.c          | 10 ++++++++--
 src/evfs_internal.h |  3 +++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/evfs.c b/src/evfs.c
index 07e2b46..61521e1 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -171,16 +171,22 @@ bool evfs__vfs_existing_dir(Evfs *vfs, const char *path) {
 // Common offset conversion routine for implementations of m_file_seek()
 evfs_off_t evfs__absolute_offset(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir origin) {
   // Compute absolute offset from start of file
+  evfs_off_t base;
+
   switch(origin) {
     case EVFS_SEEK_TO: // No change
       break;
 
     case EVFS_SEEK_REL:
-      offset += evfs_file_tell(fh);
+      base = evfs_file_tell(fh);
+      if(base < 0) base = 0;
+      offset = offset > EVFS_OFF_MAX - base ? EVFS_OFF_MAX : base + offset;
       break;
 
     case EVFS_SEEK_REV:
-      offset = evfs_file_size(fh) - offset;
+      base = evfs_file_size(fh);
+      if(base < 0) base = 0;
+      offset = base > EVFS_OFF_MAX + MIN(offset, 0) ? EVFS_OFF_MAX : base - offset;
       break;
 
     default:
diff --git a/src/evfs_internal.h b/src/evfs_internal.h
index c790f39..d8cc26a 100644
--- a/src/evfs_internal.h
+++ b/src/evfs_internal.h
@@ -152,6 +152,9 @@ static inline int evfs__nop(EvfsLock *(l)) { return 0; }
 #endif
 
 
+// Largest value of an evfs_off_t
+#define EVFS_OFF_MAX  ((evfs_off_t)((1ULL << (sizeof(evfs_off_t)*8 - 1)) - 1))
+
 void evfs__lib_init(void);  // Called by evfs__init_once()
 
 bool evfs__vfs_existing_dir(Evfs *vfs, const char *path);
-- 
2.43.0


From 3b4f89d47929ff85659820c1730cf80dc9282d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:35 +0000
Subject: [PATCH 19/53] fix: tar iterators accept member sizes and headers
 outside the archive

---
 src/tar_iter.c      | 24 +++++++++++++++++----
 src/tar_iter_rsrc.c | 51 ++++++++++++++++++++++++++-------------------
 2 files changed, 50 insertions(+), 25 deletions(-)

diff --git a/src/tar_iter.c b/src/tar_iter.c
index b00db91..a8639cf 100644
--- a/src/tar_iter.c
+++ b/src/tar_iter.c
@@ -25,6 +25,7 @@ Embedded Virtual Filesystem
 #include <unistd.h>
 
 #include "evfs.h"
+#include "evfs_internal.h"
 #include "evfs/tar_iter.h"
 
 
@@ -67,20 +68,35 @@ static bool tar__valid_header(TarHeader *header) {
 }
 
 
+// Get the size of the archived file. The offset to the next header must be representable.
+static bool tar__get_size(TarHeader *header, evfs_off_t header_offset, evfs_off_t *file_size) {
+  // Only supporting NUL terminated octal with '0' padding
+  char field[sizeof(header->size) + 1] = {0};
+  memcpy(field, header->size, sizeof(header->size));
+
+  long size = strtol(field, NULL, 8);
+  if(size < 0 || size > EVFS_OFF_MAX - 2*TAR_BLOCK_SIZE - header_offset)
+    return false;
+
+  *file_size = size;
+  return true;
+}
+
+
 static bool tar__get_header(TarFileIterator *tar_it, TarHeader *header) {
   tar_it->header_offset = evfs_file_tell(tar_it->fd);
+  if(tar_it->header_offset < 0 || tar_it->header_offset > EVFS_OFF_MAX - 2*TAR_BLOCK_SIZE)
+    goto fail;
 
   if(evfs_file_read(tar_it->fd, header, TAR_HEADER_SIZE) != TAR_HEADER_SIZE)
     goto fail;
 
-  if(tar__valid_header(header)) {
+  if(tar__valid_header(header) &&
+      tar__get_size(header, tar_it->header_offset, &tar_it->file_size)) {
     // Seek to start of next 512 byte TAR block for file data
     if(evfs_file_seek(tar_it->fd, TAR_BLOCK_SIZE - TAR_HEADER_SIZE, EVFS_SEEK_REL) != EVFS_OK)
       goto fail;
 
-    // Extract fields
-    // Only supporting NUL terminated octal with '0' padding
-    tar_it->file_size = strtol((const char *)header->size, NULL, 8);
     return true;
   }
 
diff --git a/src/tar_iter_rsrc.c b/src/tar_iter_rsrc.c
index b3120a7..7c5f8fa 100644
--- a/src/tar_iter_rsrc.c
+++ b/src/tar_iter_rsrc.c
@@ -63,19 +63,34 @@ static bool tar__valid_header(TarHeader *header) {
 }
 
 
-static bool tar__rsrc_get_header(TarRsrcIterator *tar_it) {
-  tar_it->header_offset = tar_it->read_pos - tar_it->resource;
-
-  tar_it->cur_header = (TarHeader *)tar_it->read_pos;
-  tar_it->read_pos += TAR_HEADER_SIZE;
-  if(tar__valid_header(tar_it->cur_header)) {
-    // Seek to start of next 512 byte TAR block for file data
-    tar_it->read_pos += TAR_BLOCK_SIZE - TAR_HEADER_SIZE;
-
-    // Extract fields
-    // Only supporting NUL terminated octal with '0' padding
-    tar_it->file_size = strtol((const char *)tar_it->cur_header->size, NULL, 8);
-    return true;
+// Get the size of the archived file. Its data must be inside the resource.
+static bool tar__get_size(TarHeader *header, size_t max_size, size_t *file_size) {
+  // Only supporting NUL terminated octal with '0' padding
+  char field[sizeof(header->size) + 1] = {0};
+  memcpy(field, header->size, sizeof(header->size));
+
+  long size = strtol(field, NULL, 8);
+  if(size < 0 || (unsigned long)size > max_size)
+    return false;
+
+  *file_size = size;
+  return true;
+}
+
+
+static bool tar__rsrc_get_header(TarRsrcIterator *tar_it, size_t offset) {
+  // The complete header block must be inside the resource
+  if(tar_it->resource_len >= TAR_BLOCK_SIZE && offset <= tar_it->resource_len - TAR_BLOCK_SIZE) {
+    tar_it->header_offset = offset;
+    tar_it->cur_header = (TarHeader *)(tar_it->resource + offset);
+
+    if(tar__valid_header(tar_it->cur_header) &&
+        tar__get_size(tar_it->cur_header, tar_it->resource_len - offset - TAR_BLOCK_SIZE,
+                      &tar_it->file_size)) {
+      // Seek to start of next 512 byte TAR block for file data
+      tar_it->read_pos = tar_it->resource + offset + TAR_BLOCK_SIZE;
+      return true;
+    }
   }
 
   tar_it->cur_header = NULL;
@@ -87,9 +102,7 @@ static bool tar__rsrc_get_header(TarRsrcIterator *tar_it) {
 
 
 bool tar_rsrc_iter_seek(TarRsrcIterator *tar_it, evfs_off_t offset) {
-  tar_it->read_pos = tar_it->resource + offset;
-
-  return tar__rsrc_get_header(tar_it);
+  return tar__rsrc_get_header(tar_it, offset < 0 ? SIZE_MAX : (size_t)offset);
 }
 
 
@@ -98,11 +111,7 @@ bool tar_rsrc_iter_next(TarRsrcIterator *tar_it) {
   size_t file_blocks = (tar_it->file_size + TAR_BLOCK_SIZE-1) / TAR_BLOCK_SIZE;
   size_t next_header = tar_it->header_offset + (file_blocks+1) * TAR_BLOCK_SIZE;
 
-  tar_it->read_pos = tar_it->resource + next_header;
-  if((size_t)(tar_it->read_pos - tar_it->resource) >= tar_it->resource_len)
-    return false;
-
-  return tar__rsrc_get_header(tar_it);
+  return tar__rsrc_get_header(tar_it, next_header);
 }
 
 
-- 
2.43.0


From 09c29c437243162621f91af9f42bf826f4a697ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:53 +0000
Subject: [PATCH 20/53] fix: tar index uses unterminated header names and joins
 the prefix without a separator

---
 src/tar_fs.c      | 39 ++++++++++++++++++++++++++++++---------
 src/tar_rsrc_fs.c | 37 +++++++++++++++++++++++++++++--------
 2 files changed, 59 insertions(+), 17 deletions(-)

diff --git a/src/tar_fs.c b/src/tar_fs.c
index 6b194fb..441d4a7 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -188,11 +188,28 @@ static void tarfs__index_hash_free(EvfsTarIndex *ht) {
 }
 
 
+// Get the parts of a path from a header. They aren't NUL terminated when they fill a field.
+static size_t tarfs__entry_path(TarHeader *header, StringRange *prefix, StringRange *name) {
+  range_init(prefix, (char *)header->file_prefix,
+              strnlen((char *)header->file_prefix, TAR_FILE_PREFIX_LEN));
+  range_init(name, (char *)header->file_name,
+              strnlen((char *)header->file_name, TAR_FILE_NAME_LEN));
+
+  size_t path_len = range_size(name);
+  if(range_size(prefix) > 0)
+    path_len += range_size(prefix) + 1;
+
+  return path_len;
+}
+
+
 static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
   if(!tar_iter_begin(tar_it)) return EVFS_ERR;
 
   size_t total_path_len = 0;
   int total_files = 0;
+  StringRange prefix, name;
+
   // Scan the tar file to count files and determine total string storage for keys
   do {
     // Only index plain files and directories
@@ -200,8 +217,7 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
        tar_it->cur_header.type_flag != TAR_TYPE_DIRECTORY) continue;
 
     total_files++;
-    total_path_len += strlen((char *)tar_it->cur_header.file_name) +
-                      strlen((char *)tar_it->cur_header.file_prefix) + 1;
+    total_path_len += tarfs__entry_path(&tar_it->cur_header, &prefix, &name) + 1;
 
   } while(tar_iter_next(tar_it));
 
@@ -226,12 +242,16 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
     dhKey key;
 
     key.data = keys_r.start;
-    key.length = 0;
-    if(tar_it->cur_header.file_prefix[0] != '\0')
-      key.length += range_cat_str(&keys_r, (char *)tar_it->cur_header.file_prefix);
-// FIXME: Add path sep
-    key.length += range_cat_str(&keys_r, (char *)tar_it->cur_header.file_name);
-    range_cat_char(&keys_r,'\0');
+    key.length = tarfs__entry_path(&tar_it->cur_header, &prefix, &name);
+    if(key.length >= (size_t)range_size(&keys_r)) // Archive changed since the first scan
+      return EVFS_ERR;
+
+    if(range_size(&prefix) > 0) {
+      range_cat_range_no_nul(&keys_r, &prefix);
+      range_cat_char_no_nul(&keys_r, '/');
+    }
+    range_cat_range(&keys_r, &name);
+    keys_r.start++; // Keep NUL
 
     EvfsTarEntry entry;
 
@@ -243,7 +263,8 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
       entry.file_size = -1;
 
       // Removing trailing slash
-      ((char *)key.data)[--key.length] = '\0';
+      if(key.length > 0 && ((char *)key.data)[key.length-1] == '/')
+        ((char *)key.data)[--key.length] = '\0';
     }
 
     if(!dh_insert(&ht->hash_table, key, &entry))
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index 0a6e338..f89f72f 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -198,11 +198,28 @@ static void tarfs__index_hash_free(EvfsTarIndex *ht) {
 }
 
 
+// Get the parts of a path from a header. They aren't NUL terminated when they fill a field.
+static size_t tarfs__entry_path(TarHeader *header, StringRange *prefix, StringRange *name) {
+  range_init(prefix, (char *)header->file_prefix,
+              strnlen((char *)header->file_prefix, TAR_FILE_PREFIX_LEN));
+  range_init(name, (char *)header->file_name,
+              strnlen((char *)header->file_name, TAR_FILE_NAME_LEN));
+
+  size_t path_len = range_size(name);
+  if(range_size(prefix) > 0)
+    path_len += range_size(prefix) + 1;
+
+  return path_len;
+}
+
+
 static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
   if(!tar_rsrc_iter_begin(tar_it)) return EVFS_ERR;
 
   size_t total_path_len = 0;
   int total_files = 0;
+  StringRange prefix, name;
+
   // Scan the tar file to count files and determine total string storage for keys
   do {
     // Only index plain files and directories
@@ -210,8 +227,7 @@ static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
        tar_it->cur_header->type_flag != TAR_TYPE_DIRECTORY) continue;
 
     total_files++;
-    total_path_len += strlen((char *)tar_it->cur_header->file_name) +
-                      strlen((char *)tar_it->cur_header->file_prefix) + 1;
+    total_path_len += tarfs__entry_path(tar_it->cur_header, &prefix, &name) + 1;
 
   } while(tar_rsrc_iter_next(tar_it));
 
@@ -236,12 +252,16 @@ static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
     dhKey key;
 
     key.data = keys_r.start;
-    key.length = 0;
-    if(tar_it->cur_header->file_prefix[0] != '\0')
-      key.length += range_cat_str(&keys_r, (char *)tar_it->cur_header->file_prefix);
+    key.length = tarfs__entry_path(tar_it->cur_header, &prefix, &name);
+    if(key.length >= (size_t)range_size(&keys_r)) // Archive changed since the first scan
+      return EVFS_ERR;
 
-    key.length += range_cat_str(&keys_r, (char *)tar_it->cur_header->file_name);
-    range_cat_char(&keys_r,'\0');
+    if(range_size(&prefix) > 0) {
+      range_cat_range_no_nul(&keys_r, &prefix);
+      range_cat_char_no_nul(&keys_r, '/');
+    }
+    range_cat_range(&keys_r, &name);
+    keys_r.start++; // Keep NUL
 
     EvfsTarEntry entry;
 
@@ -253,7 +273,8 @@ static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
       entry.file_size = -1;
 
       // Removing trailing slash
-      ((char *)key.data)[--key.length] = '\0';
+      if(key.length > 0 && ((char *)key.data)[key.length-1] == '/')
+        ((char *)key.data)[--key.length] = '\0';
     }
 
     if(!dh_insert(&ht->hash_table, key, &entry))
-- 
2.43.0


From 7439b49080524f1224644f7b1f14c47f49d59db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:17 +0000
Subject: [PATCH 21/53] fix: dhash copies and swaps values beyond their
 configured size

---
 src/util/dhash.c | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/util/dhash.c b/src/util/dhash.c
index 1a57bf2..ec4df5f 100644
--- a/src/util/dhash.c
+++ b/src/util/dhash.c
@@ -124,6 +124,10 @@ typedef struct dhBucketEntry {
 #define ROUND_UP_ALIGN(n, T)  ((n) + _Alignof(T)-1 - ((n) + _Alignof(T)-1) % _Alignof(T))
 
 
+// Bucket entries need to stay aligned so we pad out the value object
+#define BUCKET_SIZE(value_size)  (sizeof(dhBucketEntry) + ROUND_UP_ALIGN((value_size), uintptr_t))
+
+
 #ifndef MAX
 #  define MAX(x, y) ((x) >= (y) ? (x) : (y))
 #endif
@@ -300,7 +304,7 @@ static inline dhBucketIndex next_bucket(dhash *hash, dhBucketIndex b) {
 
 // Bucket array is opaque void * so we index into it by these helpers
 static inline dhBucketEntry *dh__get_entry_unsafe(dhash *hash, dhBucketIndex b) {
-  size_t bkt_off = (size_t)b * (sizeof(dhBucketEntry) + hash->value_size);
+  size_t bkt_off = (size_t)b * BUCKET_SIZE(hash->value_size);
   return (dhBucketEntry *)((uint8_t *)hash->buckets + bkt_off);
 }
 
@@ -308,7 +312,7 @@ static inline dhBucketEntry *dh__get_entry(dhash *hash, dhBucketIndex b) {
   if(b < 0)
     return NULL;
 
-  size_t bkt_off = (size_t)b * (sizeof(dhBucketEntry) + hash->value_size);
+  size_t bkt_off = (size_t)b * BUCKET_SIZE(hash->value_size);
   return (dhBucketEntry *)((uint8_t *)hash->buckets + bkt_off);
 }
 
@@ -324,7 +328,7 @@ static bool dh__alloc_buckets(dhash *hash, size_t new_num_buckets) {
 
   new_num_buckets = MAX(new_num_buckets, (size_t)DH_MIN_BUCKETS);
 
-  size_t bucket_size = sizeof(dhBucketEntry) + hash->value_size;
+  size_t bucket_size = BUCKET_SIZE(hash->value_size);
   size_t new_size = new_num_buckets * bucket_size;
 
   if(new_size / bucket_size != new_num_buckets) // Overflow in new_size
@@ -357,12 +361,9 @@ static inline bool dh__init(dhash *hash, dhConfig *config, void *ctx, bool new_h
 #endif
 
 
-  // Bucket entries need to stay aligned so we pad out the value object
-  size_t value_size = ROUND_UP_ALIGN(config->value_size, uintptr_t);
-
   // Restrict memory usage
   if(config->max_storage > 0 && !config->ext_storage) {
-    size_t max_buckets = config->max_storage / (sizeof(dhBucketEntry) + value_size);
+    size_t max_buckets = config->max_storage / BUCKET_SIZE(config->value_size);
 
     if((size_t)num_buckets > max_buckets)
       return false;
@@ -390,7 +391,7 @@ static inline bool dh__init(dhash *hash, dhConfig *config, void *ctx, bool new_h
 #ifndef DH_USE_2X_GROWTH
       .prime_ix     = prime_ix,
 #endif
-      .value_size   = value_size,
+      .value_size   = config->value_size,
       .max_storage  = config->max_storage,
       .ctx          = ctx,
       .destroy_item = config->destroy_item,
@@ -405,7 +406,7 @@ static inline bool dh__init(dhash *hash, dhConfig *config, void *ctx, bool new_h
 
       hash->buckets = config->ext_storage;
 
-      size_t bucket_size = sizeof(dhBucketEntry) + value_size;
+      size_t bucket_size = BUCKET_SIZE(config->value_size);
       size_t ext_buckets = config->max_storage / bucket_size;
 
       // Set largest bucket count for our growth scheme
@@ -750,9 +751,9 @@ bool dh_lookup_in_place(dhash *hash, dhKey key, void **value) {
 static inline void swap_values(uintptr_t * restrict v1, uintptr_t * restrict v2, size_t value_size) {
   uintptr_t temp;
 
-  // The value size is rounded up to a multiple of uintptr_t alignment so this
+  // Both values have storage rounded up to a multiple of uintptr_t alignment so this
   // will never have a remainder.
-  value_size /= sizeof(uintptr_t);
+  value_size = ROUND_UP_ALIGN(value_size, uintptr_t) / sizeof(uintptr_t);
 
   for(size_t i = 0; i < value_size; i++) {
     temp = v1[i];
@@ -762,6 +763,7 @@ static inline void swap_values(uintptr_t * restrict v1, uintptr_t * restrict v2,
 }
 
 
+// The value must have storage rounded up to uintptr_t alignment and may be modified
 static inline bool dh__insert_ex(dhash *hash, dhKey key, void *value, dhIKey ikey) {
   dhBucketEntry titem;
   dhBucketEntry *entry;
@@ -857,7 +859,11 @@ static inline bool dh__insert_ex(dhash *hash, dhKey key, void *value, dhIKey ike
 
 // Insert without existing ikey
 static inline bool dh__insert(dhash *hash, dhKey key, void *value) {
-  return dh__insert_ex(hash, key, value, dh__hash(hash, key));
+  // Use a padded copy so that swaps don't modify the caller's object
+  uintptr_t new_value[ROUND_UP_ALIGN(hash->value_size, uintptr_t) / sizeof(uintptr_t) + 1];
+  memcpy(new_value, value, hash->value_size);
+
+  return dh__insert_ex(hash, key, new_value, dh__hash(hash, key));
 }
 
 
@@ -914,7 +920,7 @@ static inline bool dh__grow(dhash *hash, dhBucketIndex new_buckets) {
 #endif
     }
 
-    bkt_off += sizeof(dhBucketEntry) + hash->value_size;
+    bkt_off += BUCKET_SIZE(hash->value_size);
   }
 
   dh__free(old_buckets);
-- 
2.43.0


From e888e0cd4b4f645ea4ea6d88c0953cb77820ba09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:17 +0000
Subject: [PATCH 22/53] fix: dhash insertion matches the cleared key of a
 removed entry

---
 src/util/dhash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/dhash.c b/src/util/dhash.c
index ec4df5f..5aaaa69 100644
--- a/src/util/dhash.c
+++ b/src/util/dhash.c
@@ -790,7 +790,7 @@ static inline bool dh__insert_ex(dhash *hash, dhKey key, void *value, dhIKey ike
       return true;
     }
 
-    if(
+    if(!WAS_DELETED(entry) &&
 #ifdef DH_USE_MEMOIZED_HASH
         entry->ikey == ikey &&
 #endif
-- 
2.43.0


From b7ae200d766dd3f1845dc258e79f2d0dcab50461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:17 +0000
Subject: [PATCH 23/53] fix: dhash removal destroys items without their key

---
 src/util/dhash.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/util/dhash.c b/src/util/dhash.c
index 5aaaa69..f8beb06 100644
--- a/src/util/dhash.c
+++ b/src/util/dhash.c
@@ -978,9 +978,10 @@ bool dh_remove(dhash *hash, dhKey key, void *value) {
 
   if(entry) { // Bucket found with matching key
     // Return removed value if caller wants to manage it, otherwise destroy it
-    // after we finish internal bookkeeping.
     if(value)
       memcpy(value, &entry->value_obj, hash->value_size);
+    else
+      hash->destroy_item(entry->key, &entry->value_obj, hash->ctx);
 
 #ifdef DH_USE_MEMOIZED_HASH
     entry->ikey = 0;
@@ -992,9 +993,6 @@ bool dh_remove(dhash *hash, dhKey key, void *value) {
     SET_DELETED(entry);
     hash->used_buckets--;
 
-    if(!value)
-      hash->destroy_item(entry->key, &entry->value_obj, hash->ctx);
-
     memset(&entry->value_obj, 0, hash->value_size);
 
     return true;
-- 
2.43.0


From 1f3a5621cbce30f2727b53848ba044a12322a3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:17 +0000
Subject: [PATCH 24/53] fix: dhash overruns external storage smaller than the
 least bucket count

---
 src/util/dhash.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/util/dhash.c b/src/util/dhash.c
index f8beb06..f3d0bf2 100644
--- a/src/util/dhash.c
+++ b/src/util/dhash.c
@@ -402,13 +402,16 @@ static inline bool dh__init(dhash *hash, dhConfig *config, void *ctx, bool new_h
     };
 
     if(config->ext_storage) {
+      size_t bucket_size = BUCKET_SIZE(config->value_size);
+      size_t ext_buckets = config->max_storage / bucket_size;
+
+      if(ext_buckets < (size_t)DH_MIN_BUCKETS)
+        return false;
+
       memset(config->ext_storage, 0, config->max_storage);
 
       hash->buckets = config->ext_storage;
 
-      size_t bucket_size = BUCKET_SIZE(config->value_size);
-      size_t ext_buckets = config->max_storage / bucket_size;
-
       // Set largest bucket count for our growth scheme
 #ifndef DH_USE_2X_GROWTH
       hash->prime_ix = get_closest_prime_index_below(ext_buckets);
-- 
2.43.0


From 718030e9a1e02d42ce961faf43b5e0ad4dd8644c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:37 +0000
Subject: [PATCH 25/53] fix: stdio seek from the end of file uses the wrong
 direction

---
 src/stdio_fs.c | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index b9b8f56..2e34249 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -159,17 +159,10 @@ static evfs_off_t stdio__file_size(EvfsFile *fh) {
 
 static int stdio__file_seek(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir origin) {
   StdioFile *fil = (StdioFile *)fh;
-  int sorg = SEEK_SET;
-
-  switch(origin) {
-    case EVFS_SEEK_TO:   sorg = SEEK_SET; break;
-    case EVFS_SEEK_REL:  sorg = SEEK_CUR; break;
-    case EVFS_SEEK_REV:  sorg = SEEK_END; break;
-    default:
-      break;
-  }
 
-  return simple_error(fseek(fil->fp, offset, sorg));
+  offset = evfs__absolute_offset(fh, offset, origin);
+
+  return simple_error(fseek(fil->fp, offset, SEEK_SET));
 }
 
 static evfs_off_t stdio__file_tell(EvfsFile *fh) {
-- 
2.43.0


From 02e516130980b9455864d9cf2f1a1e151bc35286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:38 +0000
Subject: [PATCH 26/53] fix: stdio truncate leaves buffered data to be written
 after truncation

---
 src/stdio_fs.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index 2e34249..6f6d28a 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -124,6 +124,9 @@ static int stdio__file_truncate(EvfsFile *fh, evfs_off_t size) {
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
+  // Buffered data must not be written after the new end of file
+  if(fflush(fil->fp) != 0) return EVFS_ERR;
+
   return simple_error(ftruncate(fileno(fil->fp), size));
 #else
   THROW(EVFS_ERR_NO_SUPPORT);
-- 
2.43.0


From 1e264a49efaa2681437bd4801e71c24b75b66fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:40 +0000
Subject: [PATCH 27/53] fix: read-only filesystems accept EVFS_NO_EXIST

---
 src/fatfs_fs.c    | 2 +-
 src/littlefs_fs.c | 2 +-
 src/romfs_fs.c    | 2 +-
 src/stdio_fs.c    | 2 +-
 src/tar_fs.c      | 2 +-
 src/tar_rsrc_fs.c | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index e5c15cb..00396fc 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -342,7 +342,7 @@ static int fatfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_fatfs_methods;
 
-  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
+  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
     return EVFS_ERR_DISABLED;
 
   BYTE fs_flags = 0;
diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index a6fb106..4e4bd1f 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -310,7 +310,7 @@ static int littlefs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags)
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_littlefs_methods;
 
-  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
+  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
     return EVFS_ERR_DISABLED;
 
   int lfs_flags = 0;
diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index 5b60ffe..46aa7a3 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -369,7 +369,7 @@ static int romfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_romfs_methods;
 
-  if(flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND))
+  if(flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND))
     return EVFS_ERR_NO_SUPPORT;
 
 
diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index 6f6d28a..bd45e02 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -278,7 +278,7 @@ static int stdio__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_stdio_methods;
 
-  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
+  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
     return EVFS_ERR_DISABLED;
 
   // Build mode string from flags
diff --git a/src/tar_fs.c b/src/tar_fs.c
index 441d4a7..b9ca054 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -406,7 +406,7 @@ static int tarfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_tarfs_methods;
 
-  if(flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND))
+  if(flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND))
     return EVFS_ERR_NO_SUPPORT;
 
 
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index f89f72f..4e1d865 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -427,7 +427,7 @@ static int tarfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_tarfs_methods;
 
-  if(flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND))
+  if(flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND))
     return EVFS_ERR_NO_SUPPORT;
 
 
-- 
2.43.0


From ac3994662fb541385f52f4fadda98f5793a4f4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:42 +0000
Subject: [PATCH 28/53] fix: stdio read, write and close hide host errors

---
 src/stdio_fs.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index bd45e02..720c6da 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -97,14 +97,20 @@ static int stdio__file_ctrl(EvfsFile *fh, int cmd, void *arg) {
 
 static int stdio__file_close(EvfsFile *fh) {
   StdioFile *fil = (StdioFile *)fh;
-  fclose(fil->fp);
+  int err = fclose(fil->fp);
   fil->fp = NULL;
-  return EVFS_OK;
+  return simple_error(err);
 }
 
 static ptrdiff_t stdio__file_read(EvfsFile *fh, void *buf, size_t size) {
   StdioFile *fil = (StdioFile *)fh;
-  return (ptrdiff_t)fread(buf, 1, size, fil->fp);
+  size_t count = fread(buf, 1, size, fil->fp);
+  if(count == 0 && size > 0 && ferror(fil->fp)) {
+    clearerr(fil->fp);
+    return EVFS_ERR_IO;
+  }
+
+  return (ptrdiff_t)count;
 }
 
 static ptrdiff_t stdio__file_write(EvfsFile *fh, const void *buf, size_t size) {
@@ -114,7 +120,13 @@ static ptrdiff_t stdio__file_write(EvfsFile *fh, const void *buf, size_t size) {
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
 
-  return (ptrdiff_t)fwrite(buf, 1, size, fil->fp);
+  size_t count = fwrite(buf, 1, size, fil->fp);
+  if(count == 0 && size > 0) {
+    clearerr(fil->fp);
+    return EVFS_ERR_IO;
+  }
+
+  return (ptrdiff_t)count;
 }
 
 static int stdio__file_truncate(EvfsFile *fh, evfs_off_t size) {
-- 
2.43.0


From 9723fab0dfa2f4925822f46552b30cc625d88943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:43 +0000
Subject: [PATCH 29/53] fix: stdio EVFS_WRITE with EVFS_OPEN_OR_NEW truncates
 an existing file

---
 src/stdio_fs.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index 720c6da..1db0d52 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -299,12 +299,13 @@ static int stdio__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
 
   if(flags & EVFS_APPEND)
     mode[mode_pos++] = 'a';
-  else if((flags & EVFS_OVERWRITE) || (flags & EVFS_NO_EXIST) || ((flags & EVFS_WRITE) && !(flags & EVFS_READ)))
+  else if((flags & EVFS_OVERWRITE) || (flags & EVFS_NO_EXIST) ||
+          ((flags & EVFS_WRITE) && !(flags & (EVFS_READ | EVFS_OPEN_OR_NEW))))
     mode[mode_pos++] = 'w';
   else // Default to reading
     mode[mode_pos++] = 'r';
 
-  if((flags & EVFS_WRITE) && (flags & EVFS_READ))
+  if((flags & EVFS_WRITE) && ((flags & EVFS_READ) || mode[0] == 'r'))
     mode[mode_pos++] = '+';
 
   mode[mode_pos++] = 'b'; // Always use binary mode
-- 
2.43.0


From ab2d09f28714a40e040b2fd3f619d14d10041e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:53 +0000
Subject: [PATCH 30/53] fix: tar file read advances past failed or short reads
 and mishandles huge sizes

---
 src/tar_fs.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/tar_fs.c b/src/tar_fs.c
index b9ca054..3e0a109 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -312,15 +312,19 @@ static ptrdiff_t tarfs__file_read(EvfsFile *fh, void *buf, size_t size) {
   evfs_off_t remaining = fil->file_size - fil->read_pos;
   if(remaining <= 0) return 0;
 
-  if((evfs_off_t)size > remaining)
+  if(size > (size_t)remaining)
     size = remaining;
 
   LOCK();
-  evfs_file_seek(fs_data->tar_file, fil->header_offset + TAR_BLOCK_SIZE + fil->read_pos, EVFS_SEEK_TO);
-  fil->read_pos += size;
-  ptrdiff_t rval = evfs_file_read(fs_data->tar_file, buf, size);
+  evfs_off_t data_offset = fil->header_offset + TAR_BLOCK_SIZE + fil->read_pos;
+  ptrdiff_t rval = evfs_file_seek(fs_data->tar_file, data_offset, EVFS_SEEK_TO);
+  if(rval == EVFS_OK)
+    rval = evfs_file_read(fs_data->tar_file, buf, size);
   UNLOCK();
 
+  if(rval > 0)
+    fil->read_pos += rval;
+
   return rval;
 }
 
-- 
2.43.0


From 67bbcf0377346d3f83bffefef871c6c4ffb96527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:55 +0000
Subject: [PATCH 31/53] fix: tar registration ignores an index that cannot be
 built

---
 src/tar_fs.c      | 8 +++++++-
 src/tar_rsrc_fs.c | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/tar_fs.c b/src/tar_fs.c
index 3e0a109..b1cf40d 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -577,7 +577,12 @@ int evfs_register_tar_fs(const char *vfs_name, EvfsFile *tar_file, bool default_
 
   TarFileIterator tar_it;
   tar_iter_init(&tar_it, fs_data->tar_file);
-  tarfs__build_index(&tar_it, &fs_data->tar_index);
+  int err = tarfs__build_index(&tar_it, &fs_data->tar_index);
+  if(err != EVFS_OK) {
+    tarfs__index_hash_free(&fs_data->tar_index);
+    evfs_free(new_vfs);
+    THROW(err);
+  }
 
   // Init VFS
   new_vfs->vfs_file_size = sizeof(TarfsFile);
@@ -596,6 +601,7 @@ int evfs_register_tar_fs(const char *vfs_name, EvfsFile *tar_file, bool default_
 
 #ifdef USE_TARFS_LOCK
   if(evfs__lock_init(&fs_data->tfs_lock) != EVFS_OK) {
+    tarfs__index_hash_free(&fs_data->tar_index);
     evfs_free(new_vfs);
     THROW(EVFS_ERR_INIT);
   }
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index 4e1d865..398ea6d 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -597,7 +597,12 @@ int evfs_register_tar_rsrc_fs(const char *vfs_name, uint8_t *resource, size_t re
 
   TarRsrcIterator tar_it;
   tar_rsrc_iter_init(&tar_it, resource, resource_len);
-  tarfs__build_index(&tar_it, &fs_data->tar_index);
+  int err = tarfs__build_index(&tar_it, &fs_data->tar_index);
+  if(err != EVFS_OK) {
+    tarfs__index_hash_free(&fs_data->tar_index);
+    evfs_free(new_vfs);
+    THROW(err);
+  }
 
   // Init VFS
   new_vfs->vfs_file_size = sizeof(TarfsFile);
@@ -616,6 +621,7 @@ int evfs_register_tar_rsrc_fs(const char *vfs_name, uint8_t *resource, size_t re
 
 #ifdef USE_TARFS_LOCK
   if(evfs__lock_init(&fs_data->tfs_lock) != EVFS_OK) {
+    tarfs__index_hash_free(&fs_data->tar_index);
     evfs_free(new_vfs);
     THROW(EVFS_ERR_INIT);
   }
-- 
2.43.0


From 7fa360ac29384b2a3665c50deaee4f080be5c187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:32 +0000
Subject: [PATCH 32/53] fix: romfs follows headers and file data outside of the
 image

---
 src/romfs_common.c | 16 ++++++++++++++--
 src/romfs_fs.c     |  6 ++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/romfs_common.c b/src/romfs_common.c
index 0e163f1..6051a1c 100644
--- a/src/romfs_common.c
+++ b/src/romfs_common.c
@@ -28,10 +28,17 @@ static inline int file_header_len(RomfsFileHead *hdr) {
 bool romfs_read_file_header(Romfs *fs, long hdr_pos, RomfsFileHead *hdr) {
   memset(hdr, 0, sizeof(*hdr));
 
+  if(hdr_pos < 0 || hdr_pos >= fs->total_size)
+    return false;
+
   ptrdiff_t buf_len = romfs_read(fs, hdr_pos, hdr, sizeof(*hdr));
   if(buf_len < ROMFS_MIN_HEADER_SIZE)
     return false;
 
+  // Names must be terminated
+  if(!memchr(hdr->file_name, '\0', sizeof(hdr->file_name)))
+    return false;
+
   int header_len = file_header_len(hdr);
 
   // Verify checksum
@@ -48,6 +55,11 @@ bool romfs_read_file_header(Romfs *fs, long hdr_pos, RomfsFileHead *hdr) {
   hdr->size         = get_unaligned_be(&hdr->size);
   hdr->header_len   = header_len; // Overwrite checksum
 
+  // File data must be inside the image
+  if(FILE_TYPE(hdr) == FILE_TYPE_REGULAR_FILE &&
+      (uint64_t)hdr_pos + header_len + hdr->size > (uint64_t)fs->total_size)
+    return false;
+
   return true;
 }
 
@@ -178,7 +190,7 @@ static int romfs__validate(Romfs *fs) {
   // We will read it in chunks to reduce stack usage.
 #define SUPERBLOCK_LEN  512
 #define CHUNK_LEN       64
-  uint32_t buf[CHUNK_LEN/4];
+  uint32_t buf[CHUNK_LEN/4] = {0};
 
   ptrdiff_t buf_len = romfs_read(fs, chunk_pos, buf, 4*COUNT_OF(buf));
   chunk_pos += CHUNK_LEN;
@@ -189,7 +201,7 @@ static int romfs__validate(Romfs *fs) {
   if(get_unaligned_le(&buf[0]) == 0x6D6F722D && get_unaligned_le(&buf[1]) == 0x2D736631) {
     uint32_t fs_bytes = get_unaligned_be(&buf[2]);
 
-    if(ASSERT((evfs_off_t)fs_bytes <= fs->total_size, "Invalid Romfs size"))
+    if(ASSERT(fs->total_size >= 0 && fs_bytes <= (uint32_t)fs->total_size, "Invalid Romfs size"))
       return EVFS_ERR_INVALID;
 
     // Iterate over chunks to verify checksum
diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index 46aa7a3..a5f3628 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -582,7 +582,9 @@ static void romfs_unmount_image(Romfs *fs) {
 
 static ptrdiff_t romfs_read_image(Romfs *fs, evfs_off_t offset, void *buf, size_t size) {
   EvfsFile *image = (EvfsFile *)fs->ctx;
-  evfs_file_seek(image, offset, EVFS_SEEK_TO);
+  int err = evfs_file_seek(image, offset, EVFS_SEEK_TO);
+  if(err != EVFS_OK) return err;
+
   return evfs_file_read(image, buf, size);
 }
 
@@ -624,7 +626,7 @@ ptrdiff_t romfs_read_rsrc(Romfs *fs, evfs_off_t offset, void *buf, size_t size)
     return EVFS_ERR_OVERFLOW;
 
   evfs_off_t remain = fs->total_size - offset;
-  size = MIN((evfs_off_t)size, remain);
+  size = MIN(size, (size_t)remain);
 
   memcpy(buf, fs_base + offset, size);
 
-- 
2.43.0


From 5a08940e3a70f119e572b2985cd47518bd463de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:34 +0000
Subject: [PATCH 33/53] fix: romfs file read advances past failed or short
 reads and mishandles huge sizes

---
 src/romfs_fs.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index a5f3628..ae3b014 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -193,13 +193,14 @@ static ptrdiff_t romfs__file_read(EvfsFile *fh, void *buf, size_t size) {
   evfs_off_t remaining = fil->hdr.size - fil->read_pos;
   if(remaining <= 0) return 0;
 
-  if((evfs_off_t)size > remaining)
+  if(size > (size_t)remaining)
     size = remaining;
 
   LOCK();
   evfs_off_t data_offset = FILE_OFFSET(&fil->hdr) + fil->hdr.header_len + fil->read_pos;
   ptrdiff_t rval = romfs_read(&fs_data->romfs, data_offset, buf, size);
-  fil->read_pos += size;
+  if(rval > 0)
+    fil->read_pos += rval;
   UNLOCK();
 
   //DPRINT("## READ: @ %ld,  %ld  '%02X'", fil->read_pos-size, size, *((uint8_t *)buf));
-- 
2.43.0


From 020f16a1930b8abd73a0764473ceaefa39e0c26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:35 +0000
Subject: [PATCH 34/53] fix: romfs hard links resolve to the wrong header

---
 src/romfs_common.c | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/romfs_common.c b/src/romfs_common.c
index 6051a1c..80af57b 100644
--- a/src/romfs_common.c
+++ b/src/romfs_common.c
@@ -63,6 +63,17 @@ bool romfs_read_file_header(Romfs *fs, long hdr_pos, RomfsFileHead *hdr) {
   return true;
 }
 
+// Replace a hard link with the header of its target
+static bool romfs__follow_link(Romfs *fs, evfs_off_t *hdr_pos, RomfsFileHead *hdr) {
+  if(FILE_TYPE(hdr) == FILE_TYPE_HARD_LINK) {
+    *hdr_pos = hdr->spec_info;
+    if(!romfs_read_file_header(fs, *hdr_pos, hdr) || FILE_TYPE(hdr) == FILE_TYPE_HARD_LINK)
+      return false;
+  }
+
+  return true;
+}
+
 // Scan a directory for file from a path
 static bool romfs__find_path_elem(Romfs *fs, evfs_off_t dir_pos, StringRange *element, RomfsFileHead *hdr) {
   evfs_off_t cur_hdr = dir_pos;
@@ -94,7 +105,8 @@ static int romfs__fast_lookup_abs_path(Romfs *fs, const char *path, RomfsFileHea
 
   alignas(uintptr_t) evfs_off_t entry;
   if(dh_lookup(&fs->fast_index.hash_table, key, &entry)) {
-    romfs_read_file_header(fs, entry, hdr);
+    if(!romfs_read_file_header(fs, entry, hdr) || !romfs__follow_link(fs, &entry, hdr))
+      return EVFS_ERR_NO_PATH;
     //DPRINT("## FAST LOOKUP: @ %08X %08X %s -> '%s'", entry, FILE_OFFSET(hdr), path, hdr->file_name);
     hdr->offset = entry | FILE_MODE(hdr); // Replace with offset of the element
     status = EVFS_OK;
@@ -143,16 +155,17 @@ static int romfs__lookup_abs_path(Romfs *fs, const char *path, RomfsFileHead *hd
     end_scan = false;
 
     if(romfs__find_path_elem(fs, dir_pos, &element, hdr)) {
+      if(FILE_TYPE(hdr) == FILE_TYPE_HARD_LINK) { // Follow link dest
+        evfs_off_t link_pos;
+        if(!romfs__follow_link(fs, &link_pos, hdr))
+          return EVFS_ERR_NO_PATH;
+
+        hdr->offset = link_pos | FILE_MODE(hdr); // Replace with offset of the element
+      }
+
       file_type = FILE_TYPE(hdr);
       switch(file_type) {
 
-      case FILE_TYPE_HARD_LINK:
-        dir_pos = hdr->spec_info;  // Follow link dest
-        romfs_read_file_header(fs, dir_pos, hdr); // Reparse header (should never fail)
-        dir_pos = hdr->spec_info; // First file in dir
-        //DPRINT("FOLLOW LINK: %08X", dir_pos);
-        break;
-
       case FILE_TYPE_DIRECTORY:
         dir_pos = hdr->spec_info; // First file in dir
         //DPRINT("FOLLOW DIR: %.*s  %08X --> %08X", RANGE_FMT(&element), FILE_OFFSET(hdr), dir_pos);
-- 
2.43.0


From e6cd3336a493e972cdd396ad4e7ceb6b580df539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:23 +0000
Subject: [PATCH 35/53] fix: romfs directory listing reports hard linked files
 as directories

---
 src/romfs_common.c |  6 +++++-
 src/romfs_fs.c     | 11 ++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/romfs_common.c b/src/romfs_common.c
index 80af57b..535a2c7 100644
--- a/src/romfs_common.c
+++ b/src/romfs_common.c
@@ -147,7 +147,11 @@ static int romfs__lookup_abs_path(Romfs *fs, const char *path, RomfsFileHead *hd
   bool end_scan;
 
   if(status != EVFS_OK) { // Assume this is the root path
-    return romfs_read_file_header(fs, dir_pos, hdr) ? EVFS_OK : EVFS_ERR_NO_PATH;
+    if(!romfs_read_file_header(fs, dir_pos, hdr))
+      return EVFS_ERR_NO_PATH;
+
+    hdr->offset = dir_pos | FILE_MODE(hdr); // Replace with offset of the element
+    return EVFS_OK;
   }
 
   while(status == EVFS_OK) {
diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index ae3b014..4645856 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -318,7 +318,16 @@ static int romfs__dir_read(EvfsDir *dh, EvfsInfo *info) {
     info->size = dir->cur_file.size;
 
     int file_type = FILE_TYPE(&dir->cur_file);
-    if(file_type == FILE_TYPE_DIRECTORY || file_type == FILE_TYPE_HARD_LINK)
+
+    if(file_type == FILE_TYPE_HARD_LINK) { // Get info from the link target
+      RomfsFileHead target;
+      if(romfs_read_file_header(&fs_data->romfs, dir->cur_file.spec_info, &target)) {
+        info->size = target.size;
+        file_type = FILE_TYPE(&target);
+      }
+    }
+
+    if(file_type == FILE_TYPE_DIRECTORY)
       info->type |= EVFS_FILE_DIR;
   }
 
-- 
2.43.0


From 3f5707e2ea05da6e4536c0472665a08c4031283a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:24 +0000
Subject: [PATCH 36/53] fix: romfs index and lookup mishandle damaged directory
 lists

---
 src/romfs_common.c | 49 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/src/romfs_common.c b/src/romfs_common.c
index 535a2c7..845a43b 100644
--- a/src/romfs_common.c
+++ b/src/romfs_common.c
@@ -78,7 +78,10 @@ static bool romfs__follow_link(Romfs *fs, evfs_off_t *hdr_pos, RomfsFileHead *hd
 static bool romfs__find_path_elem(Romfs *fs, evfs_off_t dir_pos, StringRange *element, RomfsFileHead *hdr) {
   evfs_off_t cur_hdr = dir_pos;
 
-  while(cur_hdr != 0) {
+  // A damaged image can have a circular list of files
+  evfs_off_t max_files = fs->total_size / ROMFS_MIN_HEADER_SIZE;
+
+  while(cur_hdr != 0 && max_files-- > 0) {
     if(!romfs_read_file_header(fs, cur_hdr, hdr))
       break;
 
@@ -319,12 +322,14 @@ static int romfs__get_dir(Romfs *fs, const char *path, RomfsFileHead *hdr,
 
   if(status == EVFS_OK) {
     // Get first file in directory
-    romfs_read_file_header(fs, hdr->spec_info, hdr) ? EVFS_OK : EVFS_ERR;
+    if(!romfs_read_file_header(fs, hdr->spec_info, hdr))
+      return EVFS_ERR;
 
     // Skip hard link entries
-    romfs__get_next_file(fs, hdr, cur_file_offset);
-
     status = romfs__get_next_file(fs, hdr, cur_file_offset);
+
+    if(status == EVFS_OK)
+      status = romfs__get_next_file(fs, hdr, cur_file_offset);
   }
 
   return status;
@@ -334,12 +339,17 @@ static int romfs__get_dir(Romfs *fs, const char *path, RomfsFileHead *hdr,
 
 
 // Recursively scan the filesystem and collect stats on all paths
-static size_t scan_dir_tree(Romfs *fs, const char *path, size_t prefix_len, int *total_files) {
+static int scan_dir_tree(Romfs *fs, const char *path, size_t prefix_len, int *total_files,
+                          size_t *total_path_len) {
   RomfsFileHead cur_file;
   evfs_off_t    cur_file_offset;
   int status;
 
-  size_t total_path_len = 0;
+  // A damaged image can have circular lists of files and directories
+  const int max_files = fs->total_size / ROMFS_MIN_HEADER_SIZE;
+
+  if(prefix_len >= EVFS_MAX_PATH)
+    return EVFS_ERR_OVERFLOW;
 
   status = romfs__get_dir(fs, path, &cur_file, &cur_file_offset, NULL);
   //DPRINT("OPEN DIR: %s %d", path, status);
@@ -347,15 +357,16 @@ static size_t scan_dir_tree(Romfs *fs, const char *path, size_t prefix_len, int
   do {
     if(status == EVFS_OK) {
       //DPRINT("  '%s'  %08X  %08X", cur_file.file_name, cur_file_offset, FILE_OFFSET(&cur_file));
-      (*total_files)++;
+      if(++(*total_files) > max_files)
+        return EVFS_ERR_OVERFLOW;
 
       if(FILE_TYPE(&cur_file) == FILE_TYPE_DIRECTORY) {
         // Build path to sub directory
         size_t new_prefix_len = prefix_len + 1 + strlen(cur_file.file_name);
-        total_path_len += new_prefix_len; // Entry for the directory
+        *total_path_len += new_prefix_len; // Entry for the directory
 
         char *sub_path = malloc(new_prefix_len+1);
-        if(MEM_CHECK(sub_path)) return 0;
+        if(MEM_CHECK(sub_path)) return EVFS_ERR_ALLOC;
 
         AppendRange sub_path_r;
         range_init(&sub_path_r, sub_path, new_prefix_len+1);
@@ -364,18 +375,19 @@ static size_t scan_dir_tree(Romfs *fs, const char *path, size_t prefix_len, int
         range_cat_str(&sub_path_r, cur_file.file_name);
 
         //DPRINT("SUB PATH: '%s'  %08X", sub_path, cur_file_offset);
-        total_path_len += scan_dir_tree(fs, sub_path, new_prefix_len, total_files);
+        int err = scan_dir_tree(fs, sub_path, new_prefix_len, total_files, total_path_len);
         free(sub_path);
+        if(err != EVFS_OK) return err;
 
       } else { // Normal file
-        total_path_len += prefix_len + 1 + strlen(cur_file.file_name);
+        *total_path_len += prefix_len + 1 + strlen(cur_file.file_name);
       }
 
       status = romfs__get_next_file(fs, &cur_file, &cur_file_offset);
     }
   } while(status == EVFS_OK);
 
-  return total_path_len;
+  return EVFS_OK;
 }
 
 
@@ -424,8 +436,9 @@ static int index_dir_tree(Romfs *fs, const char *path, size_t prefix_len, RomfsI
 
         //DPRINT("SUB PATH: '%s'", sub_path);
 
-        index_dir_tree(fs, sub_path, new_prefix_len, ht, keys_r);
+        int err = index_dir_tree(fs, sub_path, new_prefix_len, ht, keys_r);
         free(sub_path);
+        if(err != EVFS_OK) return err;
 
       } else { // Normal file
         // Prepare key
@@ -461,7 +474,9 @@ static int romfs__build_index(Romfs *fs, RomfsIndex *ht) {
   size_t total_path_len = 0;
   int total_files = 0;
 
-  total_path_len = scan_dir_tree(fs, "", 0, &total_files);
+  status = scan_dir_tree(fs, "", 0, &total_files, &total_path_len);
+  if(status != EVFS_OK) return status;
+
   // Add space for root entry
   total_files++;
   total_path_len += 1;
@@ -475,9 +490,13 @@ static int romfs__build_index(Romfs *fs, RomfsIndex *ht) {
     status = index_dir_tree(fs, "", 0, ht, &keys_r);
     //dump_array((uint8_t *)ht->keys, total_path_len);
 
-    fs->lookup_abs_path = romfs__fast_lookup_abs_path;
+    if(status == EVFS_OK)
+      fs->lookup_abs_path = romfs__fast_lookup_abs_path;
   }
 
+  if(status != EVFS_OK) // Use slow lookup without the index
+    romfs__fast_index_free(ht);
+
   return status;
 }
 
-- 
2.43.0


From 6d469ddebd4ed0f8ad3df01fed4624a2a711ba49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:50 +0000
Subject: [PATCH 37/53] fix: get_unaligned_u64 returns only 32 bits

---
 include/evfs/util/unaligned_access.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/evfs/util/unaligned_access.h b/include/evfs/util/unaligned_access.h
index abaf28b..9e38bb7 100644
--- a/include/evfs/util/unaligned_access.h
+++ b/include/evfs/util/unaligned_access.h
@@ -268,7 +268,7 @@ static inline void set_unaligned_s32le(int32_t value, void *dest) {
 
 // ******************** uint64_t ********************
 
-static inline uint32_t get_unaligned_u64(const void *data) {
+static inline uint64_t get_unaligned_u64(const void *data) {
   const uint8_t *bdata = (const uint8_t *)data; // Don't allow any assumed alignment 
   uint64_t val;
 
-- 
2.43.0


From 1787c4e744cc02dd039a2d2be26fb48d2402439b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:52 +0000
Subject: [PATCH 38/53] fix: romfs registration leaks the VFS object of an
 invalid image

---
 src/romfs_fs.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index 4645856..c1e1091 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -576,8 +576,13 @@ static int evfs__register_romfs_cfg(const char *vfs_name, RomfsConfig *cfg, bool
     .unmount    = romfs_unmount_image
   };*/
   int status = romfs_init(&fs_data->romfs, cfg);
-  if(status != EVFS_OK)
+  if(status != EVFS_OK) {
+#ifdef USE_ROMFS_LOCK
+    evfs__lock_destroy(&fs_data->romfs_lock);
+#endif
+    evfs_free(new_vfs);
     return status;
+  }
 
   return evfs_register(new_vfs, default_vfs);
 }
-- 
2.43.0


From 8d68337f83298a5cfa7f3fb1466cdac900c71f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:53 +0000
Subject: [PATCH 39/53] fix: glob ranges loop forever, match the end of the
 string, or overrun the pattern

---
 src/util/glob.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/util/glob.c b/src/util/glob.c
index efda6d7..3f370b7 100644
--- a/src/util/glob.c
+++ b/src/util/glob.c
@@ -62,13 +62,14 @@ typedef struct {
   uint32_t chars[8]; // 256 bits
 } CharSet;
 
-#define ADD_TO_SET(cs, c)      ((cs)->chars[((uint8_t)(c)) / 32] |= (1 << ( ((uint8_t)(c)) % 32)) )
-#define CHAR_IS_IN_SET(cs, c)  ((cs)->chars[((uint8_t)(c)) / 32] & (1 << ( ((uint8_t)(c)) % 32)) )
+#define ADD_TO_SET(cs, c)      ((cs)->chars[((uint8_t)(c)) / 32] |= (UINT32_C(1) << ( ((uint8_t)(c)) % 32)) )
+#define CHAR_IS_IN_SET(cs, c)  ((cs)->chars[((uint8_t)(c)) / 32] & (UINT32_C(1) << ( ((uint8_t)(c)) % 32)) )
 #define COUNT_OF(a)            (sizeof(a) / sizeof(*a))
 
 static const char *parse_range_def(const char *pat_pos, CharSet *cs) {
   const char *rng_pos;
-  char ch, end_ch;
+  int ch;
+  char end_ch;
   bool invert = false;
 
   if(*(pat_pos+1) == '!') {
@@ -85,7 +86,7 @@ static const char *parse_range_def(const char *pat_pos, CharSet *cs) {
         break;
       }
 
-      for(ch = *rng_pos; ch <= end_ch; ch++) { // Add all chars in span
+      for(ch = (uint8_t)*rng_pos; ch <= (uint8_t)end_ch; ch++) { // Add all chars in span
         ADD_TO_SET(cs, ch);
       }
       rng_pos += 2;
@@ -168,9 +169,9 @@ bool glob_match(const char *pattern, const char *str, const char *dir_separators
       case '[': // Character range
         memset(&cs, 0, sizeof(cs));
         pat_pos = parse_range_def(pat_pos, &cs);
-        if(CHAR_IS_IN_SET(&cs, s_ch)) {
+        if(s_ch != '\0' && CHAR_IS_IN_SET(&cs, s_ch)) {
           str_pos++;
-          pat_pos++;
+          if(*pat_pos != '\0') pat_pos++; // Stay on the end of an unterminated range
           continue;
         }
         break;
-- 
2.43.0


From 73a0983c7e83aad2a394c46ad0bdd11b6f315ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 40/53] fix: signed big and little endian reads overflow a
 signed shift

---
 include/evfs/util/unaligned_access.h | 68 ++++++++++++++--------------
 1 file changed, 34 insertions(+), 34 deletions(-)

diff --git a/include/evfs/util/unaligned_access.h b/include/evfs/util/unaligned_access.h
index 9e38bb7..b13349a 100644
--- a/include/evfs/util/unaligned_access.h
+++ b/include/evfs/util/unaligned_access.h
@@ -221,24 +221,24 @@ static inline int32_t get_unaligned_s32(const void *data) {
 
 static inline int32_t get_unaligned_s32be(const void *data) {
   const uint8_t *bdata = (const uint8_t *)data;
-  int32_t val = 0;
+  uint32_t val = 0; // Shift unsigned bytes to avoid overflow
 
-  val |= (int32_t)bdata[3];
-  val |= (int32_t)bdata[2] << 8;
-  val |= (int32_t)bdata[1] << 16;
-  val |= (int32_t)bdata[0] << 24;
-  return val;
+  val |= (uint32_t)bdata[3];
+  val |= (uint32_t)bdata[2] << 8;
+  val |= (uint32_t)bdata[1] << 16;
+  val |= (uint32_t)bdata[0] << 24;
+  return (int32_t)val;
 }
 
 static inline int32_t get_unaligned_s32le(const void *data) {
   const uint8_t *bdata = (const uint8_t *)data;
-  int32_t val = 0;
+  uint32_t val = 0; // Shift unsigned bytes to avoid overflow
 
-  val |= (int32_t)bdata[0];
-  val |= (int32_t)bdata[1] << 8;
-  val |= (int32_t)bdata[2] << 16;
-  val |= (int32_t)bdata[3] << 24;
-  return val;
+  val |= (uint32_t)bdata[0];
+  val |= (uint32_t)bdata[1] << 8;
+  val |= (uint32_t)bdata[2] << 16;
+  val |= (uint32_t)bdata[3] << 24;
+  return (int32_t)val;
 }
 
 
@@ -351,32 +351,32 @@ static inline int64_t get_unaligned_s64(const void *data) {
 
 static inline int64_t get_unaligned_s64be(const void *data) {
   const uint8_t *bdata = (const uint8_t *)data;
-  int64_t val = 0;
-
-  val |= (int64_t)bdata[7];
-  val |= (int64_t)bdata[6] << 8;
-  val |= (int64_t)bdata[5] << 16;
-  val |= (int64_t)bdata[4] << 24;
-  val |= (int64_t)bdata[3] << 32;
-  val |= (int64_t)bdata[2] << 40;
-  val |= (int64_t)bdata[1] << 48;
-  val |= (int64_t)bdata[0] << 56;
-  return val;
+  uint64_t val = 0; // Shift unsigned bytes to avoid overflow
+
+  val |= (uint64_t)bdata[7];
+  val |= (uint64_t)bdata[6] << 8;
+  val |= (uint64_t)bdata[5] << 16;
+  val |= (uint64_t)bdata[4] << 24;
+  val |= (uint64_t)bdata[3] << 32;
+  val |= (uint64_t)bdata[2] << 40;
+  val |= (uint64_t)bdata[1] << 48;
+  val |= (uint64_t)bdata[0] << 56;
+  return (int64_t)val;
 }
 
 static inline int64_t get_unaligned_s64le(const void *data) {
   const uint8_t *bdata = (const uint8_t *)data;
-  int64_t val = 0;
-
-  val |= (int64_t)bdata[0];
-  val |= (int64_t)bdata[1] << 8;
-  val |= (int64_t)bdata[2] << 16;
-  val |= (int64_t)bdata[3] << 24;
-  val |= (int64_t)bdata[4] << 32;
-  val |= (int64_t)bdata[5] << 40;
-  val |= (int64_t)bdata[6] << 48;
-  val |= (int64_t)bdata[7] << 56;
-  return val;
+  uint64_t val = 0; // Shift unsigned bytes to avoid overflow
+
+  val |= (uint64_t)bdata[0];
+  val |= (uint64_t)bdata[1] << 8;
+  val |= (uint64_t)bdata[2] << 16;
+  val |= (uint64_t)bdata[3] << 24;
+  val |= (uint64_t)bdata[4] << 32;
+  val |= (uint64_t)bdata[5] << 40;
+  val |= (uint64_t)bdata[6] << 48;
+  val |= (uint64_t)bdata[7] << 56;
+  return (int64_t)val;
 }
 
 
-- 
2.43.0


From bafcd1079b77eb32ce98d076f31fe2fdf31aea7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 41/53] fix: ceil_pow2 and log2_fixed are undefined for an
 argument of one

---
 src/util/intmath.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/util/intmath.c b/src/util/intmath.c
index d5eb0d0..6f30ba8 100644
--- a/src/util/intmath.c
+++ b/src/util/intmath.c
@@ -58,6 +58,7 @@ static int clz(unsigned x) {
 #endif
 
 uint32_t ceil_pow2(uint32_t x) {
+  if(x <= 1) return 1; // clz(0) is undefined
   return 1ul << (32 - clz(x - 1));
 }
 
@@ -108,7 +109,7 @@ int32_t log2_fixed(uint32_t n, unsigned fp_exp) {
   int32_t l2_int = -zeros;
 
   // Extract fraction scaled by 2^32 so it is left justified
-  uint32_t frac = n << (zeros + 1);
+  uint32_t frac = n << zeros << 1; // Shift twice since zeros+1 can be 32
   int ix = frac >> ((8*sizeof frac) - LOG2_TABLE_BITS); // Index into table with upper bits of fraction
   int32_t l2_frac = log2_table[ix];
 
@@ -121,7 +122,7 @@ int32_t log2_fixed(uint32_t n, unsigned fp_exp) {
   l2_frac = (((l2_frac_b - l2_frac) * ix_frac) >> LOG2_FP_EXP) + l2_frac;
 
   // Merge integer and fraction
-  l2_int = (l2_int << LOG2_FP_EXP) + l2_frac;
+  l2_int = l2_int * (1l << LOG2_FP_EXP) + l2_frac;
 
   // Adjust for exponent on input n
   // Internally n is treated as if it is always in Q0.31 format.
-- 
2.43.0


From 90c10cd2098da9fef3ebd6d9bcd3409d587b0ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:34 +0000
Subject: [PATCH 42/53] fix: generated binary search truncates the comparison
 result

---
 include/evfs/util/search.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/evfs/util/search.h b/include/evfs/util/search.h
index d8f8084..af6cb76 100644
--- a/include/evfs/util/search.h
+++ b/include/evfs/util/search.h
@@ -91,7 +91,7 @@ of code:
 \
     while(low <= high) { \
       ptrdiff_t mid = low + (high-low)/2; \
-      int delta = compare(key, base + mid*item_size); \
+      ptrdiff_t delta = compare(key, base + mid*item_size); \
       if(delta < 0) { \
         high = mid-1; \
       } else if(delta > 0) { \
-- 
2.43.0


From 9cf2421d638dcb517dfc39d1e11aa94249119a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:23 +0000
Subject: [PATCH 43/53] Add verifier loop contracts to the search functions
 (EVFS_VERIFY)

---
 src/util/search.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/util/search.c b/src/util/search.c
index 40aa1f5..a35e262 100644
--- a/src/util/search.c
+++ b/src/util/search.c
@@ -62,6 +62,21 @@ This logic reverses if the array is sorted in descending order.
 #include <stddef.h>
 #include "util/search.h"
 
+// Loop contracts for the verifier; they expand to nothing in a normal build
+#ifdef EVFS_VERIFY
+// Ghost description of the sorted array: items below ghost_lo precede the key, items from
+// ghost_hi on follow it, and those between are equal to it.
+extern long evfs_ghost_lo, evfs_ghost_hi;
+#  define SEARCH_LOOP \
+    __CPROVER_assigns(low, high) \
+    __CPROVER_loop_invariant(0 <= low && low <= evfs_ghost_lo) \
+    __CPROVER_loop_invariant(evfs_ghost_hi - 1 <= high && high < (ptrdiff_t)num) \
+    __CPROVER_loop_invariant(low <= high + 1) \
+    __CPROVER_decreases(high - low + 1)
+#else
+#  define SEARCH_LOOP
+#endif
+
 /*
 Search an array for an exact matching item
 
@@ -88,7 +103,9 @@ ptrdiff_t search_exact(const void *key, const void *base, size_t num, size_t ite
   ptrdiff_t high = num-1;
 
   // Normal binary search
-  while(low <= high) {
+  while(low <= high)
+  SEARCH_LOOP
+  {
     ptrdiff_t mid = low + (high-low)/2;
 
     ptrdiff_t delta = compare_near(key, (char *)base + mid*item_size);
@@ -133,7 +150,9 @@ size_t search_nearest(const void *key, const void *base, size_t num, size_t item
   ptrdiff_t high = num-1;
 
   // Normal binary search
-  while(low <= high) {
+  while(low <= high)
+  SEARCH_LOOP
+  {
     ptrdiff_t mid = low + (high-low)/2;
 
     ptrdiff_t delta = compare_near(key, (char *)base + mid*item_size); 
-- 
2.43.0


From 5219091aabce502b4a048d49293497add0eab5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:49 +0000
Subject: [PATCH 44/53] fix: stdio delete, rename, truncate, opendir and chdir
 hide the host error code

---
 src/stdio_fs.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index 1db0d52..c014f53 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -85,6 +85,13 @@ static int translate_error(int err) {
 
 #define simple_error(e)  ((e) == 0 ? EVFS_OK : EVFS_ERR)
 
+// Result of host functions that set errno
+#ifdef EVFS_USE_STDIO_POSIX
+#  define host_error(e)    ((e) == 0 ? EVFS_OK : translate_error(errno))
+#else
+#  define host_error(e)    simple_error(e)
+#endif
+
 
 
 // ******************** File access methods ********************
@@ -139,7 +146,7 @@ static int stdio__file_truncate(EvfsFile *fh, evfs_off_t size) {
   // Buffered data must not be written after the new end of file
   if(fflush(fil->fp) != 0) return EVFS_ERR;
 
-  return simple_error(ftruncate(fileno(fil->fp), size));
+  return host_error(ftruncate(fileno(fil->fp), size));
 #else
   THROW(EVFS_ERR_NO_SUPPORT);
 #endif
@@ -377,7 +384,7 @@ static int stdio__delete(Evfs *vfs, const char *path) {
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
-  return simple_error(remove(path));
+  return host_error(remove(path));
 }
 
 
@@ -386,7 +393,7 @@ static int stdio__rename(Evfs *vfs, const char *old_path, const char *new_path)
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
-  return simple_error(rename(old_path, new_path));
+  return host_error(rename(old_path, new_path));
 }
 
 
@@ -412,7 +419,7 @@ static int stdio__open_dir(Evfs *vfs, const char *path, EvfsDir *dh) {
 
   dir->dp = opendir(path);
 
-  return dir->dp ? EVFS_OK : EVFS_ERR;
+  return host_error(dir->dp ? 0 : -1);
 }
 
 
@@ -425,7 +432,7 @@ static int stdio__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
 }
 
 static int stdio__set_cur_dir(Evfs *vfs, const char *path) {
-  return simple_error(chdir(path));
+  return host_error(chdir(path));
 }
 
 #endif
-- 
2.43.0


From 13b58ce49024ee4e1388e9ea6fc2adc8c85648be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 45/53] fix: dhash probe counts grow without limit on repeated
 insertion and removal

---
 src/util/dhash.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/util/dhash.c b/src/util/dhash.c
index f3d0bf2..13ecf8d 100644
--- a/src/util/dhash.c
+++ b/src/util/dhash.c
@@ -977,7 +977,7 @@ Returns:
 */
 bool dh_remove(dhash *hash, dhKey key, void *value) {
   dhBucketEntry *entry = NULL;
-  dh__find_bucket(hash, key, &entry);
+  dhBucketIndex b = dh__find_bucket(hash, key, &entry);
 
   if(entry) { // Bucket found with matching key
     // Return removed value if caller wants to manage it, otherwise destroy it
@@ -986,17 +986,23 @@ bool dh_remove(dhash *hash, dhKey key, void *value) {
     else
       hash->destroy_item(entry->key, &entry->value_obj, hash->ctx);
 
-#ifdef DH_USE_MEMOIZED_HASH
-    entry->ikey = 0;
-#endif
-    entry->key.data = NULL;
-    entry->key.length = 0;
+    // Shift the displaced entries that follow one bucket back. Leaving the probe count behind
+    // would make the probe sequences grow without limit on repeated insertion and removal.
+    const size_t bucket_size = BUCKET_SIZE(hash->value_size);
+    while(1) {
+      b = next_bucket(hash, b);
+      dhBucketEntry *next = dh__get_entry_unsafe(hash, b);
 
-    // We need to preserve the probe count so turn this into a tombstone
-    SET_DELETED(entry);
-    hash->used_buckets--;
+      if(PROBE_COUNT(next) <= 1) // Unused or already in its initial bucket
+        break;
 
-    memset(&entry->value_obj, 0, hash->value_size);
+      memcpy(entry, next, bucket_size);
+      SET_PROBE_COUNT(entry, PROBE_COUNT(entry) - 1);
+      entry = next;
+    }
+
+    memset(entry, 0, bucket_size);
+    hash->used_buckets--;
 
     return true;
   }
-- 
2.43.0


From 973726b143dfd23a936bfa7860ff9eb5e87b8ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:47 +0000
Subject: [PATCH 46/53] fix: dhash reserves too few buckets for some capacities

---
 src/util/dhash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/dhash.c b/src/util/dhash.c
index 13ecf8d..295c4a5 100644
--- a/src/util/dhash.c
+++ b/src/util/dhash.c
@@ -1090,7 +1090,7 @@ bool dh_reserve_capacity(dhash *hash, size_t add_capacity) {
 
   // Add space for extra buckets
   const size_t lfactor = MAX_LOAD_FACTOR(128UL); // Get the numerator
-  size_t new_buckets = (hash_capacity + add_capacity) * 128UL / lfactor;
+  size_t new_buckets = ((hash_capacity + add_capacity) * 128UL + lfactor - 1) / lfactor; // Round up
 
   return dh__grow(hash, new_buckets);
 }
-- 
2.43.0


From 458c238df9ab236c72efa6d0bfa0deb8b7a1a02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:14 +0000
Subject: [PATCH 47/53] fix: glob star matches directory separators when
 backtracking

---
 src/util/glob.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/glob.c b/src/util/glob.c
index 3f370b7..77d24b8 100644
--- a/src/util/glob.c
+++ b/src/util/glob.c
@@ -188,7 +188,8 @@ bool glob_match(const char *pattern, const char *str, const char *dir_separators
     }
 
     // Mismatch; Recover with backtracking or fail
-    if(pat_star && s_ch != '\0' && !char_match(s_ch, dir_separators)) {
+    // The star takes one more character, which can't be a directory separator
+    if(pat_star && s_ch != '\0' && !char_match(*(str_star-1), dir_separators)) {
       str_pos = str_star;
       pat_pos = pat_star;
       continue;
-- 
2.43.0


From 3351e076d0e3fc9ee9c6bf0eaf85e4005d132811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:10 +0000
Subject: [PATCH 48/53] fix: getopt reads past the argument list after a
 missing short option argument

---
 src/util/getopt_r.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/getopt_r.c b/src/util/getopt_r.c
index dd79602..0734034 100644
--- a/src/util/getopt_r.c
+++ b/src/util/getopt_r.c
@@ -284,6 +284,7 @@ int getopt_long_r(char * const argv[], const char *optstring, const struct optio
               state->optarg = CUR_OPT;
             } else { // Exhausted all options without finding an argument
               state->optarg = NULL;
+              state->optind--; // Stay on the last argument
 
               if(state->report_errors)
                 fprintf(stderr, "ERROR: getopt_r() Missing required argument to option '-%c'\n",
-- 
2.43.0


From e347e11047c69b9de7f80993fd96180cba6ef480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:11 +0000
Subject: [PATCH 49/53] fix: getopt accepts ':' as an option

---
 src/util/getopt_r.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/getopt_r.c b/src/util/getopt_r.c
index 0734034..8a2eab0 100644
--- a/src/util/getopt_r.c
+++ b/src/util/getopt_r.c
@@ -268,7 +268,8 @@ int getopt_long_r(char * const argv[], const char *optstring, const struct optio
     rval = state->optopt;
 
     // Search optstring for the current option
-    const char *opt_def = strchr(optstring, state->optopt);
+    // The ':' markers in optstring aren't options
+    const char *opt_def = state->optopt != ':' ? strchr(optstring, state->optopt) : NULL;
 
     if(opt_def) {
 
-- 
2.43.0


From 8b41583f948dd5ee597bdbfb4f5351ef208cd716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:25 +0000
Subject: [PATCH 50/53] fix: getopt skips operands before a long option without
 a long option table

---
 src/util/getopt_r.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/getopt_r.c b/src/util/getopt_r.c
index 8a2eab0..9d6f03a 100644
--- a/src/util/getopt_r.c
+++ b/src/util/getopt_r.c
@@ -174,8 +174,10 @@ int getopt_long_r(char * const argv[], const char *optstring, const struct optio
   if(CUR_OPT[1] == '-') {  // Parse long option
     state->next_char = NULL;
 
-    if(!long_options)
+    if(!long_options) {
+      state->optind -= non_opts;  // Point to first non-option
       return -1;
+    }
 
     char *long_opt = &CUR_OPT[2];
     state->optind++;
-- 
2.43.0


From 5d9dfcc6576165720293a92aeabdb9bf407e8b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:59 +0000
Subject: [PATCH 51/53] fix: strlcat() reads a byte past the end of an
 unterminated destination

---
 src/util/bsd_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/bsd_string.c b/src/util/bsd_string.c
index 354aa91..90bf069 100644
--- a/src/util/bsd_string.c
+++ b/src/util/bsd_string.c
@@ -113,7 +113,7 @@ size_t strlcat(char *dst, const char *src, size_t size) {
   size_t cat_len = 0;
 
   if(size > 0) {
-    while(*dst != '\0' && cat_len < size) {
+    while(cat_len < size && *dst != '\0') {
       dst++;
       cat_len++;
     }
-- 
2.43.0


From cc7202d1ef42ce0c13041c60928c6203b473a31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:00 +0000
Subject: [PATCH 52/53] fix: strxcpy() reads a byte past the end of the
 substring it copies

---
 src/util/bsd_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/bsd_string.c b/src/util/bsd_string.c
index 90bf069..2d40de5 100644
--- a/src/util/bsd_string.c
+++ b/src/util/bsd_string.c
@@ -83,7 +83,7 @@ size_t strxcpy(char *dst, const char *src, size_t size) {
 
   if(size > 0) {
     size--;
-    while(*src != '\0' && copied < size) {
+    while(copied < size && *src != '\0') {
       *dst++ = *src++;
       copied++;
     }
-- 
2.43.0


From 61c54703e1899028f4865a22b7a215c56a744f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:32 +0000
Subject: [PATCH 53/53] Add verifier loop contracts to the string and path
 functions (EVFS_VERIFY)

---
 include/evfs/util/verify_loops.h | 113 +++++++++++++++++++++++++++++++
 src/evfs_path.c                  |   9 ++-
 src/util/bsd_string.c            |  17 +++--
 src/util/range_strings.c         |  61 +++++++++++++----
 4 files changed, 182 insertions(+), 18 deletions(-)
 create mode 100644 include/evfs/util/verify_loops.h

diff --git a/include/evfs/util/verify_loops.h b/include/evfs/util/verify_loops.h
new file mode 100644
index 0000000..baf3cbe
--- /dev/null
+++ b/include/evfs/util/verify_loops.h
@@ -0,0 +1,113 @@
+/* SPDX-License-Identifier: MIT
+Loop contracts for the verifier. They expand to nothing unless EVFS_VERIFY is defined.
+*/
+#ifndef VERIFY_LOOPS_H
+#define VERIFY_LOOPS_H
+
+#ifdef EVFS_VERIFY
+// Ghost state set by the verifier's harness: evfs_ghost_k is an arbitrary index into the text, evfs_ghost_max
+// bounds the readable text, *evfs_ghost_out is an arbitrary byte outside the target range holding evfs_ghost_val.
+extern size_t evfs_ghost_k, evfs_ghost_max;
+extern char *evfs_ghost_out, evfs_ghost_val;
+extern const char *evfs_ghost_base;  // Start of the text
+extern size_t evfs_ghost_puts; extern int evfs_ghost_putch; extern void *evfs_ghost_stream;  // Output: count, character k, stream
+extern unsigned evfs_ghost_q[12]; extern char evfs_ghost_d[12];
+extern _Bool evfs_ghost_all;  // Facts that hold of every character are instantiated
+extern size_t evfs_ghost_mark;  // A position reported by the code
+extern const char *evfs_ghost_src, *evfs_ghost_dst;  // Start of the source and the destination
+#  define OFS(p)  ((size_t)__CPROVER_POINTER_OFFSET(p))
+#  define DIST(p, first)  (OFS(p) - OFS(first))
+#  define BETWEEN(p, first, limit)  (__CPROVER_same_object(p, first) && OFS(first) <= OFS(p) && OFS(p) <= OFS(limit))
+#  define INVARIANT(...)  __CPROVER_loop_invariant(__VA_ARGS__)
+#  define INSTANTIATE(c)  __CPROVER_assume(!evfs_ghost_all || (c));
+// Walk `p` from `first` to `limit` while `prop` holds of every character passed
+#  define SCAN_LOOP(p, first, limit, prop) \
+    __CPROVER_assigns(p) \
+    INVARIANT(BETWEEN(p, first, limit)) \
+    INVARIANT(evfs_ghost_k < DIST(p, first) ==> (prop)) \
+    __CPROVER_decreases(OFS(limit) - OFS(p))
+// Walk `p` back from `last` to `first` while `prop` holds of the characters from `from` on
+#  define BACK_LOOP(p, first, last, from, prop) \
+    __CPROVER_assigns(p) \
+    INVARIANT(BETWEEN(p, first, last)) \
+    INVARIANT(evfs_ghost_k >= (from) && evfs_ghost_k < OFS(last) - OFS(evfs_ghost_base) ==> (prop)) \
+    __CPROVER_decreases(OFS(p))
+// The same for a `p` that ends up in front of `first`, over evfs_ghost_max characters
+#  define TRIM_LOOP(p, first, prop) \
+    __CPROVER_assigns(p) \
+    INVARIANT(__CPROVER_same_object(p, first) && OFS(first) <= OFS(p) + 1 && OFS(p) + 1 <= OFS(first) + evfs_ghost_max) \
+    INVARIANT(evfs_ghost_k < evfs_ghost_max && evfs_ghost_k >= OFS(p) + 1 - OFS(first) ==> (prop)) \
+    __CPROVER_decreases(OFS(p) + 1)
+// Walk `p` and `q` together while their characters agree
+#  define COMPARE_LOOP(p, first, limit, q, first2) \
+    __CPROVER_assigns(p, q) \
+    INVARIANT(BETWEEN(p, first, limit) && __CPROVER_same_object(q, first2)) \
+    INVARIANT(DIST(q, first2) == DIST(p, first) && DIST(p, first) <= evfs_ghost_max) \
+    INVARIANT(evfs_ghost_k < DIST(p, first) ==> (first)[evfs_ghost_k] == (first2)[evfs_ghost_k]) \
+    __CPROVER_decreases(OFS(limit) - OFS(p))
+// Copy from `first` on until a NUL or the end of `rng`
+#  define COPY_LOOP(first) \
+    __CPROVER_assigns(dest, src, done, __CPROVER_object_whole(rng->start)) \
+    INVARIANT(BETWEEN(dest, rng->start, rng->end) && __CPROVER_same_object(src, first) && !done) \
+    INVARIANT(DIST(src, first) == DIST(dest, rng->start) && DIST(src, first) <= evfs_ghost_max) \
+    INVARIANT(evfs_ghost_k < DIST(src, first) ==> (first)[evfs_ghost_k] != '\0' && rng->start[evfs_ghost_k] == (first)[evfs_ghost_k]) \
+    INVARIANT(OFS(rng->start) <= OFS(evfs_ghost_out) && OFS(evfs_ghost_out) < OFS(dest) || *evfs_ghost_out == evfs_ghost_val) \
+    __CPROVER_decreases(OFS(rng->end) - OFS(dest))
+#  define PAD_LOOP \
+    __CPROVER_assigns(i, pad_pos, __CPROVER_object_whole(rng->start)) \
+    INVARIANT(i <= pad_num && __CPROVER_same_object(pad_pos, rng->start) && DIST(pad_pos, rng->start) == rng_len + i) \
+    INVARIANT(evfs_ghost_k >= rng_len && evfs_ghost_k < rng_len + i ==> rng->start[evfs_ghost_k] == pad) \
+    INVARIANT(OFS(evfs_ghost_out) >= OFS(rng->start) + rng_len && OFS(evfs_ghost_out) < OFS(pad_pos) || *evfs_ghost_out == evfs_ghost_val) \
+    __CPROVER_decreases(pad_num - i)
+// Print the characters up to a NUL or the end of `rng`
+#  define PUT_LOOP(out) \
+    __CPROVER_assigns(pos, evfs_ghost_puts, evfs_ghost_putch, evfs_ghost_stream) \
+    INVARIANT(BETWEEN(pos, rng->start, rng->end) && evfs_ghost_puts == DIST(pos, rng->start)) \
+    INVARIANT(evfs_ghost_puts == 0 || evfs_ghost_stream == (void *)(out)) \
+    INVARIANT(evfs_ghost_k < evfs_ghost_puts ==> rng->start[evfs_ghost_k] != '\0' && evfs_ghost_putch == rng->start[evfs_ghost_k]) \
+    __CPROVER_decreases(OFS(rng->end) - OFS(pos))
+// Peel decimal digits off `n`: evfs_ghost_q[i] is n / 10^i, evfs_ghost_d[i] digit i counted from the last
+#  define DIGIT_LOOP \
+    __CPROVER_assigns(n, pos, __CPROVER_object_whole(buf)) \
+    INVARIANT(__CPROVER_same_object(pos, buf) && OFS(pos + 1) <= 10 && n == evfs_ghost_q[10 - OFS(pos + 1)]) \
+    INVARIANT(evfs_ghost_k < 10 - OFS(pos + 1) ==> buf[9 - evfs_ghost_k] == '0' + evfs_ghost_d[evfs_ghost_k]) \
+    INVARIANT(buf[10] == '\0') \
+    __CPROVER_decreases(n)
+// Count characters of `str` in `n` while `prop` holds of them; `used` were counted before
+#  define COUNT_LOOP(n, used, prop) \
+    __CPROVER_assigns(n) \
+    INVARIANT(n <= *limit - (used)) \
+    INVARIANT(evfs_ghost_k < DIST(str, evfs_ghost_base) + n && evfs_ghost_k >= DIST(str, evfs_ghost_base) ==> evfs_ghost_base[evfs_ghost_k] != '\0' && (prop)) \
+    __CPROVER_decreases(*limit - n)
+// Bounded copy with running pointers, `n` characters so far of at most `limit`
+#  define BOUNDED_COPY_LOOP(n, limit) \
+    __CPROVER_assigns(dst, src, n, __CPROVER_object_whole(dst)) \
+    INVARIANT(__CPROVER_same_object(dst, evfs_ghost_dst) && __CPROVER_same_object(src, evfs_ghost_src) && n <= (limit)) \
+    INVARIANT(DIST(dst, evfs_ghost_dst) == n && DIST(src, evfs_ghost_src) == n && n <= evfs_ghost_max) \
+    INVARIANT(evfs_ghost_k < n ==> evfs_ghost_src[evfs_ghost_k] != '\0' && evfs_ghost_dst[evfs_ghost_k] == evfs_ghost_src[evfs_ghost_k]) \
+    INVARIANT(OFS(evfs_ghost_dst) <= OFS(evfs_ghost_out) && OFS(evfs_ghost_out) < OFS(dst) || *evfs_ghost_out == evfs_ghost_val) \
+    __CPROVER_decreases((limit) - n)
+// Count up to a NUL with a running pointer; `bound` limits the count
+#  define LENGTH_LOOP(p, first, n, bound) \
+    __CPROVER_assigns(p, n) \
+    INVARIANT(__CPROVER_same_object(p, first) && DIST(p, first) == n && n <= (bound) && n >= __CPROVER_loop_entry(n)) \
+    INVARIANT(evfs_ghost_k < n ==> (first)[evfs_ghost_k] != '\0') \
+    __CPROVER_decreases((bound) - n)
+#  define GHOST(s)  s;
+#else
+#  define SCAN_LOOP(...)
+#  define BACK_LOOP(...)
+#  define TRIM_LOOP(...)
+#  define COMPARE_LOOP(...)
+#  define COPY_LOOP(...)
+#  define PAD_LOOP
+#  define PUT_LOOP(...)
+#  define DIGIT_LOOP
+#  define COUNT_LOOP(...)
+#  define BOUNDED_COPY_LOOP(...)
+#  define LENGTH_LOOP(...)
+#  define INSTANTIATE(c)
+#  define GHOST(s)
+#endif
+
+#endif // VERIFY_LOOPS_H
diff --git a/src/evfs_path.c b/src/evfs_path.c
index 86c16fd..3b40b9f 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -19,6 +19,7 @@ Embedded Virtual Filesystem
 
 #include "evfs.h"
 #include "evfs_internal.h"
+#include "util/verify_loops.h"
 
 #include "evfs/util/glob.h"
 
@@ -99,6 +100,7 @@ int evfs_path_basename(const char *path, StringRange *tail) {
 
   // Look for rightmost delimiter
   while(pos > path && !char_match(*(pos-1), EVFS_PATH_SEPS)) // Skip basename
+  BACK_LOOP(pos, path, end, DIST(pos, path), !char_match(path[evfs_ghost_k], EVFS_PATH_SEPS))
     pos--;
 
   range_init(tail, pos, end-pos);
@@ -129,10 +131,14 @@ int evfs_path_extname(const char *path, StringRange *ext) {
   // Leading periods are part of the name
   const char *name = ext->start;
   while(name < ext->end && *name == '.')
+  SCAN_LOOP(name, ext->start, ext->end, ext->start[evfs_ghost_k] == '.')
     name++;
+  GHOST(evfs_ghost_mark = DIST(name, ext->start))
 
   // Scan back for first period
-  while(pos > name) {
+  while(pos > name)
+  BACK_LOOP(pos, name, ext->end, DIST(pos, evfs_ghost_base) + 1, evfs_ghost_base[evfs_ghost_k] != '.')
+  {
     if(*pos == '.')
       break;
     pos--;
@@ -155,6 +161,7 @@ int evfs_vfs_path_dirname(Evfs *vfs, const char *path, StringRange *head) {
 
   // Look for rightmost delimiter
   while(pos > path && !char_match(*pos, EVFS_PATH_SEPS)) // Skip basename
+  BACK_LOOP(pos, path, end - 1, DIST(pos, path) + 1, !char_match(path[evfs_ghost_k], EVFS_PATH_SEPS))
     pos--;
 
   // If this is a root path we keep a trailing slash
diff --git a/src/util/bsd_string.c b/src/util/bsd_string.c
index 2d40de5..f394a30 100644
--- a/src/util/bsd_string.c
+++ b/src/util/bsd_string.c
@@ -24,6 +24,7 @@ DEALINGS IN THE SOFTWARE.
 
 #include <string.h>
 #include "bsd/string.h"
+#include "util/verify_loops.h"
 
 /*
 Copy a string with length limit
@@ -44,7 +45,9 @@ size_t strlcpy(char *dst, const char *src, size_t size) {
 
   if(size > 0) {
     size--; // Leave room for NUL
-    while(*src != '\0' && src_len < size) {
+    while(*src != '\0' && src_len < size)
+    BOUNDED_COPY_LOOP(src_len, size)
+    {
       *dst++ = *src++;
       src_len++;
     }
@@ -52,7 +55,9 @@ size_t strlcpy(char *dst, const char *src, size_t size) {
     *dst = '\0';
   }
 
-  while(*src != '\0') { // Count remaining chars in src
+  while(*src != '\0')
+  LENGTH_LOOP(src, evfs_ghost_src, src_len, evfs_ghost_max)
+  { // Count remaining chars in src
     src++;
     src_len++;
   }
@@ -83,7 +88,9 @@ size_t strxcpy(char *dst, const char *src, size_t size) {
 
   if(size > 0) {
     size--;
-    while(copied < size && *src != '\0') {
+    while(copied < size && *src != '\0')
+    BOUNDED_COPY_LOOP(copied, size)
+    {
       *dst++ = *src++;
       copied++;
     }
@@ -113,7 +120,9 @@ size_t strlcat(char *dst, const char *src, size_t size) {
   size_t cat_len = 0;
 
   if(size > 0) {
-    while(cat_len < size && *dst != '\0') {
+    while(cat_len < size && *dst != '\0')
+    LENGTH_LOOP(dst, evfs_ghost_dst, cat_len, size)
+    {
       dst++;
       cat_len++;
     }
diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index 4853ed2..c4501fd 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -148,6 +148,7 @@ for strtok_r() with the benefit that the input string is not altered.
 #include <assert.h> // For static_assert
 #include "util/range_strings.h"
 #include "util/intmath.h"
+#include "util/verify_loops.h"
 
 
 // ******************** Range initialization ********************
@@ -166,7 +167,9 @@ Returns:
 size_t range_strlen(StringRange *rng) {
   const char *pos = rng->start;
 
-  while(pos < rng->end) {
+  while(pos < rng->end)
+  SCAN_LOOP(pos, rng->start, rng->end, rng->start[evfs_ghost_k] != '\0')
+  {
     if(*pos == '\0') break;
     pos++;
   }
@@ -194,7 +197,9 @@ int range_copy_str(AppendRange *rng, const char *str, bool truncate) {
   char *dest = rng->start;
   bool done = false;
 
-  while(dest < rng->end) {
+  while(dest < rng->end)
+  COPY_LOOP(str)
+  {
     *dest++ = *src;
     if(*src == '\0') {
       done = true;
@@ -310,7 +315,9 @@ int range_cat_str(AppendRange *rng, const char *str) {
   char *dest = rng->start;
   bool done = false;
 
-  while(dest < rng->end) {
+  while(dest < rng->end)
+  COPY_LOOP(str)
+  {
     *dest++ = *src;
     if(*src == '\0') {
       done = true;
@@ -350,7 +357,9 @@ int range_cat_str_no_nul(AppendRange *rng, const char *str) {
   char *dest = rng->start;
   bool done = false;
 
-  while(dest < rng->end) {
+  while(dest < rng->end)
+  COPY_LOOP(str)
+  {
     if(*src == '\0') {
       done = true;
       break;
@@ -391,7 +400,9 @@ int range_cat_range(AppendRange *rng, StringRange *src_rng) {
   bool done = false;
 
 
-  while(dest < rng->end && src < src_rng->end) {
+  while(dest < rng->end && src < src_rng->end)
+  COPY_LOOP(src_rng->start)
+  {
     *dest++ = *src;
     if(*src == '\0') {
       done = true;
@@ -440,7 +451,9 @@ int range_cat_range_no_nul(AppendRange *rng, StringRange *src_rng) {
   bool done = false;
 
 
-  while(dest < rng->end && src < src_rng->end) {
+  while(dest < rng->end && src < src_rng->end)
+  COPY_LOOP(src_rng->start)
+  {
     if(*src == '\0') {
       done = true;
       break;
@@ -813,7 +826,9 @@ int range_pad_right(StringRange *rng, char pad) {
   char *pad_pos = (char *)&rng->start[rng_len];
   if(rng_len < width) {
     pad_num = width - rng_len;
-    for(size_t i = 0; i < pad_num; i++) {
+    for(size_t i = 0; i < pad_num; i++)
+    PAD_LOOP
+    {
       *pad_pos++ = pad;
     }
     *pad_pos = '\0';
@@ -835,6 +850,7 @@ void range_ltrim(StringRange *rng) {
   const char *pos = rng->start;
 
   while(pos < rng->end && isspace((unsigned char)*pos))
+  SCAN_LOOP(pos, rng->start, rng->end, isspace((unsigned char)rng->start[evfs_ghost_k]))
     pos++;
 
   rng->start = pos;
@@ -849,7 +865,9 @@ Args:
 void range_rtrim(StringRange *rng) {
   const char *pos = rng->start + strnlen(rng->start, rng->end - rng->start)-1;
 
-  while(pos >= rng->start) {
+  while(pos >= rng->start)
+  TRIM_LOOP(pos, rng->start, isspace((unsigned char)rng->start[evfs_ghost_k]))
+  {
     if(!isspace((unsigned char)*pos) && *pos != '\0')
        break;
 
@@ -915,7 +933,9 @@ Args:
 void range_puts(StringRange *rng) {
   const char *pos = rng->start;
 
-  while(pos < rng->end) {
+  while(pos < rng->end)
+  PUT_LOOP(stdout)
+  {
     if(*pos == '\0')
       break;
 
@@ -932,7 +952,9 @@ Args:
 void range_fputs(StringRange *rng, FILE *stream) {
   const char *pos = rng->start;
 
-  while(pos < rng->end) {
+  while(pos < rng->end)
+  PUT_LOOP(stream)
+  {
     if(*pos == '\0')
       break;
 
@@ -947,11 +969,15 @@ bool range_eq(StringRange *rng, const char *str) {
   const char *rpos = rng->start;
   const char *spos = str;
 
-  while(rpos < rng->end && *spos != '\0') {
+  while(rpos < rng->end && *spos != '\0')
+  COMPARE_LOOP(rpos, rng->start, rng->end, spos, str)
+  {
+    INSTANTIATE(*rpos == *spos)
     if(*rpos != *spos) return false;
     rpos++;
     spos++;
   }
+  INSTANTIATE(rpos == rng->end || *spos != '\0')
 
   return (rpos == rng->end && *spos == '\0');
 }
@@ -961,7 +987,10 @@ bool range_eq_range(StringRange *rng, StringRange *rng2) {
   const char *rpos = rng->start;
   const char *r2pos = rng2->start;
 
-  while(rpos < rng->end && r2pos < rng2->end) {
+  while(rpos < rng->end && r2pos < rng2->end)
+  COMPARE_LOOP(rpos, rng->start, rng->end, r2pos, rng2->start)
+  {
+    INSTANTIATE(*rpos == *r2pos)
     if(*rpos != *r2pos) return false;
     rpos++;
     r2pos++;
@@ -974,7 +1003,10 @@ bool range_eq_range(StringRange *rng, StringRange *rng2) {
 bool range_is_int(StringRange *rng) {
   const char *rpos = rng->start;
 
-  while(rpos < rng->end) {
+  while(rpos < rng->end)
+  SCAN_LOOP(rpos, rng->start, rng->end, isdigit((unsigned char)rng->start[evfs_ghost_k]))
+  {
+    INSTANTIATE(isdigit((unsigned char)*rpos))
     if(!isdigit((unsigned char)*rpos)) return false;
     rpos++;
   }
@@ -1061,7 +1093,9 @@ bool range_token_limit(const char *str, const char *delim, StringRange *token, s
   // Skip leading delimiters
   size_t consumed = 0;
   while(consumed < *limit && str[consumed] != '\0' && strchr(delim, str[consumed]))
+  COUNT_LOOP(consumed, 0, strchr(delim, evfs_ghost_base[evfs_ghost_k]))
     consumed++;
+  INSTANTIATE(consumed == *limit || str[consumed] != '\0')
 
   str += consumed;
   if(consumed == *limit || *str == '\0') // No more tokens
@@ -1070,6 +1104,7 @@ bool range_token_limit(const char *str, const char *delim, StringRange *token, s
   // Get token length
   size_t tok_len = 0;
   while(consumed + tok_len < *limit && str[tok_len] != '\0' && !strchr(delim, str[tok_len]))
+  COUNT_LOOP(tok_len, consumed, !strchr(delim, evfs_ghost_base[evfs_ghost_k]))
     tok_len++;
 
   consumed += tok_len;
-- 
2.43.0

