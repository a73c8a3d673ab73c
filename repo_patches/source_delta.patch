From 8a825479c69af2a6ca4993ccd73ab5b47a9cef0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:35 +0000
Subject: [PATCH 01/36] fix: looking up a big zone must not unlink it

iso_find_big_zone(p, false), used by iso_chunksz, removed the entry from
the used list (or cut the list short), so a later free aborted.
---
 src/iso_alloc.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 498f2bd..a744a6a 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1755,19 +1755,20 @@ INTERNAL_HIDDEN iso_alloc_big_zone_t *iso_find_big_zone(void *p, bool remove) {
         check_big_canary(big_zone);
         /* Only an exact match of the address is valid */
         if(p == big_zone->user_pages_start) {
-            if(remove == true && prev != NULL) {
-                prev->next = big_zone->next;
-            }
+            if(remove == true) {
+                _root->big_zone_used_count--;
 
-            _root->big_zone_used_count--;
+                /* If this is our first iteration then we are returning the
+                 * used list head. Set its new value to the next entry */
+                if(prev == NULL) {
+                    _root->big_zone_used = big_zone->next;
+                } else {
+                    prev->next = big_zone->next;
+                }
 
-            /* If this is our first iteration then we are returning the
-             * used list head. Set its new value to the next entry */
-            if(prev == NULL) {
-                _root->big_zone_used = big_zone->next;
+                big_zone->next = NULL;
             }
 
-            big_zone->next = NULL;
             UNLOCK_BIG_ZONE_USED();
             return big_zone;
         }
-- 
2.43.0


From e3a695da1f4c1314ee3d5f3575fcb1649c4ccfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:57 +0000
Subject: [PATCH 02/36] fix: calloc must not round its element size

Rounding wrapped for sizes near SIZE_MAX, turned calloc(n, 0) into a
usable block and calloc(0, n) into NULL, and a failed allocation was
passed to memset.
---
 src/iso_alloc.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index a744a6a..ac19808 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1028,16 +1028,9 @@ INTERNAL_HIDDEN INLINE void populate_zone_cache(iso_alloc_zone_t *zone) {
 
 INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_calloc(size_t nmemb, size_t size) {
     unsigned int res;
+    const size_t sz = nmemb * size;
 
-    if(size < SMALLEST_CHUNK_SZ) {
-        size = SMALLEST_CHUNK_SZ;
-    } else if((size % SZ_ALIGNMENT) != 0) {
-        size = ALIGN_SZ_UP(size);
-    }
-
-    size_t sz = nmemb * size;
-
-    if(sz < size || UNLIKELY(__builtin_mul_overflow(nmemb, size, &res))) {
+    if(UNLIKELY(__builtin_mul_overflow(nmemb, size, &res))) {
         LOG("Call to calloc() will overflow nmemb=%d size=%d = %u", nmemb, size, nmemb * size);
         return NULL;
     }
@@ -1052,6 +1045,10 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_calloc(size_t nmemb, size_t size) {
     }
 #endif
 
+    if(UNLIKELY(p == NULL)) {
+        return NULL;
+    }
+
     __iso_memset(p, 0x0, sz);
     return p;
 }
-- 
2.43.0


From b5d34d5bdf31dce74a760f39ac1550328b70af8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:57 +0000
Subject: [PATCH 03/36] fix: sizes near SIZE_MAX wrapped to the smallest chunk
 size

---
 src/iso_alloc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index ac19808..360dbb7 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1060,9 +1060,11 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc(iso_alloc_zone_t *zone, size_t s
     }
 #endif
 
+    /* Sizes above BIG_SZ_MAX are refused below, rounding
+     * the largest of them up would wrap around to zero */
     if(size < SMALLEST_CHUNK_SZ) {
         size = SMALLEST_CHUNK_SZ;
-    } else if((size % SZ_ALIGNMENT) != 0) {
+    } else if((size % SZ_ALIGNMENT) != 0 && LIKELY(size <= BIG_SZ_MAX)) {
         size = ALIGN_SZ_UP(size);
     }
 
-- 
2.43.0


From a83912b7a3a061ad28e56306d4a058a16111a69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:19 +0000
Subject: [PATCH 04/36] fix: strdup and strndup must terminate the copy

The duplicate had no room for the terminator, strndup lost the last
character, read beyond n bytes of its source and broke for n == 0.
---
 src/iso_alloc_interfaces.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/iso_alloc_interfaces.c b/src/iso_alloc_interfaces.c
index 7db679e..c169a10 100644
--- a/src/iso_alloc_interfaces.c
+++ b/src/iso_alloc_interfaces.c
@@ -113,7 +113,7 @@ EXTERNAL_API FLATTEN NO_DISCARD ASSUME_ALIGNED char *iso_strdup_from_zone(iso_al
         return NULL;
     }
 
-    size_t size = strlen(str);
+    size_t size = strlen(str) + 1;
 
     if(zone != NULL) {
         UNMASK_ZONE_HANDLE(zone);
@@ -138,25 +138,21 @@ EXTERNAL_API FLATTEN NO_DISCARD ASSUME_ALIGNED char *iso_strndup_from_zone(iso_a
         return NULL;
     }
 
-    size_t s_size = strlen(str);
+    const char *end = memchr(str, '\0', n);
+    size_t s_size = (end != NULL) ? (size_t) (end - str) : n;
 
     if(zone != NULL) {
         UNMASK_ZONE_HANDLE(zone);
     }
 
-    char *p = (char *) _iso_alloc(zone, n);
+    char *p = (char *) _iso_alloc(zone, s_size + 1);
 
     if(p == NULL) {
         return NULL;
     }
 
-    if(s_size > n) {
-        _iso_alloc_memcpy(p, str, n);
-        p[n - 1] = '\0';
-    } else {
-        _iso_alloc_memcpy(p, str, s_size);
-    }
-
+    _iso_alloc_memcpy(p, str, s_size);
+    p[s_size] = '\0';
     return p;
 }
 
-- 
2.43.0


From 5360be796abb69541d4cefe177c5552a997bc7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:44 +0000
Subject: [PATCH 05/36] fix: unmap and protect the page that really holds big
 zone meta data

Big zone meta data lives at a random offset of its page: munmap of the
unaligned address failed and leaked the page of every retired big zone,
and ROUND_DOWN_PAGE of an aligned address gave the page below it.
---
 include/iso_alloc_internal.h | 2 +-
 src/iso_alloc.c              | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/iso_alloc_internal.h b/include/iso_alloc_internal.h
index c8f87cb..b8f86e5 100644
--- a/include/iso_alloc_internal.h
+++ b/include/iso_alloc_internal.h
@@ -204,7 +204,7 @@ assert(sizeof(size_t) >= 64)
     ((((n + g_page_size) - 1) >> g_page_size_shift) * (g_page_size))
 
 #define ROUND_DOWN_PAGE(n) \
-    (ROUND_UP_PAGE(n) - g_page_size)
+    ((n) & ~((uintptr_t) g_page_size - 1))
 
 #if MASK_PTRS
 #define MASK_ZONE_PTRS(zone) \
diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 360dbb7..451e04e 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1840,9 +1840,9 @@ INTERNAL_HIDDEN void iso_free_big_zone(iso_alloc_big_zone_t *big_zone, bool perm
 #endif
 
 #if BIG_ZONE_META_DATA_GUARD
-        unmap_guarded_pages(big_zone, BIG_ZONE_META_DATA_PAGE_COUNT);
+        unmap_guarded_pages((void *) ROUND_DOWN_PAGE((uintptr_t) big_zone), g_page_size * BIG_ZONE_META_DATA_PAGE_COUNT);
 #else
-        munmap(big_zone, BIG_ZONE_META_DATA_PAGE_COUNT);
+        munmap((void *) ROUND_DOWN_PAGE((uintptr_t) big_zone), g_page_size * BIG_ZONE_META_DATA_PAGE_COUNT);
 #endif
     }
 }
@@ -2085,9 +2085,9 @@ INTERNAL_HIDDEN void _free_big_zone_list(iso_alloc_big_zone_t *head) {
 #endif
 
 #if BIG_ZONE_META_DATA_GUARD
-        unmap_guarded_pages(big_zone, BIG_ZONE_META_DATA_PAGE_COUNT);
+        unmap_guarded_pages((void *) ROUND_DOWN_PAGE((uintptr_t) big_zone), g_page_size * BIG_ZONE_META_DATA_PAGE_COUNT);
 #else
-        munmap(big_zone, BIG_ZONE_META_DATA_PAGE_COUNT);
+        munmap((void *) ROUND_DOWN_PAGE((uintptr_t) big_zone), g_page_size * BIG_ZONE_META_DATA_PAGE_COUNT);
 #endif
         big_zone = big;
     }
-- 
2.43.0


From ef768dd72ddd9c0a104340181ed2e40421a24320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:44 +0000
Subject: [PATCH 06/36] fix: big zone meta data must be placed at its declared
 alignment

---
 src/iso_alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 451e04e..e652e15 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1975,7 +1975,7 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_big_alloc(size_t size) {
      * at a random offset from the start of the page */
     uint32_t random_offset = ALIGN_SZ_DOWN(us_rand_uint64(&_root->seed));
     size_t s = g_page_size - (sizeof(iso_alloc_big_zone_t) - 1);
-    new_big = (iso_alloc_big_zone_t *) ((void *) new_big + ((random_offset * s) >> 32));
+    new_big = (iso_alloc_big_zone_t *) ((void *) new_big + (((random_offset * s) >> 32) & ~(sizeof(int64_t) - 1)));
     new_big->free = false;
     new_big->size = size;
     new_big->next = NULL;
-- 
2.43.0


From bb4c01058dcb4b3263dc6510c01c41296d2c2e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:44 +0000
Subject: [PATCH 07/36] fix: replacing zone 0 gave it the index of a zone that
 does not exist

The lookup tables then pointed at an unused zone and the next request of
that size aborted.
---
 src/iso_alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index e652e15..d2dccd7 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -492,7 +492,7 @@ INTERNAL_HIDDEN iso_alloc_zone_t *_iso_new_zone(size_t size, bool internal, int3
     create_guard_page(user_pages_guard_above);
 
     /* We created a new zone, we did not replace a retired one */
-    if(index > 0) {
+    if(index >= 0) {
         new_zone->index = index;
     } else {
         new_zone->index = _root->zones_used;
-- 
2.43.0


From eab2fd91783c9cd84f2f3684d63353b4725c7950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:21 +0000
Subject: [PATCH 08/36] fix: a zone must not count chunks its bitmap has no
 bits for

iso_zone_chunk_count advertised more chunks than the zone could deliver,
and freeing an address in the tail of a zone or looking at the neighbour
of the last chunk read beyond the bitmap.
---
 src/iso_alloc.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index d2dccd7..6254f95 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -374,6 +374,14 @@ INTERNAL_HIDDEN iso_alloc_zone_t *_iso_new_zone(size_t size, bool internal, int3
     new_zone->bitmap_size = (bitmap_size > sizeof(bitmap_index_t)) ? bitmap_size : sizeof(bitmap_index_t);
     new_zone->max_bitmap_idx = (new_zone->bitmap_size >> 3);
 
+    /* The bitmap is only ever used in whole qwords. Chunks
+     * it has no bits for can never be handed out */
+    const uint32_t max_chunk_count = (new_zone->max_bitmap_idx << BITS_PER_QWORD_SHIFT) >> BITS_PER_CHUNK_SHIFT;
+
+    if(new_zone->chunk_count > max_chunk_count) {
+        new_zone->chunk_count = max_chunk_count;
+    }
+
     if(g_page_size >= new_zone->bitmap_size) {
         const int sbsi = (sizeof(small_bitmap_sizes) / sizeof(int)) - 1;
 
@@ -1422,7 +1430,7 @@ INTERNAL_HIDDEN void iso_free_chunk_from_zone(iso_alloc_zone_t *zone, void *rest
                       chunk_offset, p, zone->index, zone->chunk_size, (chunk_offset & (zone->chunk_size - 1)));
     }
 
-    if(UNLIKELY(dwords_to_bit_slot > zone->max_bitmap_idx)) {
+    if(UNLIKELY(dwords_to_bit_slot < 0 || dwords_to_bit_slot >= zone->max_bitmap_idx)) {
         LOG_AND_ABORT("Cannot calculate this chunks location in the bitmap 0x%p", p);
     }
 
-- 
2.43.0


From 8dea81e6aa8fbcd666d6622cc93afc6d722aa55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:21 +0000
Subject: [PATCH 09/36] fix: do not index beyond the in_use bits of
 preallocated bitmaps

---
 src/iso_alloc.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 6254f95..6644254 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -397,6 +397,13 @@ INTERNAL_HIDDEN iso_alloc_zone_t *_iso_new_zone(size_t size, bool internal, int3
 
                 int bits_available = g_page_size / new_zone->bitmap_size;
 
+                /* in_use can only track so many of them */
+                const int max_bits = sizeof(_root->bitmaps[i].in_use) * BITS_PER_BYTE;
+
+                if(bits_available > max_bits) {
+                    bits_available = max_bits;
+                }
+
                 for(int z = 0; z < bits_available; z++) {
                     if((GET_BIT(_root->bitmaps[i].in_use, z)) == 0) {
                         new_zone->bitmap_start = _root->bitmaps[i].bitmap + (new_zone->bitmap_size * z);
-- 
2.43.0


From c1e52ab668b1334094da0460d9a84567d361502a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:21 +0000
Subject: [PATCH 10/36] fix: preallocated bitmap pages had no guard pages

---
 src/iso_alloc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 6644254..09307a3 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -128,7 +128,7 @@ INTERNAL_HIDDEN void iso_alloc_initialize_global_root(void) {
     const int sbsi = (sizeof(small_bitmap_sizes) / sizeof(int)) - 1 - 1;
 
     for(int i = 0; i < sbsi; i++) {
-        _root->bitmaps[i].bitmap = mmap_rw_pages(g_page_size, false, name);
+        _root->bitmaps[i].bitmap = mmap_guarded_rw_pages(g_page_size, false, name);
         _root->bitmaps[i].bucket = small_bitmap_sizes[i];
     }
 
@@ -2182,7 +2182,9 @@ INTERNAL_HIDDEN void _iso_alloc_destroy(void) {
     const int sbsi = (sizeof(small_bitmap_sizes) / sizeof(int)) - 1;
 
     for(int i = 0; i < sbsi; i++) {
-        munmap(_root->bitmaps[i].bitmap, g_page_size);
+        if(_root->bitmaps[i].bitmap != NULL) {
+            unmap_guarded_pages(_root->bitmaps[i].bitmap, g_page_size);
+        }
     }
 
     unmap_guarded_pages(_root, sizeof(iso_alloc_root));
-- 
2.43.0


From 44cf2b116e7009b65717579fedf9b8ae57063b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 11/36] fix: fall back to regular pages when no huge pages are
 available

An allocation of exactly 2 or 4 MB aborted the process on systems
without reserved huge pages.
---
 src/iso_alloc_util.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/iso_alloc_util.c b/src/iso_alloc_util.c
index 132780e..6090244 100644
--- a/src/iso_alloc_util.c
+++ b/src/iso_alloc_util.c
@@ -151,7 +151,16 @@ void *mmap_pages(size_t size, bool populate, const char *name, int32_t prot) {
 #endif
 #endif
 
-    p = mmap(p, sz, prot, flags, fd, 0);
+    void *const hint_p = p;
+    p = mmap(hint_p, sz, prot, flags, fd, 0);
+
+#if __linux__ && MAP_HUGETLB && HUGE_PAGES
+    /* There may not be enough huge pages reserved,
+     * or any at all. Fall back to regular pages */
+    if(p == MAP_FAILED && (flags & MAP_HUGETLB) != 0) {
+        p = mmap(hint_p, sz, prot, (flags & ~MAP_HUGETLB), fd, 0);
+    }
+#endif
 
     if(p == MAP_FAILED) {
         LOG_AND_ABORT("Failed to mmap rw pages");
-- 
2.43.0


From 7252987b9fe9f2995985507a2b48343692700968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 12/36] fix: detect double frees of permanently freed chunks
 and frees of canaries

---
 src/iso_alloc.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 09307a3..7aad2dd 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1456,6 +1456,13 @@ INTERNAL_HIDDEN void iso_free_chunk_from_zone(iso_alloc_zone_t *zone, void *rest
                       p, zone->index, dwords_to_bit_slot, bit_slot);
     }
 
+    /* A chunk in use never has both of its bits set. It is
+     * either a canary chunk or was already free'd permanently */
+    if(UNLIKELY((GET_BIT(b, (which_bit + 1))) == 1)) {
+        LOG_AND_ABORT("Free of canary or permanently free'd chunk 0x%p detected from zone[%d] dwords_to_bit_slot=%lu bit_slot=%lu",
+                      p, zone->index, dwords_to_bit_slot, bit_slot);
+    }
+
     /* Set the next bit so we know this chunk was used */
     SET_BIT(b, (which_bit + 1));
 
-- 
2.43.0


From 1ce4e062dcb61bc21f35b748e631654f714159d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 13/36] fix: do not mask or unmask a NULL zone handle

iso_alloc_new_zone returned the bare mask instead of NULL when it
refused a size, and a NULL handle was dereferenced unmasked.
---
 src/iso_alloc_interfaces.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/iso_alloc_interfaces.c b/src/iso_alloc_interfaces.c
index c169a10..e7d553f 100644
--- a/src/iso_alloc_interfaces.c
+++ b/src/iso_alloc_interfaces.c
@@ -35,11 +35,19 @@ EXTERNAL_API FLATTEN void iso_free_size(void *p, size_t size) {
 }
 
 EXTERNAL_API FLATTEN void iso_free_from_zone(void *p, iso_alloc_zone_handle *zone) {
+    if(zone == NULL) {
+        return;
+    }
+
     UNMASK_ZONE_HANDLE(zone);
     _iso_free_from_zone(p, zone, false);
 }
 
 EXTERNAL_API FLATTEN void iso_free_from_zone_permanently(void *p, iso_alloc_zone_handle *zone) {
+    if(zone == NULL) {
+        return;
+    }
+
     UNMASK_ZONE_HANDLE(zone);
     _iso_free_from_zone(p, zone, true);
 }
@@ -53,6 +61,10 @@ EXTERNAL_API FLATTEN size_t iso_chunksz(void *p) {
 }
 
 EXTERNAL_API FLATTEN NO_DISCARD size_t iso_zone_chunk_count(iso_alloc_zone_handle *zone) {
+    if(zone == NULL) {
+        return 0;
+    }
+
     UNMASK_ZONE_HANDLE(zone);
     iso_alloc_zone_t *_zone = (iso_alloc_zone_t *) zone;
     size_t canaries = 0;
@@ -227,6 +239,11 @@ EXTERNAL_API FLATTEN void iso_alloc_destroy_zone(iso_alloc_zone_handle *zone) {
 
 EXTERNAL_API FLATTEN NO_DISCARD iso_alloc_zone_handle *iso_alloc_new_zone(size_t size) {
     iso_alloc_zone_handle *zone = (iso_alloc_zone_handle *) iso_new_zone(size, false);
+
+    if(zone == NULL) {
+        return NULL;
+    }
+
     UNMASK_ZONE_HANDLE(zone);
     return zone;
 }
-- 
2.43.0


From 989137bed10ab7723f777bdb23883f92ab95f5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 14/36] fix: name the mapping of a zone, not its masked address

---
 src/iso_alloc_interfaces.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc_interfaces.c b/src/iso_alloc_interfaces.c
index e7d553f..7f39962 100644
--- a/src/iso_alloc_interfaces.c
+++ b/src/iso_alloc_interfaces.c
@@ -256,7 +256,7 @@ EXTERNAL_API FLATTEN int32_t iso_alloc_name_zone(iso_alloc_zone_handle *zone, ch
     }
 
     iso_alloc_zone_t *_zone = (iso_alloc_zone_t *) zone;
-    return name_mapping(_zone->user_pages_start, ZONE_USER_SIZE, name);
+    return name_mapping(UNMASK_USER_PTR(_zone), ZONE_USER_SIZE, name);
 }
 
 EXTERNAL_API FLATTEN void iso_alloc_protect_root(void) {
-- 
2.43.0


From f49ef32b420ccb454e3d310f56c54a7d917c3473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 15/36] fix: strong size isolation applies to internal zones as
 documented

---
 src/iso_alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 7aad2dd..b047636 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -814,7 +814,7 @@ INTERNAL_HIDDEN iso_alloc_zone_t *is_zone_usable(iso_alloc_zone_t *zone, size_t
     }
 
 #if STRONG_SIZE_ISOLATION
-    if(UNLIKELY(zone->internal == false && size != zone->chunk_size)) {
+    if(UNLIKELY(size != zone->chunk_size)) {
         return NULL;
     }
 #endif
-- 
2.43.0


From 36fba8856ffc9012b35d1972df9152c9c9c80751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 16/36] fix: verifying a correctly tagged pointer must not
 abort

The tag was compared with the tag bits in place instead of shifted down,
so only pointers with a tag of zero were accepted.
---
 src/iso_alloc_mem_tags.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc_mem_tags.c b/src/iso_alloc_mem_tags.c
index 2bb3713..b9e35c7 100644
--- a/src/iso_alloc_mem_tags.c
+++ b/src/iso_alloc_mem_tags.c
@@ -40,8 +40,8 @@ INTERNAL_HIDDEN void _iso_alloc_verify_tag(void *p, iso_alloc_zone_t *zone) {
     void *untagged_p = (void *) ((uintptr_t) p & TAGGED_PTR_MASK);
     const uint64_t tag = _iso_alloc_get_mem_tag(untagged_p, zone);
 
-    if(tag != ((uintptr_t) p & IS_TAGGED_PTR_MASK)) {
-        LOG_AND_ABORT("Pointer %p has wrong tag %x, expected %x", p, ((uintptr_t) p & IS_TAGGED_PTR_MASK), tag);
+    if(tag != ((uintptr_t) p >> UNTAGGED_BITS)) {
+        LOG_AND_ABORT("Pointer %p has wrong tag %x, expected %x", p, ((uintptr_t) p >> UNTAGGED_BITS), tag);
     }
 #endif
     return;
-- 
2.43.0


From 8d643766f84c1bb57185e92f07a6ba8002d88c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 17/36] fix: tags of zones whose chunk size is not a power of
 two

Valid chunks were rejected as not a multiple of the chunk size, and the
first address after the zone was accepted.
---
 src/iso_alloc_mem_tags.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc_mem_tags.c b/src/iso_alloc_mem_tags.c
index b9e35c7..960feb0 100644
--- a/src/iso_alloc_mem_tags.c
+++ b/src/iso_alloc_mem_tags.c
@@ -11,7 +11,7 @@ INTERNAL_HIDDEN uint8_t _iso_alloc_get_mem_tag(void *p, iso_alloc_zone_t *zone)
 #if MEMORY_TAGGING
     void *user_pages_start = UNMASK_USER_PTR(zone);
 
-    if(user_pages_start > p || (user_pages_start + ZONE_USER_SIZE) < p) {
+    if(user_pages_start > p || (user_pages_start + ZONE_USER_SIZE) <= p) {
         LOG_AND_ABORT("Cannot get tag for pointer %p with wrong zone %d %p - %p", p, zone->index, user_pages_start, user_pages_start + ZONE_USER_SIZE);
     }
 
@@ -19,7 +19,7 @@ INTERNAL_HIDDEN uint8_t _iso_alloc_get_mem_tag(void *p, iso_alloc_zone_t *zone)
     const uint64_t chunk_offset = (uint64_t) (p - user_pages_start);
 
     /* Ensure the pointer is a multiple of chunk size */
-    if(UNLIKELY((chunk_offset & (zone->chunk_size - 1)) != 0)) {
+    if(UNLIKELY((chunk_offset % zone->chunk_size) != 0)) {
         LOG_AND_ABORT("Chunk offset %d not an alignment of %d", chunk_offset, zone->chunk_size);
     }
 
-- 
2.43.0


From 01163db6af7e607459e28de1baaa30cc1877d95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 18/36] fix: the refresh of all tags of a zone never happened

A misplaced shift made its condition always false, and it would have
written through the masked address of the user pages.
---
 src/iso_alloc_mem_tags.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc_mem_tags.c b/src/iso_alloc_mem_tags.c
index 960feb0..a8a9793 100644
--- a/src/iso_alloc_mem_tags.c
+++ b/src/iso_alloc_mem_tags.c
@@ -79,9 +79,9 @@ INTERNAL_HIDDEN bool _refresh_zone_mem_tags(iso_alloc_zone_t *zone) {
     /* This implements a similar policy to zone retirement.
      * The only difference is that we refresh all tags at
      * %25 of the configured zone retirement age */
-    if(UNLIKELY(zone->af_count == 0 && zone->alloc_count > (zone->chunk_count << _root->zone_retirement_shf)) >> 2) {
+    if(UNLIKELY(zone->af_count == 0 && zone->alloc_count > ((zone->chunk_count << _root->zone_retirement_shf) >> 2))) {
         size_t s = ROUND_UP_PAGE(zone->chunk_count * MEM_TAG_SIZE);
-        uint64_t *_mtp = (zone->user_pages_start - g_page_size - s);
+        uint64_t *_mtp = (UNMASK_USER_PTR(zone) - g_page_size - s);
         size_t tms = s / sizeof(uint64_t);
 
         for(uint64_t o = 0; o < tms; o++) {
-- 
2.43.0


From a29cffa112a721379abe23af7aefce326b2c56d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 19/36] fix: destroying a tagged zone leaked its first guard
 page

---
 src/iso_alloc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index b047636..d98040b 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -223,8 +223,8 @@ INTERNAL_HIDDEN void _iso_alloc_destroy_zone_unlocked(iso_alloc_zone_t *zone, bo
     /* If the zone is tagged then unmap the page holding the tags */
     if(zone->tagged == true) {
         size_t s = ROUND_UP_PAGE(zone->chunk_count * MEM_TAG_SIZE);
-        void *_mtp = (zone->user_pages_start - s - g_page_size);
-        munmap(_mtp, g_page_size + s);
+        void *_mtp = (zone->user_pages_start - s - (g_page_size * 2));
+        munmap(_mtp, s + (g_page_size * 2));
         zone->tagged = false;
     }
 #endif
-- 
2.43.0


From 6f59c0e8cf6e7e5d96ceb031b4ee261367a0318b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 20/36] fix: look up memory tags with the root locked

The zone pointers are unmasked in place while the root is locked, a
lookup without the lock could compute a wild address from them.
---
 src/iso_alloc.c            |  3 ++-
 src/iso_alloc_interfaces.c | 22 ++++++++++++++++++----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index d98040b..7d6e734 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1513,6 +1513,8 @@ INTERNAL_HIDDEN void _iso_free_from_zone(void *p, iso_alloc_zone_t *zone, bool p
         return;
     }
 
+    LOCK_ROOT();
+
 #if MEMORY_TAGGING
     /* Its possible that we were passed a tagged pointer */
     if(UNLIKELY(zone->tagged == true && ((uintptr_t) p & IS_TAGGED_PTR_MASK) != 0)) {
@@ -1522,7 +1524,6 @@ INTERNAL_HIDDEN void _iso_free_from_zone(void *p, iso_alloc_zone_t *zone, bool p
     }
 #endif
 
-    LOCK_ROOT();
     _iso_free_internal_unlocked(p, permanent, zone);
     UNLOCK_ROOT();
 }
diff --git a/src/iso_alloc_interfaces.c b/src/iso_alloc_interfaces.c
index 7f39962..a6f476d 100644
--- a/src/iso_alloc_interfaces.c
+++ b/src/iso_alloc_interfaces.c
@@ -188,7 +188,10 @@ EXTERNAL_API FLATTEN NO_DISCARD MALLOC_ATTR void *iso_alloc_from_zone_tagged(iso
     iso_alloc_zone_t *_zone = (iso_alloc_zone_t *) zone;
 
     void *p = _iso_alloc(zone, _zone->chunk_size);
-    return _tag_ptr(p, zone);
+    LOCK_ROOT();
+    p = _tag_ptr(p, zone);
+    UNLOCK_ROOT();
+    return p;
 }
 
 EXTERNAL_API FLATTEN NO_DISCARD void *iso_alloc_tag_ptr(void *p, iso_alloc_zone_handle *zone) {
@@ -197,7 +200,10 @@ EXTERNAL_API FLATTEN NO_DISCARD void *iso_alloc_tag_ptr(void *p, iso_alloc_zone_
     }
 
     UNMASK_ZONE_HANDLE(zone);
-    return _tag_ptr(p, zone);
+    LOCK_ROOT();
+    p = _tag_ptr(p, zone);
+    UNLOCK_ROOT();
+    return p;
 }
 
 EXTERNAL_API FLATTEN NO_DISCARD void *iso_alloc_untag_ptr(void *p, iso_alloc_zone_handle *zone) {
@@ -206,7 +212,10 @@ EXTERNAL_API FLATTEN NO_DISCARD void *iso_alloc_untag_ptr(void *p, iso_alloc_zon
     }
 
     UNMASK_ZONE_HANDLE(zone);
-    return _untag_ptr(p, zone);
+    LOCK_ROOT();
+    p = _untag_ptr(p, zone);
+    UNLOCK_ROOT();
+    return p;
 }
 
 EXTERNAL_API FLATTEN void iso_alloc_verify_ptr_tag(void *p, iso_alloc_zone_handle *zone) {
@@ -215,7 +224,9 @@ EXTERNAL_API FLATTEN void iso_alloc_verify_ptr_tag(void *p, iso_alloc_zone_handl
     }
 
     UNMASK_ZONE_HANDLE(zone);
+    LOCK_ROOT();
     _iso_alloc_verify_tag(p, zone);
+    UNLOCK_ROOT();
     return;
 }
 
@@ -225,7 +236,10 @@ EXTERNAL_API FLATTEN NO_DISCARD uint8_t iso_alloc_get_mem_tag(void *p, iso_alloc
     }
 
     UNMASK_ZONE_HANDLE(zone);
-    return _iso_alloc_get_mem_tag(p, zone);
+    LOCK_ROOT();
+    const uint8_t tag = _iso_alloc_get_mem_tag(p, zone);
+    UNLOCK_ROOT();
+    return tag;
 }
 
 EXTERNAL_API FLATTEN void iso_alloc_destroy_zone(iso_alloc_zone_handle *zone) {
-- 
2.43.0


From ce6647b6bb5f3507af1a43f97a4be637faf3cbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 21/36] fix: sample ordinary allocations, not those of private
 zones

The condition was inverted: ALLOC_SANITY never sampled a normal
allocation, but did sample allocations of private zones whose free path
does not know about samples. Also: the sample cache was one entry too
small for its index mask, a full cache (possible when two threads sample
at once) aborted, and the root seed was used without the root lock.
---
 include/iso_alloc_sanity.h |  2 +-
 src/iso_alloc.c            |  4 ++--
 src/iso_alloc_sanity.c     | 15 +++++++++++----
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/include/iso_alloc_sanity.h b/include/iso_alloc_sanity.h
index 02f23a6..cda917b 100644
--- a/include/iso_alloc_sanity.h
+++ b/include/iso_alloc_sanity.h
@@ -16,7 +16,7 @@
 
 #define SANITY_SAMPLE_ODDS 10000
 #define MAX_SANE_SAMPLES 1024
-#define SANE_CACHE_SIZE 65535
+#define SANE_CACHE_SIZE 65536
 #define SANE_CACHE_IDX(p) (((uint64_t) p >> 8) & 0xffff)
 #define SANITY_CANARY_VALIDATE_MASK 0xffffffffffffff00
 #define SANITY_CANARY_SIZE 8
diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 7d6e734..7c5cee2 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1114,8 +1114,8 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc(iso_alloc_zone_t *zone, size_t s
 
 #if ALLOC_SANITY
     /* We don't sample if we are allocating from a private zone */
-    if(zone != NULL) {
-        if(size < g_page_size && _sane_sampled < MAX_SANE_SAMPLES) {
+    if(zone == NULL) {
+        if(size < g_page_size) {
             /* If we chose to sample this allocation then
              * _iso_alloc_sample will call UNLOCK_ROOT() */
             void *ps = _iso_alloc_sample(size);
diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index 752d506..98a3658 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -329,7 +329,9 @@ INTERNAL_HIDDEN int32_t _iso_alloc_free_sane_sample(void *p) {
     _sane_allocation_t *sane_alloc = _get_sane_alloc(p);
 
     if(sane_alloc != NULL) {
+#if !UNINIT_READ_SANITY
         check_sanity_canary(sane_alloc);
+#endif
         unmap_guarded_pages(sane_alloc->address, g_page_size);
         memset(sane_alloc, 0x0, sizeof(_sane_allocation_t));
         _sane_cache[SANE_CACHE_IDX(p)]--;
@@ -351,10 +353,11 @@ INTERNAL_HIDDEN void *_iso_alloc_sample(const size_t size) {
         return NULL;
     }
 
+    /* The seed is protected by the root lock */
+    const bool right_aligned = ((us_rand_uint64(&_root->seed) % 2) == 1);
     _sane_allocation_t *sane_alloc = NULL;
 
     LOCK_SANITY_CACHE();
-    UNLOCK_ROOT();
 
     /* Find the first free slot in our sampled storage */
     for(uint32_t i = 0; i < MAX_SANE_SAMPLES; i++) {
@@ -364,11 +367,15 @@ INTERNAL_HIDDEN void *_iso_alloc_sample(const size_t size) {
         }
     }
 
-    /* There are no available slots in the cache */
+    /* There are no available slots in the cache,
+     * this allocation can't be sampled */
     if(sane_alloc == NULL) {
-        LOG_AND_ABORT("There are no free slots in the cache, there should be %d", _sane_sampled);
+        UNLOCK_SANITY_CACHE();
+        return NULL;
     }
 
+    UNLOCK_ROOT();
+
     sane_alloc->orig_size = size;
     void *p = mmap_guarded_rw_pages(g_page_size, false, SAMPLED_ALLOC_NAME);
 
@@ -377,7 +384,7 @@ INTERNAL_HIDDEN void *_iso_alloc_sample(const size_t size) {
     }
 
     /* We may right align the mapping to catch overflows */
-    if((us_rand_uint64(&_root->seed) % 2) == 1) {
+    if(right_aligned == true) {
         p = (p + g_page_size) - sane_alloc->orig_size;
         sane_alloc->right_aligned = true;
         sane_alloc->address = (void *) ROUND_DOWN_PAGE((uintptr_t) p);
-- 
2.43.0


From d267917c1e45a109fcf16dd4c06ef859fd338a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:34 +0000
Subject: [PATCH 22/36] fix: an allocation before the constructor left the
 allocator half initialised

The zero size page, the use-after-free page, the sanity canary and the
profiler were only set up by the constructor, which did nothing when an
earlier allocation had already created the root.
---
 src/iso_alloc.c | 59 +++++++++++++++++++++++++++++++------------------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 7c5cee2..71220a5 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -137,20 +137,10 @@ INTERNAL_HIDDEN void iso_alloc_initialize_global_root(void) {
     _root->zone_handle_mask = rand_uint64();
     _root->big_zone_next_mask = us_rand_uint64(&_root->seed);
     _root->big_zone_canary_secret = us_rand_uint64(&_root->seed);
-}
-
-INTERNAL_HIDDEN void _iso_alloc_initialize(void) {
-    if(_root != NULL) {
-        return;
-    }
-
-    g_page_size = sysconf(_SC_PAGESIZE);
-    g_page_size_shift = _log2(g_page_size);
-
-    iso_alloc_initialize_global_root();
 
+    /* Everything an allocation relies on is set up here because
+     * the first one may happen before our constructor runs */
 #if THREAD_SUPPORT && !USE_SPINLOCK
-    pthread_mutex_init(&root_busy_mutex, NULL);
     pthread_mutex_init(&_root->big_zone_free_mutex, NULL);
     pthread_mutex_init(&_root->big_zone_used_mutex, NULL);
 #if ALLOC_SANITY
@@ -158,10 +148,6 @@ INTERNAL_HIDDEN void _iso_alloc_initialize(void) {
 #endif
 #endif
 
-#if HEAP_PROFILER
-    _initialize_profiler();
-#endif
-
 #if NO_ZERO_ALLOCATIONS
     _root->zero_alloc_page = mmap_pages(g_page_size, false, NULL, PROT_NONE);
 #endif
@@ -170,14 +156,41 @@ INTERNAL_HIDDEN void _iso_alloc_initialize(void) {
     _root->uaf_ptr_page = mmap_pages(g_page_size, false, NULL, PROT_NONE);
 #endif
 
-#if ALLOC_SANITY && UNINIT_READ_SANITY
-    _iso_alloc_setup_userfaultfd();
-#endif
-
 #if ALLOC_SANITY
     _sanity_canary = us_rand_uint64(&_root->seed);
 #endif
 
+#if HEAP_PROFILER
+    _initialize_profiler();
+#endif
+}
+
+INTERNAL_HIDDEN void _iso_alloc_initialize(void) {
+    static bool initialized = false;
+
+    if(initialized == true) {
+        return;
+    }
+
+    initialized = true;
+
+    /* The root may already be in use if an allocation was
+     * made before our constructor was called */
+    if(_root == NULL) {
+        g_page_size = sysconf(_SC_PAGESIZE);
+        g_page_size_shift = _log2(g_page_size);
+
+        iso_alloc_initialize_global_root();
+
+#if THREAD_SUPPORT && !USE_SPINLOCK
+        pthread_mutex_init(&root_busy_mutex, NULL);
+#endif
+    }
+
+#if ALLOC_SANITY && UNINIT_READ_SANITY
+    _iso_alloc_setup_userfaultfd();
+#endif
+
 #if SIGNAL_HANDLER
     struct sigaction sa;
     sigemptyset(&sa.sa_mask);
@@ -1070,7 +1083,9 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_calloc(size_t nmemb, size_t size) {
 
 INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc(iso_alloc_zone_t *zone, size_t size) {
 #if NO_ZERO_ALLOCATIONS
-    if(UNLIKELY(size == 0 && _root != NULL)) {
+    const bool zero_size = (size == 0);
+
+    if(UNLIKELY(zero_size == true && _root != NULL)) {
         return _root->zero_alloc_page;
     }
 #endif
@@ -1102,7 +1117,7 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc(iso_alloc_zone_t *zone, size_t s
 #if NO_ZERO_ALLOCATIONS
         /* In the unlikely event size is 0 but we hadn't
          * initialized the root yet return the zero page */
-        if(UNLIKELY(size == 0)) {
+        if(UNLIKELY(zero_size == true)) {
             UNLOCK_ROOT();
             return _root->zero_alloc_page;
         }
-- 
2.43.0


From b94e05132328db5d9f61a11792782872ce4901fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:20 +0000
Subject: [PATCH 23/36] fix: the destructor unmapped memory that is still in
 use

Live big allocations and the zero size page were unmapped at exit even
without ISO_DTOR_CLEANUP, so that anything running after our destructor
could crash. With ISO_DTOR_CLEANUP the zones kept two guard pages, the
thread local zone cache was passed to munmap, locks were released twice
and the sanity mutex was used in builds that do not have one.
---
 src/iso_alloc.c | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 71220a5..249b2f7 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -168,7 +168,7 @@ INTERNAL_HIDDEN void iso_alloc_initialize_global_root(void) {
 INTERNAL_HIDDEN void _iso_alloc_initialize(void) {
     static bool initialized = false;
 
-    if(initialized == true) {
+    if(_root != NULL && initialized == true) {
         return;
     }
 
@@ -2115,6 +2115,7 @@ INTERNAL_HIDDEN void _free_big_zone_list(iso_alloc_big_zone_t *head) {
             big = NULL;
         }
 
+#if ISO_DTOR_CLEANUP
         /* Free the user pages first */
 #if BIG_ZONE_GUARD
         unmap_guarded_pages(big_zone->user_pages_start, big_zone->size);
@@ -2126,12 +2127,17 @@ INTERNAL_HIDDEN void _free_big_zone_list(iso_alloc_big_zone_t *head) {
         unmap_guarded_pages((void *) ROUND_DOWN_PAGE((uintptr_t) big_zone), g_page_size * BIG_ZONE_META_DATA_PAGE_COUNT);
 #else
         munmap((void *) ROUND_DOWN_PAGE((uintptr_t) big_zone), g_page_size * BIG_ZONE_META_DATA_PAGE_COUNT);
+#endif
 #endif
         big_zone = big;
     }
 }
 
 INTERNAL_HIDDEN void _iso_alloc_destroy(void) {
+    if(_root == NULL) {
+        return;
+    }
+
     LOCK_ROOT();
 
     flush_chunk_quarantine();
@@ -2142,14 +2148,6 @@ INTERNAL_HIDDEN void _iso_alloc_destroy(void) {
     _iso_output_profile();
 #endif
 
-#if NO_ZERO_ALLOCATIONS
-    munmap(_root->zero_alloc_page, g_page_size);
-#endif
-
-#if UAF_PTR_PAGE
-    munmap(_root->uaf_ptr_page, g_page_size);
-#endif
-
 #if DEBUG && (LEAK_DETECTOR || MEM_USAGE)
 #if MEM_USAGE
     uint64_t mb = 0;
@@ -2179,7 +2177,15 @@ INTERNAL_HIDDEN void _iso_alloc_destroy(void) {
 
 #if ISO_DTOR_CLEANUP
     /* Unmap all zone structures */
-    munmap((void *) ((uintptr_t) _root->zones - g_page_size), _root->zones_size);
+    unmap_guarded_pages(_root->zones, _root->zones_size);
+
+#if NO_ZERO_ALLOCATIONS
+    munmap(_root->zero_alloc_page, g_page_size);
+#endif
+
+#if UAF_PTR_PAGE
+    munmap(_root->uaf_ptr_page, g_page_size);
+#endif
 #endif
 
     LOCK_BIG_ZONE_USED();
@@ -2193,12 +2199,15 @@ INTERNAL_HIDDEN void _iso_alloc_destroy(void) {
 #if ISO_DTOR_CLEANUP
     unmap_guarded_pages(_root->chunk_lookup_table, CHUNK_TO_ZONE_TABLE_SZ);
     unmap_guarded_pages(_root->chunk_quarantine, CHUNK_QUARANTINE_SZ * sizeof(uintptr_t));
+
+    /* Nothing in the cache of this thread exists anymore */
+    clear_zone_cache();
+#if !THREAD_SUPPORT
     unmap_guarded_pages(zone_cache, ZONE_CACHE_SZ * sizeof(_tzc));
+#endif
 
 #if THREAD_SUPPORT && !USE_SPINLOCK
-    UNLOCK_BIG_ZONE_FREE();
     pthread_mutex_destroy(&_root->big_zone_free_mutex);
-    UNLOCK_BIG_ZONE_USED();
     pthread_mutex_destroy(&_root->big_zone_used_mutex);
 #endif
 
@@ -2211,11 +2220,14 @@ INTERNAL_HIDDEN void _iso_alloc_destroy(void) {
     }
 
     unmap_guarded_pages(_root, sizeof(iso_alloc_root));
+    _root = NULL;
 #endif
     UNLOCK_ROOT();
 
 #if ISO_DTOR_CLEANUP && THREAD_SUPPORT && !USE_SPINLOCK
+#if ALLOC_SANITY
     pthread_mutex_destroy(&sane_cache_mutex);
+#endif
     pthread_mutex_destroy(&root_busy_mutex);
 #endif
 }
-- 
2.43.0


From 5942959f98557074e3e142aa9af6640ed00e8e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:10 +0000
Subject: [PATCH 24/36] fix: honour alignments and throw from operator new

posix_memalign, aligned_alloc, memalign and aligned operator new ignored
alignments above 32 bytes. They now return aligned memory up to the page
size and fail for bigger alignments. operator new returned NULL instead
of calling the new handler and throwing std::bad_alloc, and the aligned
nothrow forms did not have the signatures of the ones they replace.
---
 include/iso_alloc_internal.h |  4 ++++
 src/iso_alloc.c              | 45 ++++++++++++++++++++++++++++++++++++
 src/iso_alloc.cpp            | 40 ++++++++++++++++++++++++--------
 src/malloc_hook.c            | 30 ++++++++++++++++--------
 4 files changed, 100 insertions(+), 19 deletions(-)

diff --git a/include/iso_alloc_internal.h b/include/iso_alloc_internal.h
index b8f86e5..b450172 100644
--- a/include/iso_alloc_internal.h
+++ b/include/iso_alloc_internal.h
@@ -410,6 +410,10 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_big_alloc(size_t size);
 INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc(iso_alloc_zone_t *zone, size_t size);
 INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc_bitslot_from_zone(bit_slot_t bitslot, iso_alloc_zone_t *zone);
 INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_calloc(size_t nmemb, size_t size);
+#if CPP_SUPPORT
+extern "C"
+#endif
+INTERNAL_HIDDEN void *_iso_alloc_aligned(size_t alignment, size_t size);
 INTERNAL_HIDDEN void *_iso_alloc_ptr_search(void *n, bool poison);
 INTERNAL_HIDDEN INLINE uint64_t us_rand_uint64(uint64_t *seed);
 INTERNAL_HIDDEN INLINE uint64_t rand_uint64(void);
diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 249b2f7..195c52f 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1251,6 +1251,51 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc(iso_alloc_zone_t *zone, size_t s
     }
 }
 
+/* Chunks are only guaranteed to be SZ_ALIGNMENT aligned. User
+ * pages are page aligned though, so every chunk of a zone is
+ * aligned if its chunk size is a multiple of the alignment.
+ * Alignments above the page size are not supported */
+INTERNAL_HIDDEN void *_iso_alloc_aligned(size_t alignment, size_t size) {
+    if(LIKELY(alignment <= SZ_ALIGNMENT)) {
+        return _iso_alloc(NULL, size);
+    }
+
+    if(size < alignment) {
+        size = alignment;
+    }
+
+    /* Sizes above BIG_SZ_MAX are refused by _iso_alloc */
+    if(LIKELY(size <= BIG_SZ_MAX)) {
+        size = (size + alignment - 1) & ~(alignment - 1);
+    }
+
+    void *p = _iso_alloc(NULL, size);
+
+    if(p == NULL || ((uintptr_t) p & (alignment - 1)) == 0) {
+        return p;
+    }
+
+    _iso_free_size(p, size);
+
+    if(alignment > g_page_size) {
+        return NULL;
+    }
+
+    /* The zone cache may have offered us a zone with bigger
+     * chunks, the lookup table prefers an exact match */
+    clear_zone_cache();
+    p = _iso_alloc(NULL, size);
+
+    if(p == NULL || ((uintptr_t) p & (alignment - 1)) == 0) {
+        return p;
+    }
+
+    _iso_free_size(p, size);
+
+    /* Big zones are always page aligned */
+    return _iso_big_alloc(SMALL_SIZE_MAX + 1);
+}
+
 INTERNAL_HIDDEN iso_alloc_zone_t *search_chunk_lookup_table(const void *restrict p) {
     /* The chunk lookup table is the fastest way to find a
      * zone given a pointer to a chunk so we check it first */
diff --git a/src/iso_alloc.cpp b/src/iso_alloc.cpp
index 90fce59..4744987 100644
--- a/src/iso_alloc.cpp
+++ b/src/iso_alloc.cpp
@@ -23,11 +23,31 @@ extern "C" __attribute__((constructor(FIRST_CTOR + 1))) void iso_cpp(void) {
 #define NEW_EXCEPT
 #endif
 
+// An alignment of 0 means the default alignment
+static void *iso_new(size_t size, size_t alignment) NEW_EXCEPT {
+    void *p = _iso_alloc_aligned(alignment, size);
+
+#if !ABORT_ON_NULL
+    while(p == NULL) {
+        std::new_handler handler = std::get_new_handler();
+
+        if(handler == NULL) {
+            throw std::bad_alloc();
+        }
+
+        handler();
+        p = _iso_alloc_aligned(alignment, size);
+    }
+#endif
+
+    return p;
+}
+
 // These hooks override the basic new/delete
 // operators to use the iso_alloc API
 
 EXTERNAL_API FLATTEN void *operator new(size_t size) NEW_EXCEPT {
-    return iso_alloc(size);
+    return iso_new(size, 0);
 }
 
 EXTERNAL_API FLATTEN void operator delete(void *p) noexcept {
@@ -35,7 +55,7 @@ EXTERNAL_API FLATTEN void operator delete(void *p) noexcept {
 }
 
 EXTERNAL_API FLATTEN void *operator new[](size_t size) NEW_EXCEPT {
-    return iso_alloc(size);
+    return iso_new(size, 0);
 }
 
 EXTERNAL_API FLATTEN void operator delete[](void *p) noexcept {
@@ -67,11 +87,11 @@ EXTERNAL_API FLATTEN void operator delete[](void *ptr, const std::nothrow_t &) n
 }
 
 EXTERNAL_API FLATTEN void *operator new(size_t size, std::align_val_t val) NEW_EXCEPT {
-    return iso_alloc(size);
+    return iso_new(size, (size_t) val);
 }
 
 EXTERNAL_API FLATTEN void *operator new[](size_t size, std::align_val_t val) NEW_EXCEPT {
-    return iso_alloc(size);
+    return iso_new(size, (size_t) val);
 }
 
 EXTERNAL_API FLATTEN void operator delete(void *p, std::align_val_t val) noexcept {
@@ -82,19 +102,19 @@ EXTERNAL_API FLATTEN void operator delete[](void *p, std::align_val_t val) noexc
     iso_free(p);
 }
 
-EXTERNAL_API FLATTEN void *operator new(size_t size, std::align_val_t val, std::nothrow_t &) noexcept {
-    return iso_alloc(size);
+EXTERNAL_API FLATTEN void *operator new(size_t size, std::align_val_t val, const std::nothrow_t &) noexcept {
+    return _iso_alloc_aligned((size_t) val, size);
 }
 
-EXTERNAL_API FLATTEN void *operator new[](size_t size, std::align_val_t val, std::nothrow_t &) noexcept {
-    return iso_alloc(size);
+EXTERNAL_API FLATTEN void *operator new[](size_t size, std::align_val_t val, const std::nothrow_t &) noexcept {
+    return _iso_alloc_aligned((size_t) val, size);
 }
 
-EXTERNAL_API FLATTEN void operator delete(void *p, std::align_val_t val, std::nothrow_t &) noexcept {
+EXTERNAL_API FLATTEN void operator delete(void *p, std::align_val_t val, const std::nothrow_t &) noexcept {
     iso_free(p);
 }
 
-EXTERNAL_API FLATTEN void operator delete[](void *p, std::align_val_t val, std::nothrow_t &) noexcept {
+EXTERNAL_API FLATTEN void operator delete[](void *p, std::align_val_t val, const std::nothrow_t &) noexcept {
     iso_free(p);
 }
 
diff --git a/src/malloc_hook.c b/src/malloc_hook.c
index b383d42..3f666b2 100644
--- a/src/malloc_hook.c
+++ b/src/malloc_hook.c
@@ -54,7 +54,7 @@ EXTERNAL_API void *reallocarray(void *p, size_t n, size_t s) {
 }
 
 EXTERNAL_API int __posix_memalign(void **r, size_t a, size_t s) {
-    if(is_pow2(a) == false) {
+    if(a < sizeof(void *) || is_pow2(a) == false) {
         *r = NULL;
         return EINVAL;
     }
@@ -63,7 +63,7 @@ EXTERNAL_API int __posix_memalign(void **r, size_t a, size_t s) {
         s = a;
     }
 
-    *r = iso_alloc(s);
+    *r = _iso_alloc_aligned(a, s);
 
     if(*r != NULL) {
         return 0;
@@ -76,19 +76,31 @@ EXTERNAL_API int posix_memalign(void **r, size_t alignment, size_t s) {
     return __posix_memalign(r, alignment, s);
 }
 
+static void *iso_memalign(size_t alignment, size_t s) {
+    if(alignment == 0 || is_pow2(alignment) == false) {
+        errno = EINVAL;
+        return NULL;
+    }
+
+    void *p = _iso_alloc_aligned(alignment, s);
+
+    if(p == NULL) {
+        errno = ENOMEM;
+    }
+
+    return p;
+}
+
 EXTERNAL_API void *__libc_memalign(size_t alignment, size_t s) {
-    /* All iso_alloc allocations are 8 byte aligned */
-    return iso_alloc(s);
+    return iso_memalign(alignment, s);
 }
 
 EXTERNAL_API void *aligned_alloc(size_t alignment, size_t s) {
-    /* All iso_alloc allocations are 8 byte aligned */
-    return iso_alloc(s);
+    return iso_memalign(alignment, s);
 }
 
 EXTERNAL_API void *memalign(size_t alignment, size_t s) {
-    /* All iso_alloc allocations are 8 byte aligned */
-    return iso_alloc(s);
+    return iso_memalign(alignment, s);
 }
 
 #if __ANDROID__ || __FreeBSD__
@@ -119,7 +131,7 @@ static void libc_free(void *ptr, const void *caller) {
     iso_free(ptr);
 }
 static void *libc_memalign(size_t alignment, size_t s, const void *caller) {
-    return iso_alloc(s);
+    return iso_memalign(alignment, s);
 }
 
 #if !__ANDROID__
-- 
2.43.0


From 5a4be65e02df30254a9830a6b3d003e8f7c5e66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:39 +0000
Subject: [PATCH 25/36] fix: data races on zones, big zone lists and the root
 seed

_iso_big_alloc advanced the seed without the root lock, verification
walked the big zone lists without their locks, and the zone cache, the
size query, the profiler and naming a zone read zones while other threads
may be changing them.
---
 src/iso_alloc.c            | 18 +++++++++++++-----
 src/iso_alloc_interfaces.c |  5 ++++-
 src/iso_alloc_sanity.c     |  5 +++++
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 195c52f..da7b239 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1027,7 +1027,7 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc_bitslot_from_zone(bit_slot_t bit
     return p;
 }
 
-/* Does not require the root is locked */
+/* Requires the root is locked because it reads the zone */
 INTERNAL_HIDDEN INLINE void populate_zone_cache(iso_alloc_zone_t *zone) {
     _tzc *tzc = zone_cache;
     size_t _zone_cache_count = zone_cache_count;
@@ -1229,8 +1229,8 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc(iso_alloc_zone_t *zone, size_t s
         void *p = _iso_alloc_bitslot_from_zone(free_bit_slot, zone);
 
         MASK_ZONE_PTRS(zone);
-        UNLOCK_ROOT();
         populate_zone_cache(zone);
+        UNLOCK_ROOT();
 
 #if ARM_MTE
         if(_root->arm_mte_enabled == true) {
@@ -1635,7 +1635,9 @@ INTERNAL_HIDDEN void _iso_free(void *p, bool permanent) {
 #endif
 
 #if HEAP_PROFILER
+    LOCK_ROOT();
     _iso_free_profile();
+    UNLOCK_ROOT();
 #endif
 
 #if ARM_MTE
@@ -1728,11 +1730,12 @@ INTERNAL_HIDDEN void _iso_free_size(void *p, size_t size) {
 INTERNAL_HIDDEN void _iso_free_internal(void *p, bool permanent) {
     LOCK_ROOT();
     iso_alloc_zone_t *zone = _iso_free_internal_unlocked(p, permanent, NULL);
-    UNLOCK_ROOT();
 
     if(zone != NULL) {
         populate_zone_cache(zone);
     }
+
+    UNLOCK_ROOT();
 }
 
 INTERNAL_HIDDEN bool _is_zone_retired(iso_alloc_zone_t *zone) {
@@ -2056,7 +2059,11 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_big_alloc(size_t size) {
 
     /* The second page is for meta data and it is placed
      * at a random offset from the start of the page */
-    uint32_t random_offset = ALIGN_SZ_DOWN(us_rand_uint64(&_root->seed));
+    LOCK_ROOT();
+    const uint64_t random = us_rand_uint64(&_root->seed);
+    UNLOCK_ROOT();
+
+    uint32_t random_offset = ALIGN_SZ_DOWN(random);
     size_t s = g_page_size - (sizeof(iso_alloc_big_zone_t) - 1);
     new_big = (iso_alloc_big_zone_t *) ((void *) new_big + (((random_offset * s) >> 32) & ~(sizeof(int64_t) - 1)));
     new_big->free = false;
@@ -2139,8 +2146,9 @@ INTERNAL_HIDDEN size_t _iso_chunk_size(void *p) {
         return big_zone->size;
     }
 
+    const size_t chunk_size = zone->chunk_size;
     UNLOCK_ROOT();
-    return zone->chunk_size;
+    return chunk_size;
 }
 
 INTERNAL_HIDDEN void _free_big_zone_list(iso_alloc_big_zone_t *head) {
diff --git a/src/iso_alloc_interfaces.c b/src/iso_alloc_interfaces.c
index a6f476d..53e5b12 100644
--- a/src/iso_alloc_interfaces.c
+++ b/src/iso_alloc_interfaces.c
@@ -270,7 +270,10 @@ EXTERNAL_API FLATTEN int32_t iso_alloc_name_zone(iso_alloc_zone_handle *zone, ch
     }
 
     iso_alloc_zone_t *_zone = (iso_alloc_zone_t *) zone;
-    return name_mapping(UNMASK_USER_PTR(_zone), ZONE_USER_SIZE, name);
+    LOCK_ROOT();
+    const int32_t r = name_mapping(UNMASK_USER_PTR(_zone), ZONE_USER_SIZE, name);
+    UNLOCK_ROOT();
+    return r;
 }
 
 EXTERNAL_API FLATTEN void iso_alloc_protect_root(void) {
diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index 98a3658..347c567 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -83,8 +83,13 @@ INTERNAL_HIDDEN void _verify_all_zones(void) {
     }
 
     /* Root is locked already */
+    LOCK_BIG_ZONE_USED();
     _verify_big_zone_list(_root->big_zone_used);
+    UNLOCK_BIG_ZONE_USED();
+
+    LOCK_BIG_ZONE_FREE();
     _verify_big_zone_list(_root->big_zone_free);
+    UNLOCK_BIG_ZONE_FREE();
 }
 
 INTERNAL_HIDDEN void _verify_zone(iso_alloc_zone_t *zone) {
-- 
2.43.0


From 3e3b6c585603b7b5ecc9e973abe4961416519ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:54 +0000
Subject: [PATCH 26/36] fix: profiler indexed past its size map and lost all
 but one trace

---
 include/iso_alloc_profiler.h |  3 ++-
 src/iso_alloc_profiler.c     | 20 ++++++++++++--------
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/include/iso_alloc_profiler.h b/include/iso_alloc_profiler.h
index b122318..5bd33b9 100644
--- a/include/iso_alloc_profiler.h
+++ b/include/iso_alloc_profiler.h
@@ -30,7 +30,8 @@ typedef struct {
     uint64_t count;
 } zone_profiler_map_t;
 
-zone_profiler_map_t _zone_profiler_map[SMALL_SIZE_MAX];
+/* Indexed by chunk size, which can be SMALL_SIZE_MAX */
+zone_profiler_map_t _zone_profiler_map[SMALL_SIZE_MAX + 1];
 
 /* iso_alloc_traces_t is a public structure, and
  * is defined in the public header iso_alloc.h */
diff --git a/src/iso_alloc_profiler.c b/src/iso_alloc_profiler.c
index 9e4078d..82a10ef 100644
--- a/src/iso_alloc_profiler.c
+++ b/src/iso_alloc_profiler.c
@@ -164,7 +164,7 @@ INTERNAL_HIDDEN uint64_t _iso_alloc_zone_leak_detector(iso_alloc_zone_t *zone, b
 
     if(profile == false) {
         LOG("Zone[%d] Total number of %d byte chunks(%d) used and free'd (%d) (%d percent), in use = %d", zone->index, zone->chunk_size, zone->chunk_count,
-            was_used, (int32_t) ((float) was_used / zone->chunk_count) * 100, in_use);
+            was_used, (int32_t) (((float) was_used / zone->chunk_count) * 100), in_use);
     }
 
     MASK_ZONE_PTRS(zone);
@@ -176,7 +176,7 @@ INTERNAL_HIDDEN uint64_t _iso_alloc_zone_leak_detector(iso_alloc_zone_t *zone, b
      * in use and previously used by this zone */
     if(profile == true) {
         uint64_t total = (in_use + was_used);
-        return (uint64_t) ((float) (total / zone->chunk_count) * 100.0);
+        return total;
     }
 #endif
     return in_use;
@@ -244,16 +244,16 @@ INTERNAL_HIDDEN uint64_t __iso_alloc_big_zone_mem_usage(iso_alloc_big_zone_t *he
  * be used to interpret allocation patterns */
 INTERNAL_HIDDEN size_t _iso_get_alloc_traces(iso_alloc_traces_t *traces_out) {
     LOCK_ROOT();
-    __iso_memcpy(traces_out, _alloc_bts, sizeof(iso_alloc_traces_t));
     size_t sz = _alloc_bts_count;
+    __iso_memcpy(traces_out, _alloc_bts, sizeof(iso_alloc_traces_t) * sz);
     UNLOCK_ROOT();
     return sz;
 }
 
 INTERNAL_HIDDEN size_t _iso_get_free_traces(iso_free_traces_t *traces_out) {
     LOCK_ROOT();
-    __iso_memcpy(traces_out, _free_bts, sizeof(iso_free_traces_t));
     size_t sz = _free_bts_count;
+    __iso_memcpy(traces_out, _free_bts, sizeof(iso_free_traces_t) * sz);
     UNLOCK_ROOT();
     return sz;
 }
@@ -342,7 +342,7 @@ INTERNAL_HIDDEN void _iso_output_profile() {
                 continue;
             }
 
-            Dl_info dl;
+            Dl_info dl = {0};
             dladdr((void *) abts->callers[j], &dl);
 
             if(dl.dli_sname != NULL) {
@@ -363,7 +363,7 @@ INTERNAL_HIDDEN void _iso_output_profile() {
                 continue;
             }
 
-            Dl_info dl;
+            Dl_info dl = {0};
             dladdr((void *) fbts->callers[j], &dl);
 
             if(dl.dli_sname != NULL) {
@@ -374,7 +374,7 @@ INTERNAL_HIDDEN void _iso_output_profile() {
         }
     }
 
-    for(int i = 0; i < SMALL_SIZE_MAX; i++) {
+    for(int i = 0; i <= SMALL_SIZE_MAX; i++) {
         if(_zone_profiler_map[i].count != 0) {
             _iso_alloc_printf(profiler_fd, "%d,%d,%d\n", i, _zone_profiler_map[i].total, _zone_profiler_map[i].count);
         }
@@ -409,7 +409,7 @@ INTERNAL_HIDDEN void _iso_alloc_profile(size_t size) {
             used = _iso_alloc_zone_leak_detector(zone, true);
         }
 
-        used = (int32_t) ((float) (used / zone->chunk_count) * 100.0);
+        used = (uint32_t) (((float) used / zone->chunk_count) * 100.0);
 
         if(used > CHUNK_USAGE_THRESHOLD) {
             _zone_profiler_map[zone->chunk_size].count++;
@@ -442,6 +442,9 @@ INTERNAL_HIDDEN void _iso_alloc_profile(size_t size) {
         if(abts == NULL) {
             abts = &_alloc_bts[_alloc_bts_count];
             abts->backtrace_hash = hash;
+            abts->lower_bound_size = size;
+            abts->upper_bound_size = size;
+            abts->call_count = 1;
 
             _save_alloc_backtrace(abts);
             _alloc_bts_count++;
@@ -476,6 +479,7 @@ INTERNAL_HIDDEN void _iso_free_profile(void) {
         if(fbts == NULL) {
             fbts = &_free_bts[_free_bts_count];
             fbts->backtrace_hash = hash;
+            fbts->call_count = 1;
 
             _save_free_backtrace(fbts);
             _free_bts_count++;
-- 
2.43.0


From abf0ed42cdbc8271d66079b8f3778a2a1093acf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:34 +0000
Subject: [PATCH 27/36] fix: the memcpy and memset hooks called themselves and
 missed overflows

---
 src/iso_alloc_sanity.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index 347c567..9fa8979 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -4,7 +4,9 @@
 #include "iso_alloc_internal.h"
 
 #if MEMCPY_SANITY || MEMSET_SANITY
-#define MEM_SANITY_CHK(p, start, sz) (start <= p && (start + ZONE_USER_SIZE) - n > p && n > sz)
+/* True if p points into the user pages starting at start, and n
+ * bytes from p are more than what is left of the sz bytes chunk */
+#define MEM_SANITY_CHK(p, start, sz) (start <= p && (start + ZONE_USER_SIZE) > p && n > (sz - ((uintptr_t) p - (uintptr_t) start) % sz))
 #endif
 
 #if ENABLE_ASAN
@@ -424,7 +426,9 @@ INTERNAL_HIDDEN void *_iso_alloc_sample(const size_t size) {
 
 INTERNAL_HIDDEN INLINE void *__iso_memcpy(void *restrict dest, const void *restrict src, size_t n) {
 #if MEMCPY_SANITY
-    char *p_dest = (char *) dest;
+    /* Without volatile the compiler will recognize this loop
+     * and replace it with a call to the function we hook */
+    volatile char *p_dest = (volatile char *) dest;
     char const *p_src = (char const *) src;
 
     while(n--) {
@@ -439,7 +443,7 @@ INTERNAL_HIDDEN INLINE void *__iso_memcpy(void *restrict dest, const void *restr
 
 INTERNAL_HIDDEN void *_iso_alloc_memcpy(void *restrict dest, const void *restrict src, size_t n) {
 #if MEMCPY_SANITY
-    if(n > SMALLEST_CHUNK_SZ) {
+    if(n > SMALLEST_CHUNK_SZ && _root != NULL) {
         /* We don't want to add too much overhead here so we only
          * check the chunk-to-zone cache for zone data and we don't
          * need to lock the root for that. Its possible for a cache
@@ -466,7 +470,9 @@ INTERNAL_HIDDEN void *_iso_alloc_memcpy(void *restrict dest, const void *restric
 
 INTERNAL_HIDDEN INLINE void *__iso_memmove(void *dest, const void *src, size_t n) {
 #if MEMCPY_SANITY
-    char *p_dest = (char *) dest;
+    /* Without volatile the compiler will recognize this loop
+     * and replace it with a call to the function we hook */
+    volatile char *p_dest = (volatile char *) dest;
     char const *p_src = (char const *) src;
 
     if(dest == src) {
@@ -491,7 +497,7 @@ INTERNAL_HIDDEN INLINE void *__iso_memmove(void *dest, const void *src, size_t n
 
 INTERNAL_HIDDEN void *_iso_alloc_memmove(void *dest, const void *src, size_t n) {
 #if MEMCPY_SANITY
-    if(n > SMALLEST_CHUNK_SZ) {
+    if(n > SMALLEST_CHUNK_SZ && _root != NULL) {
         /* We don't want to add too much overhead here so we only
          * check the chunk-to-zone cache for zone data and we don't
          * need to lock the root for that. Its possible for a cache
@@ -518,7 +524,8 @@ INTERNAL_HIDDEN void *_iso_alloc_memmove(void *dest, const void *src, size_t n)
 
 INTERNAL_HIDDEN INLINE void *__iso_memset(void *dest, int b, size_t n) {
 #if MEMSET_SANITY
-    char *p_dest = (char *) dest;
+    /* See __iso_memcpy() */
+    volatile char *p_dest = (volatile char *) dest;
 
     while(n--) {
         *p_dest++ = b;
@@ -532,7 +539,7 @@ INTERNAL_HIDDEN INLINE void *__iso_memset(void *dest, int b, size_t n) {
 
 INTERNAL_HIDDEN void *_iso_alloc_memset(void *dest, int b, size_t n) {
 #if MEMSET_SANITY
-    if(n > SMALLEST_CHUNK_SZ) {
+    if(n > SMALLEST_CHUNK_SZ && _root != NULL) {
         iso_alloc_zone_t *zone = search_chunk_lookup_table(dest);
         void *user_pages_start = UNMASK_USER_PTR(zone);
 
-- 
2.43.0


From ce6b8e8a1f3e01e2ef2f227780cabe0fead62dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:49 +0000
Subject: [PATCH 28/36] fix: the profiler followed frame pointers that are none

---
 include/iso_alloc_profiler.h |  4 +-
 src/iso_alloc_profiler.c     | 84 +++++++++++++++---------------------
 2 files changed, 36 insertions(+), 52 deletions(-)

diff --git a/include/iso_alloc_profiler.h b/include/iso_alloc_profiler.h
index 5bd33b9..60dd917 100644
--- a/include/iso_alloc_profiler.h
+++ b/include/iso_alloc_profiler.h
@@ -43,8 +43,8 @@ size_t _alloc_bts_count;
 iso_free_traces_t _free_bts[BACKTRACE_DEPTH_SZ];
 size_t _free_bts_count;
 
-INTERNAL_HIDDEN INLINE uint64_t _get_backtrace_hash(void);
-INTERNAL_HIDDEN INLINE void _save_backtrace(iso_alloc_traces_t *abts);
+INTERNAL_HIDDEN INLINE void _get_backtrace(uint64_t *callers);
+INTERNAL_HIDDEN INLINE uint64_t _get_backtrace_hash(const uint64_t *callers);
 INTERNAL_HIDDEN INLINE uint64_t _call_count_from_hash(uint16_t hash);
 INTERNAL_HIDDEN void _iso_output_profile(void);
 INTERNAL_HIDDEN void _initialize_profiler(void);
diff --git a/src/iso_alloc_profiler.c b/src/iso_alloc_profiler.c
index 82a10ef..08fbe75 100644
--- a/src/iso_alloc_profiler.c
+++ b/src/iso_alloc_profiler.c
@@ -267,58 +267,38 @@ INTERNAL_HIDDEN void _iso_alloc_reset_traces(void) {
     UNLOCK_ROOT();
 }
 
-#define UPDATE_BT_HASH(frame, hash)                         \
-    if(__builtin_frame_address(frame)) {                    \
-        hash ^= (uint64_t) __builtin_return_address(frame); \
-    } else {                                                \
-        return hash;                                        \
+/* Follows the chain of frame pointers and stores the return addresses
+ * found in it. Callers that were not compiled with -fno-omit-frame-pointer
+ * can leave any value there, so we only follow it up our own stack */
+INTERNAL_HIDDEN INLINE void _get_backtrace(uint64_t *callers) {
+    uintptr_t *fp = (uintptr_t *) __builtin_frame_address(0);
+    unsigned char vec[2];
+
+    for(int i = 0; i < BACKTRACE_DEPTH; i++) {
+        uintptr_t *next = (uintptr_t *) fp[0];
+        uintptr_t page = ROUND_DOWN_PAGE((uintptr_t) next);
+
+        if(next <= fp || ((uintptr_t) next - (uintptr_t) fp) > MEGABYTE_SIZE || ((uintptr_t) next & (sizeof(uintptr_t) - 1)) != 0) {
+            return;
+        }
+
+        if(mincore((void *) page, ((uintptr_t) next - page) + (sizeof(uintptr_t) * 2), (void *) vec) != 0) {
+            return;
+        }
+
+        fp = next;
+        callers[i] = fp[1];
     }
+}
 
-INTERNAL_HIDDEN INLINE uint64_t _get_backtrace_hash(void) {
+INTERNAL_HIDDEN INLINE uint64_t _get_backtrace_hash(const uint64_t *callers) {
     uint64_t hash = 0;
-    UPDATE_BT_HASH(1, hash);
-    UPDATE_BT_HASH(2, hash);
-    UPDATE_BT_HASH(3, hash);
-    UPDATE_BT_HASH(4, hash);
-    UPDATE_BT_HASH(5, hash);
-    UPDATE_BT_HASH(6, hash);
-    UPDATE_BT_HASH(7, hash);
-    UPDATE_BT_HASH(8, hash);
-    return hash;
-}
 
-#define SAVE_BACKTRACE_FRAME(frame, bts)                                          \
-    if(__builtin_frame_address(frame)) {                                          \
-        uint64_t r = (uint64_t) __builtin_return_address(frame);                  \
-        if(r > 0x1000) {                                                          \
-            bts->callers[frame - 1] = (uint64_t) __builtin_return_address(frame); \
-        }                                                                         \
-    } else {                                                                      \
-        return;                                                                   \
+    for(int i = 0; i < BACKTRACE_DEPTH; i++) {
+        hash ^= callers[i];
     }
 
-INTERNAL_HIDDEN INLINE void _save_alloc_backtrace(iso_alloc_traces_t *abts) {
-    SAVE_BACKTRACE_FRAME(1, abts);
-    SAVE_BACKTRACE_FRAME(2, abts);
-    SAVE_BACKTRACE_FRAME(3, abts);
-    SAVE_BACKTRACE_FRAME(4, abts);
-    SAVE_BACKTRACE_FRAME(5, abts);
-    SAVE_BACKTRACE_FRAME(6, abts);
-    SAVE_BACKTRACE_FRAME(7, abts);
-    SAVE_BACKTRACE_FRAME(8, abts);
-    return;
-}
-
-INTERNAL_HIDDEN INLINE void _save_free_backtrace(iso_free_traces_t *fbts) {
-    SAVE_BACKTRACE_FRAME(1, fbts);
-    SAVE_BACKTRACE_FRAME(2, fbts);
-    SAVE_BACKTRACE_FRAME(3, fbts);
-    SAVE_BACKTRACE_FRAME(4, fbts);
-    SAVE_BACKTRACE_FRAME(5, fbts);
-    SAVE_BACKTRACE_FRAME(6, fbts);
-    SAVE_BACKTRACE_FRAME(7, fbts);
-    SAVE_BACKTRACE_FRAME(8, fbts);
-    return;
+    return hash;
 }
 
 INTERNAL_HIDDEN void _iso_output_profile() {
@@ -418,7 +398,9 @@ INTERNAL_HIDDEN void _iso_alloc_profile(size_t size) {
 
     if(_alloc_bts_count < BACKTRACE_DEPTH_SZ) {
         iso_alloc_traces_t *abts = NULL;
-        uint16_t hash = (_get_backtrace_hash() & HG_SIZE);
+        uint64_t callers[BACKTRACE_DEPTH] = {0};
+        _get_backtrace(callers);
+        uint16_t hash = (_get_backtrace_hash(callers) & HG_SIZE);
 
         /* Take the backtrace hash and determine if its already been seen */
         for(size_t i = 0; i < _alloc_bts_count; i++) {
@@ -446,7 +428,7 @@ INTERNAL_HIDDEN void _iso_alloc_profile(size_t size) {
             abts->upper_bound_size = size;
             abts->call_count = 1;
 
-            _save_alloc_backtrace(abts);
+            __iso_memcpy(abts->callers, callers, sizeof(callers));
             _alloc_bts_count++;
         }
     }
@@ -464,7 +446,9 @@ INTERNAL_HIDDEN void _iso_free_profile(void) {
 
     if(_free_bts_count < BACKTRACE_DEPTH_SZ) {
         iso_free_traces_t *fbts = NULL;
-        uint16_t hash = (_get_backtrace_hash() & HG_SIZE);
+        uint64_t callers[BACKTRACE_DEPTH] = {0};
+        _get_backtrace(callers);
+        uint16_t hash = (_get_backtrace_hash(callers) & HG_SIZE);
 
         /* Take the backtrace hash and determine if its already been seen */
         for(size_t i = 0; i < _free_bts_count; i++) {
@@ -481,7 +465,7 @@ INTERNAL_HIDDEN void _iso_free_profile(void) {
             fbts->backtrace_hash = hash;
             fbts->call_count = 1;
 
-            _save_free_backtrace(fbts);
+            __iso_memcpy(fbts->callers, callers, sizeof(callers));
             _free_bts_count++;
         }
     }
-- 
2.43.0


From 2e2b640397fe57d0cfcd2a5183c8441098f73ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:43 +0000
Subject: [PATCH 29/36] fix: freeing an interior pointer released a sampled
 allocation

---
 src/iso_alloc_sanity.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index 9fa8979..e63a3fc 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -336,6 +336,17 @@ INTERNAL_HIDDEN int32_t _iso_alloc_free_sane_sample(void *p) {
     _sane_allocation_t *sane_alloc = _get_sane_alloc(p);
 
     if(sane_alloc != NULL) {
+        void *start = sane_alloc->address;
+
+        if(sane_alloc->right_aligned == true) {
+            start += g_page_size - sane_alloc->orig_size;
+        }
+
+        /* We found the sampled allocation by its page */
+        if(UNLIKELY(p != start)) {
+            LOG_AND_ABORT("0x%p is not the start of the sampled allocation at 0x%p", p, start);
+        }
+
 #if !UNINIT_READ_SANITY
         check_sanity_canary(sane_alloc);
 #endif
-- 
2.43.0


From ebec46a49acbd0bf92f4e4fb4e7ce4c4d467495a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:43 +0000
Subject: [PATCH 30/36] fix: sized free of a sampled allocation ignored the
 size

---
 include/iso_alloc_sanity.h | 2 +-
 src/iso_alloc.c            | 4 ++--
 src/iso_alloc_sanity.c     | 6 +++++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/iso_alloc_sanity.h b/include/iso_alloc_sanity.h
index cda917b..0ef5221 100644
--- a/include/iso_alloc_sanity.h
+++ b/include/iso_alloc_sanity.h
@@ -69,7 +69,7 @@ INTERNAL_HIDDEN void *_page_fault_thread_handler(void *uf_fd);
 INTERNAL_HIDDEN INLINE void write_sanity_canary(void *p);
 INTERNAL_HIDDEN INLINE void check_sanity_canary(_sane_allocation_t *sane_alloc);
 INTERNAL_HIDDEN void *_iso_alloc_sample(const size_t size);
-INTERNAL_HIDDEN int32_t _iso_alloc_free_sane_sample(void *p);
+INTERNAL_HIDDEN int32_t _iso_alloc_free_sane_sample(void *p, size_t size);
 INTERNAL_HIDDEN int32_t _remove_from_sane_trace(void *p);
 INTERNAL_HIDDEN _sane_allocation_t *_get_sane_alloc(void *p);
 #endif
diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index da7b239..69a6b0e 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1627,7 +1627,7 @@ INTERNAL_HIDDEN void _iso_free(void *p, bool permanent) {
 #endif
 
 #if ALLOC_SANITY
-    int32_t r = _iso_alloc_free_sane_sample(p);
+    int32_t r = _iso_alloc_free_sane_sample(p, 0);
 
     if(r == OK) {
         return;
@@ -1686,7 +1686,7 @@ INTERNAL_HIDDEN void _iso_free_size(void *p, size_t size) {
 #endif
 
 #if ALLOC_SANITY
-    int32_t r = _iso_alloc_free_sane_sample(p);
+    int32_t r = _iso_alloc_free_sane_sample(p, size);
 
     if(r == OK) {
         return;
diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index e63a3fc..f1158db 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -331,7 +331,7 @@ INTERNAL_HIDDEN _sane_allocation_t *_get_sane_alloc(void *p) {
     return NULL;
 }
 
-INTERNAL_HIDDEN int32_t _iso_alloc_free_sane_sample(void *p) {
+INTERNAL_HIDDEN int32_t _iso_alloc_free_sane_sample(void *p, size_t size) {
     LOCK_SANITY_CACHE();
     _sane_allocation_t *sane_alloc = _get_sane_alloc(p);
 
@@ -347,6 +347,10 @@ INTERNAL_HIDDEN int32_t _iso_alloc_free_sane_sample(void *p) {
             LOG_AND_ABORT("0x%p is not the start of the sampled allocation at 0x%p", p, start);
         }
 
+        if(UNLIKELY(size > sane_alloc->orig_size)) {
+            LOG_AND_ABORT("Invalid size (expected %d, got %d) for sampled allocation 0x%p", sane_alloc->orig_size, size, p);
+        }
+
 #if !UNINIT_READ_SANITY
         check_sanity_canary(sane_alloc);
 #endif
-- 
2.43.0


From adc2616d98477ba32561cac537b3ee44c8df3c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:03 +0000
Subject: [PATCH 31/36] fix: a full trace table stopped counting the traces in
 it

---
 src/iso_alloc_profiler.c | 96 +++++++++++++++++++---------------------
 1 file changed, 46 insertions(+), 50 deletions(-)

diff --git a/src/iso_alloc_profiler.c b/src/iso_alloc_profiler.c
index 08fbe75..5af0669 100644
--- a/src/iso_alloc_profiler.c
+++ b/src/iso_alloc_profiler.c
@@ -396,42 +396,40 @@ INTERNAL_HIDDEN void _iso_alloc_profile(size_t size) {
         }
     }
 
-    if(_alloc_bts_count < BACKTRACE_DEPTH_SZ) {
-        iso_alloc_traces_t *abts = NULL;
-        uint64_t callers[BACKTRACE_DEPTH] = {0};
-        _get_backtrace(callers);
-        uint16_t hash = (_get_backtrace_hash(callers) & HG_SIZE);
-
-        /* Take the backtrace hash and determine if its already been seen */
-        for(size_t i = 0; i < _alloc_bts_count; i++) {
-            if(_alloc_bts[i].backtrace_hash == hash) {
-                abts = &_alloc_bts[i];
-
-                if(abts->lower_bound_size == 0 || size < abts->lower_bound_size) {
-                    abts->lower_bound_size = size;
-                }
+    iso_alloc_traces_t *abts = NULL;
+    uint64_t callers[BACKTRACE_DEPTH] = {0};
+    _get_backtrace(callers);
+    uint16_t hash = (_get_backtrace_hash(callers) & HG_SIZE);
 
-                if(abts->upper_bound_size == 0 || size > abts->upper_bound_size) {
-                    abts->upper_bound_size = size;
-                }
+    /* Take the backtrace hash and determine if its already been seen */
+    for(size_t i = 0; i < _alloc_bts_count; i++) {
+        if(_alloc_bts[i].backtrace_hash == hash) {
+            abts = &_alloc_bts[i];
 
-                abts->call_count++;
-                break;
+            if(abts->lower_bound_size == 0 || size < abts->lower_bound_size) {
+                abts->lower_bound_size = size;
             }
-        }
 
-        /* We haven't seen this backtrace before */
-        if(abts == NULL) {
-            abts = &_alloc_bts[_alloc_bts_count];
-            abts->backtrace_hash = hash;
-            abts->lower_bound_size = size;
-            abts->upper_bound_size = size;
-            abts->call_count = 1;
+            if(abts->upper_bound_size == 0 || size > abts->upper_bound_size) {
+                abts->upper_bound_size = size;
+            }
 
-            __iso_memcpy(abts->callers, callers, sizeof(callers));
-            _alloc_bts_count++;
+            abts->call_count++;
+            break;
         }
     }
+
+    /* We haven't seen this backtrace before */
+    if(abts == NULL && _alloc_bts_count < BACKTRACE_DEPTH_SZ) {
+        abts = &_alloc_bts[_alloc_bts_count];
+        abts->backtrace_hash = hash;
+        abts->lower_bound_size = size;
+        abts->upper_bound_size = size;
+        abts->call_count = 1;
+
+        __iso_memcpy(abts->callers, callers, sizeof(callers));
+        _alloc_bts_count++;
+    }
 }
 
 INTERNAL_HIDDEN void _iso_free_profile(void) {
@@ -444,30 +442,28 @@ INTERNAL_HIDDEN void _iso_free_profile(void) {
 
     _free_sampled_count++;
 
-    if(_free_bts_count < BACKTRACE_DEPTH_SZ) {
-        iso_free_traces_t *fbts = NULL;
-        uint64_t callers[BACKTRACE_DEPTH] = {0};
-        _get_backtrace(callers);
-        uint16_t hash = (_get_backtrace_hash(callers) & HG_SIZE);
-
-        /* Take the backtrace hash and determine if its already been seen */
-        for(size_t i = 0; i < _free_bts_count; i++) {
-            if(_free_bts[i].backtrace_hash == hash) {
-                fbts = &_free_bts[i];
-                fbts->call_count++;
-                break;
-            }
+    iso_free_traces_t *fbts = NULL;
+    uint64_t callers[BACKTRACE_DEPTH] = {0};
+    _get_backtrace(callers);
+    uint16_t hash = (_get_backtrace_hash(callers) & HG_SIZE);
+
+    /* Take the backtrace hash and determine if its already been seen */
+    for(size_t i = 0; i < _free_bts_count; i++) {
+        if(_free_bts[i].backtrace_hash == hash) {
+            fbts = &_free_bts[i];
+            fbts->call_count++;
+            break;
         }
+    }
 
-        /* We haven't seen this backtrace before */
-        if(fbts == NULL) {
-            fbts = &_free_bts[_free_bts_count];
-            fbts->backtrace_hash = hash;
-            fbts->call_count = 1;
+    /* We haven't seen this backtrace before */
+    if(fbts == NULL && _free_bts_count < BACKTRACE_DEPTH_SZ) {
+        fbts = &_free_bts[_free_bts_count];
+        fbts->backtrace_hash = hash;
+        fbts->call_count = 1;
 
-            __iso_memcpy(fbts->callers, callers, sizeof(callers));
-            _free_bts_count++;
-        }
+        __iso_memcpy(fbts->callers, callers, sizeof(callers));
+        _free_bts_count++;
     }
 }
 
-- 
2.43.0


From d843eb0b87fc89e58860919282debf01bc7ce1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:03 +0000
Subject: [PATCH 32/36] fix: the heap profile kept the end of a longer older
 one

---
 src/iso_alloc_profiler.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc_profiler.c b/src/iso_alloc_profiler.c
index 5af0669..4f7e442 100644
--- a/src/iso_alloc_profiler.c
+++ b/src/iso_alloc_profiler.c
@@ -472,9 +472,9 @@ INTERNAL_HIDDEN void _initialize_profiler(void) {
      * as long as we guarantee to never use it if the root
      * is not locked */
     if(getenv(PROFILER_ENV_STR) != NULL) {
-        profiler_fd = open(getenv(PROFILER_ENV_STR), O_RDWR | O_CREAT | O_SYNC, 0666);
+        profiler_fd = open(getenv(PROFILER_ENV_STR), O_RDWR | O_CREAT | O_TRUNC | O_SYNC, 0666);
     } else {
-        profiler_fd = open(PROFILER_FILE_PATH, O_RDWR | O_CREAT | O_SYNC, 0666);
+        profiler_fd = open(PROFILER_FILE_PATH, O_RDWR | O_CREAT | O_TRUNC | O_SYNC, 0666);
     }
 
     if(profiler_fd == ERR) {
-- 
2.43.0


From 9d7e65f0f4ec0eb1e923ed63249821f075b17aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 33/36] fix: CPU pinning mixed up cores above 255

The core a zone is pinned to was kept in a uint8_t but compared with the
int from sched_getcpu(): cores equal modulo 256 aliased for cores below 256, and
on any core above 255 no zone was ever usable again, so that every allocation
created a new zone until there were too many.
---
 include/iso_alloc_ds.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/iso_alloc_ds.h b/include/iso_alloc_ds.h
index 2fd76f8..55610a8 100644
--- a/include/iso_alloc_ds.h
+++ b/include/iso_alloc_ds.h
@@ -46,7 +46,7 @@ typedef struct {
     free_bit_slot_t free_bit_slots_usable;        /* The oldest members of the free cache are served first */
     int8_t preallocated_bitmap_idx;               /* The bitmap is preallocated and its index */
 #if CPU_PIN
-    uint8_t cpu_core; /* What CPU core this zone is pinned to */
+    int32_t cpu_core; /* What CPU core this zone is pinned to */
 #endif
     bool internal; /* Zones can be managed by iso_alloc or private */
     bool is_full;  /* Flags whether this zone is full to avoid bit slot searches */
-- 
2.43.0


From e935618d6f1f45a14bc86763ffa9af7fc6bb537f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:41 +0000
Subject: [PATCH 34/36] fix: valloc and pvalloc served by libc were freed to us

---
 src/malloc_hook.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/malloc_hook.c b/src/malloc_hook.c
index 3f666b2..5731eed 100644
--- a/src/malloc_hook.c
+++ b/src/malloc_hook.c
@@ -103,6 +103,19 @@ EXTERNAL_API void *memalign(size_t alignment, size_t s) {
     return iso_memalign(alignment, s);
 }
 
+#if __linux__ && !__ANDROID__
+/* Without these libc serves the page aligned allocations
+ * that are then passed to our free(). The size of an aligned
+ * allocation is always rounded up to the alignment */
+EXTERNAL_API void *valloc(size_t s) {
+    return iso_memalign(sysconf(_SC_PAGESIZE), s);
+}
+
+EXTERNAL_API void *pvalloc(size_t s) {
+    return iso_memalign(sysconf(_SC_PAGESIZE), s);
+}
+#endif
+
 #if __ANDROID__ || __FreeBSD__
 EXTERNAL_API size_t malloc_usable_size(const void *ptr) {
     return iso_chunksz((void *) ptr);
-- 
2.43.0


From c99790906503d5975df6d59baf9a9ca3f2ce13f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 35/36] fix: realloc of NULL to zero bytes is an allocation,
 not a failure

---
 src/iso_alloc_interfaces.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/iso_alloc_interfaces.c b/src/iso_alloc_interfaces.c
index 53e5b12..de757ad 100644
--- a/src/iso_alloc_interfaces.c
+++ b/src/iso_alloc_interfaces.c
@@ -76,6 +76,12 @@ EXTERNAL_API FLATTEN NO_DISCARD size_t iso_zone_chunk_count(iso_alloc_zone_handl
 }
 
 EXTERNAL_API FLATTEN NO_DISCARD REALLOC_SIZE ASSUME_ALIGNED void *iso_realloc(void *p, size_t size) {
+    /* Without an old pointer this is a plain allocation,
+     * and those of zero bytes do not return NULL */
+    if(p == NULL) {
+        return iso_alloc(size);
+    }
+
     if(size == 0) {
         iso_free(p);
         return NULL;
@@ -93,9 +99,7 @@ EXTERNAL_API FLATTEN NO_DISCARD REALLOC_SIZE ASSUME_ALIGNED void *iso_realloc(vo
         size = chunk_size;
     }
 
-    if(p != NULL) {
-        _iso_alloc_memcpy(r, p, size);
-    }
+    _iso_alloc_memcpy(r, p, size);
 
 #if PERM_FREE_REALLOC
     _iso_free(p, true);
-- 
2.43.0


From b69c436ae19ee5654f1a8e4de1b15efa62e9be7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:25 +0000
Subject: [PATCH 36/36] fix: failed allocations through the malloc hooks did
 not set errno

---
 src/malloc_hook.c | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/malloc_hook.c b/src/malloc_hook.c
index 5731eed..9607b7c 100644
--- a/src/malloc_hook.c
+++ b/src/malloc_hook.c
@@ -13,12 +13,27 @@
  */
 #if MALLOC_HOOK
 
+/* Callers of the usual interfaces expect errno to
+ * tell them why an allocation has failed */
+static INLINE void *set_errno(void *p) {
+    if(p == NULL) {
+        errno = ENOMEM;
+    }
+
+    return p;
+}
+
+/* A size of zero frees the chunk and is not a failure */
+static INLINE void *set_errno_realloc(void *p, size_t s) {
+    return s == 0 ? p : set_errno(p);
+}
+
 EXTERNAL_API void *__libc_malloc(size_t s) {
-    return iso_alloc(s);
+    return set_errno(iso_alloc(s));
 }
 
 EXTERNAL_API void *malloc(size_t s) {
-    return iso_alloc(s);
+    return set_errno(iso_alloc(s));
 }
 
 EXTERNAL_API void __libc_free(void *p) {
@@ -30,27 +45,27 @@ EXTERNAL_API void free(void *p) {
 }
 
 EXTERNAL_API void *__libc_calloc(size_t n, size_t s) {
-    return iso_calloc(n, s);
+    return set_errno(iso_calloc(n, s));
 }
 
 EXTERNAL_API void *calloc(size_t n, size_t s) {
-    return iso_calloc(n, s);
+    return set_errno(iso_calloc(n, s));
 }
 
 EXTERNAL_API void *__libc_realloc(void *p, size_t s) {
-    return iso_realloc(p, s);
+    return set_errno_realloc(iso_realloc(p, s), s);
 }
 
 EXTERNAL_API void *realloc(void *p, size_t s) {
-    return iso_realloc(p, s);
+    return set_errno_realloc(iso_realloc(p, s), s);
 }
 
 EXTERNAL_API void *__libc_reallocarray(void *p, size_t n, size_t s) {
-    return iso_reallocarray(p, n, s);
+    return set_errno_realloc(iso_reallocarray(p, n, s), n == 0 ? 0 : s);
 }
 
 EXTERNAL_API void *reallocarray(void *p, size_t n, size_t s) {
-    return iso_reallocarray(p, n, s);
+    return set_errno_realloc(iso_reallocarray(p, n, s), n == 0 ? 0 : s);
 }
 
 EXTERNAL_API int __posix_memalign(void **r, size_t a, size_t s) {
@@ -135,10 +150,10 @@ EXTERNAL_API size_t malloc_usable_size(void *ptr) {
 #endif
 
 static void *libc_malloc(size_t s, const void *caller) {
-    return iso_alloc(s);
+    return set_errno(iso_alloc(s));
 }
 static void *libc_realloc(void *ptr, size_t s, const void *caller) {
-    return iso_realloc(ptr, s);
+    return set_errno_realloc(iso_realloc(ptr, s), s);
 }
 static void libc_free(void *ptr, const void *caller) {
     iso_free(ptr);
-- 
2.43.0

