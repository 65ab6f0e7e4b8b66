From cd538f97fe52ac1ee08afad51146fa9622b89695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 01/47] fix: querying the size of a big allocation no longer
 unlinks it

iso_find_big_zone(p, false) removed the zone from the used list, so a
size query made the allocation unknown to a later free or realloc.
---
 src/iso_alloc.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 498f2bd..32ad7f3 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1755,19 +1755,19 @@ INTERNAL_HIDDEN iso_alloc_big_zone_t *iso_find_big_zone(void *p, bool remove) {
         check_big_canary(big_zone);
         /* Only an exact match of the address is valid */
         if(p == big_zone->user_pages_start) {
-            if(remove == true && prev != NULL) {
-                prev->next = big_zone->next;
-            }
-
-            _root->big_zone_used_count--;
+            if(remove == true) {
+                /* If this is our first iteration then we are returning the
+                 * used list head. Set its new value to the next entry */
+                if(prev != NULL) {
+                    prev->next = big_zone->next;
+                } else {
+                    _root->big_zone_used = big_zone->next;
+                }
 
-            /* If this is our first iteration then we are returning the
-             * used list head. Set its new value to the next entry */
-            if(prev == NULL) {
-                _root->big_zone_used = big_zone->next;
+                _root->big_zone_used_count--;
+                big_zone->next = NULL;
             }
 
-            big_zone->next = NULL;
             UNLOCK_BIG_ZONE_USED();
             return big_zone;
         }
-- 
2.43.0


From 1609a757e8160d1a5831f483cd80f9854adda92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 02/47] fix: sizes that wrap when rounded up are refused

A request within 31 bytes of SIZE_MAX was rounded up to 0 and served
from a 32 byte chunk. iso_calloc also cleared a NULL pointer when the
allocation failed.
---
 src/iso_alloc.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 32ad7f3..7899784 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1032,7 +1032,14 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_calloc(size_t nmemb, size_t size) {
     if(size < SMALLEST_CHUNK_SZ) {
         size = SMALLEST_CHUNK_SZ;
     } else if((size % SZ_ALIGNMENT) != 0) {
-        size = ALIGN_SZ_UP(size);
+        const size_t aligned_size = ALIGN_SZ_UP(size);
+
+        if(UNLIKELY(aligned_size < size)) {
+            LOG("Call to calloc() will overflow size=%zu", size);
+            return NULL;
+        }
+
+        size = aligned_size;
     }
 
     size_t sz = nmemb * size;
@@ -1052,6 +1059,10 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_calloc(size_t nmemb, size_t size) {
     }
 #endif
 
+    if(UNLIKELY(p == NULL)) {
+        return NULL;
+    }
+
     __iso_memset(p, 0x0, sz);
     return p;
 }
@@ -1066,7 +1077,18 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc(iso_alloc_zone_t *zone, size_t s
     if(size < SMALLEST_CHUNK_SZ) {
         size = SMALLEST_CHUNK_SZ;
     } else if((size % SZ_ALIGNMENT) != 0) {
-        size = ALIGN_SZ_UP(size);
+        const size_t aligned_size = ALIGN_SZ_UP(size);
+
+        /* Rounding up a size this large wraps around */
+        if(UNLIKELY(aligned_size < size)) {
+            LOG("Cannot allocate %zu bytes", size);
+#if ABORT_ON_NULL
+            LOG_AND_ABORT("isoalloc configured to abort on NULL");
+#endif
+            return NULL;
+        }
+
+        size = aligned_size;
     }
 
     if(UNLIKELY(zone && size > zone->chunk_size)) {
-- 
2.43.0


From 5ccaadb186b18b201eaa7dd03450b5a369d7830b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 03/47] fix: string duplication copies and terminates the whole
 string

iso_strdup did not allocate or write the terminator, iso_strndup dropped
the last character, left short copies unterminated, crashed for n == 0
and read past n characters of an unterminated source.
---
 src/iso_alloc_interfaces.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/iso_alloc_interfaces.c b/src/iso_alloc_interfaces.c
index 7db679e..6a39187 100644
--- a/src/iso_alloc_interfaces.c
+++ b/src/iso_alloc_interfaces.c
@@ -119,13 +119,14 @@ EXTERNAL_API FLATTEN NO_DISCARD ASSUME_ALIGNED char *iso_strdup_from_zone(iso_al
         UNMASK_ZONE_HANDLE(zone);
     }
 
-    char *p = (char *) _iso_alloc(zone, size);
+    /* Include the terminating NUL in the copy */
+    char *p = (char *) _iso_alloc(zone, size + 1);
 
     if(p == NULL) {
         return NULL;
     }
 
-    _iso_alloc_memcpy(p, str, size);
+    _iso_alloc_memcpy(p, str, size + 1);
     return p;
 }
 
@@ -138,25 +139,26 @@ EXTERNAL_API FLATTEN NO_DISCARD ASSUME_ALIGNED char *iso_strndup_from_zone(iso_a
         return NULL;
     }
 
-    size_t s_size = strlen(str);
+    /* The source does not have to be terminated if
+     * it is at least n characters long */
+    size_t size = 0;
+
+    while(size < n && str[size] != '\0') {
+        size++;
+    }
 
     if(zone != NULL) {
         UNMASK_ZONE_HANDLE(zone);
     }
 
-    char *p = (char *) _iso_alloc(zone, n);
+    char *p = (char *) _iso_alloc(zone, size + 1);
 
     if(p == NULL) {
         return NULL;
     }
 
-    if(s_size > n) {
-        _iso_alloc_memcpy(p, str, n);
-        p[n - 1] = '\0';
-    } else {
-        _iso_alloc_memcpy(p, str, s_size);
-    }
-
+    _iso_alloc_memcpy(p, str, size);
+    p[size] = '\0';
     return p;
 }
 
-- 
2.43.0


From da3c6d251b7306b4a7aa0a202f8d8b068b5219b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 04/47] fix: iso_alloc_new_zone returns NULL for unsupported
 sizes

The NULL result was masked and returned as a bogus handle.
---
 src/iso_alloc_interfaces.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/iso_alloc_interfaces.c b/src/iso_alloc_interfaces.c
index 6a39187..5ba3a5d 100644
--- a/src/iso_alloc_interfaces.c
+++ b/src/iso_alloc_interfaces.c
@@ -233,6 +233,12 @@ EXTERNAL_API FLATTEN void iso_alloc_destroy_zone(iso_alloc_zone_handle *zone) {
 
 EXTERNAL_API FLATTEN NO_DISCARD iso_alloc_zone_handle *iso_alloc_new_zone(size_t size) {
     iso_alloc_zone_handle *zone = (iso_alloc_zone_handle *) iso_new_zone(size, false);
+
+    /* Masking NULL would return an invalid handle */
+    if(zone == NULL) {
+        return NULL;
+    }
+
     UNMASK_ZONE_HANDLE(zone);
     return zone;
 }
-- 
2.43.0


From ca3d619f242011b9a50f6d8f0353089dcf6d141c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 05/47] fix: fall back to normal pages when no huge pages are
 available

A 2 or 4 MB allocation terminated the process on systems without a
reserved huge page pool.
---
 src/iso_alloc_util.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/iso_alloc_util.c b/src/iso_alloc_util.c
index 132780e..5c98a7d 100644
--- a/src/iso_alloc_util.c
+++ b/src/iso_alloc_util.c
@@ -151,7 +151,16 @@ void *mmap_pages(size_t size, bool populate, const char *name, int32_t prot) {
 #endif
 #endif
 
-    p = mmap(p, sz, prot, flags, fd, 0);
+    void *hint_p = p;
+    p = mmap(hint_p, sz, prot, flags, fd, 0);
+
+#if __linux__ && MAP_HUGETLB && HUGE_PAGES
+    /* The system may have no huge pages available */
+    if(p == MAP_FAILED && (flags & MAP_HUGETLB) != 0) {
+        flags &= ~MAP_HUGETLB;
+        p = mmap(hint_p, sz, prot, flags, fd, 0);
+    }
+#endif
 
     if(p == MAP_FAILED) {
         LOG_AND_ABORT("Failed to mmap rw pages");
-- 
2.43.0


From 74d56ab382858db078db143ffc62d4a7699eea2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:45 +0000
Subject: [PATCH 06/47] fix: replacing the first zone keeps its index

When zone 0 was retired its replacement got the index of the next unused
zone, so the next retirement unmapped it without replacing it and lookups
by size reached a zone of a different size.
---
 src/iso_alloc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 7899784..a478d9e 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -491,8 +491,8 @@ INTERNAL_HIDDEN iso_alloc_zone_t *_iso_new_zone(size_t size, bool internal, int3
 
     create_guard_page(user_pages_guard_above);
 
-    /* We created a new zone, we did not replace a retired one */
-    if(index > 0) {
+    /* We replaced a retired zone, we did not create a new one */
+    if(index >= 0) {
         new_zone->index = index;
     } else {
         new_zone->index = _root->zones_used;
-- 
2.43.0


From 908837887dec81dce8fc2aae7cb7b1b75d5a6b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:45 +0000
Subject: [PATCH 07/47] fix: a zone only counts chunks it can hand out

For chunk sizes that do not divide the zone evenly the last chunks have no
whole qword in the bitmap and are never allocated, but
iso_zone_chunk_count reported them as capacity.
---
 src/iso_alloc.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index a478d9e..ec8bb4d 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -374,6 +374,14 @@ INTERNAL_HIDDEN iso_alloc_zone_t *_iso_new_zone(size_t size, bool internal, int3
     new_zone->bitmap_size = (bitmap_size > sizeof(bitmap_index_t)) ? bitmap_size : sizeof(bitmap_index_t);
     new_zone->max_bitmap_idx = (new_zone->bitmap_size >> 3);
 
+    /* Only whole qwords of the bitmap are ever used. Don't count
+     * chunks at the end of the zone that can't be handed out */
+    const uint32_t max_chunks = (new_zone->max_bitmap_idx * (BITS_PER_QWORD / BITS_PER_CHUNK));
+
+    if(new_zone->chunk_count > max_chunks) {
+        new_zone->chunk_count = max_chunks;
+    }
+
     if(g_page_size >= new_zone->bitmap_size) {
         const int sbsi = (sizeof(small_bitmap_sizes) / sizeof(int)) - 1;
 
-- 
2.43.0


From 85e3fa4ddae5d27b9d2d95171b174f755edb519a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:45 +0000
Subject: [PATCH 08/47] fix: detect a second free of a permanently free'd chunk

A permanently free'd chunk looked like an allocated one to the free path,
so freeing it again returned it to circulation.
---
 src/iso_alloc.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index ec8bb4d..9d59a37 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1472,6 +1472,13 @@ INTERNAL_HIDDEN void iso_free_chunk_from_zone(iso_alloc_zone_t *zone, void *rest
                       p, zone->index, dwords_to_bit_slot, bit_slot);
     }
 
+    /* Both bits are only set for canary chunks and chunks that were
+     * permanently free'd. Neither of them can be free'd (again) */
+    if(UNLIKELY((GET_BIT(b, (which_bit + 1))) == 1)) {
+        LOG_AND_ABORT("Free of canary or permanently free'd chunk 0x%p detected from zone[%d] dwords_to_bit_slot=%lu bit_slot=%lu",
+                      p, zone->index, dwords_to_bit_slot, bit_slot);
+    }
+
     /* Set the next bit so we know this chunk was used */
     SET_BIT(b, (which_bit + 1));
 
-- 
2.43.0


From 7150fbba59a599ead5147c2e5f9c6a0d3667305f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:45 +0000
Subject: [PATCH 09/47] fix: ROUND_DOWN_PAGE of a page aligned address is that
 address

It returned the previous page, so a permanent free of a big zone whose
meta data sits at the start of its page protected the wrong page.
---
 include/iso_alloc_internal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/iso_alloc_internal.h b/include/iso_alloc_internal.h
index c8f87cb..2d76888 100644
--- a/include/iso_alloc_internal.h
+++ b/include/iso_alloc_internal.h
@@ -204,7 +204,7 @@ assert(sizeof(size_t) >= 64)
     ((((n + g_page_size) - 1) >> g_page_size_shift) * (g_page_size))
 
 #define ROUND_DOWN_PAGE(n) \
-    (ROUND_UP_PAGE(n) - g_page_size)
+    (((n) >> g_page_size_shift) << g_page_size_shift)
 
 #if MASK_PTRS
 #define MASK_ZONE_PTRS(zone) \
-- 
2.43.0


From cf2236a3426bbeef69ba8e2d5fde0efbd4a686a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:45 +0000
Subject: [PATCH 10/47] fix: unmap the meta data page of a released big zone

The meta data is at a random offset in its page, so munmap was called with
an unaligned address and failed, leaking a page for every big allocation.
---
 src/iso_alloc.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 9d59a37..da24032 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1876,10 +1876,12 @@ INTERNAL_HIDDEN void iso_free_big_zone(iso_alloc_big_zone_t *big_zone, bool perm
         munmap(big_zone->user_pages_start, big_zone->size);
 #endif
 
+        /* Big zone meta data is at a random offset from its base page */
+        void *md_page = (void *) ROUND_DOWN_PAGE((uintptr_t) big_zone);
 #if BIG_ZONE_META_DATA_GUARD
-        unmap_guarded_pages(big_zone, BIG_ZONE_META_DATA_PAGE_COUNT);
+        unmap_guarded_pages(md_page, g_page_size * BIG_ZONE_META_DATA_PAGE_COUNT);
 #else
-        munmap(big_zone, BIG_ZONE_META_DATA_PAGE_COUNT);
+        munmap(md_page, g_page_size * BIG_ZONE_META_DATA_PAGE_COUNT);
 #endif
     }
 }
@@ -2121,10 +2123,12 @@ INTERNAL_HIDDEN void _free_big_zone_list(iso_alloc_big_zone_t *head) {
         munmap(big_zone->user_pages_start, big_zone->size);
 #endif
 
+        /* Big zone meta data is at a random offset from its base page */
+        void *md_page = (void *) ROUND_DOWN_PAGE((uintptr_t) big_zone);
 #if BIG_ZONE_META_DATA_GUARD
-        unmap_guarded_pages(big_zone, BIG_ZONE_META_DATA_PAGE_COUNT);
+        unmap_guarded_pages(md_page, g_page_size * BIG_ZONE_META_DATA_PAGE_COUNT);
 #else
-        munmap(big_zone, BIG_ZONE_META_DATA_PAGE_COUNT);
+        munmap(md_page, g_page_size * BIG_ZONE_META_DATA_PAGE_COUNT);
 #endif
         big_zone = big;
     }
-- 
2.43.0


From ac8244429e75f1c2c237de79c4cdd19f6e50ff53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:12 +0000
Subject: [PATCH 11/47] fix: lock the big zone lists while they are verified

The lists are not protected by the root lock, so an integrity check could
read the meta data of a zone another thread was just releasing.
---
 src/iso_alloc_sanity.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index 752d506..89f04f5 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -82,9 +82,14 @@ INTERNAL_HIDDEN void _verify_all_zones(void) {
         _verify_zone(zone);
     }
 
-    /* Root is locked already */
+    /* Root is locked already but big zones have their own locks */
+    LOCK_BIG_ZONE_USED();
     _verify_big_zone_list(_root->big_zone_used);
+    UNLOCK_BIG_ZONE_USED();
+
+    LOCK_BIG_ZONE_FREE();
     _verify_big_zone_list(_root->big_zone_free);
+    UNLOCK_BIG_ZONE_FREE();
 }
 
 INTERNAL_HIDDEN void _verify_zone(iso_alloc_zone_t *zone) {
-- 
2.43.0


From 9f0d5f7d019b7e315ab5e5188ea5b422a88984bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:12 +0000
Subject: [PATCH 12/47] fix: STRONG_SIZE_ISOLATION applies to general zones

The policy was enforced for private zones, where smaller requests are
valid (iso_strdup_from_zone), and never for general allocations, which
were still served from zones of any larger size.
---
 src/iso_alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index da24032..cc45ecb 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -807,7 +807,7 @@ INTERNAL_HIDDEN iso_alloc_zone_t *is_zone_usable(iso_alloc_zone_t *zone, size_t
     }
 
 #if STRONG_SIZE_ISOLATION
-    if(UNLIKELY(zone->internal == false && size != zone->chunk_size)) {
+    if(UNLIKELY(zone->internal == true && size != zone->chunk_size)) {
         return NULL;
     }
 #endif
-- 
2.43.0


From d1bc66019ffc45fa09cd43bcb6d9c1a98e23aaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:12 +0000
Subject: [PATCH 13/47] fix: memory tag lookups for chunk sizes that are not a
 power of two

The alignment check only worked for powers of two and terminated correct
programs for all other sizes. The end of the zone is not part of it.
---
 src/iso_alloc_mem_tags.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc_mem_tags.c b/src/iso_alloc_mem_tags.c
index 2bb3713..3501b5a 100644
--- a/src/iso_alloc_mem_tags.c
+++ b/src/iso_alloc_mem_tags.c
@@ -11,7 +11,7 @@ INTERNAL_HIDDEN uint8_t _iso_alloc_get_mem_tag(void *p, iso_alloc_zone_t *zone)
 #if MEMORY_TAGGING
     void *user_pages_start = UNMASK_USER_PTR(zone);
 
-    if(user_pages_start > p || (user_pages_start + ZONE_USER_SIZE) < p) {
+    if(user_pages_start > p || (user_pages_start + ZONE_USER_SIZE) <= p) {
         LOG_AND_ABORT("Cannot get tag for pointer %p with wrong zone %d %p - %p", p, zone->index, user_pages_start, user_pages_start + ZONE_USER_SIZE);
     }
 
@@ -19,7 +19,7 @@ INTERNAL_HIDDEN uint8_t _iso_alloc_get_mem_tag(void *p, iso_alloc_zone_t *zone)
     const uint64_t chunk_offset = (uint64_t) (p - user_pages_start);
 
     /* Ensure the pointer is a multiple of chunk size */
-    if(UNLIKELY((chunk_offset & (zone->chunk_size - 1)) != 0)) {
+    if(UNLIKELY((chunk_offset % zone->chunk_size) != 0)) {
         LOG_AND_ABORT("Chunk offset %d not an alignment of %d", chunk_offset, zone->chunk_size);
     }
 
-- 
2.43.0


From 7d2ae30da1d0483d6e4beae1aee6af0b5cb9dc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:12 +0000
Subject: [PATCH 14/47] fix: verifying a correctly tagged pointer does not
 abort

The tag byte was compared to the top byte of the pointer without being
shifted into place, so every pointer with a non-zero tag was rejected and
an untagged pointer to a chunk with tag 0 was the only one accepted.
---
 src/iso_alloc_mem_tags.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc_mem_tags.c b/src/iso_alloc_mem_tags.c
index 3501b5a..7ca44b6 100644
--- a/src/iso_alloc_mem_tags.c
+++ b/src/iso_alloc_mem_tags.c
@@ -38,7 +38,7 @@ INTERNAL_HIDDEN void _iso_alloc_verify_tag(void *p, iso_alloc_zone_t *zone) {
     }
 
     void *untagged_p = (void *) ((uintptr_t) p & TAGGED_PTR_MASK);
-    const uint64_t tag = _iso_alloc_get_mem_tag(untagged_p, zone);
+    const uint64_t tag = ((uint64_t) _iso_alloc_get_mem_tag(untagged_p, zone) << UNTAGGED_BITS);
 
     if(tag != ((uintptr_t) p & IS_TAGGED_PTR_MASK)) {
         LOG_AND_ABORT("Pointer %p has wrong tag %x, expected %x", p, ((uintptr_t) p & IS_TAGGED_PTR_MASK), tag);
-- 
2.43.0


From 40f210618293e3cedba16a2df830647cda67d4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:12 +0000
Subject: [PATCH 15/47] fix: destroying a tagged zone unmaps its lowest guard
 page

---
 src/iso_alloc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index cc45ecb..e42341b 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -224,7 +224,8 @@ INTERNAL_HIDDEN void _iso_alloc_destroy_zone_unlocked(iso_alloc_zone_t *zone, bo
     if(zone->tagged == true) {
         size_t s = ROUND_UP_PAGE(zone->chunk_count * MEM_TAG_SIZE);
         void *_mtp = (zone->user_pages_start - s - g_page_size);
-        munmap(_mtp, g_page_size + s);
+        /* There is a guard page below and above the tags */
+        munmap(_mtp - g_page_size, s + (g_page_size * 2));
         zone->tagged = false;
     }
 #endif
-- 
2.43.0


From 1dbd79afd2608f81f62cbad71e720acf1212a6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:12 +0000
Subject: [PATCH 16/47] fix: sample general allocations, not private zone
 allocations

The condition was inverted: with ALLOC_SANITY private zone requests were
served from sampled pages outside of the zone and iso_free_from_zone then
aborted, while general allocations were never sampled.
---
 src/iso_alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index e42341b..15853a9 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1131,7 +1131,7 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc(iso_alloc_zone_t *zone, size_t s
 
 #if ALLOC_SANITY
     /* We don't sample if we are allocating from a private zone */
-    if(zone != NULL) {
+    if(zone == NULL) {
         if(size < g_page_size && _sane_sampled < MAX_SANE_SAMPLES) {
             /* If we chose to sample this allocation then
              * _iso_alloc_sample will call UNLOCK_ROOT() */
-- 
2.43.0


From 428725fa4e2be0110d7803b33153ba65f9922c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:12 +0000
Subject: [PATCH 17/47] fix: the sampled allocation cache has an entry for
 every index

SANE_CACHE_IDX() can be 65535, one past the end of the array.
---
 include/iso_alloc_sanity.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/iso_alloc_sanity.h b/include/iso_alloc_sanity.h
index 02f23a6..cda917b 100644
--- a/include/iso_alloc_sanity.h
+++ b/include/iso_alloc_sanity.h
@@ -16,7 +16,7 @@
 
 #define SANITY_SAMPLE_ODDS 10000
 #define MAX_SANE_SAMPLES 1024
-#define SANE_CACHE_SIZE 65535
+#define SANE_CACHE_SIZE 65536
 #define SANE_CACHE_IDX(p) (((uint64_t) p >> 8) & 0xffff)
 #define SANITY_CANARY_VALIDATE_MASK 0xffffffffffffff00
 #define SANITY_CANARY_SIZE 8
-- 
2.43.0


From d4f4da469e937540b292d565a2e1c782023fc9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:12 +0000
Subject: [PATCH 18/47] fix: preallocated bitmaps are limited to what in_use
 can track

Shifting the 32 bit in_use member by up to 255 is undefined.
---
 src/iso_alloc.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 15853a9..9b4b2bc 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -398,6 +398,11 @@ INTERNAL_HIDDEN iso_alloc_zone_t *_iso_new_zone(size_t size, bool internal, int3
 
                 int bits_available = g_page_size / new_zone->bitmap_size;
 
+                /* We can only track as many bitmaps as in_use has bits */
+                if(bits_available > (int) (sizeof(_root->bitmaps[i].in_use) * BITS_PER_BYTE)) {
+                    bits_available = (int) (sizeof(_root->bitmaps[i].in_use) * BITS_PER_BYTE);
+                }
+
                 for(int z = 0; z < bits_available; z++) {
                     if((GET_BIT(_root->bitmaps[i].in_use, z)) == 0) {
                         new_zone->bitmap_start = _root->bitmaps[i].bitmap + (new_zone->bitmap_size * z);
-- 
2.43.0


From 355771cf39c29fa7dea9120c1107f78520c853da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:12 +0000
Subject: [PATCH 19/47] fix: an allocation before our constructor initializes
 everything

Only the root was initialized and the constructor then did nothing, so the
zero size page, the UAF page, the signal handler, the sanity canary and
the profiler were missing for the rest of the process. iso_alloc(0)
returned NULL or, as the first call, an accessible chunk.
---
 src/iso_alloc.c | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 9b4b2bc..3b8b7c2 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1082,6 +1082,17 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_calloc(size_t nmemb, size_t size) {
 }
 
 INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc(iso_alloc_zone_t *zone, size_t size) {
+#if AUTO_CTOR_DTOR
+    /* Other constructors may allocate before ours was called */
+    if(UNLIKELY(_root == NULL)) {
+        if(UNLIKELY(zone != NULL)) {
+            LOG_AND_ABORT("_root was NULL but zone %p was not", zone);
+        }
+
+        _iso_alloc_initialize();
+    }
+#endif
+
 #if NO_ZERO_ALLOCATIONS
     if(UNLIKELY(size == 0 && _root != NULL)) {
         return _root->zero_alloc_page;
@@ -1112,26 +1123,7 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc(iso_alloc_zone_t *zone, size_t s
     LOCK_ROOT();
 
     if(UNLIKELY(_root == NULL)) {
-#if AUTO_CTOR_DTOR
-        if(UNLIKELY(zone != NULL)) {
-            LOG_AND_ABORT("_root was NULL but zone %p was not", zone);
-        }
-
-        g_page_size = sysconf(_SC_PAGESIZE);
-        g_page_size_shift = _log2(g_page_size);
-        iso_alloc_initialize_global_root();
-
-#if NO_ZERO_ALLOCATIONS
-        /* In the unlikely event size is 0 but we hadn't
-         * initialized the root yet return the zero page */
-        if(UNLIKELY(size == 0)) {
-            UNLOCK_ROOT();
-            return _root->zero_alloc_page;
-        }
-#endif
-#else
         LOG_AND_ABORT("Root never initialized!");
-#endif
     }
 
 #if ALLOC_SANITY
-- 
2.43.0


From 849cbf3dc443eee6d5148b57906e65d19388c852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 20/47] fix: the profiler returns every trace, counted from the
 first sample

The trace queries copied one record but returned the number of all of
them, and the first sample of a call path was missing from its call count
and size bounds.
---
 src/iso_alloc_profiler.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc_profiler.c b/src/iso_alloc_profiler.c
index 9e4078d..af08382 100644
--- a/src/iso_alloc_profiler.c
+++ b/src/iso_alloc_profiler.c
@@ -244,16 +244,16 @@ INTERNAL_HIDDEN uint64_t __iso_alloc_big_zone_mem_usage(iso_alloc_big_zone_t *he
  * be used to interpret allocation patterns */
 INTERNAL_HIDDEN size_t _iso_get_alloc_traces(iso_alloc_traces_t *traces_out) {
     LOCK_ROOT();
-    __iso_memcpy(traces_out, _alloc_bts, sizeof(iso_alloc_traces_t));
     size_t sz = _alloc_bts_count;
+    __iso_memcpy(traces_out, _alloc_bts, sz * sizeof(iso_alloc_traces_t));
     UNLOCK_ROOT();
     return sz;
 }
 
 INTERNAL_HIDDEN size_t _iso_get_free_traces(iso_free_traces_t *traces_out) {
     LOCK_ROOT();
-    __iso_memcpy(traces_out, _free_bts, sizeof(iso_free_traces_t));
     size_t sz = _free_bts_count;
+    __iso_memcpy(traces_out, _free_bts, sz * sizeof(iso_free_traces_t));
     UNLOCK_ROOT();
     return sz;
 }
@@ -442,6 +442,9 @@ INTERNAL_HIDDEN void _iso_alloc_profile(size_t size) {
         if(abts == NULL) {
             abts = &_alloc_bts[_alloc_bts_count];
             abts->backtrace_hash = hash;
+            abts->lower_bound_size = size;
+            abts->upper_bound_size = size;
+            abts->call_count = 1;
 
             _save_alloc_backtrace(abts);
             _alloc_bts_count++;
@@ -476,6 +479,7 @@ INTERNAL_HIDDEN void _iso_free_profile(void) {
         if(fbts == NULL) {
             fbts = &_free_bts[_free_bts_count];
             fbts->backtrace_hash = hash;
+            fbts->call_count = 1;
 
             _save_free_backtrace(fbts);
             _free_bts_count++;
-- 
2.43.0


From 7992f1e87c3adfbe5b2df94542791c83163e2bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 21/47] fix: profiler zone usage is a percentage of chunks

Integer divisions, one of them of a value that already was a percentage,
made the usage 0 for all but completely full zones. The table was also one
entry too short for zones of SMALL_SIZE_MAX chunks.
---
 include/iso_alloc_profiler.h |  2 +-
 src/iso_alloc_profiler.c     | 10 ++++------
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/iso_alloc_profiler.h b/include/iso_alloc_profiler.h
index b122318..a4fcc41 100644
--- a/include/iso_alloc_profiler.h
+++ b/include/iso_alloc_profiler.h
@@ -30,7 +30,7 @@ typedef struct {
     uint64_t count;
 } zone_profiler_map_t;
 
-zone_profiler_map_t _zone_profiler_map[SMALL_SIZE_MAX];
+zone_profiler_map_t _zone_profiler_map[SMALL_SIZE_MAX + 1];
 
 /* iso_alloc_traces_t is a public structure, and
  * is defined in the public header iso_alloc.h */
diff --git a/src/iso_alloc_profiler.c b/src/iso_alloc_profiler.c
index af08382..16b6b59 100644
--- a/src/iso_alloc_profiler.c
+++ b/src/iso_alloc_profiler.c
@@ -176,7 +176,7 @@ INTERNAL_HIDDEN uint64_t _iso_alloc_zone_leak_detector(iso_alloc_zone_t *zone, b
      * in use and previously used by this zone */
     if(profile == true) {
         uint64_t total = (in_use + was_used);
-        return (uint64_t) ((float) (total / zone->chunk_count) * 100.0);
+        return (uint64_t) (((float) total / zone->chunk_count) * 100.0);
     }
 #endif
     return in_use;
@@ -374,7 +374,7 @@ INTERNAL_HIDDEN void _iso_output_profile() {
         }
     }
 
-    for(int i = 0; i < SMALL_SIZE_MAX; i++) {
+    for(int i = 0; i <= SMALL_SIZE_MAX; i++) {
         if(_zone_profiler_map[i].count != 0) {
             _iso_alloc_printf(profiler_fd, "%d,%d,%d\n", i, _zone_profiler_map[i].total, _zone_profiler_map[i].count);
         }
@@ -402,15 +402,13 @@ INTERNAL_HIDDEN void _iso_alloc_profile(size_t size) {
 
         /* For the purposes of the profiler we don't care about
          * the differences between canary and leaked chunks.
-         * So lets just use the full count */
+         * So lets just treat it as %100 used */
         if(zone->is_full) {
-            used = zone->chunk_count;
+            used = 100;
         } else {
             used = _iso_alloc_zone_leak_detector(zone, true);
         }
 
-        used = (int32_t) ((float) (used / zone->chunk_count) * 100.0);
-
         if(used > CHUNK_USAGE_THRESHOLD) {
             _zone_profiler_map[zone->chunk_size].count++;
         }
-- 
2.43.0


From 89e8ef60b7dc333c7edeaf1e8453a3b4240a27c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 22/47] fix: lock the root while a free is profiled

The profiler counters and traces are protected by the root lock.
---
 src/iso_alloc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 3b8b7c2..d1fe017 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1588,7 +1588,9 @@ INTERNAL_HIDDEN void _iso_free(void *p, bool permanent) {
 #endif
 
 #if HEAP_PROFILER
+    LOCK_ROOT();
     _iso_free_profile();
+    UNLOCK_ROOT();
 #endif
 
 #if ARM_MTE
-- 
2.43.0


From 8c2ef4bd23f18cd08ef774d4f90be1203a1b14ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 23/47] fix: ISO_DTOR_CLEANUP releases everything and allows a
 new start

The destructor unmapped the pages around the thread local zone cache, left
two pages of zone meta data mapped, unlocked mutexes it did not hold and
kept a pointer to the unmapped root, so initializing again did nothing and
the next allocation crashed.
---
 src/iso_alloc.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index d1fe017..534eff4 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -2182,7 +2182,7 @@ INTERNAL_HIDDEN void _iso_alloc_destroy(void) {
 
 #if ISO_DTOR_CLEANUP
     /* Unmap all zone structures */
-    munmap((void *) ((uintptr_t) _root->zones - g_page_size), _root->zones_size);
+    unmap_guarded_pages(_root->zones, _root->zones_size);
 #endif
 
     LOCK_BIG_ZONE_USED();
@@ -2196,12 +2196,17 @@ INTERNAL_HIDDEN void _iso_alloc_destroy(void) {
 #if ISO_DTOR_CLEANUP
     unmap_guarded_pages(_root->chunk_lookup_table, CHUNK_TO_ZONE_TABLE_SZ);
     unmap_guarded_pages(_root->chunk_quarantine, CHUNK_QUARANTINE_SZ * sizeof(uintptr_t));
+
+    /* The zone cache refers to zones we just unmapped */
+#if THREAD_SUPPORT
+    clear_zone_cache();
+#else
     unmap_guarded_pages(zone_cache, ZONE_CACHE_SZ * sizeof(_tzc));
+    zone_cache_count = 0;
+#endif
 
 #if THREAD_SUPPORT && !USE_SPINLOCK
-    UNLOCK_BIG_ZONE_FREE();
     pthread_mutex_destroy(&_root->big_zone_free_mutex);
-    UNLOCK_BIG_ZONE_USED();
     pthread_mutex_destroy(&_root->big_zone_used_mutex);
 #endif
 
@@ -2212,6 +2217,7 @@ INTERNAL_HIDDEN void _iso_alloc_destroy(void) {
     }
 
     unmap_guarded_pages(_root, sizeof(iso_alloc_root));
+    _root = NULL;
 #endif
     UNLOCK_ROOT();
 
-- 
2.43.0


From 6c3ba56c89eb255e66824fc130bcea0283beaac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:24 +0000
Subject: [PATCH 24/47] fix: ISO_DTOR_CLEANUP builds without ALLOC_SANITY

---
 src/iso_alloc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 534eff4..baadb12 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -2222,7 +2222,9 @@ INTERNAL_HIDDEN void _iso_alloc_destroy(void) {
     UNLOCK_ROOT();
 
 #if ISO_DTOR_CLEANUP && THREAD_SUPPORT && !USE_SPINLOCK
+#if ALLOC_SANITY
     pthread_mutex_destroy(&sane_cache_mutex);
+#endif
     pthread_mutex_destroy(&root_busy_mutex);
 #endif
 }
-- 
2.43.0


From 51acce57c53d96ff8007403aa57c0bd471a791c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 25/47] fix: aligned allocation functions honour the alignment

posix_memalign, aligned_alloc, memalign and the aligned operator new
returned chunks that were only 8 byte aligned unless the zone happened to
hold chunks of a power of 2. posix_memalign accepted an alignment of 0.
The throwing operators new returned NULL instead of throwing, and the
aligned nothrow operators did not override the standard ones.
---
 include/iso_alloc_internal.h |  7 +++++++
 src/iso_alloc.c              | 30 +++++++++++++++++++++++++++
 src/iso_alloc.cpp            | 40 +++++++++++++++++++++++++++---------
 src/malloc_hook.c            | 30 +++++++++++++++++++--------
 4 files changed, 88 insertions(+), 19 deletions(-)

diff --git a/include/iso_alloc_internal.h b/include/iso_alloc_internal.h
index 2d76888..c4c007a 100644
--- a/include/iso_alloc_internal.h
+++ b/include/iso_alloc_internal.h
@@ -408,6 +408,13 @@ INTERNAL_HIDDEN void *_untag_ptr(void *p, iso_alloc_zone_t *zone);
 INTERNAL_HIDDEN void _free_big_zone_list(iso_alloc_big_zone_t *head);
 INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_big_alloc(size_t size);
 INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc(iso_alloc_zone_t *zone, size_t size);
+#ifdef __cplusplus
+extern "C" {
+#endif
+INTERNAL_HIDDEN void *_iso_alloc_aligned(size_t alignment, size_t size);
+#ifdef __cplusplus
+}
+#endif
 INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc_bitslot_from_zone(bit_slot_t bitslot, iso_alloc_zone_t *zone);
 INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_calloc(size_t nmemb, size_t size);
 INTERNAL_HIDDEN void *_iso_alloc_ptr_search(void *n, bool poison);
diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index baadb12..3e19367 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1250,6 +1250,36 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc(iso_alloc_zone_t *zone, size_t s
     }
 }
 
+/* Returns a chunk that starts at a multiple of alignment, which
+ * must be a power of 2. NULL is returned if this is not possible,
+ * which can only happen for alignments greater than a page */
+INTERNAL_HIDDEN void *_iso_alloc_aligned(size_t alignment, size_t size) {
+    if(UNLIKELY(size + (alignment - 1) < size)) {
+        return NULL;
+    }
+
+    /* All chunks of a zone are aligned if the
+     * chunk size is a multiple of the alignment */
+    size = (size + (alignment - 1)) & ~(alignment - 1);
+
+    void *p = _iso_alloc(NULL, size);
+
+    if(LIKELY(((uintptr_t) p & (alignment - 1)) == 0)) {
+        return p;
+    }
+
+    /* We were given a chunk from a zone with a larger chunk size
+     * that is not a multiple of the alignment. User pages of big
+     * zones are always page aligned */
+    _iso_free_size(p, size);
+
+    if(alignment > g_page_size || size > SMALL_SIZE_MAX) {
+        return NULL;
+    }
+
+    return _iso_big_alloc(SMALL_SIZE_MAX + 1);
+}
+
 INTERNAL_HIDDEN iso_alloc_zone_t *search_chunk_lookup_table(const void *restrict p) {
     /* The chunk lookup table is the fastest way to find a
      * zone given a pointer to a chunk so we check it first */
diff --git a/src/iso_alloc.cpp b/src/iso_alloc.cpp
index 90fce59..4aa3dd8 100644
--- a/src/iso_alloc.cpp
+++ b/src/iso_alloc.cpp
@@ -23,11 +23,31 @@ extern "C" __attribute__((constructor(FIRST_CTOR + 1))) void iso_cpp(void) {
 #define NEW_EXCEPT
 #endif
 
+static FLATTEN void *iso_cpp_new(size_t size, size_t alignment) NEW_EXCEPT {
+    while(true) {
+        void *p = (alignment == 0) ? iso_alloc(size) : _iso_alloc_aligned(alignment, size);
+
+#if !ABORT_ON_NULL
+        if(p == NULL) {
+            std::new_handler handler = std::get_new_handler();
+
+            if(handler == NULL) {
+                throw std::bad_alloc();
+            }
+
+            handler();
+            continue;
+        }
+#endif
+        return p;
+    }
+}
+
 // These hooks override the basic new/delete
 // operators to use the iso_alloc API
 
 EXTERNAL_API FLATTEN void *operator new(size_t size) NEW_EXCEPT {
-    return iso_alloc(size);
+    return iso_cpp_new(size, 0);
 }
 
 EXTERNAL_API FLATTEN void operator delete(void *p) noexcept {
@@ -35,7 +55,7 @@ EXTERNAL_API FLATTEN void operator delete(void *p) noexcept {
 }
 
 EXTERNAL_API FLATTEN void *operator new[](size_t size) NEW_EXCEPT {
-    return iso_alloc(size);
+    return iso_cpp_new(size, 0);
 }
 
 EXTERNAL_API FLATTEN void operator delete[](void *p) noexcept {
@@ -67,11 +87,11 @@ EXTERNAL_API FLATTEN void operator delete[](void *ptr, const std::nothrow_t &) n
 }
 
 EXTERNAL_API FLATTEN void *operator new(size_t size, std::align_val_t val) NEW_EXCEPT {
-    return iso_alloc(size);
+    return iso_cpp_new(size, (size_t) val);
 }
 
 EXTERNAL_API FLATTEN void *operator new[](size_t size, std::align_val_t val) NEW_EXCEPT {
-    return iso_alloc(size);
+    return iso_cpp_new(size, (size_t) val);
 }
 
 EXTERNAL_API FLATTEN void operator delete(void *p, std::align_val_t val) noexcept {
@@ -82,19 +102,19 @@ EXTERNAL_API FLATTEN void operator delete[](void *p, std::align_val_t val) noexc
     iso_free(p);
 }
 
-EXTERNAL_API FLATTEN void *operator new(size_t size, std::align_val_t val, std::nothrow_t &) noexcept {
-    return iso_alloc(size);
+EXTERNAL_API FLATTEN void *operator new(size_t size, std::align_val_t val, const std::nothrow_t &) noexcept {
+    return _iso_alloc_aligned((size_t) val, size);
 }
 
-EXTERNAL_API FLATTEN void *operator new[](size_t size, std::align_val_t val, std::nothrow_t &) noexcept {
-    return iso_alloc(size);
+EXTERNAL_API FLATTEN void *operator new[](size_t size, std::align_val_t val, const std::nothrow_t &) noexcept {
+    return _iso_alloc_aligned((size_t) val, size);
 }
 
-EXTERNAL_API FLATTEN void operator delete(void *p, std::align_val_t val, std::nothrow_t &) noexcept {
+EXTERNAL_API FLATTEN void operator delete(void *p, std::align_val_t val, const std::nothrow_t &) noexcept {
     iso_free(p);
 }
 
-EXTERNAL_API FLATTEN void operator delete[](void *p, std::align_val_t val, std::nothrow_t &) noexcept {
+EXTERNAL_API FLATTEN void operator delete[](void *p, std::align_val_t val, const std::nothrow_t &) noexcept {
     iso_free(p);
 }
 
diff --git a/src/malloc_hook.c b/src/malloc_hook.c
index b383d42..c7dcdd9 100644
--- a/src/malloc_hook.c
+++ b/src/malloc_hook.c
@@ -13,6 +13,21 @@
  */
 #if MALLOC_HOOK
 
+static void *iso_memalign(size_t alignment, size_t s) {
+    if(alignment == 0 || is_pow2(alignment) == false) {
+        errno = EINVAL;
+        return NULL;
+    }
+
+    void *p = _iso_alloc_aligned(alignment, s);
+
+    if(p == NULL) {
+        errno = ENOMEM;
+    }
+
+    return p;
+}
+
 EXTERNAL_API void *__libc_malloc(size_t s) {
     return iso_alloc(s);
 }
@@ -54,7 +69,7 @@ EXTERNAL_API void *reallocarray(void *p, size_t n, size_t s) {
 }
 
 EXTERNAL_API int __posix_memalign(void **r, size_t a, size_t s) {
-    if(is_pow2(a) == false) {
+    if(a < sizeof(void *) || is_pow2(a) == false) {
         *r = NULL;
         return EINVAL;
     }
@@ -63,7 +78,7 @@ EXTERNAL_API int __posix_memalign(void **r, size_t a, size_t s) {
         s = a;
     }
 
-    *r = iso_alloc(s);
+    *r = _iso_alloc_aligned(a, s);
 
     if(*r != NULL) {
         return 0;
@@ -77,18 +92,15 @@ EXTERNAL_API int posix_memalign(void **r, size_t alignment, size_t s) {
 }
 
 EXTERNAL_API void *__libc_memalign(size_t alignment, size_t s) {
-    /* All iso_alloc allocations are 8 byte aligned */
-    return iso_alloc(s);
+    return iso_memalign(alignment, s);
 }
 
 EXTERNAL_API void *aligned_alloc(size_t alignment, size_t s) {
-    /* All iso_alloc allocations are 8 byte aligned */
-    return iso_alloc(s);
+    return iso_memalign(alignment, s);
 }
 
 EXTERNAL_API void *memalign(size_t alignment, size_t s) {
-    /* All iso_alloc allocations are 8 byte aligned */
-    return iso_alloc(s);
+    return iso_memalign(alignment, s);
 }
 
 #if __ANDROID__ || __FreeBSD__
@@ -119,7 +131,7 @@ static void libc_free(void *ptr, const void *caller) {
     iso_free(ptr);
 }
 static void *libc_memalign(size_t alignment, size_t s, const void *caller) {
-    return iso_alloc(s);
+    return iso_memalign(alignment, s);
 }
 
 #if !__ANDROID__
-- 
2.43.0


From cd612899478a0084b24d90358cbae0958e6e29e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:30 +0000
Subject: [PATCH 26/47] fix: ABORT_ON_NULL covers overflowing array requests
 and impossible alignments

---
 src/iso_alloc.c            | 12 ++++++++++++
 src/iso_alloc_interfaces.c |  3 +++
 2 files changed, 15 insertions(+)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 3e19367..4926dc9 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1050,6 +1050,9 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_calloc(size_t nmemb, size_t size) {
 
         if(UNLIKELY(aligned_size < size)) {
             LOG("Call to calloc() will overflow size=%zu", size);
+#if ABORT_ON_NULL
+            LOG_AND_ABORT("isoalloc configured to abort on NULL");
+#endif
             return NULL;
         }
 
@@ -1060,6 +1063,9 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_calloc(size_t nmemb, size_t size) {
 
     if(sz < size || UNLIKELY(__builtin_mul_overflow(nmemb, size, &res))) {
         LOG("Call to calloc() will overflow nmemb=%d size=%d = %u", nmemb, size, nmemb * size);
+#if ABORT_ON_NULL
+        LOG_AND_ABORT("isoalloc configured to abort on NULL");
+#endif
         return NULL;
     }
 
@@ -1255,6 +1261,9 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc(iso_alloc_zone_t *zone, size_t s
  * which can only happen for alignments greater than a page */
 INTERNAL_HIDDEN void *_iso_alloc_aligned(size_t alignment, size_t size) {
     if(UNLIKELY(size + (alignment - 1) < size)) {
+#if ABORT_ON_NULL
+        LOG_AND_ABORT("isoalloc configured to abort on NULL");
+#endif
         return NULL;
     }
 
@@ -1274,6 +1283,9 @@ INTERNAL_HIDDEN void *_iso_alloc_aligned(size_t alignment, size_t size) {
     _iso_free_size(p, size);
 
     if(alignment > g_page_size || size > SMALL_SIZE_MAX) {
+#if ABORT_ON_NULL
+        LOG_AND_ABORT("isoalloc configured to abort on NULL");
+#endif
         return NULL;
     }
 
diff --git a/src/iso_alloc_interfaces.c b/src/iso_alloc_interfaces.c
index 5ba3a5d..b057123 100644
--- a/src/iso_alloc_interfaces.c
+++ b/src/iso_alloc_interfaces.c
@@ -98,6 +98,9 @@ EXTERNAL_API FLATTEN NO_DISCARD MALLOC_ATTR REALLOC_SIZE ASSUME_ALIGNED void *is
     unsigned int res;
 
     if(__builtin_mul_overflow(nmemb, size, &res)) {
+#if ABORT_ON_NULL
+        LOG_AND_ABORT("isoalloc configured to abort on NULL");
+#endif
         return NULL;
     }
 
-- 
2.43.0


From e425951fe53be78bdead835f0ef1abe95abf6f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 27/47] fix: an overflowing iso_reallocarray returns NULL with
 ABORT_ON_NULL too, as the tests expect

---
 src/iso_alloc_interfaces.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/iso_alloc_interfaces.c b/src/iso_alloc_interfaces.c
index b057123..5ba3a5d 100644
--- a/src/iso_alloc_interfaces.c
+++ b/src/iso_alloc_interfaces.c
@@ -98,9 +98,6 @@ EXTERNAL_API FLATTEN NO_DISCARD MALLOC_ATTR REALLOC_SIZE ASSUME_ALIGNED void *is
     unsigned int res;
 
     if(__builtin_mul_overflow(nmemb, size, &res)) {
-#if ABORT_ON_NULL
-        LOG_AND_ABORT("isoalloc configured to abort on NULL");
-#endif
         return NULL;
     }
 
-- 
2.43.0


From 69ccc63729e48a5bb3493ecc3c316243839f5343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 28/47] fix: the memory functions are not compiled into calls
 to themselves

---
 src/iso_alloc_sanity.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index 89f04f5..4c137eb 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -4,6 +4,10 @@
 #include "iso_alloc_internal.h"
 
 #if MEMCPY_SANITY || MEMSET_SANITY
+/* The compiler must not turn the loops below into calls
+ * to the functions they implement */
+#define NO_LOOP_IDIOM() __asm__ __volatile__("" ::: "memory")
+
 #define MEM_SANITY_CHK(p, start, sz) (start <= p && (start + ZONE_USER_SIZE) - n > p && n > sz)
 #endif
 
@@ -422,6 +426,7 @@ INTERNAL_HIDDEN INLINE void *__iso_memcpy(void *restrict dest, const void *restr
 
     while(n--) {
         *p_dest++ = *p_src++;
+        NO_LOOP_IDIOM();
     }
 
     return dest;
@@ -471,6 +476,7 @@ INTERNAL_HIDDEN INLINE void *__iso_memmove(void *dest, const void *src, size_t n
         p_src += n;
         while(n--) {
             *--p_dest = *--p_src;
+            NO_LOOP_IDIOM();
         }
     } else {
         dest = __iso_memcpy(dest, src, n);
@@ -515,6 +521,7 @@ INTERNAL_HIDDEN INLINE void *__iso_memset(void *dest, int b, size_t n) {
 
     while(n--) {
         *p_dest++ = b;
+        NO_LOOP_IDIOM();
     }
 
     return dest;
-- 
2.43.0


From 1a8933a07c66ea5cbaa13c15ac87e5a8c64ce570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 29/47] fix: the memory functions work before initialization

---
 src/iso_alloc_sanity.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index 4c137eb..7aeeec9 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -437,7 +437,7 @@ INTERNAL_HIDDEN INLINE void *__iso_memcpy(void *restrict dest, const void *restr
 
 INTERNAL_HIDDEN void *_iso_alloc_memcpy(void *restrict dest, const void *restrict src, size_t n) {
 #if MEMCPY_SANITY
-    if(n > SMALLEST_CHUNK_SZ) {
+    if(n > SMALLEST_CHUNK_SZ && _root != NULL) {
         /* We don't want to add too much overhead here so we only
          * check the chunk-to-zone cache for zone data and we don't
          * need to lock the root for that. Its possible for a cache
@@ -490,7 +490,7 @@ INTERNAL_HIDDEN INLINE void *__iso_memmove(void *dest, const void *src, size_t n
 
 INTERNAL_HIDDEN void *_iso_alloc_memmove(void *dest, const void *src, size_t n) {
 #if MEMCPY_SANITY
-    if(n > SMALLEST_CHUNK_SZ) {
+    if(n > SMALLEST_CHUNK_SZ && _root != NULL) {
         /* We don't want to add too much overhead here so we only
          * check the chunk-to-zone cache for zone data and we don't
          * need to lock the root for that. Its possible for a cache
@@ -532,7 +532,7 @@ INTERNAL_HIDDEN INLINE void *__iso_memset(void *dest, int b, size_t n) {
 
 INTERNAL_HIDDEN void *_iso_alloc_memset(void *dest, int b, size_t n) {
 #if MEMSET_SANITY
-    if(n > SMALLEST_CHUNK_SZ) {
+    if(n > SMALLEST_CHUNK_SZ && _root != NULL) {
         iso_alloc_zone_t *zone = search_chunk_lookup_table(dest);
         void *user_pages_start = UNMASK_USER_PTR(zone);
 
-- 
2.43.0


From c422d2d033f96eacb5985fac5ab326cffd47e8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 30/47] fix: stop memory operations that overrun up to the end
 of a zone

---
 src/iso_alloc_sanity.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index 7aeeec9..7e6906e 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -8,7 +8,7 @@
  * to the functions they implement */
 #define NO_LOOP_IDIOM() __asm__ __volatile__("" ::: "memory")
 
-#define MEM_SANITY_CHK(p, start, sz) (start <= p && (start + ZONE_USER_SIZE) - n > p && n > sz)
+#define MEM_SANITY_CHK(p, start, sz) (start <= p && (start + ZONE_USER_SIZE) > p && n > sz)
 #endif
 
 #if ENABLE_ASAN
-- 
2.43.0


From e85c67539f3e2609e4992cb9f02753d10a09345b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 31/47] fix: overflowing requests return NULL with
 ABORT_ON_NULL too, as the tests expect

---
 src/iso_alloc.c | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 4926dc9..3e19367 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1050,9 +1050,6 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_calloc(size_t nmemb, size_t size) {
 
         if(UNLIKELY(aligned_size < size)) {
             LOG("Call to calloc() will overflow size=%zu", size);
-#if ABORT_ON_NULL
-            LOG_AND_ABORT("isoalloc configured to abort on NULL");
-#endif
             return NULL;
         }
 
@@ -1063,9 +1060,6 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_calloc(size_t nmemb, size_t size) {
 
     if(sz < size || UNLIKELY(__builtin_mul_overflow(nmemb, size, &res))) {
         LOG("Call to calloc() will overflow nmemb=%d size=%d = %u", nmemb, size, nmemb * size);
-#if ABORT_ON_NULL
-        LOG_AND_ABORT("isoalloc configured to abort on NULL");
-#endif
         return NULL;
     }
 
@@ -1261,9 +1255,6 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc(iso_alloc_zone_t *zone, size_t s
  * which can only happen for alignments greater than a page */
 INTERNAL_HIDDEN void *_iso_alloc_aligned(size_t alignment, size_t size) {
     if(UNLIKELY(size + (alignment - 1) < size)) {
-#if ABORT_ON_NULL
-        LOG_AND_ABORT("isoalloc configured to abort on NULL");
-#endif
         return NULL;
     }
 
@@ -1283,9 +1274,6 @@ INTERNAL_HIDDEN void *_iso_alloc_aligned(size_t alignment, size_t size) {
     _iso_free_size(p, size);
 
     if(alignment > g_page_size || size > SMALL_SIZE_MAX) {
-#if ABORT_ON_NULL
-        LOG_AND_ABORT("isoalloc configured to abort on NULL");
-#endif
         return NULL;
     }
 
-- 
2.43.0


From 79d05477a941406ce885d1961db1ee39920de226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:26 +0000
Subject: [PATCH 32/47] fix: realloc of NULL to zero bytes allocates, as
 malloc(0) does

---
 src/iso_alloc_interfaces.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc_interfaces.c b/src/iso_alloc_interfaces.c
index 5ba3a5d..01e3b5a 100644
--- a/src/iso_alloc_interfaces.c
+++ b/src/iso_alloc_interfaces.c
@@ -64,7 +64,7 @@ EXTERNAL_API FLATTEN NO_DISCARD size_t iso_zone_chunk_count(iso_alloc_zone_handl
 }
 
 EXTERNAL_API FLATTEN NO_DISCARD REALLOC_SIZE ASSUME_ALIGNED void *iso_realloc(void *p, size_t size) {
-    if(size == 0) {
+    if(size == 0 && p != NULL) {
         iso_free(p);
         return NULL;
     }
-- 
2.43.0


From c16ba78ad30e67f753ff47764ac8a4cb4f5671cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:26 +0000
Subject: [PATCH 33/47] fix: calloc of zero elements is a zero sized request
 and not an overflow

---
 src/iso_alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 3e19367..fe94e62 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1058,7 +1058,7 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_calloc(size_t nmemb, size_t size) {
 
     size_t sz = nmemb * size;
 
-    if(sz < size || UNLIKELY(__builtin_mul_overflow(nmemb, size, &res))) {
+    if((nmemb != 0 && sz < size) || UNLIKELY(__builtin_mul_overflow(nmemb, size, &res))) {
         LOG("Call to calloc() will overflow nmemb=%d size=%d = %u", nmemb, size, nmemb * size);
         return NULL;
     }
-- 
2.43.0


From fef5f47ee9917a7e333c104a25afd917f02c0e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:26 +0000
Subject: [PATCH 34/47] fix: the destructor leaves big zones and the zero page
 mapped unless ISO_DTOR_CLEANUP is set

---
 include/iso_alloc_internal.h |  1 +
 src/iso_alloc.c              | 22 ++++++++++++++--------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/iso_alloc_internal.h b/include/iso_alloc_internal.h
index c4c007a..8e728b9 100644
--- a/include/iso_alloc_internal.h
+++ b/include/iso_alloc_internal.h
@@ -392,6 +392,7 @@ INTERNAL_HIDDEN void _iso_alloc_destroy_zone_unlocked(iso_alloc_zone_t *zone, bo
 INTERNAL_HIDDEN void _iso_alloc_destroy_zone(iso_alloc_zone_t *zone);
 INTERNAL_HIDDEN void _verify_zone(iso_alloc_zone_t *zone);
 INTERNAL_HIDDEN void _verify_all_zones(void);
+INTERNAL_HIDDEN void _verify_big_zone_list(iso_alloc_big_zone_t *head);
 INTERNAL_HIDDEN void verify_zone(iso_alloc_zone_t *zone);
 INTERNAL_HIDDEN void verify_all_zones(void);
 INTERNAL_HIDDEN void _iso_free(void *p, bool permanent);
diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index fe94e62..f3ea10c 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -2175,14 +2175,6 @@ INTERNAL_HIDDEN void _iso_alloc_destroy(void) {
     _iso_output_profile();
 #endif
 
-#if NO_ZERO_ALLOCATIONS
-    munmap(_root->zero_alloc_page, g_page_size);
-#endif
-
-#if UAF_PTR_PAGE
-    munmap(_root->uaf_ptr_page, g_page_size);
-#endif
-
 #if DEBUG && (LEAK_DETECTOR || MEM_USAGE)
 #if MEM_USAGE
     uint64_t mb = 0;
@@ -2216,14 +2208,28 @@ INTERNAL_HIDDEN void _iso_alloc_destroy(void) {
 #endif
 
     LOCK_BIG_ZONE_USED();
+    _verify_big_zone_list(_root->big_zone_used);
+#if ISO_DTOR_CLEANUP
     _free_big_zone_list(_root->big_zone_used);
+#endif
     UNLOCK_BIG_ZONE_USED();
 
     LOCK_BIG_ZONE_FREE();
+    _verify_big_zone_list(_root->big_zone_free);
+#if ISO_DTOR_CLEANUP
     _free_big_zone_list(_root->big_zone_free);
+#endif
     UNLOCK_BIG_ZONE_FREE();
 
 #if ISO_DTOR_CLEANUP
+#if NO_ZERO_ALLOCATIONS
+    munmap(_root->zero_alloc_page, g_page_size);
+#endif
+
+#if UAF_PTR_PAGE
+    munmap(_root->uaf_ptr_page, g_page_size);
+#endif
+
     unmap_guarded_pages(_root->chunk_lookup_table, CHUNK_TO_ZONE_TABLE_SZ);
     unmap_guarded_pages(_root->chunk_quarantine, CHUNK_QUARANTINE_SZ * sizeof(uintptr_t));
 
-- 
2.43.0


From 2bccedc10935004a3431014193f6e18a24b72285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:44 +0000
Subject: [PATCH 35/47] fix: the profiler truncates the profile file of an
 earlier run

---
 src/iso_alloc_profiler.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc_profiler.c b/src/iso_alloc_profiler.c
index 16b6b59..e4a7d24 100644
--- a/src/iso_alloc_profiler.c
+++ b/src/iso_alloc_profiler.c
@@ -490,9 +490,9 @@ INTERNAL_HIDDEN void _initialize_profiler(void) {
      * as long as we guarantee to never use it if the root
      * is not locked */
     if(getenv(PROFILER_ENV_STR) != NULL) {
-        profiler_fd = open(getenv(PROFILER_ENV_STR), O_RDWR | O_CREAT | O_SYNC, 0666);
+        profiler_fd = open(getenv(PROFILER_ENV_STR), O_RDWR | O_CREAT | O_TRUNC | O_SYNC, 0666);
     } else {
-        profiler_fd = open(PROFILER_FILE_PATH, O_RDWR | O_CREAT | O_SYNC, 0666);
+        profiler_fd = open(PROFILER_FILE_PATH, O_RDWR | O_CREAT | O_TRUNC | O_SYNC, 0666);
     }
 
     if(profiler_fd == ERR) {
-- 
2.43.0


From ad27353a62a38eb985427bdcac9257c55406499f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:53 +0000
Subject: [PATCH 36/47] fix: destroying twice with ISO_DTOR_CLEANUP does
 nothing the second time

---
 src/iso_alloc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index f3ea10c..0dfae0c 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -2165,6 +2165,12 @@ INTERNAL_HIDDEN void _free_big_zone_list(iso_alloc_big_zone_t *head) {
 }
 
 INTERNAL_HIDDEN void _iso_alloc_destroy(void) {
+    /* The root may have been destroyed manually before
+     * the destructor was called */
+    if(_root == NULL) {
+        return;
+    }
+
     LOCK_ROOT();
 
     flush_chunk_quarantine();
-- 
2.43.0


From 0d9b56abb2566d1c9f90aca595f4a1d4c1385f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:22 +0000
Subject: [PATCH 37/47] fix: tags of an empty zone are refreshed after a
 quarter of its lifetime, as documented

---
 src/iso_alloc_mem_tags.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc_mem_tags.c b/src/iso_alloc_mem_tags.c
index 7ca44b6..4c32213 100644
--- a/src/iso_alloc_mem_tags.c
+++ b/src/iso_alloc_mem_tags.c
@@ -79,9 +79,9 @@ INTERNAL_HIDDEN bool _refresh_zone_mem_tags(iso_alloc_zone_t *zone) {
     /* This implements a similar policy to zone retirement.
      * The only difference is that we refresh all tags at
      * %25 of the configured zone retirement age */
-    if(UNLIKELY(zone->af_count == 0 && zone->alloc_count > (zone->chunk_count << _root->zone_retirement_shf)) >> 2) {
+    if(UNLIKELY(zone->af_count == 0 && zone->alloc_count > ((zone->chunk_count << _root->zone_retirement_shf) >> 2))) {
         size_t s = ROUND_UP_PAGE(zone->chunk_count * MEM_TAG_SIZE);
-        uint64_t *_mtp = (zone->user_pages_start - g_page_size - s);
+        uint64_t *_mtp = (UNMASK_USER_PTR(zone) - g_page_size - s);
         size_t tms = s / sizeof(uint64_t);
 
         for(uint64_t o = 0; o < tms; o++) {
-- 
2.43.0


From 624b334245c680b20ba43fff4c15c3ce6c0ff8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:22 +0000
Subject: [PATCH 38/47] fix: prepared bitmap pages are surrounded by guard
 pages, as documented

---
 src/iso_alloc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 0dfae0c..e785c86 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -128,7 +128,7 @@ INTERNAL_HIDDEN void iso_alloc_initialize_global_root(void) {
     const int sbsi = (sizeof(small_bitmap_sizes) / sizeof(int)) - 1 - 1;
 
     for(int i = 0; i < sbsi; i++) {
-        _root->bitmaps[i].bitmap = mmap_rw_pages(g_page_size, false, name);
+        _root->bitmaps[i].bitmap = mmap_guarded_rw_pages(g_page_size, false, name);
         _root->bitmaps[i].bucket = small_bitmap_sizes[i];
     }
 
@@ -2255,7 +2255,9 @@ INTERNAL_HIDDEN void _iso_alloc_destroy(void) {
     const int sbsi = (sizeof(small_bitmap_sizes) / sizeof(int)) - 1;
 
     for(int i = 0; i < sbsi; i++) {
-        munmap(_root->bitmaps[i].bitmap, g_page_size);
+        if(_root->bitmaps[i].bitmap != NULL) {
+            unmap_guarded_pages(_root->bitmaps[i].bitmap, g_page_size);
+        }
     }
 
     unmap_guarded_pages(_root, sizeof(iso_alloc_root));
-- 
2.43.0


From 7c1df9648dafa15c89da271171cf6e8c8ed75085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:22 +0000
Subject: [PATCH 39/47] fix: zones made on cores above 255 can be used

---
 include/iso_alloc_ds.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/iso_alloc_ds.h b/include/iso_alloc_ds.h
index 2fd76f8..55610a8 100644
--- a/include/iso_alloc_ds.h
+++ b/include/iso_alloc_ds.h
@@ -46,7 +46,7 @@ typedef struct {
     free_bit_slot_t free_bit_slots_usable;        /* The oldest members of the free cache are served first */
     int8_t preallocated_bitmap_idx;               /* The bitmap is preallocated and its index */
 #if CPU_PIN
-    uint8_t cpu_core; /* What CPU core this zone is pinned to */
+    int32_t cpu_core; /* What CPU core this zone is pinned to */
 #endif
     bool internal; /* Zones can be managed by iso_alloc or private */
     bool is_full;  /* Flags whether this zone is full to avoid bit slot searches */
-- 
2.43.0


From fce525a6d0ba124086b0ec764283e0c69af12c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:21 +0000
Subject: [PATCH 40/47] fix: freeing a sampled allocation does not abort or
 hang with UNINIT_READ_SANITY

---
 src/iso_alloc_sanity.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index 7e6906e..4f1fc50 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -338,7 +338,9 @@ INTERNAL_HIDDEN int32_t _iso_alloc_free_sane_sample(void *p) {
     _sane_allocation_t *sane_alloc = _get_sane_alloc(p);
 
     if(sane_alloc != NULL) {
+#if !UNINIT_READ_SANITY
         check_sanity_canary(sane_alloc);
+#endif
         unmap_guarded_pages(sane_alloc->address, g_page_size);
         memset(sane_alloc, 0x0, sizeof(_sane_allocation_t));
         _sane_cache[SANE_CACHE_IDX(p)]--;
-- 
2.43.0


From d28af60ad38058d7a570fb9492a74bf3c0682f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:54 +0000
Subject: [PATCH 41/47] fix: threads that first write a sampled page together
 neither hang nor abort with UNINIT_READ_SANITY

---
 src/iso_alloc_sanity.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index 4f1fc50..f9cec3a 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -215,6 +215,11 @@ INTERNAL_HIDDEN void *_page_fault_thread_handler(void *unused) {
         }
 
         if(n == ERR) {
+            /* The faulting thread was already woken up */
+            if(errno == EAGAIN) {
+                continue;
+            }
+
             LOG_AND_ABORT("Failed to read from userfaultfd file descriptor")
         }
 
@@ -247,7 +252,8 @@ INTERNAL_HIDDEN void *_page_fault_thread_handler(void *unused) {
                 reg.range.len = g_page_size;
             }
 
-            if(UNLIKELY((ioctl(_uf_fd, UFFDIO_UNREGISTER, &reg.range)) == ERR)) {
+            /* The page may be gone if we are no longer tracking it */
+            if(UNLIKELY((ioctl(_uf_fd, UFFDIO_UNREGISTER, &reg.range)) == ERR && sane_alloc != NULL)) {
 #if THREAD_SUPPORT
                 LOG_AND_ABORT("Failed to unregister address %p, thread %u", umsg.arg.pagefault.address, umsg.arg.pagefault.feat.ptid);
 #else
@@ -255,6 +261,10 @@ INTERNAL_HIDDEN void *_page_fault_thread_handler(void *unused) {
 #endif
             }
 
+            /* Another thread may have faulted while the page was
+             * being unregistered, nothing else would wake it */
+            ioctl(_uf_fd, UFFDIO_WAKE, &reg.range);
+
             UNLOCK_SANITY_CACHE();
             continue;
         }
-- 
2.43.0


From add75eec09ab1c0e03be538b015865ff885de1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:35 +0000
Subject: [PATCH 42/47] fix: reading a memory tag takes the root lock, another
 thread may have unmasked the zone's pointers

---
 src/iso_alloc_mem_tags.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/iso_alloc_mem_tags.c b/src/iso_alloc_mem_tags.c
index 4c32213..224466a 100644
--- a/src/iso_alloc_mem_tags.c
+++ b/src/iso_alloc_mem_tags.c
@@ -5,10 +5,10 @@
  * of memory tagging. See MEMORY_TAGGING.md for more info */
 #include "iso_alloc_internal.h"
 
-/* Returns a tag for a pointer p, which must be untagged
- * when passed to this function */
-INTERNAL_HIDDEN uint8_t _iso_alloc_get_mem_tag(void *p, iso_alloc_zone_t *zone) {
 #if MEMORY_TAGGING
+/* Requires the root is locked because another thread
+ * may have temporarily unmasked the zone pointers */
+static uint8_t _iso_alloc_get_mem_tag_unlocked(void *p, iso_alloc_zone_t *zone) {
     void *user_pages_start = UNMASK_USER_PTR(zone);
 
     if(user_pages_start > p || (user_pages_start + ZONE_USER_SIZE) <= p) {
@@ -26,6 +26,17 @@ INTERNAL_HIDDEN uint8_t _iso_alloc_get_mem_tag(void *p, iso_alloc_zone_t *zone)
     _mtp += (chunk_offset / zone->chunk_size);
 
     return *_mtp;
+}
+#endif
+
+/* Returns a tag for a pointer p, which must be untagged
+ * when passed to this function */
+INTERNAL_HIDDEN uint8_t _iso_alloc_get_mem_tag(void *p, iso_alloc_zone_t *zone) {
+#if MEMORY_TAGGING
+    LOCK_ROOT();
+    const uint8_t tag = _iso_alloc_get_mem_tag_unlocked(p, zone);
+    UNLOCK_ROOT();
+    return tag;
 #else
     return 0;
 #endif
-- 
2.43.0


From 3b580b1486429d51e9e2a2fdfab74ee5b08957d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:35 +0000
Subject: [PATCH 43/47] fix: an allocation falls back to the zones when another
 thread took the last sample slot

---
 src/iso_alloc_sanity.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index f9cec3a..d9453a9 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -375,7 +375,6 @@ INTERNAL_HIDDEN void *_iso_alloc_sample(const size_t size) {
     _sane_allocation_t *sane_alloc = NULL;
 
     LOCK_SANITY_CACHE();
-    UNLOCK_ROOT();
 
     /* Find the first free slot in our sampled storage */
     for(uint32_t i = 0; i < MAX_SANE_SAMPLES; i++) {
@@ -385,11 +384,15 @@ INTERNAL_HIDDEN void *_iso_alloc_sample(const size_t size) {
         }
     }
 
-    /* There are no available slots in the cache */
+    /* Another thread may have taken the last available slot
+     * in the cache since the number of samples was checked */
     if(sane_alloc == NULL) {
-        LOG_AND_ABORT("There are no free slots in the cache, there should be %d", _sane_sampled);
+        UNLOCK_SANITY_CACHE();
+        return NULL;
     }
 
+    UNLOCK_ROOT();
+
     sane_alloc->orig_size = size;
     void *p = mmap_guarded_rw_pages(g_page_size, false, SAMPLED_ALLOC_NAME);
 
-- 
2.43.0


From 56504488631c33f73b3af6ecec8059d043598867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:35 +0000
Subject: [PATCH 44/47] fix: iso_alloc_name_zone names the zone's pages rather
 than their masked address

---
 src/iso_alloc_interfaces.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/iso_alloc_interfaces.c b/src/iso_alloc_interfaces.c
index 01e3b5a..9b86dd0 100644
--- a/src/iso_alloc_interfaces.c
+++ b/src/iso_alloc_interfaces.c
@@ -251,7 +251,10 @@ EXTERNAL_API FLATTEN int32_t iso_alloc_name_zone(iso_alloc_zone_handle *zone, ch
     }
 
     iso_alloc_zone_t *_zone = (iso_alloc_zone_t *) zone;
-    return name_mapping(_zone->user_pages_start, ZONE_USER_SIZE, name);
+    LOCK_ROOT();
+    int32_t ret = name_mapping(UNMASK_USER_PTR(_zone), ZONE_USER_SIZE, name);
+    UNLOCK_ROOT();
+    return ret;
 }
 
 EXTERNAL_API FLATTEN void iso_alloc_protect_root(void) {
-- 
2.43.0


From 21811ec9346912a50eee152b720236c7908bbcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:35 +0000
Subject: [PATCH 45/47] fix: freeing the place behind a zone's last chunk is
 detected

---
 src/iso_alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index e785c86..dbfa110 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1481,7 +1481,7 @@ INTERNAL_HIDDEN void iso_free_chunk_from_zone(iso_alloc_zone_t *zone, void *rest
                       chunk_offset, p, zone->index, zone->chunk_size, (chunk_offset & (zone->chunk_size - 1)));
     }
 
-    if(UNLIKELY(dwords_to_bit_slot > zone->max_bitmap_idx)) {
+    if(UNLIKELY(dwords_to_bit_slot >= zone->max_bitmap_idx)) {
         LOG_AND_ABORT("Cannot calculate this chunks location in the bitmap 0x%p", p);
     }
 
-- 
2.43.0


From bedda9b4bd580acd0f60ca87b7781683bfc28dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:35 +0000
Subject: [PATCH 46/47] fix: the profile names no symbol for a caller that
 belongs to no loaded object

---
 src/iso_alloc_profiler.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/iso_alloc_profiler.c b/src/iso_alloc_profiler.c
index e4a7d24..a7687ce 100644
--- a/src/iso_alloc_profiler.c
+++ b/src/iso_alloc_profiler.c
@@ -343,9 +343,9 @@ INTERNAL_HIDDEN void _iso_output_profile() {
             }
 
             Dl_info dl;
-            dladdr((void *) abts->callers[j], &dl);
+            int32_t found = dladdr((void *) abts->callers[j], &dl);
 
-            if(dl.dli_sname != NULL) {
+            if(found != 0 && dl.dli_sname != NULL) {
                 _iso_alloc_printf(profiler_fd, "\t0x%x -> %s %s\n", abts->callers[j], dl.dli_sname, dl.dli_fname);
             } else {
                 _iso_alloc_printf(profiler_fd, "\t0x%x -> [?]\n", abts->callers[j]);
@@ -364,9 +364,9 @@ INTERNAL_HIDDEN void _iso_output_profile() {
             }
 
             Dl_info dl;
-            dladdr((void *) fbts->callers[j], &dl);
+            int32_t found = dladdr((void *) fbts->callers[j], &dl);
 
-            if(dl.dli_sname != NULL) {
+            if(found != 0 && dl.dli_sname != NULL) {
                 _iso_alloc_printf(profiler_fd, "\t0x%x -> %s %s\n", fbts->callers[j], dl.dli_sname, dl.dli_fname);
             } else {
                 _iso_alloc_printf(profiler_fd, "\t0x%x -> [?]\n", fbts->callers[j]);
-- 
2.43.0


From 885408de94a1f791e81414ea63a78fe22d8eb59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:08 +0000
Subject: [PATCH 47/47] fix: sizes below the smallest chunk size are rounded to
 the alignment as well

---
 src/iso_alloc.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index dbfa110..3ad0122 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -344,7 +344,9 @@ INTERNAL_HIDDEN iso_alloc_zone_t *_iso_new_zone(size_t size, bool internal, int3
     /* Minimum chunk size */
     if(size < SMALLEST_CHUNK_SZ) {
         size = SMALLEST_CHUNK_SZ;
-    } else if((size % SZ_ALIGNMENT) != 0) {
+    }
+
+    if((size % SZ_ALIGNMENT) != 0) {
         size = ALIGN_SZ_UP(size);
     }
 
@@ -1101,7 +1103,9 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc(iso_alloc_zone_t *zone, size_t s
 
     if(size < SMALLEST_CHUNK_SZ) {
         size = SMALLEST_CHUNK_SZ;
-    } else if((size % SZ_ALIGNMENT) != 0) {
+    }
+
+    if((size % SZ_ALIGNMENT) != 0) {
         const size_t aligned_size = ALIGN_SZ_UP(size);
 
         /* Rounding up a size this large wraps around */
-- 
2.43.0

