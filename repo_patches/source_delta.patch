From 9c15a8ce137f038f4cff1b266eb5170c6323da96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:57 +0000
Subject: [PATCH 01/37] fix: half-open 32-bit ranges reaching beyond 2^32 were
 truncated modulo 2^32

---
 include/roaring/roaring.h | 10 ++++++++--
 src/roaring.c             | 20 ++++++++++++++++----
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/include/roaring/roaring.h b/include/roaring/roaring.h
index a45b1da..33265e7 100644
--- a/include/roaring/roaring.h
+++ b/include/roaring/roaring.h
@@ -401,9 +401,12 @@ void roaring_bitmap_add_range_closed(roaring_bitmap_t *r, uint32_t min,
  */
 inline void roaring_bitmap_add_range(roaring_bitmap_t *r, uint64_t min,
                                      uint64_t max) {
-    if (max <= min || min > (uint64_t)UINT32_MAX + 1) {
+    if (max <= min || min > (uint64_t)UINT32_MAX) {
         return;
     }
+    if (max > (uint64_t)UINT32_MAX + 1) {
+        max = (uint64_t)UINT32_MAX + 1;
+    }
     roaring_bitmap_add_range_closed(r, (uint32_t)min, (uint32_t)(max - 1));
 }
 
@@ -423,9 +426,12 @@ void roaring_bitmap_remove_range_closed(roaring_bitmap_t *r, uint32_t min,
  */
 inline void roaring_bitmap_remove_range(roaring_bitmap_t *r, uint64_t min,
                                         uint64_t max) {
-    if (max <= min || min > (uint64_t)UINT32_MAX + 1) {
+    if (max <= min || min > (uint64_t)UINT32_MAX) {
         return;
     }
+    if (max > (uint64_t)UINT32_MAX + 1) {
+        max = (uint64_t)UINT32_MAX + 1;
+    }
     roaring_bitmap_remove_range_closed(r, (uint32_t)min, (uint32_t)(max - 1));
 }
 
diff --git a/src/roaring.c b/src/roaring.c
index 2363afa..b21b978 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -1331,9 +1331,12 @@ uint64_t roaring_bitmap_get_cardinality(const roaring_bitmap_t *r) {
 uint64_t roaring_bitmap_range_cardinality(const roaring_bitmap_t *r,
                                           uint64_t range_start,
                                           uint64_t range_end) {
-    if (range_start >= range_end || range_start > (uint64_t)UINT32_MAX + 1) {
+    if (range_start >= range_end || range_start > (uint64_t)UINT32_MAX) {
         return 0;
     }
+    if (range_end > (uint64_t)UINT32_MAX + 1) {
+        range_end = (uint64_t)UINT32_MAX + 1;
+    }
     return roaring_bitmap_range_cardinality_closed(r, (uint32_t)range_start,
                                                    (uint32_t)(range_end - 1));
 }
@@ -2013,9 +2016,12 @@ static void inplace_fully_flip_container(roaring_array_t *x1_arr, uint16_t hb) {
 roaring_bitmap_t *roaring_bitmap_flip(const roaring_bitmap_t *x1,
                                       uint64_t range_start,
                                       uint64_t range_end) {
-    if (range_start >= range_end || range_start > (uint64_t)UINT32_MAX + 1) {
+    if (range_start >= range_end || range_start > (uint64_t)UINT32_MAX) {
         return roaring_bitmap_copy(x1);
     }
+    if (range_end > (uint64_t)UINT32_MAX + 1) {
+        range_end = (uint64_t)UINT32_MAX + 1;
+    }
     return roaring_bitmap_flip_closed(x1, (uint32_t)range_start,
                                       (uint32_t)(range_end - 1));
 }
@@ -2074,9 +2080,12 @@ roaring_bitmap_t *roaring_bitmap_flip_closed(const roaring_bitmap_t *x1,
 
 void roaring_bitmap_flip_inplace(roaring_bitmap_t *x1, uint64_t range_start,
                                  uint64_t range_end) {
-    if (range_start >= range_end || range_start > (uint64_t)UINT32_MAX + 1) {
+    if (range_start >= range_end || range_start > (uint64_t)UINT32_MAX) {
         return;
     }
+    if (range_end > (uint64_t)UINT32_MAX + 1) {
+        range_end = (uint64_t)UINT32_MAX + 1;
+    }
     roaring_bitmap_flip_inplace_closed(x1, (uint32_t)range_start,
                                        (uint32_t)(range_end - 1));
 }
@@ -2849,9 +2858,12 @@ bool roaring_bitmap_contains(const roaring_bitmap_t *r, uint32_t val) {
  */
 bool roaring_bitmap_contains_range(const roaring_bitmap_t *r,
                                    uint64_t range_start, uint64_t range_end) {
-    if (range_start >= range_end || range_start > (uint64_t)UINT32_MAX + 1) {
+    if (range_start >= range_end) {
         return true;
     }
+    if (range_end > (uint64_t)UINT32_MAX + 1) {
+        return false;  // values of 2^32 and above are never present
+    }
     return roaring_bitmap_contains_range_closed(r, (uint32_t)range_start,
                                                 (uint32_t)(range_end - 1));
 }
-- 
2.43.0


From bc923c7c2eeafa5d9a5cdd65c948e110e29bdc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:57 +0000
Subject: [PATCH 02/37] fix: roaring_bitmap_intersect_with_range truncated a
 range start of 2^32 or more

---
 src/roaring.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/roaring.c b/src/roaring.c
index b21b978..84f6161 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -2757,8 +2757,8 @@ bool roaring_bitmap_intersect(const roaring_bitmap_t *x1,
 
 bool roaring_bitmap_intersect_with_range(const roaring_bitmap_t *bm, uint64_t x,
                                          uint64_t y) {
-    if (x >= y) {
-        // Empty range.
+    if (x >= y || x > UINT32_MAX) {
+        // Empty range, or no 32-bit value in it.
         return false;
     }
     roaring_uint32_iterator_t it;
-- 
2.43.0


From d83a11d961825ea9784f9e926955427e28d0ccc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:57 +0000
Subject: [PATCH 03/37] fix: roaring_bitmap_from_range looped forever for large
 steps near 2^32

---
 src/roaring.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/roaring.c b/src/roaring.c
index 84f6161..e678a76 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -224,8 +224,8 @@ roaring_bitmap_t *roaring_bitmap_from_range(uint64_t min, uint64_t max,
     if (max <= min) return NULL;
     roaring_bitmap_t *answer = roaring_bitmap_create();
     if (step >= (1 << 16)) {
-        for (uint32_t value = (uint32_t)min; value < max; value += step) {
-            roaring_bitmap_add(answer, value);
+        for (uint64_t value = min; value < max; value += step) {
+            roaring_bitmap_add(answer, (uint32_t)value);
         }
         return answer;
     }
-- 
2.43.0


From 9582f6e1cadbdf5171dcae7c67fba15c660d14a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:03 +0000
Subject: [PATCH 04/37] fix: roaring_bitmap_rank_many left answers unset for
 values beyond the last container

---
 src/roaring.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/roaring.c b/src/roaring.c
index e678a76..4647e4c 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -2637,6 +2637,10 @@ void roaring_bitmap_rank_many(const roaring_bitmap_t *bm, const uint32_t *begin,
             iter++;
         }
     }
+    // values beyond the last container
+    for (; iter != end; iter++) {
+        *(ans++) = size;
+    }
 }
 
 /**
-- 
2.43.0


From 674ad65e173268db8201baa6c58fd7dbfe8f322e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 05/37] fix: roaring_bitmap_remove_many released a shared
 (copy-on-write) container twice

---
 src/roaring.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/roaring.c b/src/roaring.c
index 4647e4c..7047dfd 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -675,6 +675,8 @@ void roaring_bitmap_remove_many(roaring_bitmap_t *r, size_t n_args,
         if (pos >= 0) {
             uint8_t new_typecode;
             container_t *new_container;
+            ra_unshare_container_at_index(&r->high_low_container,
+                                          (uint16_t)pos);
             new_container = container_remove(
                 r->high_low_container.containers[pos], vals[i] & 0xffff,
                 r->high_low_container.typecodes[pos], &new_typecode);
-- 
2.43.0


From 24bd31daf765963934fab8026b7e99759d1ef248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 06/37] fix: roaring_bitmap_add_bulk wrote into shared
 (copy-on-write) containers reached through its context

---
 src/roaring.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/roaring.c b/src/roaring.c
index 7047dfd..b42aa04 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -103,7 +103,9 @@ static inline void add_bulk_impl(roaring_bitmap_t *r,
                                  roaring_bulk_context_t *context,
                                  uint32_t val) {
     uint16_t key = val >> 16;
-    if (context->container == NULL || context->key != key) {
+    if (context->container == NULL || context->key != key ||
+        r->high_low_container.typecodes[context->idx] ==
+            SHARED_CONTAINER_TYPE) {
         uint8_t typecode;
         int idx;
         context->container =
-- 
2.43.0


From 4589c8baa83124091164a8f2d2a8c06a72eee684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:33 +0000
Subject: [PATCH 07/37] fix: frozen serialization of bitmaps holding shared
 (copy-on-write) containers

---
 src/roaring.c | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/roaring.c b/src/roaring.c
index b42aa04..ee919a3 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -2965,19 +2965,21 @@ size_t roaring_bitmap_frozen_size_in_bytes(const roaring_bitmap_t *rb) {
     const roaring_array_t *ra = &rb->high_low_container;
     size_t num_bytes = 0;
     for (int32_t i = 0; i < ra->size; i++) {
-        switch (ra->typecodes[i]) {
+        uint8_t typecode = ra->typecodes[i];
+        const container_t *c =
+            container_unwrap_shared(ra->containers[i], &typecode);
+        switch (typecode) {
             case BITSET_CONTAINER_TYPE: {
                 num_bytes += BITSET_CONTAINER_SIZE_IN_WORDS * sizeof(uint64_t);
                 break;
             }
             case RUN_CONTAINER_TYPE: {
-                const run_container_t *rc = const_CAST_run(ra->containers[i]);
+                const run_container_t *rc = const_CAST_run(c);
                 num_bytes += rc->n_runs * sizeof(rle16_t);
                 break;
             }
             case ARRAY_CONTAINER_TYPE: {
-                const array_container_t *ac =
-                    const_CAST_array(ra->containers[i]);
+                const array_container_t *ac = const_CAST_array(c);
                 num_bytes += ac->cardinality * sizeof(uint16_t);
                 break;
             }
@@ -3008,20 +3010,22 @@ void roaring_bitmap_frozen_serialize(const roaring_bitmap_t *rb, char *buf) {
     size_t run_zone_size = 0;
     size_t array_zone_size = 0;
     for (int32_t i = 0; i < ra->size; i++) {
-        switch (ra->typecodes[i]) {
+        uint8_t typecode = ra->typecodes[i];
+        const container_t *c =
+            container_unwrap_shared(ra->containers[i], &typecode);
+        switch (typecode) {
             case BITSET_CONTAINER_TYPE: {
                 bitset_zone_size +=
                     BITSET_CONTAINER_SIZE_IN_WORDS * sizeof(uint64_t);
                 break;
             }
             case RUN_CONTAINER_TYPE: {
-                const run_container_t *rc = const_CAST_run(ra->containers[i]);
+                const run_container_t *rc = const_CAST_run(c);
                 run_zone_size += rc->n_runs * sizeof(rle16_t);
                 break;
             }
             case ARRAY_CONTAINER_TYPE: {
-                const array_container_t *ac =
-                    const_CAST_array(ra->containers[i]);
+                const array_container_t *ac = const_CAST_array(c);
                 array_zone_size += ac->cardinality * sizeof(uint16_t);
                 break;
             }
@@ -3040,10 +3044,12 @@ void roaring_bitmap_frozen_serialize(const roaring_bitmap_t *rb, char *buf) {
 
     for (int32_t i = 0; i < ra->size; i++) {
         uint16_t count;
-        switch (ra->typecodes[i]) {
+        uint8_t typecode = ra->typecodes[i];
+        const container_t *c =
+            container_unwrap_shared(ra->containers[i], &typecode);
+        switch (typecode) {
             case BITSET_CONTAINER_TYPE: {
-                const bitset_container_t *bc =
-                    const_CAST_bitset(ra->containers[i]);
+                const bitset_container_t *bc = const_CAST_bitset(c);
                 memcpy(bitset_zone, bc->words,
                        BITSET_CONTAINER_SIZE_IN_WORDS * sizeof(uint64_t));
                 bitset_zone += BITSET_CONTAINER_SIZE_IN_WORDS;
@@ -3057,7 +3063,7 @@ void roaring_bitmap_frozen_serialize(const roaring_bitmap_t *rb, char *buf) {
                 break;
             }
             case RUN_CONTAINER_TYPE: {
-                const run_container_t *rc = const_CAST_run(ra->containers[i]);
+                const run_container_t *rc = const_CAST_run(c);
                 size_t num_bytes = rc->n_runs * sizeof(rle16_t);
                 memcpy(run_zone, rc->runs, num_bytes);
                 run_zone += rc->n_runs;
@@ -3065,8 +3071,7 @@ void roaring_bitmap_frozen_serialize(const roaring_bitmap_t *rb, char *buf) {
                 break;
             }
             case ARRAY_CONTAINER_TYPE: {
-                const array_container_t *ac =
-                    const_CAST_array(ra->containers[i]);
+                const array_container_t *ac = const_CAST_array(c);
                 size_t num_bytes = ac->cardinality * sizeof(uint16_t);
                 memcpy(array_zone, ac->array, num_bytes);
                 array_zone += ac->cardinality;
@@ -3077,9 +3082,9 @@ void roaring_bitmap_frozen_serialize(const roaring_bitmap_t *rb, char *buf) {
                 roaring_unreachable;
         }
         memcpy(&count_zone[i], &count, 2);
+        typecode_zone[i] = typecode;
     }
     memcpy(key_zone, ra->keys, ra->size * sizeof(uint16_t));
-    memcpy(typecode_zone, ra->typecodes, ra->size * sizeof(uint8_t));
     uint32_t header = ((uint32_t)ra->size << 15) | FROZEN_COOKIE;
     memcpy(header_zone, &header, 4);
 }
-- 
2.43.0


From 5f8f9a6653abfd45abadf6fd45b835e9152f4106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:55 +0000
Subject: [PATCH 08/37] fix: roaring_bitmap_range_uint32_array rewrote shared
 typecodes and freed its buffer outside the memory hooks

---
 src/roaring_array.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/roaring_array.c b/src/roaring_array.c
index e3bc6ce..75aae65 100644
--- a/src/roaring_array.c
+++ b/src/roaring_array.c
@@ -447,9 +447,10 @@ bool ra_range_uint32_array(const roaring_array_t *ra, size_t offset,
     size_t cur_len = 0;
 
     for (int i = 0; i < ra->size; ++i) {
+        uint8_t typecode = ra->typecodes[i];
         const container_t *c =
-            container_unwrap_shared(ra->containers[i], &ra->typecodes[i]);
-        switch (ra->typecodes[i]) {
+            container_unwrap_shared(ra->containers[i], &typecode);
+        switch (typecode) {
             case BITSET_CONTAINER_TYPE:
                 t_limit = (const_CAST_bitset(c))->cardinality;
                 break;
@@ -487,20 +488,20 @@ bool ra_range_uint32_array(const roaring_array_t *ra, size_t offset,
                 roaring_free(t_ans);
                 t_ans = append_ans;
             }
-            switch (ra->typecodes[i]) {
+            switch (typecode) {
                 case BITSET_CONTAINER_TYPE:
                     container_to_uint32_array(t_ans + dtr, const_CAST_bitset(c),
-                                              ra->typecodes[i],
+                                              typecode,
                                               ((uint32_t)ra->keys[i]) << 16);
                     break;
                 case ARRAY_CONTAINER_TYPE:
                     container_to_uint32_array(t_ans + dtr, const_CAST_array(c),
-                                              ra->typecodes[i],
+                                              typecode,
                                               ((uint32_t)ra->keys[i]) << 16);
                     break;
                 case RUN_CONTAINER_TYPE:
                     container_to_uint32_array(t_ans + dtr, const_CAST_run(c),
-                                              ra->typecodes[i],
+                                              typecode,
                                               ((uint32_t)ra->keys[i]) << 16);
                     break;
             }
@@ -511,7 +512,7 @@ bool ra_range_uint32_array(const roaring_array_t *ra, size_t offset,
     }
     if (t_ans != NULL) {
         memcpy(ans, t_ans + first_skip, limit * sizeof(uint32_t));
-        free(t_ans);
+        roaring_free(t_ans);
     }
     return true;
 }
-- 
2.43.0


From 58e049b0ab31e3745a7064c2b92141eadae32e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 09/37] fix: roaring64_bitmap_move_from_roaring32 kept shared
 (copy-on-write) containers

---
 src/roaring64.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/roaring64.c b/src/roaring64.c
index de1009e..03d4809 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -290,6 +290,8 @@ static void move_from_roaring32_offset(roaring64_bitmap_t *dst,
         uint8_t typecode;
         container_t *container = ra_get_container_at_index(
             &src->high_low_container, (uint16_t)i, &typecode);
+        // 64-bit bitmaps do not support shared (copy-on-write) containers.
+        container = get_writable_copy_if_shared(container, &typecode);
 
         uint8_t high48[ART_KEY_BYTES];
         uint64_t high48_bits = key_base | ((uint64_t)key << 16);
-- 
2.43.0


From d49b44d85f33b8412d64a58a6709ee7b5e4ec555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:25 +0000
Subject: [PATCH 10/37] fix: roaring64_bitmap_remove_bulk kept a pointer to a
 removed leaf in its context

---
 src/roaring64.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/roaring64.c b/src/roaring64.c
index 03d4809..7eb5f08 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -757,12 +757,17 @@ void roaring64_bitmap_remove_bulk(roaring64_bitmap_t *r,
             bool erased = art_erase(art, high48, (art_val_t *)&leaf);
             assert(erased);
             remove_container(r, leaf);
+            // The leaf is gone: the context is no longer positioned anywhere.
+            context->leaf = NULL;
         }
     } else {
         // We're not positioned anywhere yet or the high bits of the key
         // differ.
         leaf_t *leaf = (leaf_t *)art_find(art, high48);
-        containerptr_roaring64_bitmap_remove(r, high48, low16, leaf);
+        if (containerptr_roaring64_bitmap_remove(r, high48, low16, leaf)) {
+            // The leaf is gone: don't keep a pointer to it.
+            leaf = NULL;
+        }
         context->leaf = leaf;
         memcpy(context->high_bytes, high48, ART_KEY_BYTES);
     }
-- 
2.43.0


From c93010c9401a1094e23df69dbe5bb1febf6606f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:42 +0000
Subject: [PATCH 11/37] fix: roaring64_bitmap_contains_range ignored a missing
 last container

---
 src/roaring64.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/roaring64.c b/src/roaring64.c
index 7eb5f08..f2f9676 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -542,9 +542,9 @@ bool roaring64_bitmap_contains_range(const roaring64_bitmap_t *r, uint64_t min,
     while (it.value != NULL) {
         uint64_t current_high48_bits = combine_key(it.key, 0);
         if (current_high48_bits > max_high48_bits) {
-            // We've passed the end of the range with all containers containing
-            // the range.
-            return true;
+            // We've passed the end of the range: the range is contained only if
+            // its last container has been seen.
+            break;
         }
         if (current_high48_bits - prev_high48_bits > 0x10000) {
             // There is a gap in the iterator that falls in the range.
-- 
2.43.0


From f0b3b08e6cfa3855b5ad58f8ca2a3797f065276b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:43 +0000
Subject: [PATCH 12/37] fix: roaring64_iterator_read did not record that it ran
 past the end

---
 src/roaring64.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/roaring64.c b/src/roaring64.c
index f2f9676..cf18831 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -2706,6 +2706,8 @@ uint64_t roaring64_iterator_read(roaring64_iterator_t *it, uint64_t *buf,
         it->has_value = art_iterator_next(&it->art_it);
         if (it->has_value) {
             roaring64_iterator_init_at_leaf_first(it);
+        } else {
+            it->saturated_forward = true;
         }
     }
     return consumed;
-- 
2.43.0


From 8a68c920941176272509a28baa0d596932c804d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:46 +0000
Subject: [PATCH 13/37] fix: copying from a bitmap whose copy-on-write was
 turned off cloned shared containers into NULL

---
 src/roaring_array.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/roaring_array.c b/src/roaring_array.c
index 75aae65..c8a4203 100644
--- a/src/roaring_array.c
+++ b/src/roaring_array.c
@@ -152,8 +152,10 @@ bool ra_overwrite(const roaring_array_t *source, roaring_array_t *dest,
         memcpy(dest->typecodes, source->typecodes,
                dest->size * sizeof(uint8_t));
         for (int32_t i = 0; i < dest->size; i++) {
-            dest->containers[i] =
-                container_clone(source->containers[i], source->typecodes[i]);
+            // the source may still hold containers that were shared before its
+            // copy-on-write flag was turned off
+            dest->containers[i] = get_copy_of_container(
+                source->containers[i], &dest->typecodes[i], copy_on_write);
             if (dest->containers[i] == NULL) {
                 for (int32_t j = 0; j < i; j++) {
                     container_free(dest->containers[j], dest->typecodes[j]);
@@ -234,9 +236,9 @@ void ra_append_copy(roaring_array_t *ra, const roaring_array_t *sa,
         ra->containers[pos] = sa->containers[index];
         ra->typecodes[pos] = sa->typecodes[index];
     } else {
-        ra->containers[pos] =
-            container_clone(sa->containers[index], sa->typecodes[index]);
         ra->typecodes[pos] = sa->typecodes[index];
+        ra->containers[pos] = get_copy_of_container(
+            sa->containers[index], &ra->typecodes[pos], copy_on_write);
     }
     ra->size++;
 }
@@ -262,9 +264,9 @@ void ra_append_copy_range(roaring_array_t *ra, const roaring_array_t *sa,
             ra->containers[pos] = sa->containers[i];
             ra->typecodes[pos] = sa->typecodes[i];
         } else {
-            ra->containers[pos] =
-                container_clone(sa->containers[i], sa->typecodes[i]);
             ra->typecodes[pos] = sa->typecodes[i];
+            ra->containers[pos] = get_copy_of_container(
+                sa->containers[i], &ra->typecodes[pos], copy_on_write);
         }
         ra->size++;
     }
@@ -308,9 +310,9 @@ void ra_append_range(roaring_array_t *ra, roaring_array_t *sa,
             ra->containers[pos] = sa->containers[i];
             ra->typecodes[pos] = sa->typecodes[i];
         } else {
-            ra->containers[pos] =
-                container_clone(sa->containers[i], sa->typecodes[i]);
             ra->typecodes[pos] = sa->typecodes[i];
+            ra->containers[pos] = get_copy_of_container(
+                sa->containers[i], &ra->typecodes[pos], copy_on_write);
         }
         ra->size++;
     }
-- 
2.43.0


From a1ca986d1509d6771ea4603227b368ebf1601646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:04 +0000
Subject: [PATCH 14/37] fix: a shared container could be modified or freed by
 its other owner while being cloned

---
 src/containers/containers.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/containers/containers.c b/src/containers/containers.c
index eb5a346..0a2cbed 100644
--- a/src/containers/containers.c
+++ b/src/containers/containers.c
@@ -229,12 +229,18 @@ container_t *shared_container_extract_copy(shared_container_t *sc,
     assert(sc->typecode != SHARED_CONTAINER_TYPE);
     *typecode = sc->typecode;
     container_t *answer;
-    if (croaring_refcount_dec(&sc->counter)) {
+    if (croaring_refcount_get(&sc->counter) > 1) {
+        // Clone while we still hold our reference: once it is dropped, another
+        // owner may modify or free the container.
+        answer = container_clone(sc->container, *typecode);
+        shared_container_free(sc);
+    } else {
+        bool last = croaring_refcount_dec(&sc->counter);
+        assert(last);  // nobody else can take a reference
+        (void)last;
         answer = sc->container;
         sc->container = NULL;  // paranoid
         roaring_free(sc);
-    } else {
-        answer = container_clone(sc->container, *typecode);
     }
     assert(*typecode != SHARED_CONTAINER_TYPE);
     return answer;
-- 
2.43.0


From 5a79062c8b5a4c7a7d886fc84a60bc8aaff4e070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:04 +0000
Subject: [PATCH 15/37] fix: roaring_bitmap_shrink_to_fit reallocated
 containers shared with other bitmaps

---
 src/roaring.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/roaring.c b/src/roaring.c
index ee919a3..27f2708 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -1438,6 +1438,16 @@ size_t roaring_bitmap_shrink_to_fit(roaring_bitmap_t *r) {
         uint8_t type_original;
         container_t *c = ra_get_container_at_index(&r->high_low_container,
                                                    (uint16_t)i, &type_original);
+        if (type_original == SHARED_CONTAINER_TYPE) {
+            if (croaring_refcount_get(&CAST_shared(c)->counter) > 1) {
+                // also used by other bitmaps, maybe from other threads
+                continue;
+            }
+            ra_unshare_container_at_index(&r->high_low_container, (uint16_t)i);
+            answer += sizeof(shared_container_t);
+            c = ra_get_container_at_index(&r->high_low_container, (uint16_t)i,
+                                          &type_original);
+        }
         answer += container_shrink_to_fit(c, type_original);
     }
     answer += ra_shrink_to_fit(&r->high_low_container);
-- 
2.43.0


From f36d1a9a31a9a5030f8a5006d0f0863e54e486c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:04 +0000
Subject: [PATCH 16/37] fix: the non-atomic reference counter compared its
 address instead of its value with zero

---
 include/roaring/portability.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/roaring/portability.h b/include/roaring/portability.h
index 03e741b..2d5da3b 100644
--- a/include/roaring/portability.h
+++ b/include/roaring/portability.h
@@ -559,7 +559,7 @@ static inline void croaring_refcount_inc(croaring_refcount_t *val) {
 static inline bool croaring_refcount_dec(croaring_refcount_t *val) {
     assert(*val > 0);
     *val -= 1;
-    return val == 0;
+    return *val == 0;
 }
 
 static inline uint32_t croaring_refcount_get(const croaring_refcount_t *val) {
-- 
2.43.0


From bddd53c96706454778cc5b8345afda86a78ff08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:05 +0000
Subject: [PATCH 17/37] fix: roaring64_bitmap_frozen_view freed uninitialized
 pointers when given a truncated image

---
 src/roaring64.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/roaring64.c b/src/roaring64.c
index cf18831..14f442a 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -2452,14 +2452,13 @@ roaring64_bitmap_t *roaring64_bitmap_frozen_view(const char *buf,
     buf += sizeof(r->capacity);
     maxbytes -= sizeof(r->capacity);
 
-    r->containers =
-        (container_t *)roaring_malloc(r->capacity * sizeof(container_t *));
-
     // Container element counts.
-    if (maxbytes < r->capacity * sizeof(uint16_t)) {
+    if (maxbytes / sizeof(uint16_t) < r->capacity) {
         roaring64_bitmap_free(r);
         return NULL;
     }
+    r->containers =
+        (container_t *)roaring_malloc(r->capacity * sizeof(container_t *));
     const char *elem_counts = buf;
     buf += r->capacity * sizeof(uint16_t);
     maxbytes -= r->capacity * sizeof(uint16_t);
@@ -2481,9 +2480,17 @@ roaring64_bitmap_t *roaring64_bitmap_frozen_view(const char *buf,
     maxbytes -= sizeof(uint64_t);
 
     // ART (8 byte aligned).
+    const char *before_art = buf;
     buf = CROARING_ALIGN_BUF(buf, 8);
+    if (maxbytes < (size_t)(buf - before_art)) {
+        roaring64_bitmap_free(r);
+        return NULL;
+    }
+    maxbytes -= buf - before_art;
     size_t art_size = art_frozen_view(buf, maxbytes, &r->art);
     if (art_size == 0) {
+        // The ART may be partially initialized, don't let it be iterated.
+        art_init_cleared(&r->art);
         roaring64_bitmap_free(r);
         return NULL;
     }
@@ -2502,6 +2509,8 @@ roaring64_bitmap_t *roaring64_bitmap_frozen_view(const char *buf,
     const uint16_t *arrays = (const uint16_t *)buf;
     buf += total_sizes[ARRAY_CONTAINER_TYPE];
     if (maxbytes < (uint64_t)(buf - before_containers)) {
+        // The containers are not initialized, don't let them be freed.
+        art_init_cleared(&r->art);
         roaring64_bitmap_free(r);
         return NULL;
     }
-- 
2.43.0


From f128c9d392133cd7d718de41101e794847aee5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:22 +0000
Subject: [PATCH 18/37] fix: Roaring64Map readers advanced by the size of the
 bitmap read instead of the bytes consumed

---
 cpp/roaring64map.hh | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/cpp/roaring64map.hh b/cpp/roaring64map.hh
index 7de53cb..76cf374 100644
--- a/cpp/roaring64map.hh
+++ b/cpp/roaring64map.hh
@@ -1177,7 +1177,8 @@ class Roaring64Map {
             // read map value Roaring
             Roaring read_var = Roaring::read(buf, portable);
             // forward buffer past the last Roaring Bitmap
-            buf += read_var.getSizeInBytes(portable);
+            buf += innerSizeInBytes(buf, (std::numeric_limits<size_t>::max)(),
+                                    portable);
             result.emplaceOrInsert(key, std::move(read_var));
         }
         return result;
@@ -1212,7 +1213,7 @@ class Roaring64Map {
             // read map value Roaring
             Roaring read_var = Roaring::readSafe(buf, maxbytes);
             // forward buffer past the last Roaring Bitmap
-            size_t tz = read_var.getSizeInBytes(true);
+            size_t tz = innerSizeInBytes(buf, maxbytes, true);
             buf += tz;
             maxbytes -= tz;
             result.emplaceOrInsert(key, std::move(read_var));
@@ -1289,7 +1290,8 @@ class Roaring64Map {
             // read map value Roaring
             Roaring read_var = Roaring::portableDeserializeFrozen(buf);
             // forward buffer past the last Roaring bitmap
-            buf += read_var.getSizeInBytes(true);
+            buf += innerSizeInBytes(buf, (std::numeric_limits<size_t>::max)(),
+                                    true);
             result.emplaceOrInsert(key, std::move(read_var));
         }
         return result;
@@ -1608,6 +1610,26 @@ class Roaring64Map {
 #endif
     }
 
+    /**
+     * Number of bytes that the serialized 32-bit bitmap at 'buf' occupies. It
+     * may differ from the size of the bitmap once it is read, as there can be
+     * several serializations of the same bitmap.
+     */
+    static size_t innerSizeInBytes(const char *buf, size_t maxbytes,
+                                   bool portable) {
+        if (portable) {
+            return api::roaring_bitmap_portable_deserialize_size(buf, maxbytes);
+        }
+        const char serialization_array_uint32 = 1;
+        if (buf[0] == serialization_array_uint32) {
+            uint32_t cardinality;
+            std::memcpy(&cardinality, buf + 1, sizeof(uint32_t));
+            return 1 + sizeof(uint32_t) + cardinality * sizeof(uint32_t);
+        }
+        return 1 + api::roaring_bitmap_portable_deserialize_size(buf + 1,
+                                                                 maxbytes - 1);
+    }
+
     /*
      * Look up 'key' in the 'roarings' map. If it does not exist, create it.
      * Also, set its copyOnWrite flag to 'copyOnWrite'. Then return a reference
-- 
2.43.0


From 408dbbd44b6b715044f017e79fe21699c52bda63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:26 +0000
Subject: [PATCH 19/37] fix: bitset_shift_left wrote out of bounds on an empty
 bitset or a failed resize

---
 src/bitset.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bitset.c b/src/bitset.c
index 96fee90..d9e0507 100644
--- a/src/bitset.c
+++ b/src/bitset.c
@@ -90,14 +90,17 @@ void bitset_shift_left(bitset_t *bitset, size_t s) {
     size_t extra_words = s / 64;
     int inword_shift = s % 64;
     size_t as = bitset->arraysize;
+    if (as == 0) {
+        return;  // nothing to shift
+    }
     if (inword_shift == 0) {
-        bitset_resize(bitset, as + extra_words, false);
+        if (!bitset_resize(bitset, as + extra_words, false)) return;
         // could be done with a memmove
         for (size_t i = as + extra_words; i > extra_words; i--) {
             bitset->array[i - 1] = bitset->array[i - 1 - extra_words];
         }
     } else {
-        bitset_resize(bitset, as + extra_words + 1, true);
+        if (!bitset_resize(bitset, as + extra_words + 1, true)) return;
         bitset->array[as + extra_words] =
             bitset->array[as - 1] >> (64 - inword_shift);
         for (size_t i = as + extra_words; i >= extra_words + 2; i--) {
-- 
2.43.0


From e11ecc09c8f072835b50c28a5057143c6d7cfd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:26 +0000
Subject: [PATCH 20/37] fix: bitset_shift_right by the whole size or more
 accessed memory out of bounds

---
 src/bitset.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bitset.c b/src/bitset.c
index d9e0507..6bd5e35 100644
--- a/src/bitset.c
+++ b/src/bitset.c
@@ -119,6 +119,10 @@ void bitset_shift_right(bitset_t *bitset, size_t s) {
     size_t extra_words = s / 64;
     int inword_shift = s % 64;
     size_t as = bitset->arraysize;
+    if (extra_words >= as) {
+        bitset_resize(bitset, 0, false);  // every bit is shifted out
+        return;
+    }
     if (inword_shift == 0) {
         // could be done with a memmove
         for (size_t i = 0; i < as - extra_words; i++) {
-- 
2.43.0


From 83b791dac8b7511cc4f77d8a6619bdc5a9577fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:26 +0000
Subject: [PATCH 21/37] fix: bitset_trim of a bitset without set bits freed the
 array and kept the pointer

---
 src/bitset.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bitset.c b/src/bitset.c
index 6bd5e35..438c268 100644
--- a/src/bitset.c
+++ b/src/bitset.c
@@ -480,6 +480,14 @@ bool bitset_trim(bitset_t *bitset) {
             break;
     }
     if (bitset->capacity == newsize) return true;  // nothing to do
+    if (newsize == 0) {
+        // realloc to zero bytes may free the array and return NULL
+        roaring_free(bitset->array);
+        bitset->array = NULL;
+        bitset->capacity = 0;
+        bitset->arraysize = 0;
+        return true;
+    }
     uint64_t *newarray;
     if ((newarray = (uint64_t *)roaring_realloc(
              bitset->array, sizeof(uint64_t) * newsize)) == NULL) {
-- 
2.43.0


From 14adb689c6441a63e3bdd3d5d4fc760cce942f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:53 +0000
Subject: [PATCH 22/37] fix: shrink_to_fit of array and run containers counted
 elements instead of bytes saved

---
 src/containers/array.c | 3 ++-
 src/containers/run.c   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/containers/array.c b/src/containers/array.c
index 4b5e5bc..7a65034 100644
--- a/src/containers/array.c
+++ b/src/containers/array.c
@@ -128,7 +128,8 @@ void array_container_offset(const array_container_t *c, container_t **loc,
 
 int array_container_shrink_to_fit(array_container_t *src) {
     if (src->cardinality == src->capacity) return 0;  // nothing to do
-    int savings = src->capacity - src->cardinality;
+    int savings =
+        (src->capacity - src->cardinality) * (int)sizeof(uint16_t);  // bytes
     src->capacity = src->cardinality;
     if (src->capacity ==
         0) {  // we do not want to rely on realloc for zero allocs
diff --git a/src/containers/run.c b/src/containers/run.c
index 986db6d..4374ad2 100644
--- a/src/containers/run.c
+++ b/src/containers/run.c
@@ -107,7 +107,8 @@ run_container_t *run_container_create_given_capacity(int32_t size) {
 
 int run_container_shrink_to_fit(run_container_t *src) {
     if (src->n_runs == src->capacity) return 0;  // nothing to do
-    int savings = src->capacity - src->n_runs;
+    int savings =
+        (src->capacity - src->n_runs) * (int)sizeof(rle16_t);  // bytes
     src->capacity = src->n_runs;
     rle16_t *oldruns = src->runs;
     src->runs =
-- 
2.43.0


From 3f71631b1f834d82b71ccfd6e6c93e2470e2c36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 23/37] fix: assigning to a Roaring object that holds a frozen
 view freed memory of the view

---
 cpp/roaring.hh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cpp/roaring.hh b/cpp/roaring.hh
index 8a3b8b6..c406a4e 100644
--- a/cpp/roaring.hh
+++ b/cpp/roaring.hh
@@ -152,6 +152,10 @@ class Roaring {
      * It may throw std::runtime_error if there is insufficient memory.
      */
     Roaring &operator=(const Roaring &r) {
+        if (roaring.high_low_container.flags & ROARING_FLAG_FROZEN) {
+            // A frozen view cannot be overwritten in place.
+            return *this = Roaring(r);
+        }
         if (!api::roaring_bitmap_overwrite(&roaring, &r.roaring)) {
             ROARING_TERMINATE("failed memory alloc in assignment");
         }
@@ -165,7 +169,9 @@ class Roaring {
      * discard the current content.
      */
     Roaring &operator=(Roaring &&r) noexcept {
-        api::roaring_bitmap_clear(&roaring);  // free this class's allocations
+        // Hand the current content, which may be a frozen view, to a temporary
+        // whose destructor frees it.
+        Roaring previous(std::move(*this));
 
         // !!! See notes in the Move Constructor regarding roaring_bitmap_move()
         //
-- 
2.43.0


From e7e7c8402c9375320abdfe20d85ce54896125ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 24/37] fix: roaring_bitmap_overwrite of a bitmap with itself
 freed its containers

---
 src/roaring.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/roaring.c b/src/roaring.c
index 27f2708..46f2a7c 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -513,6 +513,9 @@ roaring_bitmap_t *roaring_bitmap_copy(const roaring_bitmap_t *r) {
 
 bool roaring_bitmap_overwrite(roaring_bitmap_t *dest,
                               const roaring_bitmap_t *src) {
+    if (dest == src) {
+        return true;  // clearing dest would lose the contents of src
+    }
     roaring_bitmap_set_copy_on_write(dest, is_cow(src));
     return ra_overwrite(&src->high_low_container, &dest->high_low_container,
                         is_cow(src));
-- 
2.43.0


From 60f1897f72a2cc8f7ecc1f429686ab1e02e6ea27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 25/37] fix: operator-= and operator^= of a Roaring object with
 itself corrupted it

---
 cpp/roaring.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cpp/roaring.hh b/cpp/roaring.hh
index c406a4e..97c06fe 100644
--- a/cpp/roaring.hh
+++ b/cpp/roaring.hh
@@ -347,6 +347,10 @@ class Roaring {
      * is not modified.
      */
     Roaring &operator-=(const Roaring &r) noexcept {
+        if (this == &r) {
+            clear();  // roaring_bitmap_andnot_inplace() wants distinct bitmaps
+            return *this;
+        }
         api::roaring_bitmap_andnot_inplace(&roaring, &r.roaring);
         return *this;
     }
@@ -369,6 +373,10 @@ class Roaring {
      * is not modified.
      */
     Roaring &operator^=(const Roaring &r) noexcept {
+        if (this == &r) {
+            clear();  // roaring_bitmap_xor_inplace() wants distinct bitmaps
+            return *this;
+        }
         api::roaring_bitmap_xor_inplace(&roaring, &r.roaring);
         return *this;
     }
-- 
2.43.0


From 8610876180da52fd123caf1c5a15e73ab40f64af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 26/37] fix: Roaring64Map::runOptimize and removeRunCompression
 reported whether every bucket, not any, has or had runs

---
 cpp/roaring64map.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/roaring64map.hh b/cpp/roaring64map.hh
index 76cf374..34cd8f9 100644
--- a/cpp/roaring64map.hh
+++ b/cpp/roaring64map.hh
@@ -986,9 +986,9 @@ class Roaring64Map {
      */
     bool removeRunCompression() {
         return std::accumulate(
-            roarings.begin(), roarings.end(), true,
+            roarings.begin(), roarings.end(), false,
             [](bool previous, std::pair<const uint32_t, Roaring> &map_entry) {
-                return map_entry.second.removeRunCompression() && previous;
+                return map_entry.second.removeRunCompression() || previous;
             });
     }
 
@@ -1000,9 +1000,9 @@ class Roaring64Map {
      */
     bool runOptimize() {
         return std::accumulate(
-            roarings.begin(), roarings.end(), true,
+            roarings.begin(), roarings.end(), false,
             [](bool previous, std::pair<const uint32_t, Roaring> &map_entry) {
-                return map_entry.second.runOptimize() && previous;
+                return map_entry.second.runOptimize() || previous;
             });
     }
 
-- 
2.43.0


From f2eb69d28fa52e03903b8ad9bda347b7b2fae060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 27/37] fix: Roaring64Map iterators stopped at empty buckets in
 move_equalorlarger and postfix --

---
 cpp/roaring64map.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/roaring64map.hh b/cpp/roaring64map.hh
index 34cd8f9..b76bd48 100644
--- a/cpp/roaring64map.hh
+++ b/cpp/roaring64map.hh
@@ -1822,6 +1822,8 @@ class Roaring64MapSetBitBiDirectionalIterator {
                 if (roaring_uint32_iterator_move_equalorlarger(
                         &i, Roaring64Map::lowBytes(x)))
                     return true;
+            }
+            while (!i.has_value) {  // nothing (left) in this bucket
                 ++map_iter;
                 if (map_iter == p->cend()) return false;
                 roaring_iterator_init(&map_iter->second.roaring, &i);
@@ -1857,7 +1859,7 @@ class Roaring64MapSetBitBiDirectionalIterator {
         if (map_iter == p->cend()) {
             --map_iter;
             roaring_iterator_init_last(&map_iter->second.roaring, &i);
-            return orig;
+            if (i.has_value) return orig;
         }
 
         roaring_uint32_iterator_previous(&i);
-- 
2.43.0


From b491ad7fab4abfbcdf7743f3bbb407921e995281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:04 +0000
Subject: [PATCH 28/37] fix: comparing a Roaring64Map end iterator with another
 iterator dereferenced the end

---
 cpp/roaring64map.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/roaring64map.hh b/cpp/roaring64map.hh
index b76bd48..6848ad5 100644
--- a/cpp/roaring64map.hh
+++ b/cpp/roaring64map.hh
@@ -1873,13 +1873,13 @@ class Roaring64MapSetBitBiDirectionalIterator {
 
     bool operator==(const Roaring64MapSetBitBiDirectionalIterator &o) const {
         if (map_iter == p->cend() && o.map_iter == o.p->cend()) return true;
-        if (o.map_iter == o.p->cend()) return false;
+        if (map_iter == p->cend() || o.map_iter == o.p->cend()) return false;
         return **this == *o;
     }
 
     bool operator!=(const Roaring64MapSetBitBiDirectionalIterator &o) const {
         if (map_iter == p->cend() && o.map_iter == o.p->cend()) return false;
-        if (o.map_iter == o.p->cend()) return true;
+        if (map_iter == p->cend() || o.map_iter == o.p->cend()) return true;
         return **this != *o;
     }
 
-- 
2.43.0


From 17e53bd6dc831f1f98d5e7d2a1a06b78dfbee6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:17 +0000
Subject: [PATCH 29/37] fix: the library did not compile as C++
 (ROARING_BUILD_C_AS_CPP)

---
 src/art/art.c        | 20 ++++++++++----------
 src/bitset.c         |  4 ++--
 src/containers/run.c |  1 -
 src/roaring64.c      | 10 +++++-----
 4 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/art/art.c b/src/art/art.c
index 8e54d43..fdb9927 100644
--- a/src/art/art.c
+++ b/src/art/art.c
@@ -2308,14 +2308,14 @@ bool art_internal_validate(const art_t *art, const char **reason,
     return art_internal_validate_at(art, art->root, validator);
 }
 
-_Static_assert(alignof(art_leaf_t) == alignof(art_node4_t),
-               "Serialization assumes node type alignment is equal");
-_Static_assert(alignof(art_leaf_t) == alignof(art_node16_t),
-               "Serialization assumes node type alignment is equal");
-_Static_assert(alignof(art_leaf_t) == alignof(art_node48_t),
-               "Serialization assumes node type alignment is equal");
-_Static_assert(alignof(art_leaf_t) == alignof(art_node256_t),
-               "Serialization assumes node type alignment is equal");
+static_assert(alignof(art_leaf_t) == alignof(art_node4_t),
+              "Serialization assumes node type alignment is equal");
+static_assert(alignof(art_leaf_t) == alignof(art_node16_t),
+              "Serialization assumes node type alignment is equal");
+static_assert(alignof(art_leaf_t) == alignof(art_node48_t),
+              "Serialization assumes node type alignment is equal");
+static_assert(alignof(art_leaf_t) == alignof(art_node256_t),
+              "Serialization assumes node type alignment is equal");
 
 size_t art_size_in_bytes(const art_t *art) {
     if (!art_is_shrunken(art)) {
@@ -2387,8 +2387,8 @@ size_t art_frozen_view(const char *buf, size_t maxbytes, art_t *art) {
     if (maxbytes < sizeof(art->capacities)) {
         return 0;
     }
-    _Static_assert(sizeof(art->first_free) == sizeof(art->capacities),
-                   "first_free is read from capacities");
+    static_assert(sizeof(art->first_free) == sizeof(art->capacities),
+                  "first_free is read from capacities");
     memcpy(art->first_free, buf, sizeof(art->capacities));
     memcpy(art->capacities, buf, sizeof(art->capacities));
     buf += sizeof(art->capacities);
diff --git a/src/bitset.c b/src/bitset.c
index 438c268..80b3a8d 100644
--- a/src/bitset.c
+++ b/src/bitset.c
@@ -11,7 +11,7 @@
 #ifdef __cplusplus
 extern "C" {
 namespace roaring {
-namespace internal {
+namespace api {
 #endif
 
 extern inline void bitset_print(const bitset_t *b);
@@ -502,5 +502,5 @@ bool bitset_trim(bitset_t *bitset) {
 #ifdef __cplusplus
 }
 }
-}  // extern "C" { namespace roaring { namespace internal {
+}  // extern "C" { namespace roaring { namespace api {
 #endif
diff --git a/src/containers/run.c b/src/containers/run.c
index 4374ad2..972d843 100644
--- a/src/containers/run.c
+++ b/src/containers/run.c
@@ -34,7 +34,6 @@ extern inline bool run_container_nonzero_cardinality(const run_container_t *rc);
 extern inline int32_t run_container_serialized_size_in_bytes(int32_t num_runs);
 extern inline run_container_t *run_container_create_range(uint32_t start,
                                                           uint32_t stop);
-extern inline int run_container_cardinality(const run_container_t *run);
 
 bool run_container_add(run_container_t *run, uint16_t pos) {
     int32_t index = interleavedBinarySearch(run->runs, run->n_runs, pos);
diff --git a/src/roaring64.c b/src/roaring64.c
index 14f442a..8367ac5 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -129,8 +129,8 @@ static void extend_containers(roaring64_bitmap_t *r) {
         new_capacity = 5 * r->capacity / 4;
     }
     uint64_t increase = new_capacity - r->capacity;
-    r->containers =
-        roaring_realloc(r->containers, new_capacity * sizeof(container_t *));
+    r->containers = (container_t **)roaring_realloc(
+        r->containers, new_capacity * sizeof(container_t *));
     memset(r->containers + r->capacity, 0, increase * sizeof(container_t *));
     r->capacity = new_capacity;
 }
@@ -990,8 +990,8 @@ size_t roaring64_bitmap_shrink_to_fit(roaring64_bitmap_t *r) {
     }
     uint64_t new_capacity = r->first_free;
     if (new_capacity < r->capacity) {
-        r->containers = roaring_realloc(r->containers,
-                                        new_capacity * sizeof(container_t *));
+        r->containers = (container_t **)roaring_realloc(
+            r->containers, new_capacity * sizeof(container_t *));
         freed += (r->capacity - new_capacity) * sizeof(container_t *);
         r->capacity = new_capacity;
     }
@@ -2458,7 +2458,7 @@ roaring64_bitmap_t *roaring64_bitmap_frozen_view(const char *buf,
         return NULL;
     }
     r->containers =
-        (container_t *)roaring_malloc(r->capacity * sizeof(container_t *));
+        (container_t **)roaring_malloc(r->capacity * sizeof(container_t *));
     const char *elem_counts = buf;
     buf += r->capacity * sizeof(uint16_t);
     maxbytes -= r->capacity * sizeof(uint16_t);
-- 
2.43.0


From cd615e81b6ac4a42a76a97f22bf4a5beba2789e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:19 +0000
Subject: [PATCH 30/37] fix: a failed allocation while copying or overwriting a
 bitmap freed containers twice or lost those of the source

---
 src/roaring_array.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/roaring_array.c b/src/roaring_array.c
index c8a4203..9a9f976 100644
--- a/src/roaring_array.c
+++ b/src/roaring_array.c
@@ -130,6 +130,7 @@ bool ra_overwrite(const roaring_array_t *source, roaring_array_t *dest,
         dest->size = 0;         // <--- This is important.
         return true;            // output was just cleared, so they match
     }
+    dest->size = 0;  // the containers are gone, even if we fail below
     if (dest->allocation_size < source->size) {
         if (!realloc_array(dest, source->size)) {
             return false;
@@ -140,8 +141,17 @@ bool ra_overwrite(const roaring_array_t *source, roaring_array_t *dest,
     // we go through the containers, turning them into shared containers...
     if (copy_on_write) {
         for (int32_t i = 0; i < dest->size; ++i) {
-            source->containers[i] = get_copy_of_container(
+            container_t *shared = get_copy_of_container(
                 source->containers[i], &source->typecodes[i], copy_on_write);
+            if (shared == NULL) {
+                // the source keeps this container, give back the others
+                for (int32_t j = 0; j < i; j++) {
+                    container_free(source->containers[j], source->typecodes[j]);
+                }
+                ra_clear_without_containers(dest);
+                return false;
+            }
+            source->containers[i] = shared;
         }
         // we do a shallow copy to the other bitmap
         memcpy(dest->containers, source->containers,
-- 
2.43.0


From 0e6290ea56364d3b71c2a032a4535090b32e5057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:19 +0000
Subject: [PATCH 31/37] fix: deserializing wrote through NULL when the runs of
 a container could not be allocated

---
 src/roaring_array.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/roaring_array.c b/src/roaring_array.c
index 9a9f976..40dd6c4 100644
--- a/src/roaring_array.c
+++ b/src/roaring_array.c
@@ -855,7 +855,8 @@ bool ra_portable_deserialize(roaring_array_t *answer, const char *buf,
             }
             // it is now safe to read
 
-            run_container_t *c = run_container_create();
+            run_container_t *c =
+                run_container_create_given_capacity(n_runs);
             if (c == NULL) {  // memory allocation failure
                 // Failed to allocate memory for a run container.
                 ra_clear(answer);  // we need to clear the containers already
-- 
2.43.0


From 011beba55afb6807bc920a570521a48c17155efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:19 +0000
Subject: [PATCH 32/37] fix: roaring_uint32_iterator_copy wrote through NULL
 when its allocation failed

---
 src/roaring.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/roaring.c b/src/roaring.c
index 46f2a7c..1826038 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -1772,6 +1772,7 @@ roaring_uint32_iterator_t *roaring_uint32_iterator_copy(
     roaring_uint32_iterator_t *newit =
         (roaring_uint32_iterator_t *)roaring_malloc(
             sizeof(roaring_uint32_iterator_t));
+    if (newit == NULL) return NULL;
     memcpy(newit, it, sizeof(roaring_uint32_iterator_t));
     return newit;
 }
-- 
2.43.0


From a679e43c0ca092e345abd5da1b5df3e33d1a4846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:03 +0000
Subject: [PATCH 33/37] fix: 64-bit create, copy, frozen_view and iterators
 wrote through NULL when an allocation failed

---
 src/roaring64.c | 45 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/src/roaring64.c b/src/roaring64.c
index 8367ac5..9cc25a0 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -225,6 +225,9 @@ static inline roaring64_iterator_t *roaring64_iterator_init_at(
 roaring64_bitmap_t *roaring64_bitmap_create(void) {
     roaring64_bitmap_t *r =
         (roaring64_bitmap_t *)roaring_malloc(sizeof(roaring64_bitmap_t));
+    if (r == NULL) {
+        return NULL;
+    }
     art_init_cleared(&r->art);
     r->flags = 0;
     r->capacity = 0;
@@ -258,6 +261,9 @@ void roaring64_bitmap_free(roaring64_bitmap_t *r) {
 
 roaring64_bitmap_t *roaring64_bitmap_copy(const roaring64_bitmap_t *r) {
     roaring64_bitmap_t *result = roaring64_bitmap_create();
+    if (result == NULL) {
+        return NULL;
+    }
 
     art_iterator_t it = art_init_iterator((art_t *)&r->art, /*first=*/true);
     while (it.value != NULL) {
@@ -265,6 +271,10 @@ roaring64_bitmap_t *roaring64_bitmap_copy(const roaring64_bitmap_t *r) {
         uint8_t result_typecode = get_typecode(leaf);
         container_t *result_container = get_copy_of_container(
             get_container(r, leaf), &result_typecode, /*copy_on_write=*/false);
+        if (result_container == NULL) {
+            roaring64_bitmap_free(result);
+            return NULL;
+        }
         leaf_t result_leaf =
             add_container(result, result_container, result_typecode);
         art_insert(&result->art, it.key, (art_val_t)result_leaf);
@@ -2119,6 +2129,9 @@ roaring64_bitmap_t *roaring64_bitmap_portable_deserialize_safe(
     }
 
     roaring64_bitmap_t *r = roaring64_bitmap_create();
+    if (r == NULL) {
+        return NULL;
+    }
     // Iterate through buckets ordered by increasing keys.
     int64_t previous_high32 = -1;
     for (uint64_t bucket = 0; bucket < buckets; ++bucket) {
@@ -2391,6 +2404,9 @@ static container_t *container_frozen_view(uint8_t typecode, uint32_t elem_count,
         case BITSET_CONTAINER_TYPE: {
             bitset_container_t *c = (bitset_container_t *)roaring_malloc(
                 sizeof(bitset_container_t));
+            if (c == NULL) {
+                return NULL;
+            }
             c->cardinality = elem_count;
             c->words = (uint64_t *)*bitsets;
             *bitsets += BITSET_CONTAINER_SIZE_IN_WORDS;
@@ -2399,6 +2415,9 @@ static container_t *container_frozen_view(uint8_t typecode, uint32_t elem_count,
         case ARRAY_CONTAINER_TYPE: {
             array_container_t *c =
                 (array_container_t *)roaring_malloc(sizeof(array_container_t));
+            if (c == NULL) {
+                return NULL;
+            }
             c->cardinality = elem_count;
             c->capacity = elem_count;
             c->array = (uint16_t *)*arrays;
@@ -2408,6 +2427,9 @@ static container_t *container_frozen_view(uint8_t typecode, uint32_t elem_count,
         case RUN_CONTAINER_TYPE: {
             run_container_t *c =
                 (run_container_t *)roaring_malloc(sizeof(run_container_t));
+            if (c == NULL) {
+                return NULL;
+            }
             c->n_runs = elem_count;
             c->capacity = elem_count;
             c->runs = (rle16_t *)*runs;
@@ -2432,6 +2454,9 @@ roaring64_bitmap_t *roaring64_bitmap_frozen_view(const char *buf,
     }
 
     roaring64_bitmap_t *r = roaring64_bitmap_create();
+    if (r == NULL) {
+        return NULL;
+    }
 
     // Flags.
     if (maxbytes < sizeof(r->flags)) {
@@ -2457,8 +2482,13 @@ roaring64_bitmap_t *roaring64_bitmap_frozen_view(const char *buf,
         roaring64_bitmap_free(r);
         return NULL;
     }
+    // Zeroed, as not all containers may exist if we have to free them.
     r->containers =
-        (container_t **)roaring_malloc(r->capacity * sizeof(container_t *));
+        (container_t **)roaring_calloc(r->capacity, sizeof(container_t *));
+    if (r->containers == NULL && r->capacity > 0) {
+        roaring64_bitmap_free(r);
+        return NULL;
+    }
     const char *elem_counts = buf;
     buf += r->capacity * sizeof(uint16_t);
     maxbytes -= r->capacity * sizeof(uint16_t);
@@ -2531,6 +2561,10 @@ roaring64_bitmap_t *roaring64_bitmap_frozen_view(const char *buf,
         uint64_t index = get_index(leaf);
         r->containers[index] = container_frozen_view(typecode, elem_count,
                                                      &bitsets, &arrays, &runs);
+        if (r->containers[index] == NULL) {
+            roaring64_bitmap_free(r);
+            return NULL;
+        }
 
         art_iterator_next(&it);
     }
@@ -2568,6 +2602,9 @@ void roaring64_bitmap_to_uint64_array(const roaring64_bitmap_t *r,
 roaring64_iterator_t *roaring64_iterator_create(const roaring64_bitmap_t *r) {
     roaring64_iterator_t *it =
         (roaring64_iterator_t *)roaring_malloc(sizeof(roaring64_iterator_t));
+    if (it == NULL) {
+        return NULL;
+    }
     return roaring64_iterator_init_at(r, it, /*first=*/true);
 }
 
@@ -2575,6 +2612,9 @@ roaring64_iterator_t *roaring64_iterator_create_last(
     const roaring64_bitmap_t *r) {
     roaring64_iterator_t *it =
         (roaring64_iterator_t *)roaring_malloc(sizeof(roaring64_iterator_t));
+    if (it == NULL) {
+        return NULL;
+    }
     return roaring64_iterator_init_at(r, it, /*first=*/false);
 }
 
@@ -2591,6 +2631,9 @@ void roaring64_iterator_reinit_last(const roaring64_bitmap_t *r,
 roaring64_iterator_t *roaring64_iterator_copy(const roaring64_iterator_t *it) {
     roaring64_iterator_t *new_it =
         (roaring64_iterator_t *)roaring_malloc(sizeof(roaring64_iterator_t));
+    if (new_it == NULL) {
+        return NULL;
+    }
     memcpy(new_it, it, sizeof(*it));
     return new_it;
 }
-- 
2.43.0


From b22e5e8c966252da22a71882e38d36d40a0fdc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:03 +0000
Subject: [PATCH 34/37] fix: a failed in-place bitset union or symmetric
 difference left the destination half merged

---
 src/bitset.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/bitset.c b/src/bitset.c
index 80b3a8d..7a5cc26 100644
--- a/src/bitset.c
+++ b/src/bitset.c
@@ -211,15 +211,15 @@ bool bitset_inplace_union(bitset_t *CROARING_CBITSET_RESTRICT b1,
                           const bitset_t *CROARING_CBITSET_RESTRICT b2) {
     size_t minlength =
         b1->arraysize < b2->arraysize ? b1->arraysize : b2->arraysize;
-    for (size_t k = 0; k < minlength; ++k) {
-        b1->array[k] |= b2->array[k];
-    }
     if (b2->arraysize > b1->arraysize) {
         size_t oldsize = b1->arraysize;
         if (!bitset_resize(b1, b2->arraysize, false)) return false;
         memcpy(b1->array + oldsize, b2->array + oldsize,
                (b2->arraysize - oldsize) * sizeof(uint64_t));
     }
+    for (size_t k = 0; k < minlength; ++k) {
+        b1->array[k] |= b2->array[k];
+    }
     return true;
 }
 
@@ -436,16 +436,16 @@ bool bitset_inplace_symmetric_difference(
     const bitset_t *CROARING_CBITSET_RESTRICT b2) {
     size_t minlength =
         b1->arraysize < b2->arraysize ? b1->arraysize : b2->arraysize;
-    size_t k = 0;
-    for (; k < minlength; ++k) {
-        b1->array[k] ^= b2->array[k];
-    }
     if (b2->arraysize > b1->arraysize) {
         size_t oldsize = b1->arraysize;
         if (!bitset_resize(b1, b2->arraysize, false)) return false;
         memcpy(b1->array + oldsize, b2->array + oldsize,
                (b2->arraysize - oldsize) * sizeof(uint64_t));
     }
+    size_t k = 0;
+    for (; k < minlength; ++k) {
+        b1->array[k] ^= b2->array[k];
+    }
     return true;
 }
 
-- 
2.43.0


From 807a81a2f93e099acdc7fb1e778e682e97345959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 35/37] fix: inserting into a 64-bit bitmap wrote through NULL
 when a temporary prefix could not be allocated

---
 src/art/art.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/art/art.c b/src/art/art.c
index fdb9927..91c4678 100644
--- a/src/art/art.c
+++ b/src/art/art.c
@@ -1384,12 +1384,10 @@ static art_ref_t art_insert_at(art_t *art, art_ref_t ref,
         // prefix.
         // We create a copy of the node's prefix as the creation of a new
         // node may invalidate the prefix pointer.
-        art_key_chunk_t *prefix_copy = (art_key_chunk_t *)roaring_malloc(
-            common_prefix * sizeof(art_key_chunk_t));
+        art_key_chunk_t prefix_copy[ART_KEY_BYTES];
         memcpy(prefix_copy, inner_node->prefix,
                common_prefix * sizeof(art_key_chunk_t));
         art_node4_t *node4 = art_node4_create(art, prefix_copy, common_prefix);
-        roaring_free(prefix_copy);
 
         // Deref as a new node was created.
         inner_node = (art_inner_node_t *)art_deref(art, ref);
-- 
2.43.0


From b57a125626cf18c178fc508c8103b0c929405487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:05 +0000
Subject: [PATCH 36/37] fix: copying a view of a portable image allocated room
 for every value of its run containers

---
 src/roaring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/roaring.c b/src/roaring.c
index 1826038..dd61d0a 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -3356,7 +3356,6 @@ roaring_bitmap_t *roaring_bitmap_portable_deserialize_frozen(const char *buf) {
             typecodes[i] = RUN_CONTAINER_TYPE;
             run_container_t *c =
                 (run_container_t *)arena_alloc(&arena, sizeof(run_container_t));
-            c->capacity = cardinality;
             uint16_t n_runs;
             if (offset_headers != NULL) {
                 memcpy(&n_runs, start_of_buf + offset_headers[i],
@@ -3371,6 +3370,7 @@ roaring_bitmap_t *roaring_bitmap_portable_deserialize_frozen(const char *buf) {
                 c->runs = (rle16_t *)buf;
                 buf += c->n_runs * sizeof(rle16_t);
             }
+            c->capacity = c->n_runs;
             rb->high_low_container.containers[i] = c;
         } else {
             typecodes[i] = ARRAY_CONTAINER_TYPE;
-- 
2.43.0


From a931a742b12b076d47ae6a03d8b8a60ddcd046cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:13 +0000
Subject: [PATCH 37/37] fix: select reported no element in the last chunk of a
 bitmap of all 2^32 values in bitmap form

---
 src/containers/bitset.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/containers/bitset.c b/src/containers/bitset.c
index b66f880..cae0427 100644
--- a/src/containers/bitset.c
+++ b/src/containers/bitset.c
@@ -1169,7 +1169,8 @@ bool bitset_container_is_subset(const bitset_container_t *container1,
 
 bool bitset_container_select(const bitset_container_t *container, uint32_t *start_rank, uint32_t rank, uint32_t *element) {
     int card = bitset_container_cardinality(container);
-    if(rank >= *start_rank + card) {
+    // *start_rank + card may not fit in 32 bits
+    if(rank - *start_rank >= (uint32_t)card) {
         *start_rank += card;
         return false;
     }
@@ -1177,7 +1178,7 @@ bool bitset_container_select(const bitset_container_t *container, uint32_t *star
     int32_t size;
     for (int i = 0; i < BITSET_CONTAINER_SIZE_IN_WORDS; i += 1) {
         size = roaring_hamming(words[i]);
-        if(rank <= *start_rank + size) {
+        if(rank - *start_rank <= (uint32_t)size) {
             uint64_t w = container->words[i];
             uint16_t base = i*64;
             while (w != 0) {
-- 
2.43.0

