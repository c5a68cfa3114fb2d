From 4aeb565174df8f8c4ca30366541b8c854d893dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 001/152] fix: memswap of odd small sizes advanced its cursors
 twice per byte

---
 code/source/essentials/memory.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/essentials/memory.c b/code/source/essentials/memory.c
index 284492a..9064cff 100644
--- a/code/source/essentials/memory.c
+++ b/code/source/essentials/memory.c
@@ -17,7 +17,7 @@ void zpl_memswap(void *i, void *j, zpl_isize size) {
         zpl_u8 *a = cast(zpl_u8 *) i;
         zpl_u8 *b = cast(zpl_u8 *) j;
         if (a != b) {
-            while (size--) { zpl_swap(zpl_u8, *a++, *b++); }
+            while (size--) { zpl_swap(zpl_u8, *a, *b); a++; b++; }
         }
     } else {
         char buffer[256];
-- 
2.43.0


From bf4a5ea46069cab41e30d5b6e260bcc76b299582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 002/152] fix: arena ignored the padding its alignment inserts,
 so blocks could overlap or leave the arena

---
 code/source/essentials/memory_custom.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index 8a14656..424673d 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -172,7 +172,7 @@ ZPL_ALLOCATOR_PROC(zpl_arena_allocator_proc) {
     switch (type) {
         case ZPL_ALLOCATION_ALLOC: {
             void *end = zpl_pointer_add(arena->physical_start, arena->total_allocated);
-            zpl_isize total_size = zpl_align_forward_i64(size, alignment);
+            zpl_isize total_size = zpl_arena_alignment_of(arena, alignment) + size;
 
             // NOTE: Out of memory
             if (arena->total_allocated + total_size > cast(zpl_isize) arena->total_size) {
-- 
2.43.0


From 93a7cbdcb97ab8c2cba2e6ad4163978b84dcf1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 003/152] fix: pool blocks were misaligned and too small for
 their free-list link for some block sizes

---
 code/source/essentials/memory_custom.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index 424673d..bff4874 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -204,6 +204,12 @@ ZPL_ALLOCATOR_PROC(zpl_arena_allocator_proc) {
 // Pool Allocator
 //
 
+zpl_internal zpl_isize zpl__pool_stride(zpl_pool *pool) {
+    // NOTE: Free blocks store a link, and each block has to start aligned
+    zpl_isize stride = zpl_max(pool->block_size + pool->block_align, zpl_size_of(zpl_uintptr));
+    return zpl_align_forward_i64(stride, pool->block_align);
+}
+
 void zpl_pool_init_align(zpl_pool *pool, zpl_allocator backing, zpl_isize num_blocks, zpl_isize block_size, zpl_isize block_align) {
     zpl_isize actual_block_size, pool_size, block_index;
     void *data, *curr;
@@ -216,7 +222,7 @@ void zpl_pool_init_align(zpl_pool *pool, zpl_allocator backing, zpl_isize num_bl
     pool->block_align = block_align;
     pool->num_blocks = num_blocks;
 
-    actual_block_size = block_size + block_align;
+    actual_block_size = zpl__pool_stride(pool);
     pool_size = num_blocks * actual_block_size;
 
     data = zpl_alloc_align(backing, pool_size, block_align);
@@ -271,7 +277,7 @@ ZPL_ALLOCATOR_PROC(zpl_pool_allocator_proc) {
             void *curr;
             zpl_uintptr *end;
 
-            actual_block_size = pool->block_size + pool->block_align;
+            actual_block_size = zpl__pool_stride(pool);
             pool->total_size = 0;
 
             // NOTE: Init intrusive freelist
-- 
2.43.0


From 4afe3727dfc13ee9bd83770aa80e18dd7fadf4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 004/152] fix: pool initialisation wrote through a null block
 when the backing allocator was exhausted

---
 code/source/essentials/memory_custom.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index bff4874..e384d32 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -226,6 +226,7 @@ void zpl_pool_init_align(zpl_pool *pool, zpl_allocator backing, zpl_isize num_bl
     pool_size = num_blocks * actual_block_size;
 
     data = zpl_alloc_align(backing, pool_size, block_align);
+    if (!data) return;
 
     // NOTE: Init intrusive freelist
     curr = data;
-- 
2.43.0


From 7a76b9d81731d0893321c87ec908effcd82a1c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 005/152] fix: an arena whose backing allocation failed handed
 out pointers near null

---
 code/header/essentials/memory_custom.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/essentials/memory_custom.h b/code/header/essentials/memory_custom.h
index ec9b383..6b6742c 100644
--- a/code/header/essentials/memory_custom.h
+++ b/code/header/essentials/memory_custom.h
@@ -338,7 +338,7 @@ ZPL_IMPL_INLINE void zpl_arena_init_from_memory(zpl_arena *arena, void *start, z
 ZPL_IMPL_INLINE void zpl_arena_init_from_allocator(zpl_arena *arena, zpl_allocator backing, zpl_isize size) {
     arena->backing = backing;
     arena->physical_start = zpl_alloc(backing, size); // NOTE: Uses default alignment
-    arena->total_size = size;
+    arena->total_size = arena->physical_start ? size : 0;
     arena->total_allocated = 0;
     arena->temp_count = 0;
 }
-- 
2.43.0


From da543a726ee28941b2284b00c3c71fc1c6fb1c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 006/152] fix: scratch allocator handed out overlapping and
 out-of-bounds blocks and walked the wrong header on free

---
 code/source/essentials/memory_custom.c | 41 ++++++++++++++++----------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index e384d32..da33079 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -309,10 +309,11 @@ ZPL_ALLOCATOR_PROC(zpl_pool_allocator_proc) {
 //
 
 void zpl_scratch_memory_init(zpl_scratch_memory *s, void *start, zpl_isize size) {
-    s->physical_start = start;
-    s->total_size = size;
-    s->alloc_point = start;
-    s->free_point = start;
+    s->physical_start = zpl_align_forward(start, zpl_size_of(zpl_isize));
+    size -= zpl_pointer_diff(start, s->physical_start);
+    s->total_size = zpl_max(size, 0) & ~cast(zpl_isize)(zpl_size_of(zpl_isize) - 1);
+    s->alloc_point = s->physical_start;
+    s->free_point = s->physical_start;
 }
 
 zpl_b32 zpl_scratch_memory_is_in_use(zpl_scratch_memory *s, void *ptr) {
@@ -337,24 +338,29 @@ ZPL_ALLOCATOR_PROC(zpl_scratch_allocator_proc) {
         case ZPL_ALLOCATION_ALLOC: {
             void *pt = s->alloc_point;
             zpl_allocation_header_ev *header = cast(zpl_allocation_header_ev *) pt;
-            void *data = zpl_align_forward(header + 1, alignment);
+            void *data;
             void *end = zpl_pointer_add(s->physical_start, s->total_size);
+            zpl_b32 wrapped = s->alloc_point < s->free_point;
 
             ZPL_ASSERT(alignment % 4 == 0);
-            size = ((size + 3) / 4) * 4;
-            pt = zpl_pointer_add(pt, size);
+            // NOTE: Headers are kept word-aligned, since the gap behind them is filled with whole words
+            alignment = zpl_max(alignment, zpl_size_of(zpl_isize));
+            size = zpl_align_forward_i64(size, zpl_size_of(zpl_isize));
+            data = zpl_align_forward(header + 1, alignment);
+            pt = zpl_pointer_add(data, size);
 
             // NOTE: Wrap around
-            if (pt > end) {
-                header->size = zpl_pointer_diff(header, end) | ZPL_ISIZE_HIGH_BIT;
-                pt = s->physical_start;
-                header = cast(zpl_allocation_header_ev *) pt;
+            if (!wrapped && pt > end) {
+                if (s->alloc_point < end) header->size = zpl_pointer_diff(header, end) | ZPL_ISIZE_HIGH_BIT;
+                header = cast(zpl_allocation_header_ev *) s->physical_start;
                 data = zpl_align_forward(header + 1, alignment);
-                pt = zpl_pointer_add(pt, size);
+                pt = zpl_pointer_add(data, size);
+                wrapped = true;
             }
 
-            if (!zpl_scratch_memory_is_in_use(s, pt)) {
-                zpl_allocation_header_fill(header, pt, zpl_pointer_diff(header, pt));
+            // NOTE: A wrapped block must end before the oldest one in use
+            if (wrapped ? pt < s->free_point : pt <= end) {
+                zpl_allocation_header_fill(header, data, zpl_pointer_diff(header, pt));
                 s->alloc_point = cast(zpl_u8 *) pt;
                 ptr = data;
             }
@@ -374,12 +380,15 @@ ZPL_ALLOCATOR_PROC(zpl_scratch_allocator_proc) {
                     h->size = h->size | ZPL_ISIZE_HIGH_BIT;
 
                     while (s->free_point != s->alloc_point) {
+                        if (s->free_point == end) { s->free_point = s->physical_start; continue; }
+
                         zpl_allocation_header_ev *header = cast(zpl_allocation_header_ev *) s->free_point;
                         if ((header->size & ZPL_ISIZE_HIGH_BIT) == 0) break;
 
-                        s->free_point = zpl_pointer_add(s->free_point, h->size & (~ZPL_ISIZE_HIGH_BIT));
-                        if (s->free_point == end) s->free_point = s->physical_start;
+                        s->free_point = zpl_pointer_add(s->free_point, header->size & (~ZPL_ISIZE_HIGH_BIT));
                     }
+
+                    if (s->free_point == s->alloc_point) s->free_point = s->alloc_point = s->physical_start;
                 }
             }
         } break;
-- 
2.43.0


From 04e431ab9c9c91325b31470bfad05741c54e77b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 007/152] fix: stack allocator returned misaligned blocks,
 mis-sized itself on growth and read an unset backing allocator

---
 code/header/essentials/memory_custom.h |  2 ++
 code/source/essentials/memory_custom.c | 25 +++++++++++++------------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/code/header/essentials/memory_custom.h b/code/header/essentials/memory_custom.h
index 6b6742c..d347c40 100644
--- a/code/header/essentials/memory_custom.h
+++ b/code/header/essentials/memory_custom.h
@@ -435,6 +435,8 @@ ZPL_IMPL_INLINE void zpl_allocation_header_fill(zpl_allocation_header_ev *header
 ZPL_STATIC_ASSERT(ZPL_STACK_ALLOC_OFFSET == 8, "ZPL_STACK_ALLOC_OFFSET != 8");
 
 ZPL_IMPL_INLINE void zpl_stack_memory_init_from_memory(zpl_stack_memory *s, void *start, zpl_isize size) {
+    s->backing.proc = NULL;
+    s->backing.data = NULL;
     s->physical_start = start;
     s->total_size = size;
     s->allocated = 0;
diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index da33079..c2768d9 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -418,20 +418,22 @@ ZPL_ALLOCATOR_PROC(zpl_stack_allocator_proc) {
 
     switch (type) {
         case ZPL_ALLOCATION_ALLOC: {
-            size += ZPL_STACK_ALLOC_OFFSET;
             zpl_u64 alloc_offset = s->allocated;
 
-            void *curr =
-                cast(zpl_u64 *) zpl_align_forward(cast(zpl_u64 *) zpl_pointer_add(s->physical_start, s->allocated), alignment);
+            // NOTE: The offset is kept right in front of the aligned block
+            alignment = zpl_max(alignment, cast(zpl_isize) ZPL_STACK_ALLOC_OFFSET);
+            void *curr = zpl_align_forward(
+                zpl_pointer_add(s->physical_start, s->allocated + ZPL_STACK_ALLOC_OFFSET), alignment);
 
-            if (cast(zpl_u64 *) zpl_pointer_add(curr, size) > cast(zpl_u64 *) zpl_pointer_add(s->physical_start, s->total_size)) {
+            if (zpl_pointer_diff(s->physical_start, curr) + size > cast(zpl_isize) s->total_size) {
                 if (s->backing.proc) {
-                    void *old_start = s->physical_start;
-                    s->physical_start =
-                        zpl_resize_align(s->backing, s->physical_start, s->total_size, s->total_size + size, alignment);
-                    curr = cast(zpl_u64 *)
-                        zpl_align_forward(cast(zpl_u64 *) zpl_pointer_add(s->physical_start, s->allocated), alignment);
-                    s->total_size = zpl_pointer_diff(old_start, s->physical_start);
+                    zpl_isize grow_size = s->total_size + size + ZPL_STACK_ALLOC_OFFSET + alignment;
+                    void *new_start = zpl_resize_align(s->backing, s->physical_start, s->total_size, grow_size, alignment);
+                    if (!new_start) return NULL;
+                    s->physical_start = new_start;
+                    s->total_size = grow_size;
+                    curr = zpl_align_forward(
+                        zpl_pointer_add(s->physical_start, s->allocated + ZPL_STACK_ALLOC_OFFSET), alignment);
                 } else {
                     ZPL_PANIC("Can not resize stack's memory! Allocator not defined!");
                 }
@@ -439,8 +441,7 @@ ZPL_ALLOCATOR_PROC(zpl_stack_allocator_proc) {
 
             s->allocated = zpl_pointer_diff(s->physical_start, curr) + size;
 
-            *(zpl_u64 *)curr = alloc_offset;
-            curr = zpl_pointer_add(curr, ZPL_STACK_ALLOC_OFFSET);
+            *cast(zpl_u64 *) zpl_pointer_sub(curr, ZPL_STACK_ALLOC_OFFSET) = alloc_offset;
 
             ptr = curr;
         } break;
-- 
2.43.0


From a38eed1c33dc0724cdd7a6829dd455480d080f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 008/152] fix: stack allocator ignored the request to clear a
 block

---
 code/source/essentials/memory_custom.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index c2768d9..4c2da68 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -414,7 +414,6 @@ ZPL_ALLOCATOR_PROC(zpl_stack_allocator_proc) {
     void *ptr = NULL;
     ZPL_ASSERT_NOT_NULL(s);
     zpl_unused(old_size);
-    zpl_unused(flags);
 
     switch (type) {
         case ZPL_ALLOCATION_ALLOC: {
@@ -444,6 +443,7 @@ ZPL_ALLOCATOR_PROC(zpl_stack_allocator_proc) {
             *cast(zpl_u64 *) zpl_pointer_sub(curr, ZPL_STACK_ALLOC_OFFSET) = alloc_offset;
 
             ptr = curr;
+            if (flags & ZPL_ALLOCATOR_FLAG_CLEAR_TO_ZERO) zpl_zero_size(ptr, size);
         } break;
 
         case ZPL_ALLOCATION_FREE: {
-- 
2.43.0


From 3d11f35a8c9b4174980dbcda2c1a6e1fcbd23749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 009/152] fix: a stack whose backing allocation failed wrote
 through null

---
 code/header/essentials/memory_custom.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/essentials/memory_custom.h b/code/header/essentials/memory_custom.h
index d347c40..5b74390 100644
--- a/code/header/essentials/memory_custom.h
+++ b/code/header/essentials/memory_custom.h
@@ -445,7 +445,7 @@ ZPL_IMPL_INLINE void zpl_stack_memory_init_from_memory(zpl_stack_memory *s, void
 ZPL_IMPL_INLINE void zpl_stack_memory_init(zpl_stack_memory *s, zpl_allocator backing, zpl_isize size) {
     s->backing = backing;
     s->physical_start = zpl_alloc(backing, size);
-    s->total_size = size;
+    s->total_size = s->physical_start ? size : 0;
     s->allocated = 0;
 }
 
-- 
2.43.0


From 4168ffabe0e08c1061916315917ccb89c015ab33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 010/152] fix: heap analysis broke alignments above 32 bytes

---
 code/source/essentials/memory_custom.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index 4c2da68..ff52524 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -80,8 +80,8 @@ ZPL_ALLOCATOR_PROC(zpl_heap_allocator_proc) {
 
 #    ifdef ZPL_HEAP_ANALYSIS
         zpl_isize alloc_info_size = zpl_size_of(zpl__heap_alloc_info);
-        zpl_isize alloc_info_remainder = (alloc_info_size % alignment);
-        zpl_isize track_size = zpl_max(alloc_info_size, alignment) + alloc_info_remainder;
+        zpl_isize track_size = zpl_align_forward_i64(alloc_info_size, alignment);
+        zpl_isize alloc_info_remainder = track_size - alloc_info_size;
         switch (type) {
             case ZPL_ALLOCATION_FREE: {
                 if (!old_memory) break;
-- 
2.43.0


From 6f8d36a63d3e36227abd8c4e6434a837c6979248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 011/152] fix: heap analysis dereferenced null when the heap
 was exhausted

---
 code/source/essentials/memory_custom.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index ff52524..202f233 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -145,7 +145,7 @@ ZPL_ALLOCATOR_PROC(zpl_heap_allocator_proc) {
     }
 
 #    ifdef ZPL_HEAP_ANALYSIS
-        if (type == ZPL_ALLOCATION_ALLOC) {
+        if (ptr && type == ZPL_ALLOCATION_ALLOC) {
             zpl__heap_alloc_info *alloc_info = cast(zpl__heap_alloc_info *)(cast(char *)ptr + alloc_info_remainder);
             zpl_zero_item(alloc_info);
             alloc_info->size = size - track_size;
-- 
2.43.0


From 670824f35b71804c1c2b1fb73e0f6b91a7d11af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 012/152] fix: array append_at wrote outside the array for an
 index past its end

---
 code/header/essentials/collections/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/essentials/collections/array.h b/code/header/essentials/collections/array.h
index f237874..2dcacd5 100644
--- a/code/header/essentials/collections/array.h
+++ b/code/header/essentials/collections/array.h
@@ -159,7 +159,7 @@ ZPL_IMPL_INLINE zpl_b8 zpl__array_append_at_helper(void **x, zpl_isize ind) {
     return true;
 }
 
-#define zpl_array_append_at(x, item, ind) (zpl__array_append_at_helper(cast(void **) & (x), (ind)) && (((x)[ind] = (item)), zpl_array_count(x)++, true))
+#define zpl_array_append_at(x, item, ind) (zpl__array_append_at_helper(cast(void **) & (x), (ind)) && (((x)[zpl_clamp((ind), 0, zpl_array_count(x))] = (item)), zpl_array_count(x)++, true))
 
 ZPL_IMPL_INLINE zpl_b8 zpl__array_appendv(void **x, void *items, zpl_isize item_size, zpl_isize item_count) {
     ZPL_ASSERT(item_size == zpl_array_elem_size(*x));
-- 
2.43.0


From 66f1a6f13f9fb4666430a9afab2c5ad84eb718b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 013/152] fix: a failed capacity change dropped elements of the
 array

---
 code/header/essentials/collections/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/essentials/collections/array.h b/code/header/essentials/collections/array.h
index 2dcacd5..430994c 100644
--- a/code/header/essentials/collections/array.h
+++ b/code/header/essentials/collections/array.h
@@ -115,10 +115,10 @@ do {
 ZPL_IMPL_INLINE zpl_b8 zpl__array_set_capacity(void **array, zpl_isize capacity) {
     zpl_array_header *h = ZPL_ARRAY_HEADER(*array);
     if (capacity == h->capacity) return true;
-    if (capacity < h->count) h->count = capacity;
     zpl_isize size = zpl_size_of(zpl_array_header) + h->elem_size * capacity;
     zpl_array_header *nh = cast(zpl_array_header *) zpl_alloc(h->allocator, size);
     if (!nh) return false;
+    if (capacity < h->count) h->count = capacity;
     zpl_memmove(nh, h, zpl_size_of(zpl_array_header) + h->elem_size * h->count);
     nh->allocator = h->allocator;
     nh->elem_size = h->elem_size;
-- 
2.43.0


From 421da68b0ef4f77e397a5674f7b2c839e03b10e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 014/152] fix: ring get_array returned one element too few, and
 drained everything for a limit of zero

---
 code/header/essentials/collections/ring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/essentials/collections/ring.h b/code/header/essentials/collections/ring.h
index d4ac319..5645442 100644
--- a/code/header/essentials/collections/ring.h
+++ b/code/header/essentials/collections/ring.h
@@ -91,7 +91,7 @@ zpl_array(type)
 ZPL_JOIN2(func, get_array)(ZPL_JOIN2(func, type) * pad, zpl_usize max_size, zpl_allocator a) {    \
 zpl_array(type) vals = 0;                                                                                          \
 zpl_array_init(vals, a);                                                                                       \
-while (--max_size && !ZPL_JOIN2(func, empty)(pad)) {                                               \
+while (max_size-- && !ZPL_JOIN2(func, empty)(pad)) {                                               \
 zpl_array_append(vals, *ZPL_JOIN2(func, get)(pad));                                            \
 }                                                                                                              \
 return vals;                                                                                                   \
-- 
2.43.0


From 10d18b443bc8d1946fb929791a340b796cbb4431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 015/152] fix: list insertion and removal left the following
 node's back link stale

---
 code/header/essentials/collections/list.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/code/header/essentials/collections/list.h b/code/header/essentials/collections/list.h
index 65847a0..f2e0e09 100644
--- a/code/header/essentials/collections/list.h
+++ b/code/header/essentials/collections/list.h
@@ -65,7 +65,10 @@ ZPL_IMPL_INLINE void zpl_list_init(zpl_list *list, void const *ptr) {
 ZPL_IMPL_INLINE zpl_list *zpl_list_add(zpl_list *list, zpl_list *item) {
     item->next = NULL;
 
-    if (list->next) { item->next = list->next; }
+    if (list->next) {
+        item->next = list->next;
+        list->next->prev = item;
+    }
 
     list->next = item;
     item->prev = list;
@@ -74,6 +77,7 @@ ZPL_IMPL_INLINE zpl_list *zpl_list_add(zpl_list *list, zpl_list *item) {
 
 ZPL_IMPL_INLINE zpl_list *zpl_list_remove(zpl_list *list) {
     if (list->prev) { list->prev->next = list->next; }
+    if (list->next) { list->next->prev = list->prev; }
 
     return list->next;
 }
-- 
2.43.0


From c349ae244547304c9851e2143944a9035ab89f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 016/152] fix: hash table remove_entry left the buckets
 pointing at shifted entries

---
 code/header/essentials/collections/hashtable.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/header/essentials/collections/hashtable.h b/code/header/essentials/collections/hashtable.h
index fc24cdf..42cad8c 100644
--- a/code/header/essentials/collections/hashtable.h
+++ b/code/header/essentials/collections/hashtable.h
@@ -196,6 +196,7 @@ typedef struct zpl_hash_table_find_result {
                                                                                                                     \
     void ZPL_JOIN2(FUNC, remove_entry)(NAME * h, zpl_isize idx) {                                                   \
         zpl_array_remove_at(h->entries, idx);                                                                       \
+        ZPL_JOIN2(FUNC, rehash_fast)(h);                                                                            \
     }                                                                                                               \
                                                                                                                     \
     void ZPL_JOIN2(FUNC, map)(NAME * h, void (*map_proc)(zpl_u64 key, VALUE value)) {                               \
-- 
2.43.0


From dcbdff12f4a3389888c12e843b57933cabe71e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 017/152] fix: formatted printing wrote past the given buffer
 and returned broken text when it did not fit

---
 code/source/core/print.c | 162 ++++++++++++++++-----------------------
 1 file changed, 65 insertions(+), 97 deletions(-)

diff --git a/code/source/core/print.c b/code/source/core/print.c
index b01e199..379049e 100644
--- a/code/source/core/print.c
+++ b/code/source/core/print.c
@@ -122,15 +122,24 @@ typedef struct {
     zpl_i32 precision;
 } zpl__format_info;
 
+// NOTE: These render as much as fits into max_len characters and return the length of the complete text.
+zpl_internal zpl_isize zpl__print_fill(char *text, zpl_isize max_len, zpl_isize at, zpl_isize count, char c) {
+    zpl_isize i;
+    for (i = 0; i < count && at + i < max_len; i++) text[at + i] = c;
+    return count > 0 ? at + count : at;
+}
+
+zpl_internal zpl_isize zpl__print_copy(char *text, zpl_isize max_len, zpl_isize at, char const *str, zpl_isize len) {
+    zpl_isize i;
+    for (i = 0; i < len && at + i < max_len; i++) text[at + i] = str[i];
+    return at + len;
+}
+
 zpl_internal zpl_isize zpl__print_string(char *text, zpl_isize max_len, zpl__format_info *info, char const *str) {
-    zpl_isize res = 0, len = 0;
-    zpl_isize remaining = max_len;
-    char *begin = text;
+    zpl_isize res = 0, len = 0, padding = 0, i;
+    char pad = (info && info->flags & ZPL_FMT_ZERO) ? '0' : ' ';
 
-    if (str == NULL && max_len >= 6) {
-        res += zpl_strlcpy(text, "(null)", 6);
-        return res;
-    }
+    if (str == NULL) str = "(null)";
 
     if (info && info->precision >= 0)
         len = zpl_strnlen(str, info->precision);
@@ -141,34 +150,19 @@ zpl_internal zpl_isize zpl__print_string(char *text, zpl_isize max_len, zpl__for
         return res;
     }
 
-    if (info && (info->width == 0 || info->flags & ZPL_FMT_MINUS)) {
-        if (info->precision > 0) len = info->precision < len ? info->precision : len;
-        if (res+len > max_len) return res;
-        res += zpl_strlcpy(text, str, len);
-        text += res;
-
-        if (info->width > res) {
-            zpl_isize padding = info->width - len;
+    if (info && info->width > len) padding = info->width - len;
 
-            char pad = (info->flags & ZPL_FMT_ZERO) ? '0' : ' ';
-            while (padding-- > 0 && remaining-- > 0) *text++ = pad, res++;
-        }
+    if (info && (info->flags & ZPL_FMT_MINUS)) {
+        res = zpl__print_copy(text, max_len, res, str, len);
+        res = zpl__print_fill(text, max_len, res, padding, pad);
     } else {
-        if (info && (info->width > res)) {
-            zpl_isize padding = info->width - len;
-            char pad = (info->flags & ZPL_FMT_ZERO) ? '0' : ' ';
-            while (padding-- > 0 && remaining-- > 0) *text++ = pad, res++;
-        }
-
-        if (res+len > max_len) return res;
-        res += zpl_strlcpy(text, str, len);
+        res = zpl__print_fill(text, max_len, res, padding, pad);
+        res = zpl__print_copy(text, max_len, res, str, len);
     }
 
-    if (info) {
-        if (info->flags & ZPL_FMT_UPPER)
-            zpl_str_to_upper(begin);
-        else if (info->flags & ZPL_FMT_LOWER)
-            zpl_str_to_lower(begin);
+    if (info && (info->flags & (ZPL_FMT_UPPER | ZPL_FMT_LOWER))) {
+        for (i = 0; i < res && i < max_len; i++)
+            text[i] = (info->flags & ZPL_FMT_UPPER) ? zpl_char_to_upper(text[i]) : zpl_char_to_lower(text[i]);
     }
 
     return res;
@@ -181,12 +175,8 @@ zpl_internal zpl_isize zpl__print_char(char *text, zpl_isize max_len, zpl__forma
 }
 
 zpl_internal zpl_isize zpl__print_repeated_char(char *text, zpl_isize max_len, zpl__format_info *info, char arg) {
-    zpl_isize res = 0;
-    zpl_i32 rem = (info) ? (info->width > 0) ? info->width : 1 : 1;
-    res = rem;
-    while (rem-- > 0) *text++ = arg;
-
-    return res;
+    zpl_i32 count = (info && info->width > 0) ? info->width : 1;
+    return zpl__print_fill(text, max_len, 0, count, arg);
 }
 
 zpl_internal zpl_isize zpl__print_i64(char *text, zpl_isize max_len, zpl__format_info *info, zpl_i64 value) {
@@ -203,92 +193,70 @@ zpl_internal zpl_isize zpl__print_u64(char *text, zpl_isize max_len, zpl__format
 
 zpl_internal zpl_isize zpl__print_f64(char *text, zpl_isize max_len, zpl__format_info *info, zpl_b32 is_hexadecimal, zpl_f64 arg) {
     // TODO: Handle exponent notation
-    zpl_isize width, len, remaining = max_len;
-    char *text_begin = text;
+    char num[130];
+    zpl_isize res = 0, len = 0, padding, zeros = 0;
 
     if (arg) {
         zpl_u64 value;
         if (arg < 0) {
-            if (remaining > 1) *text = '-', remaining--;
-            text++;
+            num[len++] = '-';
             arg = -arg;
         } else if (info->flags & ZPL_FMT_MINUS) {
-            if (remaining > 1) *text = '+', remaining--;
-            text++;
+            num[len++] = '+';
         }
 
         value = cast(zpl_u64) arg;
-        len = zpl__print_u64(text, remaining, NULL, value);
-        text += len;
-
-        if (len >= remaining)
-            remaining = zpl_min(remaining, 1);
-        else
-            remaining -= len;
+        zpl_u64_to_str(value, num + len, 10);
+        len += zpl_strlen(num + len);
         arg -= value;
 
         if (info->precision < 0) info->precision = 6;
 
         if ((info->flags & ZPL_FMT_ALT) || info->precision > 0) {
             zpl_i64 mult = 10;
-            if (remaining > 1) *text = '.', remaining--;
-            text++;
+            num[len++] = '.';
+            // NOTE: further digits are beyond what a zpl_f64 can tell
+            if (info->precision > 18) {
+                zeros = info->precision - 18;
+                info->precision = 18;
+            }
             while (info->precision-- > 0) {
                 value = cast(zpl_u64)(arg * mult);
-                len = zpl__print_u64(text, remaining, NULL, value);
-                text += len;
-                if (len >= remaining)
-                    remaining = zpl_min(remaining, 1);
-                else
-                    remaining -= len;
+                if (value > 9) value = 9;
+                num[len++] = cast(char)('0' + value);
                 arg -= cast(zpl_f64) value / mult;
-                mult *= 10;
+                if (arg < 0) arg = 0;
+                if (info->precision > 0) mult *= 10;
             }
         }
     } else {
-        if (remaining > 1) *text = '0', remaining--;
-        text++;
-        if (info->flags & ZPL_FMT_ALT) {
-            if (remaining > 1) *text = '.', remaining--;
-            text++;
-        }
+        num[len++] = '0';
+        if (info->flags & ZPL_FMT_ALT) num[len++] = '.';
     }
 
-    width = info->width - (text - text_begin);
-    if (width > 0) {
-        char fill = (info->flags & ZPL_FMT_ZERO) ? '0' : ' ';
-        char *end = text + remaining - 1;
-        len = (text - text_begin);
-
-        for (len = (text - text_begin); len--;) {
-            if ((text_begin + len + width) < end) *(text_begin + len + width) = *(text_begin + len);
-        }
-
-        len = width;
-        text += len;
-        if (len >= remaining)
-            remaining = zpl_min(remaining, 1);
-        else
-            remaining -= len;
-
-        while (len--) {
-            if (text_begin + len < end) text_begin[len] = fill;
-        }
-    }
+    padding = info->width - (len + zeros);
+    res = zpl__print_fill(text, max_len, res, padding, (info->flags & ZPL_FMT_ZERO) ? '0' : ' ');
+    res = zpl__print_copy(text, max_len, res, num, len);
+    res = zpl__print_fill(text, max_len, res, zeros, '0');
 
-    return (text - text_begin);
+    return res;
 }
 
 ZPL_NEVER_INLINE zpl_isize zpl_snprintf_va(char *text, zpl_isize max_len, char const *fmt, va_list va) {
     char const *text_begin = text;
-    zpl_isize remaining = max_len, res;
+    zpl_isize remaining = max_len - 1; // NOTE: one is kept for the terminator
+    zpl_b32 truncated = max_len < 1;
 
-    while (*fmt) {
+    while (*fmt && !truncated) {
         zpl__format_info info = { 0 };
         zpl_isize len = 0;
         info.precision = -1;
 
-        while (*fmt && *fmt != '%' && remaining) *text++ = *fmt++;
+        while (*fmt && *fmt != '%' && remaining > 0) *text++ = *fmt++, remaining--;
+        if (*fmt && *fmt != '%') {
+            truncated = true;
+            break;
+        }
 
         if (*fmt == '%') {
             do {
@@ -441,16 +409,16 @@ ZPL_NEVER_INLINE zpl_isize zpl_snprintf_va(char *text, zpl_isize max_len, char c
             }
         }
 
+        if (len > remaining) {
+            truncated = true;
+            len = remaining;
+        }
         text += len;
-        if (len >= remaining)
-            remaining = zpl_min(remaining, 1);
-        else
-            remaining -= len;
+        remaining -= len;
     }
 
-    *text++ = '\0';
-    res = (text - text_begin);
-    return (res >= max_len || res < 0) ? -1 : res;
+    if (max_len > 0) *text++ = '\0';
+    return truncated ? -1 : (text - text_begin);
 }
 
 ZPL_END_C_DECLS
-- 
2.43.0


From 01298a5b8b9779cf87ea22e7823c13a65fb6493a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 018/152] fix: text too long for the print buffer was written
 to files with a negative length

---
 code/source/core/print.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/source/core/print.c b/code/source/core/print.c
index 379049e..8a904b0 100644
--- a/code/source/core/print.c
+++ b/code/source/core/print.c
@@ -14,7 +14,8 @@ zpl_isize zpl_printf_err_va(char const *fmt, va_list va) {
 zpl_isize zpl_fprintf_va(struct zpl_file *f, char const *fmt, va_list va) {
     zpl_local_persist zpl_thread_local char buf[ZPL_PRINTF_MAXLEN];
     zpl_isize len = zpl_snprintf_va(buf, zpl_size_of(buf), fmt, va);
-    zpl_b32 res = zpl_file_write(f, buf, len - 1); // NOTE: prevent extra whitespace
+    // NOTE: text that does not fit is cut off, but it is still written
+    zpl_b32 res = zpl_file_write(f, buf, len < 0 ? zpl_strlen(buf) : len - 1); // NOTE: prevent extra whitespace
     return res ? len : -1;
 }
 
-- 
2.43.0


From 863a687cc2cab0b05fc86213a88ab374373c9bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 019/152] fix: integer directives with zero padding or
 precision printed the wrong number

---
 code/source/core/print.c | 44 +++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/code/source/core/print.c b/code/source/core/print.c
index 8a904b0..4c74018 100644
--- a/code/source/core/print.c
+++ b/code/source/core/print.c
@@ -137,7 +137,7 @@ zpl_internal zpl_isize zpl__print_copy(char *text, zpl_isize max_len, zpl_isize
 }
 
 zpl_internal zpl_isize zpl__print_string(char *text, zpl_isize max_len, zpl__format_info *info, char const *str) {
-    zpl_isize res = 0, len = 0, padding = 0, i;
+    zpl_isize res = 0, len = 0, padding = 0;
     char pad = (info && info->flags & ZPL_FMT_ZERO) ? '0' : ' ';
 
     if (str == NULL) str = "(null)";
@@ -161,11 +161,6 @@ zpl_internal zpl_isize zpl__print_string(char *text, zpl_isize max_len, zpl__for
         res = zpl__print_copy(text, max_len, res, str, len);
     }
 
-    if (info && (info->flags & (ZPL_FMT_UPPER | ZPL_FMT_LOWER))) {
-        for (i = 0; i < res && i < max_len; i++)
-            text[i] = (info->flags & ZPL_FMT_UPPER) ? zpl_char_to_upper(text[i]) : zpl_char_to_lower(text[i]);
-    }
-
     return res;
 }
 
@@ -180,16 +175,45 @@ zpl_internal zpl_isize zpl__print_repeated_char(char *text, zpl_isize max_len, z
     return zpl__print_fill(text, max_len, 0, count, arg);
 }
 
+zpl_internal zpl_isize zpl__print_number(char *text, zpl_isize max_len, zpl__format_info *info, char *num) {
+    zpl_isize res = 0, sign = (*num == '-'), len = zpl_strlen(num) - sign, zeros = 0, padding = 0;
+
+    if (info->width == 0 && info->flags & ZPL_FMT_WIDTH) return 0;
+
+    if (info->flags & ZPL_FMT_UPPER)
+        zpl_str_to_upper(num);
+    else if (info->flags & ZPL_FMT_LOWER)
+        zpl_str_to_lower(num);
+
+    // NOTE: an explicit precision is the least number of digits, none at all for zero
+    if (info->precision == 0 && num[sign] == '0') len = 0;
+    if (info->precision > len) zeros = info->precision - len;
+    if (info->width > sign + zeros + len) padding = info->width - (sign + zeros + len);
+
+    if ((info->flags & ZPL_FMT_ZERO) && !(info->flags & ZPL_FMT_MINUS)) {
+        zeros += padding;
+        padding = 0;
+    }
+
+    if (!(info->flags & ZPL_FMT_MINUS)) res = zpl__print_fill(text, max_len, res, padding, ' ');
+    res = zpl__print_copy(text, max_len, res, num, sign);
+    res = zpl__print_fill(text, max_len, res, zeros, '0');
+    res = zpl__print_copy(text, max_len, res, num + sign, len);
+    if (info->flags & ZPL_FMT_MINUS) res = zpl__print_fill(text, max_len, res, padding, ' ');
+
+    return res;
+}
+
 zpl_internal zpl_isize zpl__print_i64(char *text, zpl_isize max_len, zpl__format_info *info, zpl_i64 value) {
     char num[130];
-    zpl_i64_to_str(value, num, info ? info->base : 10);
-    return zpl__print_string(text, max_len, info, num);
+    zpl_i64_to_str(value, num, info->base);
+    return zpl__print_number(text, max_len, info, num);
 }
 
 zpl_internal zpl_isize zpl__print_u64(char *text, zpl_isize max_len, zpl__format_info *info, zpl_u64 value) {
     char num[130];
-    zpl_u64_to_str(value, num, info ? info->base : 10);
-    return zpl__print_string(text, max_len, info, num);
+    zpl_u64_to_str(value, num, info->base);
+    return zpl__print_number(text, max_len, info, num);
 }
 
 zpl_internal zpl_isize zpl__print_f64(char *text, zpl_isize max_len, zpl__format_info *info, zpl_b32 is_hexadecimal, zpl_f64 arg) {
-- 
2.43.0


From 29ecceb457daa0a14b736f4a422be50ff5b576ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 020/152] fix: %o treated its argument as signed and %zd as
 unsigned

---
 code/source/core/print.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/code/source/core/print.c b/code/source/core/print.c
index 4c74018..bee9117 100644
--- a/code/source/core/print.c
+++ b/code/source/core/print.c
@@ -348,8 +348,6 @@ ZPL_NEVER_INLINE zpl_isize zpl_snprintf_va(char *text, zpl_isize max_len, char c
             break;
 
             case 'z': // NOTE: zpl_usize
-                info.flags |= ZPL_FMT_UNSIGNED;
-                // fallthrough
             case 't': // NOTE: zpl_isize
                 info.flags |= ZPL_FMT_SIZE;
                 break;
@@ -364,7 +362,10 @@ ZPL_NEVER_INLINE zpl_isize zpl_snprintf_va(char *text, zpl_isize max_len, char c
             case 'd':
             case 'i': info.base = 10; break;
 
-            case 'o': info.base = 8; break;
+            case 'o':
+                info.base = 8;
+                info.flags |= ZPL_FMT_UNSIGNED;
+                break;
 
             case 'x':
                 info.base = 16;
-- 
2.43.0


From 29784a5ec9f7597104a1f02c9a55e776712b6933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:37 +0000
Subject: [PATCH 021/152] fix: left-justified fractions were printed
 right-justified with a plus sign

---
 code/source/core/print.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/source/core/print.c b/code/source/core/print.c
index bee9117..b9aa25c 100644
--- a/code/source/core/print.c
+++ b/code/source/core/print.c
@@ -226,7 +226,7 @@ zpl_internal zpl_isize zpl__print_f64(char *text, zpl_isize max_len, zpl__format
         if (arg < 0) {
             num[len++] = '-';
             arg = -arg;
-        } else if (info->flags & ZPL_FMT_MINUS) {
+        } else if (info->flags & ZPL_FMT_PLUS) {
             num[len++] = '+';
         }
 
@@ -260,9 +260,10 @@ zpl_internal zpl_isize zpl__print_f64(char *text, zpl_isize max_len, zpl__format
     }
 
     padding = info->width - (len + zeros);
-    res = zpl__print_fill(text, max_len, res, padding, (info->flags & ZPL_FMT_ZERO) ? '0' : ' ');
+    if (!(info->flags & ZPL_FMT_MINUS)) res = zpl__print_fill(text, max_len, res, padding, (info->flags & ZPL_FMT_ZERO) ? '0' : ' ');
     res = zpl__print_copy(text, max_len, res, num, len);
     res = zpl__print_fill(text, max_len, res, zeros, '0');
+    if (info->flags & ZPL_FMT_MINUS) res = zpl__print_fill(text, max_len, res, padding, ' ');
 
     return res;
 }
-- 
2.43.0


From c3bbe1836f510fe8ec77abff0b76e6c84d9956c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 022/152] fix: zero padding of negative fractions went before
 the sign

---
 code/source/core/print.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/code/source/core/print.c b/code/source/core/print.c
index b9aa25c..b217082 100644
--- a/code/source/core/print.c
+++ b/code/source/core/print.c
@@ -219,7 +219,7 @@ zpl_internal zpl_isize zpl__print_u64(char *text, zpl_isize max_len, zpl__format
 zpl_internal zpl_isize zpl__print_f64(char *text, zpl_isize max_len, zpl__format_info *info, zpl_b32 is_hexadecimal, zpl_f64 arg) {
     // TODO: Handle exponent notation
     char num[130];
-    zpl_isize res = 0, len = 0, padding, zeros = 0;
+    zpl_isize res = 0, len = 0, sign, padding, zeros = 0;
 
     if (arg) {
         zpl_u64 value;
@@ -260,8 +260,11 @@ zpl_internal zpl_isize zpl__print_f64(char *text, zpl_isize max_len, zpl__format
     }
 
     padding = info->width - (len + zeros);
-    if (!(info->flags & ZPL_FMT_MINUS)) res = zpl__print_fill(text, max_len, res, padding, (info->flags & ZPL_FMT_ZERO) ? '0' : ' ');
-    res = zpl__print_copy(text, max_len, res, num, len);
+    sign = (num[0] == '-' || num[0] == '+');
+    if (!(info->flags & (ZPL_FMT_MINUS | ZPL_FMT_ZERO))) res = zpl__print_fill(text, max_len, res, padding, ' ');
+    res = zpl__print_copy(text, max_len, res, num, sign);
+    if (!(info->flags & ZPL_FMT_MINUS) && (info->flags & ZPL_FMT_ZERO)) res = zpl__print_fill(text, max_len, res, padding, '0');
+    res = zpl__print_copy(text, max_len, res, num + sign, len - sign);
     res = zpl__print_fill(text, max_len, res, zeros, '0');
     if (info->flags & ZPL_FMT_MINUS) res = zpl__print_fill(text, max_len, res, padding, ' ');
 
-- 
2.43.0


From 68131ca8246b8b9e9cbcb6f5d8c11535295afac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 023/152] fix: printing infinities and NaN converted them to an
 integer

---
 code/source/core/print.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/code/source/core/print.c b/code/source/core/print.c
index b217082..c05d108 100644
--- a/code/source/core/print.c
+++ b/code/source/core/print.c
@@ -221,6 +221,13 @@ zpl_internal zpl_isize zpl__print_f64(char *text, zpl_isize max_len, zpl__format
     char num[130];
     zpl_isize res = 0, len = 0, sign, padding, zeros = 0;
 
+    if (arg != arg || arg - arg != 0) {
+        zpl__format_info plain = *info;
+        plain.precision = -1;
+        plain.flags &= ~ZPL_FMT_ZERO;
+        return zpl__print_string(text, max_len, &plain, arg != arg ? "nan" : arg < 0 ? "-inf" : "inf");
+    }
+
     if (arg) {
         zpl_u64 value;
         if (arg < 0) {
-- 
2.43.0


From 96ccc2b902039618171cbe017c6155829199c467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 024/152] fix: strcpy and strcat did not terminate their result

---
 code/header/core/string.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index d6f7559..513c5eb 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -237,6 +237,7 @@ ZPL_IMPL_INLINE char *zpl_strcpy(char *dest, const char *source) {
     if (source) {
         char *str = dest;
         while (*source) *str++ = *source++;
+        *str = '\0';
     }
     return dest;
 }
@@ -247,6 +248,7 @@ ZPL_IMPL_INLINE char *zpl_strcat(char *dest, const char *source) {
         char *str = dest;
         while (*str) ++str;
         while (*source) *str++ = *source++;
+        *str = '\0';
     }
     return dest;
 }
-- 
2.43.0


From c5f0c8cd11e7d39095cda1f651aa8f0136643a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 025/152] fix: strncmp ordered strings by their addresses

---
 code/header/core/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 513c5eb..70060c5 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -304,7 +304,7 @@ ZPL_IMPL_INLINE char *zpl_strrev(char *str) {
 ZPL_IMPL_INLINE zpl_i32 zpl_strncmp(const char *s1, const char *s2, zpl_isize len) {
     for (; len > 0; s1++, s2++, len--) {
         if (*s1 != *s2)
-            return ((s1 < s2) ? -1 : +1);
+            return ((*(zpl_u8 *)s1 < *(zpl_u8 *)s2) ? -1 : +1);
         else if (*s1 == '\0')
             return 0;
     }
-- 
2.43.0


From 0c8d74116cb3a1b9fc4ab8d93c33ad667cb95a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 026/152] fix: strlcpy left truncated text unterminated and
 could not report truncation

---
 code/header/core/string.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 70060c5..64613f3 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -275,7 +275,7 @@ ZPL_IMPL_INLINE zpl_isize zpl_strlcpy(char *dest, const char *source, zpl_isize
     if (source) {
         const char *source_start = source;
         char *str = dest;
-        while (len > 0 && *source) {
+        while (len > 1 && *source) {
             *str++ = *source++;
             len--;
         }
@@ -284,6 +284,7 @@ ZPL_IMPL_INLINE zpl_isize zpl_strlcpy(char *dest, const char *source, zpl_isize
             len--;
         }
 
+        while (*source) source++;
         result = source - source_start;
     }
     return result;
-- 
2.43.0


From 57314fcaf8eed288567ef6066c58db8581a0168f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:17 +0000
Subject: [PATCH 027/152] fix: strntok left long tokens unterminated and
 skipped a character of the rest

---
 code/header/core/string.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 64613f3..2140828 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -321,14 +321,15 @@ ZPL_IMPL_INLINE const char *zpl_strtok(char *output, const char *src, const char
 
 ZPL_IMPL_INLINE const char *zpl_strntok(char *output, zpl_isize len, const char *src, const char *delimit) {
     ZPL_ASSERT(len > 0);
-    *(output+len-1) = 0;
-    while (*src && zpl_char_first_occurence(delimit, *src) == NULL && len > 0) {
-        *output++ = *src++;
-        len --;
+    while (*src && zpl_char_first_occurence(delimit, *src) == NULL) {
+        if (len > 1) {
+            *output++ = *src;
+            len --;
+        }
+        src++;
     }
 
-    if (len > 0)
-        *output = 0;
+    *output = 0;
     return *src ? src + 1 : src;
 }
 
-- 
2.43.0


From 90b78d2b24b3bfb6afa35b5c623523d98bd450d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 028/152] fix: char_to_hex_digit mapped letters to 0..5

---
 code/header/core/string.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 2140828..9f158c8 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -149,9 +149,9 @@ ZPL_IMPL_INLINE zpl_u8 zpl_char_to_hex_digit(char c) {
     if (c >= '0' && c <= '9')
         return (zpl_u8)(c - '0');
     if (c >= 'a' && c <= 'f')
-        return (zpl_u8)(c - 'a');
+        return (zpl_u8)(c - 'a' + 10);
     if (c >= 'A' && c <= 'F')
-        return (zpl_u8)(c - 'A');
+        return (zpl_u8)(c - 'A' + 10);
     return 0;
 }
 
-- 
2.43.0


From 801370bfb40355562c73a0deeafe25d544f550d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:29 +0000
Subject: [PATCH 029/152] fix: formatting and scanning the smallest integer
 overflowed

---
 code/source/core/string.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/source/core/string.c b/code/source/core/string.c
index 76d837c..73a60db 100644
--- a/code/source/core/string.c
+++ b/code/source/core/string.c
@@ -10,7 +10,7 @@ ZPL_BEGIN_C_DECLS
 
 zpl_internal zpl_isize zpl__scan_zpl_i64(const char *text, zpl_i32 base, zpl_i64 *value) {
     const char *text_begin = text;
-    zpl_i64 result = 0;
+    zpl_u64 result = 0;
     zpl_b32 negative = false;
 
     if (*text == '-') {
@@ -21,7 +21,7 @@ zpl_internal zpl_isize zpl__scan_zpl_i64(const char *text, zpl_i32 base, zpl_i64
     if (base == 16 && zpl_strncmp(text, "0x", 2) == 0) text += 2;
 
     for (;;) {
-        zpl_i64 v;
+        zpl_u64 v;
         if (zpl_char_is_digit(*text))
             v = *text - '0';
         else if (base == 16 && zpl_char_is_hex_digit(*text))
@@ -35,8 +35,8 @@ zpl_internal zpl_isize zpl__scan_zpl_i64(const char *text, zpl_i32 base, zpl_i64
     }
 
     if (value) {
-        if (negative) result = -result;
-        *value = result;
+        if (negative) result = 0 - result;
+        *value = cast(zpl_i64) result;
     }
 
     return (text - text_begin);
@@ -112,12 +112,12 @@ void zpl_i64_to_str(zpl_i64 value, char *string, zpl_i32 base) {
     zpl_b32 negative = false;
     zpl_u64 v;
 
+    v = cast(zpl_u64) value;
     if (value < 0) {
         negative = true;
-        value = -value;
+        v = 0 - v;
     }
 
-    v = cast(zpl_u64) value;
     if (v != 0) {
         while (v > 0) {
             *buf++ = zpl__num_to_char_table[v % base];
-- 
2.43.0


From 4f967bd0aea39491203a8afd5fc2f9bba8276756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:36 +0000
Subject: [PATCH 030/152] fix: integer scanning accepted digits outside the
 base

---
 code/source/core/string.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/source/core/string.c b/code/source/core/string.c
index 73a60db..d64b70a 100644
--- a/code/source/core/string.c
+++ b/code/source/core/string.c
@@ -28,6 +28,7 @@ zpl_internal zpl_isize zpl__scan_zpl_i64(const char *text, zpl_i32 base, zpl_i64
             v = zpl_hex_digit_to_int(*text);
         else
             break;
+        if (v >= cast(zpl_u64) base) break;
 
         result *= base;
         result += v;
@@ -57,6 +58,7 @@ zpl_internal zpl_isize zpl__scan_zpl_u64(const char *text, zpl_i32 base, zpl_u64
         else {
             break;
         }
+        if (v >= cast(zpl_u64) base) break;
 
         result *= base;
         result += v;
-- 
2.43.0


From 6684ffe9e1acbbb620830a925d4150d89b6d0e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:42 +0000
Subject: [PATCH 031/152] fix: base detection missed the hexadecimal prefix of
 negative numbers

---
 code/source/core/string.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/source/core/string.c b/code/source/core/string.c
index d64b70a..8130549 100644
--- a/code/source/core/string.c
+++ b/code/source/core/string.c
@@ -92,7 +92,8 @@ zpl_i64 zpl_str_to_i64(const char *str, char **end_ptr, zpl_i32 base) {
     zpl_i64 value;
 
     if (!base) {
-        if ((zpl_strlen(str) > 2) && (zpl_strncmp(str, "0x", 2) == 0))
+        const char *digits = (*str == '-') ? str + 1 : str;
+        if ((zpl_strlen(digits) > 2) && (zpl_strncmp(digits, "0x", 2) == 0))
             base = 16;
         else
             base = 10;
-- 
2.43.0


From 92680c9b02d4fb983b21e116e78d29ac360a2a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 032/152] fix: str_split_lines read past the text when its last
 line had no newline, and before it for a leading newline

---
 code/header/core/string.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 9f158c8..c1d3f2c 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -441,14 +441,12 @@ ZPL_IMPL_INLINE char **zpl_str_split_lines(zpl_allocator alloc, char *source, zp
     zpl_array_init(lines, alloc);
 
     while (*p) {
-        if (*pd == '\n') {
+        if (*pd == '\n' || *pd == '\0') {
+            zpl_b32 last = (*pd == '\0');
             *pd = 0;
-            if (*(pd - 1) == '\r') *(pd - 1) = 0;
-            if (strip_whitespace && (pd - p) == 0) {
-                p = pd + 1;
-                continue;
-            }
-            zpl_array_append(lines, p);
+            if (pd > p && *(pd - 1) == '\r') *(pd - 1) = 0;
+            if (!strip_whitespace || *p) zpl_array_append(lines, p);
+            if (last) break;
             p = pd + 1;
         }
         ++pd;
-- 
2.43.0


From 880ee41fadd4ede3780f4c79c9b238c9c12f8747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:54 +0000
Subject: [PATCH 033/152] fix: strdup overran its copy for text longer than the
 limit and left it unterminated

---
 code/header/core/string.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index c1d3f2c..54944c6 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -428,10 +428,10 @@ ZPL_IMPL_INLINE zpl_f32 zpl_str_to_f32(const char *str, char **end_ptr) {
 
 ZPL_IMPL_INLINE char *zpl_strdup(zpl_allocator a, char *src, zpl_isize max_len) {
     ZPL_ASSERT_NOT_NULL(src);
-    zpl_isize len = zpl_strlen(src);
-    char *dest = cast(char *) zpl_alloc(a, max_len);
-    zpl_memset(dest + len, 0, max_len - len);
+    char *dest = cast(char *) zpl_alloc(a, max_len + 1);
+    if (!dest) return NULL;
     zpl_strncpy(dest, src, max_len);
+    dest[max_len] = '\0';
 
     return dest;
 }
-- 
2.43.0


From 598412bcf642374454c926477066e3288744d732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 034/152] fix: str_control_skip read before the start of the
 text

---
 code/header/core/string.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 54944c6..59fa18e 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -343,7 +343,8 @@ ZPL_IMPL_INLINE zpl_b32 zpl__is_delim_char(char c) { return !!zpl_strchr(",|\n",
 
 
 ZPL_IMPL_INLINE char const *zpl_str_control_skip(char const *str, char c) {
-    while ((*str && *str != c) || (*(str - 1) == '\\' && *str == c && zpl_char_is_control(c))) { ++str; }
+    char const *begin = str;
+    while ((*str && *str != c) || (str != begin && *(str - 1) == '\\' && *str == c && zpl_char_is_control(c))) { ++str; }
 
     return str;
 }
-- 
2.43.0


From b85ea500cc6ec9bf15dcbb3f54c50386bb466062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 035/152] fix: ucs2_to_utf8 accepted lone high surrogates and
 could skip the terminator

---
 code/source/core/string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/source/core/string.c b/code/source/core/string.c
index 8130549..6536ec5 100644
--- a/code/source/core/string.c
+++ b/code/source/core/string.c
@@ -285,6 +285,7 @@ zpl_u8 *zpl_ucs2_to_utf8(zpl_u8 *buffer, zpl_isize len, zpl_u16 const *str) {
             str += 1;
         } else if (*str >= 0xd800 && *str < 0xdc00) {
             zpl_rune c;
+            if (str[1] < 0xdc00 || str[1] >= 0xe000) return NULL;
             if (i + 4 > len) return NULL;
             c = ((str[0] - 0xd800) << 10) + ((str[1]) - 0xdc00) + 0x10000;
             buffer[i++] = cast(char)(0xf0 + (c >> 18));
-- 
2.43.0


From 29c0f4a7d4ac2e4176a98e466c23c23832d429c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 036/152] fix: utf8_decode relied on undefined shifts

---
 code/source/core/string.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/code/source/core/string.c b/code/source/core/string.c
index 6536ec5..173307e 100644
--- a/code/source/core/string.c
+++ b/code/source/core/string.c
@@ -356,8 +356,7 @@ zpl_isize zpl_utf8_decode(zpl_u8 const *str, zpl_isize str_len, zpl_rune *codepo
         zpl_u8 b1, b2, b3;
         zpl_utf8_accept_range accept;
         if (x >= 0xf0) {
-            zpl_rune mask = (cast(zpl_rune) x << 31) >> 31;
-            codepoint = (cast(zpl_rune) s0 & (~mask)) | (ZPL_RUNE_INVALID & mask);
+            codepoint = (x & 1) ? ZPL_RUNE_INVALID : cast(zpl_rune) s0;
             width = 1;
             goto end;
         }
-- 
2.43.0


From ae764bd1de93d6931f84ef225ee633c99efaa5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 037/152] fix: utf8_strlen skipped the terminator of truncated
 text

---
 code/header/core/string.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 59fa18e..960eda4 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -200,7 +200,8 @@ ZPL_IMPL_INLINE zpl_isize zpl_utf8_strlen(zpl_u8 const *str) {
         else
             return -1;
 
-        str += inc;
+        // NOTE: a sequence cut off by the end of the string counts as one
+        while (inc-- > 0 && *str) str++;
     }
     return count;
 }
-- 
2.43.0


From 29bd3e4f0e16ddb2b9e7e9317e91dff2a38c91cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 038/152] fix: utf8_strnlen read past its limit

---
 code/header/core/string.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 960eda4..3ea4382 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -208,7 +208,7 @@ ZPL_IMPL_INLINE zpl_isize zpl_utf8_strlen(zpl_u8 const *str) {
 
 ZPL_IMPL_INLINE zpl_isize zpl_utf8_strnlen(zpl_u8 const *str, zpl_isize max_len) {
     zpl_isize count = 0;
-    for (; *str && max_len > 0; count++) {
+    for (; max_len > 0 && *str; count++) {
         zpl_u8 c = *str;
         zpl_isize inc = 0;
         if (c < 0x80)
@@ -222,8 +222,7 @@ ZPL_IMPL_INLINE zpl_isize zpl_utf8_strnlen(zpl_u8 const *str, zpl_isize max_len)
         else
             return -1;
 
-        str += inc;
-        max_len -= inc;
+        while (inc-- > 0 && max_len > 0 && *str) str++, max_len--;
     }
     return count;
 }
-- 
2.43.0


From df8cf444b378c48e664ebfd79ea08a42f3c20e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 039/152] fix: utf8_codepoint_size returned the offset of the
 first byte plus one

---
 code/source/core/string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/core/string.c b/code/source/core/string.c
index 173307e..e5a1955 100644
--- a/code/source/core/string.c
+++ b/code/source/core/string.c
@@ -407,11 +407,11 @@ zpl_isize zpl_utf8_decode(zpl_u8 const *str, zpl_isize str_len, zpl_rune *codepo
 }
 
 zpl_isize zpl_utf8_codepoint_size(zpl_u8 const *str, zpl_isize str_len) {
-    zpl_isize i = 0;
+    zpl_isize i = 1;
     for (; i < str_len && str[i]; i++) {
         if ((str[i] & 0xc0) != 0x80) break;
     }
-    return i + 1;
+    return i;
 }
 
 zpl_isize zpl_utf8_encode_rune(zpl_u8 buf[4], zpl_rune r) {
-- 
2.43.0


From 6194ee17623344034e15fd1a1537bc4440754539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 040/152] fix: UTF-8/UTF-16 conversion wrote a terminator into
 an empty buffer

---
 code/source/core/string.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/source/core/string.c b/code/source/core/string.c
index e5a1955..f26a3d2 100644
--- a/code/source/core/string.c
+++ b/code/source/core/string.c
@@ -224,6 +224,7 @@ zpl_f64 zpl_str_to_f64(const char *str, char **end_ptr) {
 zpl_u16 *zpl_utf8_to_ucs2(zpl_u16 *buffer, zpl_isize len, zpl_u8 const *str) {
     zpl_rune c;
     zpl_isize i = 0;
+    if (len < 1) return NULL;
     len--;
     while (*str) {
         if (i >= len) return NULL;
@@ -273,6 +274,7 @@ zpl_u16 *zpl_utf8_to_ucs2(zpl_u16 *buffer, zpl_isize len, zpl_u8 const *str) {
 
 zpl_u8 *zpl_ucs2_to_utf8(zpl_u8 *buffer, zpl_isize len, zpl_u16 const *str) {
     zpl_isize i = 0;
+    if (len < 1) return NULL;
     len--;
     while (*str) {
         if (*str < 0x80) {
-- 
2.43.0


From 09619afb7286623a5e74151e8ab612b8a4af323b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 041/152] fix: appending a string to itself read the block it
 had just given back

---
 code/source/core/stringlib.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/source/core/stringlib.c b/code/source/core/stringlib.c
index 6db304b..975b7a7 100644
--- a/code/source/core/stringlib.c
+++ b/code/source/core/stringlib.c
@@ -67,9 +67,13 @@ zpl_string zpl_string_sprintf(zpl_allocator a, char *buf, zpl_isize num_bytes, c
 zpl_string zpl_string_append_length(zpl_string str, void const *other, zpl_isize other_len) {
     if (other_len > 0) {
         zpl_isize curr_len = zpl_string_length(str);
+        // NOTE: the text may be part of the string itself, which can move
+        zpl_isize offset = cast(char const *) other - str;
+        zpl_b32 is_self = cast(char const *) other >= str && offset <= curr_len;
 
         str = zpl_string_make_space_for(str, other_len);
         if (str == NULL) return NULL;
+        if (is_self) other = str + offset;
 
         zpl_memcopy(str + curr_len, other, other_len);
         str[curr_len + other_len] = '\0';
-- 
2.43.0


From b87080da7777032f148bf2b316bf934acd086d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 042/152] fix: strnlen read past the terminator of a string
 shorter than the limit

---
 code/header/core/string.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 3ea4382..f9e389b 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -179,9 +179,10 @@ ZPL_IMPL_INLINE zpl_isize zpl_strlen(const char *str) {
 }
 
 ZPL_IMPL_INLINE zpl_isize zpl_strnlen(const char *str, zpl_isize max_len) {
-    const char *end = cast(const char *) zpl_memchr(str, 0, max_len);
-    if (end) return end - str;
-    return max_len;
+    // NOTE: the limit may lie beyond the memory that holds the string
+    zpl_isize len = 0;
+    while (len < max_len && str[len]) len++;
+    return len;
 }
 
 ZPL_IMPL_INLINE zpl_isize zpl_utf8_strlen(zpl_u8 const *str) {
-- 
2.43.0


From 4b72ab479b07928707ad41deeaea55741a5a66dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:58 +0000
Subject: [PATCH 043/152] fix: a short read or failed write moved the file
 cursor by the requested size

---
 code/header/core/file.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/code/header/core/file.h b/code/header/core/file.h
index 5a6a911..a4cd0e5 100644
--- a/code/header/core/file.h
+++ b/code/header/core/file.h
@@ -382,15 +382,17 @@ ZPL_IMPL_INLINE zpl_i64 zpl_file_tell(zpl_file *f) {
 
 ZPL_IMPL_INLINE zpl_b32 zpl_file_read(zpl_file *f, void *buffer, zpl_isize size) {
     zpl_i64 cur_offset = zpl_file_tell(f);
-    zpl_b32 result = zpl_file_read_at(f, buffer, size, zpl_file_tell(f));
-    zpl_file_seek(f, cur_offset + size);
+    zpl_isize bytes_read = 0;
+    zpl_b32 result = zpl_file_read_at_check(f, buffer, size, cur_offset, &bytes_read);
+    zpl_file_seek(f, cur_offset + bytes_read);
     return result;
 }
 
 ZPL_IMPL_INLINE zpl_b32 zpl_file_write(zpl_file *f, void const *buffer, zpl_isize size) {
     zpl_i64 cur_offset = zpl_file_tell(f);
-    zpl_b32 result = zpl_file_write_at(f, buffer, size, zpl_file_tell(f));
-    zpl_file_seek(f, cur_offset + size);
+    zpl_isize bytes_written = 0;
+    zpl_b32 result = zpl_file_write_at_check(f, buffer, size, cur_offset, &bytes_written);
+    zpl_file_seek(f, cur_offset + bytes_written);
     return result;
 }
 
-- 
2.43.0


From 7e6e4ea8b1ce20835f84a03978ad699b7fa5aa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:04 +0000
Subject: [PATCH 044/152] fix: opening a file reported every failure as
 invalid, so a missing file could not be told

---
 code/source/core/file.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/code/source/core/file.c b/code/source/core/file.c
index c819fee..a75e97a 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -158,6 +158,7 @@ ZPL_BEGIN_C_DECLS
 
 #else // POSIX
 #    include <fcntl.h>
+#    include <errno.h>
 
     zpl_internal ZPL_FILE_SEEK_PROC(zpl__posix_file_seek) {
 #    if defined(ZPL_SYSTEM_OSX)
@@ -213,6 +214,13 @@ ZPL_BEGIN_C_DECLS
         fd->i = open(filename, os_mode, S_IRUSR | S_IWUSR | S_IRGRP | S_IWGRP | S_IROTH | S_IWOTH);
         if (fd->i < 0) {
             // TODO: More file errors
+            switch (errno) {
+                case ENOENT: return ZPL_FILE_ERROR_NOT_EXISTS;
+                case EEXIST: return ZPL_FILE_ERROR_EXISTS;
+                case EPERM:
+                case EACCES: return ZPL_FILE_ERROR_PERMISSION;
+                case ENAMETOOLONG: return ZPL_FILE_ERROR_NAME_TOO_LONG;
+            }
             return ZPL_FILE_ERROR_INVALID;
         }
 
-- 
2.43.0


From ef0c18cc717428d3ad092ac1b01dcfe2745ca1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 045/152] fix: a file opened for appending reported its cursor
 at the start

---
 code/source/core/file.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/source/core/file.c b/code/source/core/file.c
index a75e97a..1ac44d7 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -224,6 +224,8 @@ ZPL_BEGIN_C_DECLS
             return ZPL_FILE_ERROR_INVALID;
         }
 
+        if (mode & ZPL_FILE_MODE_APPEND) zpl__posix_file_seek(*fd, 0, ZPL_SEEK_WHENCE_END, NULL);
+
         *ops = zpl_default_file_operations;
         return ZPL_FILE_ERROR_NONE;
     }
-- 
2.43.0


From a5c19e063f8bb9499e74a651369f27530b29efc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:19 +0000
Subject: [PATCH 046/152] fix: closing a temporary file leaked its stream

---
 code/source/core/file.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/code/source/core/file.c b/code/source/core/file.c
index 1ac44d7..4cbe281 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -426,7 +426,10 @@ zpl_file_error zpl_file_temp(zpl_file *file) {
 #if defined(ZPL_SYSTEM_WINDOWS) && !defined(ZPL_COMPILER_GCC)
     file->fd.i = _get_osfhandle(_fileno(fd));
 #else 
-    file->fd.i = fileno(fd);
+    // NOTE: we keep the descriptor alone, closing it would leave the stream behind
+    file->fd.i = dup(fileno(fd));
+    fclose(fd);
+    if (file->fd.i < 0) { return ZPL_FILE_ERROR_INVALID; }
 #endif
     file->ops = zpl_default_file_operations;
     file->is_temp = true;
-- 
2.43.0


From 60ca061abbcd8d2bccb956bba7edfbcdb1d863fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 047/152] fix: last write time was read only when looking it up
 failed

---
 code/source/core/file_misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index 0cebc0d..57982ab 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -90,7 +90,7 @@ ZPL_BEGIN_C_DECLS
         time_t result = 0;
         struct stat file_stat;
 
-        if (stat(filepath, &file_stat)) result = file_stat.st_mtime;
+        if (stat(filepath, &file_stat) == 0) result = file_stat.st_mtime;
 
         return cast(zpl_file_time) result;
     }
-- 
2.43.0


From babe9272a74ac119fbbf29f4bdf5a3331cc466a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 048/152] fix: fs_copy kept the tail of a longer destination,
 ignored fail_if_exists and created files for missing sources

---
 code/source/core/file_misc.c | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index 57982ab..9171de5 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -103,8 +103,8 @@ ZPL_BEGIN_C_DECLS
 
 
     zpl_b32 zpl_fs_copy(char const *existing_filename, char const *new_filename, zpl_b32 fail_if_exists) {
-        zpl_unused(fail_if_exists);
 #    if defined(ZPL_SYSTEM_OSX)
+        zpl_unused(fail_if_exists);
         return copyfile(existing_filename, new_filename, NULL, COPYFILE_DATA) == 0;
 #    elif defined(ZPL_SYSTEM_OPENBSD)
         ZPL_NOT_IMPLEMENTED;
@@ -114,16 +114,42 @@ ZPL_BEGIN_C_DECLS
         return 0;
 #    else
         int existing_fd = open(existing_filename, O_RDONLY, 0);
-        struct stat stat_existing;
-        fstat(existing_fd, &stat_existing);
+        struct stat stat_existing, stat_new;
+        if (existing_fd < 0) return false;
+        if (fstat(existing_fd, &stat_existing) != 0 || !S_ISREG(stat_existing.st_mode)) {
+            close(existing_fd);
+            return false;
+        }
 
         zpl_isize size;
-        int new_fd = open(new_filename, O_WRONLY | O_CREAT, stat_existing.st_mode);
+        int new_fd = open(new_filename, O_WRONLY | O_CREAT | (fail_if_exists ? O_EXCL : 0), stat_existing.st_mode);
+        if (new_fd < 0) {
+            close(existing_fd);
+            return false;
+        }
+
+        // NOTE: a file copied onto itself stays as it is
+        if (fstat(new_fd, &stat_new) == 0 && stat_new.st_dev == stat_existing.st_dev && stat_new.st_ino == stat_existing.st_ino) {
+            close(new_fd);
+            close(existing_fd);
+            return true;
+        }
+
+        if (ftruncate(new_fd, 0) != 0) {
+            close(new_fd);
+            close(existing_fd);
+            return false;
+        }
 
 #    if defined(ZPL_SYSTEM_FREEBSD)
         size = sendfile(new_fd, existing_fd, 0, stat_existing.st_size, NULL, 0, 0);
 #    else
-        size = sendfile(new_fd, existing_fd, 0, stat_existing.st_size);
+        size = 0;
+        while (size < stat_existing.st_size) {
+            zpl_isize sent = sendfile(new_fd, existing_fd, 0, stat_existing.st_size - size);
+            if (sent <= 0) break;
+            size += sent;
+        }
 #    endif
 
         close(new_fd);
-- 
2.43.0


From 4591917448350e95289f5b6a2a8d05b84090e921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:39 +0000
Subject: [PATCH 049/152] fix: path_get_full_name freed C heap memory through
 the caller's allocator

---
 code/source/core/file_misc.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index 9171de5..7982a00 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -227,9 +227,11 @@ char *zpl_path_get_full_name(zpl_allocator a, char const *path) {
     len = zpl_strlen(fullpath);
 
     result = zpl_alloc_array(a, char, len + 1);
-    zpl_memmove(result, fullpath, len);
-    result[len] = 0;
-    zpl_free(a, p);
+    if (result) {
+        zpl_memmove(result, fullpath, len);
+        result[len] = 0;
+    }
+    free(p); // NOTE: realpath uses the C heap
 
     return result;
 #endif
-- 
2.43.0


From 14e2bc0590233a7975cad22e33eb7d3140df594d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:46 +0000
Subject: [PATCH 050/152] fix: path_mkdir_recursive reported success when the
 directory could not be made

---
 code/source/core/file_misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index 7982a00..00ae4d9 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -274,7 +274,7 @@ zpl_isize zpl_path_mkdir_recursive(char const *path, zpl_i32 mode) {
             *p = ZPL_PATH_SEPARATOR;
         }
     }
-    zpl_path_mkdir(tmp, mode);
+    if (zpl_path_mkdir(tmp, mode) != ZPL_FILE_ERROR_NONE && zpl_fs_get_type(tmp) != ZPL_DIR_TYPE_FOLDER) return -1;
     return 0;
 }
 
-- 
2.43.0


From b6d634523e1edaf5273a67c244f148e3f2bef872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:52 +0000
Subject: [PATCH 051/152] fix: directory listing leaked its handles and left
 out names starting with two dots

---
 code/source/core/file_misc.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index 00ae4d9..4291d4c 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -301,14 +301,14 @@ zpl_file_error zpl_path_rmdir(char const *path) {
 
 void zpl__file_direntry(zpl_allocator alloc, char const *dirname, zpl_string *output, zpl_b32 recurse) {
 #if defined(ZPL_SYSTEM_UNIX) || defined(ZPL_SYSTEM_OSX)
-    DIR *d, *cd;
+    DIR *d;
     struct dirent *dir;
     d = opendir(dirname);
 
     if (d) {
         while ((dir = readdir(d))) {
             if (dir == 0) break;
-            if (!zpl_strncmp(dir->d_name, "..", 2)) continue;
+            if (!zpl_strcmp(dir->d_name, "..")) continue;
             if (dir->d_name[0] == '.' && dir->d_name[1] == 0) continue;
 
             zpl_string dirpath = zpl_string_make(alloc, dirname);
@@ -318,9 +318,10 @@ void zpl__file_direntry(zpl_allocator alloc, char const *dirname, zpl_string *ou
             *output = zpl_string_appendc(*output, dirpath);
             *output = zpl_string_appendc(*output, "\n");
 
-            if (recurse && (cd = opendir(dirpath)) != NULL && dir->d_type == DT_DIR) { zpl__file_direntry(alloc, dirpath, output, recurse); }
+            if (recurse && dir->d_type == DT_DIR) { zpl__file_direntry(alloc, dirpath, output, recurse); }
             zpl_string_free(dirpath);
         }
+        closedir(d);
     }
 #elif defined(ZPL_SYSTEM_WINDOWS)
     zpl_usize length = zpl_strlen(dirname);
-- 
2.43.0


From 7f86ab2303f616b642bcea80f1373debbcc234d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 052/152] fix: dirinfo_init allocated its path without room for
 the terminator

---
 code/source/core/file_misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index 4291d4c..3e8f128 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -383,7 +383,7 @@ void zpl_dirinfo_init(zpl_dir_info *dir, char const *path) {
 
     zpl_dir_info dir_ = {0};
     *dir = dir_;
-    dir->fullpath = (char const*)zpl_malloc(zpl_strlen(path));
+    dir->fullpath = (char const*)zpl_malloc(zpl_strlen(path) + 1);
     zpl_strcpy((char *)dir->fullpath, path);
 
 
-- 
2.43.0


From 45e40958913efba322a097979e43c247a5c6f60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:05 +0000
Subject: [PATCH 053/152] fix: dirinfo_step overran a fixed buffer for long
 paths and left stale text for short ones

---
 code/source/core/file_misc.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index 3e8f128..eba6c29 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -461,17 +461,20 @@ void zpl_dirinfo_step(zpl_dir_entry *entry) {
     zpl_dir_info dir_ = {0};
     *entry->dir_info = dir_;
 
-    zpl_local_persist char buf[128] = {0};
+    zpl_string buf = NULL;
     char const *path = entry->filename;
 
     if (entry->type != ZPL_DIR_TYPE_FOLDER) {
         zpl_path_fix_slashes((char *)path);
         char const* slash = zpl_char_last_occurence(path, ZPL_PATH_SEPARATOR);
-        zpl_strncpy(buf, path, slash-path);
-        path = buf;
+        if (!slash)
+            path = ".";
+        else
+            path = buf = zpl_string_make_length(zpl_heap(), path, zpl_max(slash - path, 1));
     }
 
     zpl_dirinfo_init(entry->dir_info, path);
+    if (buf) zpl_string_free(buf);
 }
 
 void zpl_file_dirinfo_refresh(zpl_file *file) {
-- 
2.43.0


From 9e36268a8a9f2a72fa87aefbe09a86b745b4a4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:11 +0000
Subject: [PATCH 054/152] fix: path_extension found dots in directory names

---
 code/header/core/file_misc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/core/file_misc.h b/code/header/core/file_misc.h
index 8e46a03..75ebc3d 100644
--- a/code/header/core/file_misc.h
+++ b/code/header/core/file_misc.h
@@ -136,7 +136,7 @@ ZPL_IMPL_INLINE char const *zpl_path_base_name(char const *path) {
 ZPL_IMPL_INLINE char const *zpl_path_extension(char const *path) {
     char const *ld;
     ZPL_ASSERT_NOT_NULL(path);
-    ld = zpl_char_last_occurence(path, '.');
+    ld = zpl_char_last_occurence(zpl_path_base_name(path), '.');
     return (ld == NULL) ? NULL : ld + 1;
 }
 
-- 
2.43.0


From 7117c803cce272625f56c7d4933d9cbb617d58ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:17 +0000
Subject: [PATCH 055/152] fix: memory stream reads ran past the end of the
 stream

---
 code/source/core/file_stream.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/source/core/file_stream.c b/code/source/core/file_stream.c
index bbf0651..cc482d5 100644
--- a/code/source/core/file_stream.c
+++ b/code/source/core/file_stream.c
@@ -103,6 +103,8 @@ zpl_internal ZPL_FILE_SEEK_PROC(zpl__memory_file_seek) {
 zpl_internal ZPL_FILE_READ_AT_PROC(zpl__memory_file_read) {
     zpl_unused(stop_at_newline);
     zpl__memory_fd *d = zpl__file_stream_from_fd(fd);
+    if (offset < 0 || size < 0) return false;
+    size = offset < d->cap ? zpl_min(size, d->cap - offset) : 0;
     zpl_memcopy(buffer, d->buf + offset, size);
     if (bytes_read) *bytes_read = size;
     return true;
-- 
2.43.0


From be25905cbf67a563a95cd334ce5a8697408fb211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:23 +0000
Subject: [PATCH 056/152] fix: memory stream writes beyond the end copied a
 negative length

---
 code/source/core/file_stream.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/code/source/core/file_stream.c b/code/source/core/file_stream.c
index cc482d5..85fa93f 100644
--- a/code/source/core/file_stream.c
+++ b/code/source/core/file_stream.c
@@ -114,7 +114,20 @@ zpl_internal ZPL_FILE_WRITE_AT_PROC(zpl__memory_file_write) {
     zpl__memory_fd *d = zpl__file_stream_from_fd(fd);
     if (!(d->flags & (ZPL_FILE_STREAM_CLONE_WRITABLE|ZPL_FILE_STREAM_WRITABLE)))
         return false;
+    if (offset < 0 || size < 0) return false;
     zpl_isize buflen = d->cap;
+    if (offset > buflen) {
+        zpl_isize gap = offset - buflen;
+        if (!(d->flags & ZPL_FILE_STREAM_CLONE_WRITABLE) || size == 0) {
+            if (bytes_written) *bytes_written = 0;
+            return true;
+        }
+        if (zpl_array_capacity(d->buf) < offset) {
+            if (!zpl_array_grow(d->buf, (zpl_i64)(offset))) return false;
+        }
+        zpl_memset(d->buf + buflen, 0, gap);
+        d->cap = zpl_array_count(d->buf) = buflen = offset;
+    }
     zpl_isize extralen = zpl_max(0, size-(buflen-offset));
     zpl_isize rwlen = size-extralen;
     zpl_isize new_cap = buflen+extralen;
-- 
2.43.0


From e323d2027a30654ebeba72594daf9df34fffc80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:28 +0000
Subject: [PATCH 057/152] fix: memory stream leaked its descriptor when its
 buffer could not be allocated

---
 code/source/core/file_stream.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/code/source/core/file_stream.c b/code/source/core/file_stream.c
index 85fa93f..6971cd5 100644
--- a/code/source/core/file_stream.c
+++ b/code/source/core/file_stream.c
@@ -45,7 +45,10 @@ zpl_b8 zpl_file_stream_new(zpl_file* file, zpl_allocator allocator) {
     d->alloc = allocator;
     d->flags = ZPL_FILE_STREAM_CLONE_WRITABLE;
     d->cap = 0;
-    if (!zpl_array_init(d->buf, allocator)) return false;
+    if (!zpl_array_init(d->buf, allocator)) {
+        zpl_free(allocator, d);
+        return false;
+    }
     file->ops = zpl_memory_file_operations;
     file->fd = zpl__file_stream_fd_make(d);
     file->dir = NULL;
@@ -63,7 +66,10 @@ zpl_b8 zpl_file_stream_open(zpl_file* file, zpl_allocator allocator, zpl_u8 *buf
     d->alloc = allocator;
     d->flags = flags;
     if (d->flags & ZPL_FILE_STREAM_CLONE_WRITABLE) {
-        if (!zpl_array_init_reserve(d->buf, allocator, size)) return false;
+        if (!zpl_array_init_reserve(d->buf, allocator, size)) {
+            zpl_free(allocator, d);
+            return false;
+        }
         zpl_memcopy(d->buf, buffer, size);
         d->cap = zpl_array_count(d->buf) = size;
     } else {
-- 
2.43.0


From 3c6788ff5ca8cb9dafa32b4df08aae08f7ca9e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 058/152] fix: fs_get_type reported sockets and block devices
 as folders

---
 code/source/core/file_misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index eba6c29..e3e7ae8 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -442,7 +442,7 @@ zpl_u8 zpl_fs_get_type(char const *path) {
     struct stat s;
     if( stat(path,&s) == 0 )
     {
-        if(s.st_mode & S_IFDIR)
+        if(S_ISDIR(s.st_mode))
             return ZPL_DIR_TYPE_FOLDER;
         else
             return ZPL_DIR_TYPE_FILE;
-- 
2.43.0


From 2752de438bd3d306f3ea51f350753090a7b33a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 059/152] fix: tar_pack cut names to 11 characters and sizes to
 32 bits

---
 code/source/core/file_tar.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/code/source/core/file_tar.c b/code/source/core/file_tar.c
index 911a8a9..6b3e313 100644
--- a/code/source/core/file_tar.c
+++ b/code/source/core/file_tar.c
@@ -39,6 +39,10 @@ zpl_isize zpl_tar_pack(zpl_file *archive, char const **paths, zpl_isize paths_le
     for (zpl_isize i = 0; i < paths_len; i++) {
         ZPL_ASSERT_NOT_NULL(paths[i]);
         zpl__tar_header hr = {0};
+        zpl_isize name_len = zpl_strlen(paths[i]);
+        if (name_len > zpl_size_of(hr.name)) {
+            return -(ZPL_TAR_ERROR_INVALID_INPUT);
+        }
         zpl_file file;
         zpl_file_error ferr = zpl_file_open_mode(&file, ZPL_FILE_MODE_READ, paths[i]);
         if (ferr == ZPL_FILE_ERROR_NOT_EXISTS) {
@@ -48,10 +52,10 @@ zpl_isize zpl_tar_pack(zpl_file *archive, char const **paths, zpl_isize paths_le
         }
 
         zpl_i64 file_size = zpl_file_size(&file);
-        zpl_snprintf(hr.name, 12, "%s", paths[i]);
-        zpl_snprintf(hr.size, 12, "%o", file_size);
+        zpl_memcopy(hr.name, paths[i], name_len);
+        zpl_snprintf(hr.size, 12, "%llo", file_size);
         zpl_snprintf(hr.mode, 8, "%o", 0664);
-        zpl_snprintf(hr.mtime, 12, "%o", zpl_fs_last_write_time(paths[i]));
+        zpl_snprintf(hr.mtime, 12, "%llo", zpl_fs_last_write_time(paths[i]));
         hr.type = ZPL_TAR_TYPE_REGULAR;
         zpl_snprintf(hr.checksum, 8, "%o", zpl__tar_checksum(&hr));
 
-- 
2.43.0


From f2e6c1c81d64f3c90e55ea862e78efdd76e86fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:02 +0000
Subject: [PATCH 060/152] fix: tar_pack ignored failed writes

---
 code/source/core/file_tar.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/code/source/core/file_tar.c b/code/source/core/file_tar.c
index 6b3e313..2d25d52 100644
--- a/code/source/core/file_tar.c
+++ b/code/source/core/file_tar.c
@@ -59,7 +59,10 @@ zpl_isize zpl_tar_pack(zpl_file *archive, char const **paths, zpl_isize paths_le
         hr.type = ZPL_TAR_TYPE_REGULAR;
         zpl_snprintf(hr.checksum, 8, "%o", zpl__tar_checksum(&hr));
 
-        zpl_file_write(archive, cast(void*)(&hr), zpl_size_of(zpl__tar_header));
+        if (!zpl_file_write(archive, cast(void*)(&hr), zpl_size_of(zpl__tar_header))) {
+            zpl_file_close(&file);
+            return -(ZPL_TAR_ERROR_IO_ERROR);
+        }
 
         // write data
         {
@@ -77,7 +80,10 @@ zpl_isize zpl_tar_pack(zpl_file *archive, char const **paths, zpl_isize paths_le
                     break;
                 }
 
-                zpl_file_write(archive, buf, bytes_read);
+                if (!zpl_file_write(archive, buf, bytes_read)) {
+                    zpl_file_close(&file);
+                    return -(ZPL_TAR_ERROR_IO_ERROR);
+                }
                 pos += bytes_read;
                 remaining_data -= bytes_read;
             }
-- 
2.43.0


From 076bded063d4e78f240d990bbf140520efbbab80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 061/152] fix: tar_pack_dir failed on nested folders

---
 code/source/core/file_tar.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/code/source/core/file_tar.c b/code/source/core/file_tar.c
index 2d25d52..5696860 100644
--- a/code/source/core/file_tar.c
+++ b/code/source/core/file_tar.c
@@ -110,6 +110,13 @@ zpl_isize zpl_tar_pack(zpl_file *archive, char const **paths, zpl_isize paths_le
 zpl_isize zpl_tar_pack_dir(zpl_file *archive, char const *path, zpl_allocator alloc) {
     zpl_string filelst = zpl_path_dirlist(alloc, path, true);
     char const **files = cast(char const**)zpl_str_split_lines(alloc, filelst, false);
+
+    /* the listing includes folders, only files are packed */
+    for (zpl_isize i = 0; i < zpl_array_count(files);) {
+        if (zpl_fs_get_type(files[i]) == ZPL_DIR_TYPE_FOLDER) zpl_array_remove_at(files, i);
+        else i++;
+    }
+
     zpl_isize err = zpl_tar_pack(archive, files, zpl_array_count(files));
     zpl_string_free(filelst);
     zpl_array_free(files);
-- 
2.43.0


From f4125a4a9070f3ccf5ffae4e459648513fc210ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:15 +0000
Subject: [PATCH 062/152] fix: tar_unpack never finished on truncated archives

---
 code/source/core/file_tar.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/code/source/core/file_tar.c b/code/source/core/file_tar.c
index 5696860..50fa9b1 100644
--- a/code/source/core/file_tar.c
+++ b/code/source/core/file_tar.c
@@ -132,14 +132,15 @@ zpl_isize zpl_tar_unpack(zpl_file *archive, zpl_tar_unpack_proc *unpack_proc, vo
     zpl_isize err = ZPL_TAR_ERROR_NONE;
 
     do {
-        if (!zpl_file_read(archive, cast(void*)&hr, zpl_size_of(hr))) {
+        zpl_isize bytes_read = 0;
+        if (!zpl_file_read_at_check(archive, cast(void*)&hr, zpl_size_of(hr), pos, &bytes_read) || bytes_read != zpl_size_of(hr)) {
             err = ZPL_TAR_ERROR_IO_ERROR;
             break;
         }
         else if (*hr.checksum == 0) {
             break;
         }
-        pos = zpl_file_tell(archive);
+        pos = zpl_file_seek(archive, pos + zpl_size_of(hr));
 
         zpl_tar_record rec = {0};
         rec.type = hr.type;
@@ -160,7 +161,7 @@ zpl_isize zpl_tar_unpack(zpl_file *archive, zpl_tar_unpack_proc *unpack_proc, vo
         }
 
         /* tar rounds files to 512 byte boundary */
-        zpl_file_seek(archive, pos + zpl_align_forward_i64(rec.length, 512));
+        pos = zpl_file_seek(archive, pos + zpl_align_forward_i64(rec.length, 512));
     }
     while(err == ZPL_TAR_ERROR_NONE);
 
-- 
2.43.0


From 8a212bfd5313d9ec2aeef038d59f0959ac4228de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 063/152] fix: tar_unpack read past unterminated header fields
 and looped on negative sizes

---
 code/source/core/file_tar.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/code/source/core/file_tar.c b/code/source/core/file_tar.c
index 50fa9b1..e744035 100644
--- a/code/source/core/file_tar.c
+++ b/code/source/core/file_tar.c
@@ -142,14 +142,27 @@ zpl_isize zpl_tar_unpack(zpl_file *archive, zpl_tar_unpack_proc *unpack_proc, vo
         }
         pos = zpl_file_seek(archive, pos + zpl_size_of(hr));
 
+        /* fields may take up their whole width, in which case nothing terminates them */
+        char name[zpl_size_of(hr.name)+1] = {0};
+        char size[zpl_size_of(hr.size)+1] = {0};
+        char checksum[zpl_size_of(hr.checksum)+1] = {0};
+        zpl_memcopy(name, hr.name, zpl_size_of(hr.name));
+        zpl_memcopy(size, hr.size, zpl_size_of(hr.size));
+        zpl_memcopy(checksum, hr.checksum, zpl_size_of(hr.checksum));
+
         zpl_tar_record rec = {0};
         rec.type = hr.type;
-        rec.path = hr.name;
+        rec.path = name;
         rec.offset = pos;
-        rec.length = zpl_str_to_i64(hr.size, 0, 8);
+        rec.length = zpl_str_to_i64(size, 0, 8);
         rec.error = ZPL_TAR_ERROR_NONE;
 
-        zpl_usize checksum1 = cast(zpl_usize)(zpl_str_to_i64(hr.checksum, 0, 8));
+        if (rec.length < 0) {
+            err = ZPL_TAR_ERROR_INVALID_INPUT;
+            break;
+        }
+
+        zpl_usize checksum1 = cast(zpl_usize)(zpl_str_to_i64(checksum, 0, 8));
         zpl_usize checksum2 = zpl__tar_checksum(&hr);
         rec.error = (checksum1 != checksum2) ? cast(zpl_isize)ZPL_TAR_ERROR_BAD_CHECKSUM : rec.error;
 
-- 
2.43.0


From 24d4a4ad14d0423ee879a4d654f7bffeeeb26a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:28 +0000
Subject: [PATCH 064/152] fix: tar_unpack_dir followed .. inside entry names
 and absolute names out of the destination

---
 code/source/core/file_tar.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/code/source/core/file_tar.c b/code/source/core/file_tar.c
index e744035..99a0ce0 100644
--- a/code/source/core/file_tar.c
+++ b/code/source/core/file_tar.c
@@ -195,6 +195,16 @@ ZPL_TAR_UNPACK_PROC(zpl_tar_default_list_file) {
     return 0;
 }
 
+zpl_internal zpl_b32 zpl__tar_path_escapes(char const *path) {
+    while (*path) {
+        char const *p = path;
+        while (*p && *p != '/' && *p != ZPL_PATH_SEPARATOR) p++;
+        if (p - path == 2 && path[0] == '.' && path[1] == '.') return true;
+        path = *p ? p + 1 : p;
+    }
+    return false;
+}
+
 ZPL_TAR_UNPACK_PROC(zpl_tar_default_unpack_file) {
     if (file->error != ZPL_TAR_ERROR_NONE)
         return 0; /* skip file */
@@ -202,14 +212,15 @@ ZPL_TAR_UNPACK_PROC(zpl_tar_default_unpack_file) {
     if (file->type != ZPL_TAR_TYPE_REGULAR)
         return 0; /* we only care about regular files */
 
-    if (!zpl_strncmp(file->path, "..", 2))
-        return 0;
+    if (zpl__tar_path_escapes(file->path))
+        return 0; /* never leave the destination */
 
     char tmp[ZPL_MAX_PATH] = {0};
     char *base_path = cast(char*)user_data;
     zpl_isize base_len = zpl_strlen(base_path);
     zpl_isize len = zpl_strlen(file->path);
-    ZPL_ASSERT(base_len+len-2 < ZPL_MAX_PATH); /* todo: account for missing leading path sep */
+    if (base_len+len+1 >= ZPL_MAX_PATH)
+        return 1;
 
     zpl_strcpy(tmp, base_path);
     zpl_path_fix_slashes(tmp); /* todo: need to do twice as base_path is checked before concat */
@@ -218,7 +229,9 @@ ZPL_TAR_UNPACK_PROC(zpl_tar_default_unpack_file) {
         char sep[2] = {ZPL_PATH_SEPARATOR, 0};
         zpl_strcat(tmp, sep);
     }
-    zpl_strcat(tmp, file->path);
+    char const *path = file->path;
+    while (*path == '/' || *path == ZPL_PATH_SEPARATOR) path++;
+    zpl_strcat(tmp, path);
     zpl_path_fix_slashes(tmp);
 
     const char *last_slash = zpl_char_last_occurence(tmp, ZPL_PATH_SEPARATOR);
-- 
2.43.0


From 5cd2c1866dbcfdc23549bcef313f59bfcd2a2bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:34 +0000
Subject: [PATCH 065/152] fix: tar_unpack_dir hid files it could not create or
 write

---
 code/source/core/file_tar.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/code/source/core/file_tar.c b/code/source/core/file_tar.c
index 99a0ce0..cd3ca9c 100644
--- a/code/source/core/file_tar.c
+++ b/code/source/core/file_tar.c
@@ -244,7 +244,8 @@ ZPL_TAR_UNPACK_PROC(zpl_tar_default_unpack_file) {
     }
 
     zpl_file f;
-    zpl_file_create(&f, tmp);
+    if (zpl_file_create(&f, tmp) != ZPL_FILE_ERROR_NONE)
+        return 1;
     {
         char buf[4096] = {0};
         zpl_isize remaining_data = file->length;
@@ -258,7 +259,10 @@ ZPL_TAR_UNPACK_PROC(zpl_tar_default_unpack_file) {
                 break;
             }
 
-            zpl_file_write(&f, buf, bytes_read);
+            if (!zpl_file_write(&f, buf, bytes_read)) {
+                zpl_file_close(&f);
+                return 1;
+            }
             pos += bytes_read;
             remaining_data -= bytes_read;
         }
-- 
2.43.0


From d920326c33ce3e1d6e45e0a79d07d731d7342175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:11 +0000
Subject: [PATCH 066/152] fix: vm_trim released the part it was asked to keep

---
 code/source/core/memory_virtual.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/memory_virtual.c b/code/source/core/memory_virtual.c
index 7f16908..8420ab4 100644
--- a/code/source/core/memory_virtual.c
+++ b/code/source/core/memory_virtual.c
@@ -95,7 +95,7 @@ zpl_virtual_memory zpl_vm(void *data, zpl_isize size) {
         trail_size = vm.size - lead_size - size;
 
         if (lead_size != 0) zpl_vm_free(zpl_vm(vm.data, lead_size));
-        if (trail_size != 0) zpl_vm_free(zpl_vm(ptr, trail_size));
+        if (trail_size != 0) zpl_vm_free(zpl_vm(zpl_pointer_add(ptr, size), trail_size));
         return zpl_vm(ptr, size);
     }
 
-- 
2.43.0


From ead1d1345a8d457e4a6fa565db24f53c12acb105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 067/152] fix: vm_alloc, vm_free and vm_purge misreported
 success and failure

---
 code/source/core/memory_virtual.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/code/source/core/memory_virtual.c b/code/source/core/memory_virtual.c
index 8420ab4..1c4243a 100644
--- a/code/source/core/memory_virtual.c
+++ b/code/source/core/memory_virtual.c
@@ -78,12 +78,15 @@ zpl_virtual_memory zpl_vm(void *data, zpl_isize size) {
         ZPL_ASSERT(size > 0);
         vm.data = mmap(addr, size, PROT_READ | PROT_WRITE, MAP_ANONYMOUS | MAP_PRIVATE, -1, 0);
         vm.size = size;
+        if (vm.data == MAP_FAILED) {
+            vm.data = NULL;
+            vm.size = 0;
+        }
         return vm;
     }
 
     zpl_b32 zpl_vm_free(zpl_virtual_memory vm) {
-        munmap(vm.data, vm.size);
-        return true;
+        return munmap(vm.data, vm.size) == 0;
     }
 
     zpl_virtual_memory zpl_vm_trim(zpl_virtual_memory vm, zpl_isize lead_size, zpl_isize size) {
@@ -101,7 +104,7 @@ zpl_virtual_memory zpl_vm(void *data, zpl_isize size) {
 
     zpl_b32 zpl_vm_purge(zpl_virtual_memory vm) {
         int err = madvise(vm.data, vm.size, MADV_DONTNEED);
-        return err != 0;
+        return err == 0;
     }
 
     zpl_isize zpl_virtual_memory_page_size(zpl_isize *alignment_out) {
-- 
2.43.0


From 391e07690d59756c1ec0c4e3db7d88e8f33a4d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:32 +0000
Subject: [PATCH 068/152] fix: tar_unpack did not recognise regular files of
 old archives

---
 code/source/core/file_tar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/file_tar.c b/code/source/core/file_tar.c
index cd3ca9c..350d8df 100644
--- a/code/source/core/file_tar.c
+++ b/code/source/core/file_tar.c
@@ -151,7 +151,7 @@ zpl_isize zpl_tar_unpack(zpl_file *archive, zpl_tar_unpack_proc *unpack_proc, vo
         zpl_memcopy(checksum, hr.checksum, zpl_size_of(hr.checksum));
 
         zpl_tar_record rec = {0};
-        rec.type = hr.type;
+        rec.type = hr.type ? hr.type : ZPL_TAR_TYPE_REGULAR; /* pre-POSIX archives leave it zero */
         rec.path = name;
         rec.offset = pos;
         rec.length = zpl_str_to_i64(size, 0, 8);
-- 
2.43.0


From a7acfa4363038e260e84b3d0f8301bbee93a647b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:37 +0000
Subject: [PATCH 069/152] fix: u8 radix sort left its result in the temporary
 array

---
 code/source/core/sort.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/source/core/sort.c b/code/source/core/sort.c
index 5b7df2e..5e2f958 100644
--- a/code/source/core/sort.c
+++ b/code/source/core/sort.c
@@ -142,6 +142,8 @@ ZPL_RADIX_SORT_PROC(Type) {
         }                                                                                                          \
         zpl_swap(zpl_##Type *, source, dest);                                                                            \
     }                                                                                                              \
+    /* NOTE: An odd number of passes ends in temp */                                                               \
+    if (source != items) zpl_memcopy(items, source, count * zpl_size_of(*items));                                  \
 }
 
 ZPL_RADIX_SORT_PROC_GEN(u8);
-- 
2.43.0


From fe1a928b937498cd8d2dda653b12a82852ac9541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:44 +0000
Subject: [PATCH 070/152] fix: reverse walked past the end of the array

---
 code/source/core/sort.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/sort.c b/code/source/core/sort.c
index 5e2f958..67dd2f6 100644
--- a/code/source/core/sort.c
+++ b/code/source/core/sort.c
@@ -167,7 +167,7 @@ void zpl_shuffle(void *base, zpl_isize count, zpl_isize size) {
 
 void zpl_reverse(void *base, zpl_isize count, zpl_isize size) {
     zpl_isize i, j = count - 1;
-    for (i = 0; i < j; i++, j++) zpl_memswap(cast(zpl_u8 *) base + i * size, cast(zpl_u8 *) base + j * size, size);
+    for (i = 0; i < j; i++, j--) zpl_memswap(cast(zpl_u8 *) base + i * size, cast(zpl_u8 *) base + j * size, size);
 }
 
 ZPL_END_C_DECLS
-- 
2.43.0


From 76e9144cc237af5f2c2fe76bc606d2c9e28d51f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:52 +0000
Subject: [PATCH 071/152] fix: shuffle swapped with elements at negative
 indices

---
 code/source/core/sort.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/sort.c b/code/source/core/sort.c
index 67dd2f6..c0c5506 100644
--- a/code/source/core/sort.c
+++ b/code/source/core/sort.c
@@ -159,7 +159,7 @@ void zpl_shuffle(void *base, zpl_isize count, zpl_isize size) {
 
     a = cast(zpl_u8 *) base + (count - 1) * size;
     for (i = count; i > 1; i--) {
-        j = zpl_random_gen_isize(&random) % i;
+        j = cast(zpl_isize) (zpl_random_gen_u64(&random) % cast(zpl_u64) i);
         zpl_memswap(a, cast(zpl_u8 *) base + j * size, size);
         a -= size;
     }
-- 
2.43.0


From 8ebbfc2ce9bebad5604bf1deb9b70edf117f0116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:48 +0000
Subject: [PATCH 072/152] fix: unique random numbers repeated, the square was
 cut to 32 bits before taking the residue

---
 code/source/core/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/random.c b/code/source/core/random.c
index 87c38a7..34a905a 100644
--- a/code/source/core/random.c
+++ b/code/source/core/random.c
@@ -33,7 +33,7 @@ zpl_internal ZPL_ALWAYS_INLINE zpl_u32 zpl__permute_qpr(zpl_u32 x) {
     if (x >= prime) {
         return x;
     } else {
-        zpl_u32 residue = cast(zpl_u32)(cast(zpl_u64) x * x) % prime;
+        zpl_u32 residue = cast(zpl_u32)((cast(zpl_u64) x * x) % prime);
         if (x <= prime / 2)
             return residue;
         else
-- 
2.43.0


From 77f91952202620ed8ec77d6bbc5c743d218ee9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:54 +0000
Subject: [PATCH 073/152] fix: seeding a random generator never finished when
 it was interrupted across a second

---
 code/source/core/random.c | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/code/source/core/random.c b/code/source/core/random.c
index 34a905a..c63f0b7 100644
--- a/code/source/core/random.c
+++ b/code/source/core/random.c
@@ -10,18 +10,8 @@ zpl_global zpl_i32 zpl__random_shared_counter = 0;
 #endif
 
 zpl_internal zpl_u32 zpl__get_noise_from_time(void) {
-    zpl_u32 accum = 0;
-    zpl_f64 start, remaining, end, curr = 0;
-    zpl_u64 interval = 100000ll;
-    
-    start     = zpl_time_rel();
-    remaining = (interval - cast(zpl_u64)(interval*start)%interval) / cast(zpl_f64)interval;
-    end       = start + remaining;
-    
-    do {
-        curr = zpl_time_rel();
-        accum += cast(zpl_u32)curr;
-    } while (curr >= end);
+    // NOTE: a single reading, there is no bound on the time between two of them
+    zpl_u32 accum = cast(zpl_u32)zpl_time_rel();
     return accum;
 }
 
-- 
2.43.0


From 5fc11948d32359ea8c64069ec7b51c23f5e9b64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 074/152] fix: random ranges wider than half the integers
 overflowed or divided by zero

---
 code/source/core/random.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/source/core/random.c b/code/source/core/random.c
index c63f0b7..7e6b0cc 100644
--- a/code/source/core/random.c
+++ b/code/source/core/random.c
@@ -111,11 +111,11 @@ zpl_isize zpl_random_gen_isize(zpl_random *r) {
 
 zpl_i64 zpl_random_range_i64(zpl_random *r, zpl_i64 lower_inc, zpl_i64 higher_inc) {
     zpl_u64 u = zpl_random_gen_u64(r);
-    zpl_i64 diff = higher_inc-lower_inc+1;
-    u %= diff;
+    zpl_u64 diff = cast(zpl_u64)higher_inc-cast(zpl_u64)lower_inc+1; // NOTE: 0 for the whole range
+    if (diff) u %= diff;
+    u += cast(zpl_u64)lower_inc;
     zpl_i64 i;
     zpl_memcopy(&i, &u, zpl_size_of(u));
-    i += lower_inc;
     return i;
 }
 
@@ -125,11 +125,11 @@ zpl_isize zpl_random_range_isize(zpl_random *r, zpl_isize lower_inc, zpl_isize h
 #else
     zpl_u64 u = zpl_random_gen_u64(r);
 #endif
-    zpl_isize diff = higher_inc-lower_inc+1;
-    u %= diff;
+    zpl_usize diff = cast(zpl_usize)higher_inc-cast(zpl_usize)lower_inc+1; // NOTE: 0 for the whole range
+    if (diff) u %= diff;
+    u += cast(zpl_usize)lower_inc;
     zpl_isize i;
     zpl_memcopy(&i, &u, zpl_size_of(u));
-    i += lower_inc;
     return i;
 }
 
-- 
2.43.0


From b3be7e9f56d9570b89560a42f1d023734c0e7c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:30 +0000
Subject: [PATCH 075/152] fix: base64_decode overran its input and result on
 malformed text and leaked the result on invalid characters

---
 code/source/hashing.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/code/source/hashing.c b/code/source/hashing.c
index e84973d..0026c31 100644
--- a/code/source/hashing.c
+++ b/code/source/hashing.c
@@ -213,15 +213,14 @@ zpl_isize zpl__base64_encoded_size(zpl_isize len) {
     return ret;
 }
 
-zpl_isize zpl__base64_decoded_size(void const *data) {
-    zpl_isize len, ret, i;
+zpl_isize zpl__base64_decoded_size(void const *data, zpl_isize len) {
+    zpl_isize ret, i;
     const zpl_u8 *s = cast(const zpl_u8 *)data;
 
     if (s == NULL) {
         return 0;
     }
 
-    len = zpl_strlen(cast(const char*)s);
     ret = len / 4 * 3;
 
     for (i=len; i-- > 0;) {
@@ -293,18 +292,24 @@ zpl_u8 *zpl_base64_decode(zpl_allocator a, void const *data, zpl_isize len) {
         return NULL;
     }
 
-    alen = zpl__base64_decoded_size(s);
-    ret = cast(zpl_u8 *)zpl_alloc(a, alen+1);
-
-    ZPL_ASSERT_NOT_NULL(ret);
-
-    ret[alen] = 0;
+    /* whole groups of four, padding in the last two places only */
+    if (len < 0 || len % 4 != 0)
+        return NULL;
 
     for (i=0; i<len; i++) {
         if (!zpl__base64_valid_char(s[i]))
             return NULL;
+        if (s[i] == '=' && i != len-1 && (i != len-2 || s[len-1] != '='))
+            return NULL;
     }
 
+    alen = zpl__base64_decoded_size(s, len);
+    ret = cast(zpl_u8 *)zpl_alloc(a, alen+1);
+
+    ZPL_ASSERT_NOT_NULL(ret);
+
+    ret[alen] = 0;
+
     for (i=0, j=0; i<len; i+=4, j+=3) {
         v = zpl__base64_dec_table[s[i]-43];
         v = (v << 6) | zpl__base64_dec_table[s[i+1]-43];
-- 
2.43.0


From 5716676c6b8e2a03ba49dd3e2be8b68a241289a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:27 +0000
Subject: [PATCH 076/152] fix: options registered after a positional left it
 pointing into freed entries

---
 code/source/opts.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/code/source/opts.c b/code/source/opts.c
index bd4bf43..9b74007 100644
--- a/code/source/opts.c
+++ b/code/source/opts.c
@@ -42,7 +42,14 @@ void zpl_opts_add(zpl_opts *opts, char const *name, char const *lname, const cha
     e.met = false;
     e.pos = false;
 
+    zpl_opts_entry *old = opts->entries;
     zpl_array_append(opts->entries, e);
+
+    // NOTE: positionals refer to entries, which move as they grow
+    for (zpl_isize i = 0; old != opts->entries && i < zpl_array_count(opts->positioned); ++i) {
+        zpl_isize offset = zpl_pointer_diff(old, opts->positioned[i]);
+        opts->positioned[i] = cast(zpl_opts_entry *) zpl_pointer_add(opts->entries, offset);
+    }
 }
 
 zpl_opts_entry *zpl__opts_find(zpl_opts *opts, char const *name, zpl_usize len, zpl_b32 longname) {
-- 
2.43.0


From ed531ae65dc94119264368351f299545526221b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:31 +0000
Subject: [PATCH 077/152] fix: a string option given twice leaked its first
 value

---
 code/source/opts.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/source/opts.c b/code/source/opts.c
index 9b74007..5463514 100644
--- a/code/source/opts.c
+++ b/code/source/opts.c
@@ -100,6 +100,7 @@ void zpl__opts_set_value(zpl_opts *opts, zpl_opts_entry *t, char *b) {
 
     switch (t->type) {
         case ZPL_OPTS_STRING: {
+            if (t->text) zpl_string_free(t->text);
             t->text = zpl_string_make(opts->alloc, b);
         } break;
 
-- 
2.43.0


From b3501a41c668bb80066126b34222d4b481741342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:35 +0000
Subject: [PATCH 078/152] fix: giving an option without a long name crashed
 while positionals were pending

---
 code/source/opts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/opts.c b/code/source/opts.c
index 5463514..8a7b268 100644
--- a/code/source/opts.c
+++ b/code/source/opts.c
@@ -114,7 +114,7 @@ void zpl__opts_set_value(zpl_opts *opts, zpl_opts_entry *t, char *b) {
     }
 
     for (zpl_isize i=0; i < zpl_array_count(opts->positioned); i++) {
-        if (!zpl_strcmp(opts->positioned[i]->lname, t->lname)) {
+        if (opts->positioned[i] == t) {
             zpl_array_remove_at(opts->positioned, i);
             break;
         }
-- 
2.43.0


From 9bff6366be9a6a34bb9013a59107b21a85825d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:39 +0000
Subject: [PATCH 079/152] fix: option help read an entry past the last one

---
 code/source/opts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/opts.c b/code/source/opts.c
index 8a7b268..4eb2d09 100644
--- a/code/source/opts.c
+++ b/code/source/opts.c
@@ -132,7 +132,7 @@ zpl_b32 zpl_opts_has_arg(zpl_opts *opts, char const *name) {
 void zpl_opts_print_help(zpl_opts *opts) {
     zpl_printf("USAGE: %s", opts->appname);
 
-    for (zpl_isize i = zpl_array_count(opts->entries); i >= 0; --i) {
+    for (zpl_isize i = zpl_array_count(opts->entries) - 1; i >= 0; --i) {
         zpl_opts_entry *e = opts->entries + i;
 
         if (e->pos == (zpl_b32) true) { zpl_printf(" [%s]", e->lname); }
-- 
2.43.0


From 63052a0c1e6ebb83fcb89aa65606af324461df2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 080/152] fix: the error about a flag followed by a value named
 no option

---
 code/source/opts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/opts.c b/code/source/opts.c
index 4eb2d09..541cebb 100644
--- a/code/source/opts.c
+++ b/code/source/opts.c
@@ -216,7 +216,7 @@ zpl_b32 zpl_opts_compile(zpl_opts *opts, int argc, char **argv) {
 
                         if (sp && *sp != '-' && (zpl_array_count(opts->positioned) < 1  || t->type != ZPL_OPTS_FLAG)) {
                             if (t->type == ZPL_OPTS_FLAG) {
-                                zpl__opts_push_error(opts, b, ZPL_OPTS_ERR_EXTRA_VALUE);
+                                zpl__opts_push_error(opts, ob, ZPL_OPTS_ERR_EXTRA_VALUE);
                                 had_errors = true;
                                 continue;
                             }
-- 
2.43.0


From f0692fa6c8c9d5b071470ecbce847a814cba58b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:24 +0000
Subject: [PATCH 081/152] fix: skipping past a text that ends with a backslash
 ran over its end

---
 code/header/core/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index f9e389b..f4039cc 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -345,7 +345,7 @@ ZPL_IMPL_INLINE zpl_b32 zpl__is_delim_char(char c) { return !!zpl_strchr(",|\n",
 
 ZPL_IMPL_INLINE char const *zpl_str_control_skip(char const *str, char c) {
     char const *begin = str;
-    while ((*str && *str != c) || (str != begin && *(str - 1) == '\\' && *str == c && zpl_char_is_control(c))) { ++str; }
+    while ((*str && *str != c) || (*str && str != begin && *(str - 1) == '\\' && *str == c && zpl_char_is_control(c))) { ++str; }
 
     return str;
 }
-- 
2.43.0


From 86839a18fe793c1686eadac873db45891f3e1395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:30 +0000
Subject: [PATCH 082/152] fix: reading a socket's address or a datagram's
 sender passed an integer as the length pointer and always failed

---
 code/source/socket.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/code/source/socket.c b/code/source/socket.c
index c40695f..8e6de2b 100644
--- a/code/source/socket.c
+++ b/code/source/socket.c
@@ -138,7 +138,8 @@ ZPL_DEF zpl_socket zpl_socket_accept(zpl_socket socket, zpl_socket_addr *addr) {
 }
 
 ZPL_DEF zpl_i32 zpl_socket_get_address(zpl_socket socket, zpl_socket_addr *addr) {
-    return getsockname(socket, (struct sockaddr *)addr, (socklen_t *)sizeof(*addr));
+    socklen_t len = sizeof(*addr);
+    return getsockname(socket, (struct sockaddr *)addr, &len);
 }
 
 ZPL_DEF zpl_i32 zpl_socket_get_address_info(zpl_socket_addr *addr, char *host, zpl_i32 host_size, char *service, zpl_i32 service_size) {
@@ -158,7 +159,8 @@ ZPL_DEF zpl_i32 zpl_socket_send_to(zpl_socket socket, zpl_socket_addr *addr, con
 }
 
 ZPL_DEF zpl_i32 zpl_socket_receive_from(zpl_socket socket, zpl_socket_addr *addr, char *buffer, zpl_i32 size) {
-    return recvfrom(socket, buffer, size, 0, (struct sockaddr *)addr, (socklen_t *)sizeof(*addr));
+    socklen_t len = sizeof(*addr);
+    return recvfrom(socket, buffer, size, 0, (struct sockaddr *)addr, addr ? &len : NULL);
 }
 
 ZPL_DEF zpl_i32 zpl_socket_select(zpl_socket socket, zpl_f64 time) {
-- 
2.43.0


From 51c6e65747c7c48cc32aa721dacd6b284e51c74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:33 +0000
Subject: [PATCH 083/152] fix: a socket that failed to bind, connect or become
 non-blocking leaked its descriptor

---
 code/source/socket.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/source/socket.c b/code/source/socket.c
index 8e6de2b..39d577d 100644
--- a/code/source/socket.c
+++ b/code/source/socket.c
@@ -67,6 +67,7 @@ ZPL_DEF zpl_socket zpl_socket_create(zpl_i32 protocol, zpl_i32 mode, char flags,
 
     if (mode == ZPL_SOCKET_BIND) {
         if (bind(sock, result->ai_addr, (int)result->ai_addrlen) != 0) {
+            zpl_socket_close(sock);
             freeaddrinfo(result);
             return -1;
         }
@@ -76,11 +77,13 @@ ZPL_DEF zpl_socket zpl_socket_create(zpl_i32 protocol, zpl_i32 mode, char flags,
 #   if defined(ZPL_SYSTEM_WINDOWS)
         DWORD non_blocking = 1;
         if (ioctlsocket(sock, FIONBIO, &non_blocking)) {
+            zpl_socket_close(sock);
             freeaddrinfo(result);
             return -1;
         }
 #   else
         if (fcntl(sock, F_SETFL, O_NONBLOCK) == -1) {
+            zpl_socket_close(sock);
             freeaddrinfo(result);
             return -1;
         }
@@ -89,6 +92,7 @@ ZPL_DEF zpl_socket zpl_socket_create(zpl_i32 protocol, zpl_i32 mode, char flags,
 
     if (mode == ZPL_SOCKET_CONNECT) {
         if (connect(sock, result->ai_addr, (int)result->ai_addrlen) != 0 && !(flags & ZPL_SOCKET_NON_BLOCKING)) {
+            zpl_socket_close(sock);
             freeaddrinfo(result);
             return -1;
         }
-- 
2.43.0


From a7ac26f338c682cbc1d2bd29a8e86425ac209412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:37 +0000
Subject: [PATCH 084/152] fix: waiting on a socket numbered beyond the
 descriptor set wrote past the set

---
 code/source/socket.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/code/source/socket.c b/code/source/socket.c
index 39d577d..a2783c7 100644
--- a/code/source/socket.c
+++ b/code/source/socket.c
@@ -172,6 +172,9 @@ ZPL_DEF zpl_i32 zpl_socket_select(zpl_socket socket, zpl_f64 time) {
     struct timeval tv;
 
     FD_ZERO(&fds);
+#   if !defined(ZPL_SYSTEM_WINDOWS)
+    if (socket >= FD_SETSIZE) return -1; // NOTE: does not fit the set
+#   endif
     if (socket > -1) FD_SET(socket, &fds);
 
     tv.tv_sec = (long)time;
@@ -187,6 +190,9 @@ ZPL_DEF zpl_i32 zpl_socket_multi_select(zpl_socket *sockets, zpl_i32 count, zpl_
 
     FD_ZERO(&fds);
     for (i = 0; i < count; ++i) {
+#   if !defined(ZPL_SYSTEM_WINDOWS)
+        if (sockets[i] >= FD_SETSIZE) return -1; // NOTE: does not fit the set
+#   endif
         if (sockets[i] > max) max = sockets[i];
         if (sockets[i] > -1) FD_SET(sockets[i], &fds);
     }
-- 
2.43.0


From cadc687ced022b91249dab615c0f6030c5fbb769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:11 +0000
Subject: [PATCH 085/152] fix: spin locks never took the lock: the
 compare-exchange had its expected and new values swapped

---
 code/source/threading/atomic.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/source/threading/atomic.c b/code/source/threading/atomic.c
index 333b13e..e0f9367 100644
--- a/code/source/threading/atomic.c
+++ b/code/source/threading/atomic.c
@@ -400,11 +400,11 @@ ZPL_BEGIN_C_DECLS
 
 
 zpl_b32 zpl_atomic32_spin_lock(zpl_atomic32 *a, zpl_isize time_out) {
-    zpl_atomicarg(zpl_i32) old_value = zpl_atomic32_compare_exchange(a, 1, 0);
+    zpl_atomicarg(zpl_i32) old_value = zpl_atomic32_compare_exchange(a, 0, 1);
     zpl_i32 counter = 0;
     while (old_value != 0 && (time_out < 0 || counter++ < time_out)) {
         zpl_yield_thread();
-        old_value = zpl_atomic32_compare_exchange(a, 1, 0);
+        old_value = zpl_atomic32_compare_exchange(a, 0, 1);
         zpl_mfence();
     }
     return old_value == 0;
@@ -416,11 +416,11 @@ void zpl_atomic32_spin_unlock(zpl_atomic32 *a) {
 }
 
 zpl_b32 zpl_atomic64_spin_lock(zpl_atomic64 *a, zpl_isize time_out) {
-    zpl_atomicarg(zpl_i64) old_value = zpl_atomic64_compare_exchange(a, 1, 0);
+    zpl_atomicarg(zpl_i64) old_value = zpl_atomic64_compare_exchange(a, 0, 1);
     zpl_atomicarg(zpl_i64) counter = 0;
     while (old_value != 0 && (time_out < 0 || counter++ < time_out)) {
         zpl_yield_thread();
-        old_value = zpl_atomic64_compare_exchange(a, 1, 0);
+        old_value = zpl_atomic64_compare_exchange(a, 0, 1);
         zpl_mfence();
     }
     return old_value == 0;
@@ -434,7 +434,7 @@ void zpl_atomic64_spin_unlock(zpl_atomic64 *a) {
 zpl_b32 zpl_atomic32_try_acquire_lock(zpl_atomic32 *a) {
     zpl_atomicarg(zpl_i32) old_value;
     zpl_yield_thread();
-    old_value = zpl_atomic32_compare_exchange(a, 1, 0);
+    old_value = zpl_atomic32_compare_exchange(a, 0, 1);
     zpl_mfence();
     return old_value == 0;
 }
@@ -442,7 +442,7 @@ zpl_b32 zpl_atomic32_try_acquire_lock(zpl_atomic32 *a) {
 zpl_b32 zpl_atomic64_try_acquire_lock(zpl_atomic64 *a) {
     zpl_atomicarg(zpl_i64) old_value;
     zpl_yield_thread();
-    old_value = zpl_atomic64_compare_exchange(a, 1, 0);
+    old_value = zpl_atomic64_compare_exchange(a, 0, 1);
     zpl_mfence();
     return old_value == 0;
 }
-- 
2.43.0


From 46964a4e1149429e0d734b5fce484087144d7379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:15 +0000
Subject: [PATCH 086/152] fix: mutex try_lock, init and destroy returned the
 opposite of success on POSIX systems

---
 code/source/threading/mutex.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/source/threading/mutex.c b/code/source/threading/mutex.c
index f9cc14f..e3589c4 100644
--- a/code/source/threading/mutex.c
+++ b/code/source/threading/mutex.c
@@ -8,7 +8,7 @@ zpl_b32 zpl_mutex_init(zpl_mutex *m) {
         InitializeCriticalSection((CRITICAL_SECTION*)m->win32_critical_section);
         return 1;
 #    else
-        return pthread_mutex_init(&m->pthread_mutex, NULL);
+        return pthread_mutex_init(&m->pthread_mutex, NULL) == 0;
 #    endif
 }
 
@@ -17,7 +17,7 @@ zpl_b32 zpl_mutex_destroy(zpl_mutex *m) {
         DeleteCriticalSection((CRITICAL_SECTION*)m->win32_critical_section);
         return 1;
 #    else
-        return pthread_mutex_destroy(&m->pthread_mutex);
+        return pthread_mutex_destroy(&m->pthread_mutex) == 0;
 #    endif
 }
 
@@ -33,7 +33,7 @@ zpl_b32 zpl_mutex_try_lock(zpl_mutex *m) {
 #    if defined(ZPL_SYSTEM_WINDOWS)
         return TryEnterCriticalSection((CRITICAL_SECTION*)m->win32_critical_section);
 #    else
-        return pthread_mutex_trylock(&m->pthread_mutex);
+        return pthread_mutex_trylock(&m->pthread_mutex) == 0;
 #    endif
 }
 
-- 
2.43.0


From efbb27b78c53eab7fc8ff58f22d73a23b6683d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:39 +0000
Subject: [PATCH 087/152] fix: atomic operations let the compiler move other
 memory accesses across them

---
 code/source/threading/atomic.c | 58 ++++++++++++++++++++++++----------
 1 file changed, 42 insertions(+), 16 deletions(-)

diff --git a/code/source/threading/atomic.c b/code/source/threading/atomic.c
index e0f9367..35a9f83 100644
--- a/code/source/threading/atomic.c
+++ b/code/source/threading/atomic.c
@@ -138,15 +138,26 @@ ZPL_BEGIN_C_DECLS
 
 #elif defined(ZPL_CPU_X86)
 
-    zpl_i32 zpl_atomic32_load (zpl_atomic32 const *a)      { return a->value;  }
-    void zpl_atomic32_store(zpl_atomic32 *a, zpl_atomicarg(zpl_i32) value) { a->value = value; }
+    // NOTE: Keeps the compiler from moving other memory accesses across an atomic
+#    define ZPL__ATOMIC_BARRIER() __asm__ __volatile__("" : : : "memory")
+
+    zpl_i32 zpl_atomic32_load (zpl_atomic32 const *a) {
+        zpl_i32 value = a->value;
+        ZPL__ATOMIC_BARRIER();
+        return value;
+    }
+    void zpl_atomic32_store(zpl_atomic32 *a, zpl_atomicarg(zpl_i32) value) {
+        ZPL__ATOMIC_BARRIER();
+        a->value = value;
+    }
 
     zpl_i32 zpl_atomic32_compare_exchange(zpl_atomic32 *a, zpl_atomicarg(zpl_i32) expected, zpl_atomicarg(zpl_i32) desired) {
         zpl_atomicarg(zpl_i32) original;
-        __asm__(
+        __asm__ __volatile__(
             "lock; cmpxchgl %2, %1"
             : "=a"(original), "+m"(a->value)
             : "q"(desired), "0"(expected)
+            : "memory", "cc"
             );
         return original;
     }
@@ -154,20 +165,22 @@ ZPL_BEGIN_C_DECLS
     zpl_i32 zpl_atomic32_exchange(zpl_atomic32 *a, zpl_atomicarg(zpl_i32) desired) {
         // NOTE: No lock prefix is necessary for xchgl
         zpl_atomicarg(zpl_i32) original;
-        __asm__(
+        __asm__ __volatile__(
             "xchgl %0, %1"
             : "=r"(original), "+m"(a->value)
             : "0"(desired)
+            : "memory", "cc"
             );
         return original;
     }
 
     zpl_i32 zpl_atomic32_fetch_add(zpl_atomic32 *a, zpl_atomicarg(zpl_i32) operand) {
         zpl_atomicarg(zpl_i32) original;
-        __asm__(
+        __asm__ __volatile__(
             "lock; xaddl %0, %1"
             : "=r"(original), "+m"(a->value)
             : "0"(operand)
+            : "memory", "cc"
             );
         return original;
     }
@@ -175,7 +188,7 @@ ZPL_BEGIN_C_DECLS
     zpl_i32 zpl_atomic32_fetch_and(zpl_atomic32 *a, zpl_atomicarg(zpl_i32) operand) {
         zpl_atomicarg(zpl_i32) original;
         zpl_atomicarg(zpl_i32) tmp;
-        __asm__(
+        __asm__ __volatile__(
             "1:     movl    %1, %0\n"
             "       movl    %0, %2\n"
             "       andl    %3, %2\n"
@@ -183,6 +196,7 @@ ZPL_BEGIN_C_DECLS
             "       jne     1b"
             : "=&a"(original), "+m"(a->value), "=&r"(tmp)
             : "r"(operand)
+            : "memory", "cc"
             );
         return original;
     }
@@ -190,7 +204,7 @@ ZPL_BEGIN_C_DECLS
     zpl_i32 zpl_atomic32_fetch_or(zpl_atomic32 *a, zpl_atomicarg(zpl_i32) operand) {
         zpl_atomicarg(zpl_i32) original;
         zpl_atomicarg(zpl_i32) temp;
-        __asm__(
+        __asm__ __volatile__(
             "1:     movl    %1, %0\n"
             "       movl    %0, %2\n"
             "       orl     %3, %2\n"
@@ -198,6 +212,7 @@ ZPL_BEGIN_C_DECLS
             "       jne     1b"
             : "=&a"(original), "+m"(a->value), "=&r"(temp)
             : "r"(operand)
+            : "memory", "cc"
             );
         return original;
     }
@@ -205,15 +220,18 @@ ZPL_BEGIN_C_DECLS
 
     zpl_i64 zpl_atomic64_load(zpl_atomic64 const *a) {
 #        if defined(ZPL_ARCH_64_BIT)
-            return a->value;
+            zpl_i64 value = a->value;
+            ZPL__ATOMIC_BARRIER();
+            return value;
 #        else
             zpl_atomicarg(zpl_i64) original;
-            __asm__(
+            __asm__ __volatile__(
                 "movl %%ebx, %%eax\n"
                 "movl %%ecx, %%edx\n"
                 "lock; cmpxchg8b %1"
                 : "=&A"(original)
                 : "m"(a->value)
+                : "memory", "cc"
                 );
             return original;
 #        endif
@@ -221,14 +239,16 @@ ZPL_BEGIN_C_DECLS
 
     void zpl_atomic64_store(zpl_atomic64 *a, zpl_atomicarg(zpl_i64) value) {
 #        if defined(ZPL_ARCH_64_BIT)
+            ZPL__ATOMIC_BARRIER();
             a->value = value;
 #        else
             zpl_atomicarg(zpl_i64) expected = a->value;
-            __asm__(
+            __asm__ __volatile__(
                 "1:    cmpxchg8b %0\n"
                 "      jne 1b"
                 : "=m"(a->value)
                 : "b"((zpl_atomicarg(zpl_i32))value), "c"((zpl_atomicarg(zpl_i32))(value >> 32)), "A"(expected)
+                : "memory", "cc"
                 );
 #        endif
     }
@@ -236,18 +256,20 @@ ZPL_BEGIN_C_DECLS
     zpl_i64 zpl_atomic64_compare_exchange(zpl_atomic64 *a, zpl_atomicarg(zpl_i64) expected, zpl_atomicarg(zpl_i64) desired) {
 #        if defined(ZPL_ARCH_64_BIT)
             zpl_atomicarg(zpl_i64) original;
-            __asm__(
+            __asm__ __volatile__(
                 "lock; cmpxchgq %2, %1"
                 : "=a"(original), "+m"(a->value)
                 : "q"(desired), "0"(expected)
+                : "memory", "cc"
                 );
             return original;
 #        else
             zpl_atomicarg(zpl_i64) original;
-            __asm__(
+            __asm__ __volatile__(
                 "lock; cmpxchg8b %1"
                 : "=A"(original), "+m"(a->value)
                 : "b"((zpl_atomicarg(zpl_i32))desired), "c"((zpl_atomicarg(zpl_i32))(desired >> 32)), "0"(expected)
+                : "memory", "cc"
                 );
             return original;
 #        endif
@@ -256,10 +278,11 @@ ZPL_BEGIN_C_DECLS
     zpl_i64 zpl_atomic64_exchange(zpl_atomic64 *a, zpl_atomicarg(zpl_i64) desired) {
 #        if defined(ZPL_ARCH_64_BIT)
             zpl_atomicarg(zpl_i64) original;
-            __asm__(
+            __asm__ __volatile__(
                 "xchgq %0, %1"
                 : "=r"(original), "+m"(a->value)
                 : "0"(desired)
+                : "memory", "cc"
                 );
             return original;
 #        else
@@ -276,10 +299,11 @@ ZPL_BEGIN_C_DECLS
     zpl_i64 zpl_atomic64_fetch_add(zpl_atomic64 *a, zpl_atomicarg(zpl_i64) operand) {
 #        if defined(ZPL_ARCH_64_BIT)
             zpl_atomicarg(zpl_i64) original;
-            __asm__(
+            __asm__ __volatile__(
                 "lock; xaddq %0, %1"
                 : "=r"(original), "+m"(a->value)
                 : "0"(operand)
+                : "memory", "cc"
                 );
             return original;
 #        else
@@ -295,7 +319,7 @@ ZPL_BEGIN_C_DECLS
 #        if defined(ZPL_ARCH_64_BIT)
             zpl_atomicarg(zpl_i64) original;
             zpl_atomicarg(zpl_i64) tmp;
-            __asm__(
+            __asm__ __volatile__(
                 "1:     movq    %1, %0\n"
                 "       movq    %0, %2\n"
                 "       andq    %3, %2\n"
@@ -303,6 +327,7 @@ ZPL_BEGIN_C_DECLS
                 "       jne     1b"
                 : "=&a"(original), "+m"(a->value), "=&r"(tmp)
                 : "r"(operand)
+                : "memory", "cc"
                 );
             return original;
 #        else
@@ -318,7 +343,7 @@ ZPL_BEGIN_C_DECLS
 #        if defined(ZPL_ARCH_64_BIT)
             zpl_atomicarg(zpl_i64) original;
             zpl_atomicarg(zpl_i64) temp;
-            __asm__(
+            __asm__ __volatile__(
                 "1:     movq    %1, %0\n"
                 "       movq    %0, %2\n"
                 "       orq     %3, %2\n"
@@ -326,6 +351,7 @@ ZPL_BEGIN_C_DECLS
                 "       jne     1b"
                 : "=&a"(original), "+m"(a->value), "=&r"(temp)
                 : "r"(operand)
+                : "memory", "cc"
                 );
             return original;
 #        else
-- 
2.43.0


From ac0e5fd971f9f8eb038d7e61566b896aab9726e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:42 +0000
Subject: [PATCH 088/152] fix: the portable compare-exchange returned whether
 it succeeded instead of the previous value

---
 code/source/threading/atomic.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/code/source/threading/atomic.c b/code/source/threading/atomic.c
index 35a9f83..5f47827 100644
--- a/code/source/threading/atomic.c
+++ b/code/source/threading/atomic.c
@@ -372,7 +372,8 @@ ZPL_BEGIN_C_DECLS
     }
 
     zpl_i32 zpl_atomic32_compare_exchange(zpl_atomic32 *a, zpl_atomicarg(zpl_i32) expected, zpl_atomicarg(zpl_i32) desired) {
-        return __atomic_compare_exchange_n((zpl_i32*)&a->value, (zpl_i32*)&expected, desired, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
+        __atomic_compare_exchange_n((zpl_i32*)&a->value, (zpl_i32*)&expected, desired, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
+        return expected; // NOTE: holds the previous value either way
     }
 
     zpl_i32 zpl_atomic32_exchange(zpl_atomic32 *a, zpl_atomicarg(zpl_i32) desired) {
@@ -400,7 +401,8 @@ ZPL_BEGIN_C_DECLS
     }
 
     zpl_i64 zpl_atomic64_compare_exchange(zpl_atomic64 *a, zpl_atomicarg(zpl_i64) expected, zpl_atomicarg(zpl_i64) desired) {
-        return __atomic_compare_exchange_n((zpl_i64*)&a->value, (zpl_i64*)&expected, desired, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
+        __atomic_compare_exchange_n((zpl_i64*)&a->value, (zpl_i64*)&expected, desired, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
+        return expected; // NOTE: holds the previous value either way
     }
 
     zpl_i64 zpl_atomic64_exchange(zpl_atomic64 *a, zpl_atomicarg(zpl_i64) desired) {
-- 
2.43.0


From 83e04981ba4943689c30e05d0a8923fe03c64eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:46 +0000
Subject: [PATCH 089/152] hook: ZPL_VERIFY_PORTABLE_ATOMICS selects the
 compiler-builtin atomics on x86

---
 code/source/threading/atomic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/threading/atomic.c b/code/source/threading/atomic.c
index 5f47827..e899371 100644
--- a/code/source/threading/atomic.c
+++ b/code/source/threading/atomic.c
@@ -136,7 +136,7 @@ ZPL_BEGIN_C_DECLS
 #        endif
     }
 
-#elif defined(ZPL_CPU_X86)
+#elif defined(ZPL_CPU_X86) && !defined(ZPL_VERIFY_PORTABLE_ATOMICS)
 
     // NOTE: Keeps the compiler from moving other memory accesses across an atomic
 #    define ZPL__ATOMIC_BARRIER() __asm__ __volatile__("" : : : "memory")
-- 
2.43.0


From efefb64a3779cc42b909c7cc0a581c6e80212b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:49 +0000
Subject: [PATCH 090/152] fix: a thread that could not be started was reported
 as started

---
 code/source/threading/thread.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/source/threading/thread.c b/code/source/threading/thread.c
index da1d84c..96523b8 100644
--- a/code/source/threading/thread.c
+++ b/code/source/threading/thread.c
@@ -80,10 +80,11 @@ zpl_b32 zpl_thread_start_with_stack(zpl_thread *t, zpl_thread_proc proc, void *u
         if (stack_size != 0)
             pthread_attr_setstacksize(&attr, stack_size);
         zpl_b32 res = pthread_create(&t->posix_handle, &attr, zpl__thread_proc, t);
+        pthread_attr_destroy(&attr);
         if (res != 0) {
-            return res;
+            t->posix_handle = 0;
+            return false;
         }
-        pthread_attr_destroy(&attr);
     }
 #    endif
     if (!t->nowait)
-- 
2.43.0


From 618ab5f48cd89a97a8b288b6db87754c1638e704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:53 +0000
Subject: [PATCH 091/152] fix: shutting down the job system hung when a worker
 picked up a job at that moment

---
 code/source/jobs.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/source/jobs.c b/code/source/jobs.c
index d402475..5150584 100644
--- a/code/source/jobs.c
+++ b/code/source/jobs.c
@@ -21,7 +21,9 @@ zpl_isize zpl__jobs_entry(struct zpl_thread *thread) {
 
         switch (status) {
             case ZPL_JOBS_STATUS_READY: {
-                zpl_atomic32_store(&tw->status, ZPL_JOBS_STATUS_BUSY);
+                // NOTE: The system may be shutting down by now
+                if (zpl_atomic32_compare_exchange(&tw->status, ZPL_JOBS_STATUS_READY, ZPL_JOBS_STATUS_BUSY) != ZPL_JOBS_STATUS_READY)
+                    break;
                 tw->job.proc(tw->job.data);
                 zpl_atomic32_compare_exchange(&tw->status, ZPL_JOBS_STATUS_BUSY, ZPL_JOBS_STATUS_WAITING);
 
-- 
2.43.0


From 2e4fcabba8d89c66ad895e0cc3a010a49634e153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:57 +0000
Subject: [PATCH 092/152] fix: a synchronisation object unlocked a mutex from a
 thread that had not locked it

---
 code/header/threading/sync.h | 2 +-
 code/source/threading/sync.c | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/code/header/threading/sync.h b/code/header/threading/sync.h
index 83436bf..9e61c7a 100644
--- a/code/header/threading/sync.h
+++ b/code/header/threading/sync.h
@@ -10,7 +10,7 @@ typedef struct zpl_sync {
     zpl_i32 current; // Threads to hit
     zpl_i32 waiting; // Threads waiting
 
-    zpl_mutex start;
+    zpl_semaphore start; // NOTE: taken and given back by different threads
     zpl_mutex mutex;
     zpl_semaphore release;
 } zpl_sync;
diff --git a/code/source/threading/sync.c b/code/source/threading/sync.c
index 9becac4..85974c0 100644
--- a/code/source/threading/sync.c
+++ b/code/source/threading/sync.c
@@ -6,7 +6,8 @@ ZPL_BEGIN_C_DECLS
 void zpl_sync_init(zpl_sync *s) {
     zpl_zero_item(s);
     zpl_mutex_init(&s->mutex);
-    zpl_mutex_init(&s->start);
+    zpl_semaphore_init(&s->start);
+    zpl_semaphore_release(&s->start);
     zpl_semaphore_init(&s->release);
 }
 
@@ -16,12 +17,12 @@ void zpl_sync_destroy(zpl_sync *s) {
     }
 
     zpl_mutex_destroy(&s->mutex);
-    zpl_mutex_destroy(&s->start);
+    zpl_semaphore_destroy(&s->start);
     zpl_semaphore_destroy(&s->release);
 }
 
 void zpl_sync_set_target(zpl_sync *s, zpl_i32 count) {
-    zpl_mutex_lock(&s->start);
+    zpl_semaphore_wait(&s->start);
 
     zpl_mutex_lock(&s->mutex);
     ZPL_ASSERT(s->target == 0);
@@ -36,7 +37,7 @@ void zpl_sync_release(zpl_sync *s) {
         zpl_semaphore_release(&s->release);
     } else {
         s->target = 0;
-        zpl_mutex_unlock(&s->start);
+        zpl_semaphore_release(&s->start);
     }
 }
 
-- 
2.43.0


From ccce3819b7f0508862a76b40877b2c7f71d20fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:20 +0000
Subject: [PATCH 093/152] fix: document nodes kept a pointer to where their
 parent used to be, and moving a node within its parent removed another one

---
 code/source/adt.c | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index e8df32b..42a456b 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -7,6 +7,17 @@ do {
     if (zpl_fprintf(s_, fmt_, ##__VA_ARGS__) < 0) return ZPL_ADT_ERROR_OUT_OF_MEMORY;                              \
 } while (0)
 
+/* nodes point at their parent, so moving them in memory has to be followed by an update of these pointers */
+zpl_internal void zpl__adt_relink(zpl_adt_node *parent, zpl_isize from) {
+    for (zpl_isize i = from; i < zpl_array_count(parent->nodes); ++i) {
+        zpl_adt_node *node = parent->nodes + i;
+        node->parent = parent;
+        if ((node->type == ZPL_ADT_TYPE_OBJECT || node->type == ZPL_ADT_TYPE_ARRAY) && node->nodes) {
+            for (zpl_isize j = 0; j < zpl_array_count(node->nodes); ++j) { node->nodes[j].parent = node; }
+        }
+    }
+}
+
 zpl_u8 zpl_adt_make_branch(zpl_adt_node *node, zpl_allocator backing, char const *name, zpl_b32 is_array) {
     zpl_u8 type = ZPL_ADT_TYPE_OBJECT;
     if (is_array) {
@@ -229,9 +240,11 @@ zpl_adt_node *zpl_adt_alloc_at(zpl_adt_node *parent, zpl_isize index) {
 
     zpl_adt_node o = {0};
     o.parent = parent;
+    zpl_adt_node *old_nodes = parent->nodes;
     if (!zpl_array_append_at(parent->nodes, o, index))
         return NULL;
 
+    zpl__adt_relink(parent, parent->nodes == old_nodes ? index : 0);
     return parent->nodes + index;
 }
 
@@ -272,11 +285,20 @@ zpl_b8 zpl_adt_set_int(zpl_adt_node *obj, char const *name, zpl_i64 value) {
 zpl_adt_node *zpl_adt_move_node_at(zpl_adt_node *node, zpl_adt_node *new_parent, zpl_isize index) {
     ZPL_ASSERT_NOT_NULL(node);
     ZPL_ASSERT_NOT_NULL(new_parent);
-    zpl_adt_node *old_parent = node->parent;
+    zpl_adt_node moved = *node;
+    zpl_b32 same_parent = node->parent == new_parent;
+    zpl_isize old_index = same_parent ? (zpl_pointer_diff(new_parent->nodes, node) / zpl_size_of(zpl_adt_node)) : 0;
     zpl_adt_node *new_node = zpl_adt_alloc_at(new_parent, index);
-    *new_node = *node;
-    new_node->parent = new_parent;
-    if (old_parent) {
+    if (!new_node)
+        return NULL;
+    *new_node = moved;
+    zpl__adt_relink(new_parent, index);
+    if (same_parent) {
+        /* the new slot has shifted the node, and removing it shifts the new slot back */
+        zpl_adt_remove_node(new_parent->nodes + (index <= old_index ? old_index + 1 : old_index));
+        if (index > old_index)
+            new_node--;
+    } else if (node->parent) {
         zpl_adt_remove_node(node);
     }
     return new_node;
@@ -301,6 +323,8 @@ void zpl_adt_swap_nodes(zpl_adt_node *node, zpl_adt_node *other_node) {
     other_parent->nodes[index2].parent = parent;
     parent->nodes[index] = other_parent->nodes[index2];
     other_parent->nodes[index2] = temp;
+    zpl__adt_relink(parent, index);
+    zpl__adt_relink(other_parent, index2);
 }
 
 void zpl_adt_remove_node(zpl_adt_node *node) {
@@ -309,6 +333,7 @@ void zpl_adt_remove_node(zpl_adt_node *node) {
     zpl_adt_node *parent = node->parent;
     zpl_isize index = (zpl_pointer_diff(parent->nodes, node) / zpl_size_of(zpl_adt_node));
     zpl_array_remove_at(parent->nodes, index);
+    zpl__adt_relink(parent, index);
 }
 
 
-- 
2.43.0


From 966a9a383a8bd2b10752414622eddc8ace1b70f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:08 +0000
Subject: [PATCH 094/152] fix: numerals in documents overran the parser's
 buffers, were misread when written with an exponent, and other text was taken
 for numbers

---
 code/header/adt.h |   4 +-
 code/source/adt.c | 186 ++++++++++++++++++++--------------------------
 2 files changed, 83 insertions(+), 107 deletions(-)

diff --git a/code/header/adt.h b/code/header/adt.h
index 88b7210..2762bdf 100644
--- a/code/header/adt.h
+++ b/code/header/adt.h
@@ -84,8 +84,8 @@ typedef struct zpl_adt_node {
             /* number analysis */
             zpl_i32 base;
             zpl_i32 base2;
-            zpl_u8 base2_offset:4;
-            zpl_i8 exp         :4;
+            zpl_u8 base2_offset;
+            zpl_i8 exp;
             zpl_u8 neg_zero  :1;
             zpl_u8 lead_digit:1;
 #endif
diff --git a/code/source/adt.c b/code/source/adt.c
index 42a456b..a0e21c0 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -378,138 +378,115 @@ zpl_adt_node *zpl_adt_append_int(zpl_adt_node *parent, char const *name, zpl_i64
 char *zpl_adt_parse_number_strict(zpl_adt_node *node, char* base_str) {
     ZPL_ASSERT_NOT_NULL(node);
     ZPL_ASSERT_NOT_NULL(base_str);
-    char *p = base_str, *e = p;
+    zpl_adt_node number = *node;
+    number.type = ZPL_ADT_TYPE_UNINITIALISED;
+    char *e = zpl_adt_parse_number(&number, base_str);
 
-    while (*e)
-        ++e;
+    /* the number has to span the whole text */
+    if (number.type == ZPL_ADT_TYPE_UNINITIALISED || *e)
+        return base_str;
 
-    while (*p && (zpl_strchr("eE.+-", *p) || zpl_char_is_hex_digit(*p))) {
-        ++p;
-    }
-
-    if (p >= e) {
-        return zpl_adt_parse_number(node, base_str);
-    }
-
-    return base_str;
+    *node = number;
+    return e;
 }
 
 char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
     ZPL_ASSERT_NOT_NULL(node);
     ZPL_ASSERT_NOT_NULL(base_str);
-    char *p = base_str, *e = p;
+    char *e = base_str;
 
     zpl_i32 base=0;
     zpl_i32 base2=0;
     zpl_u8 base2_offset=0;
-    zpl_i8 exp=0,orig_exp=0;
+    zpl_i32 exp=0;
     zpl_u8 neg_zero=0;
     zpl_u8 lead_digit=0;
-    zpl_u8 node_type=0;
-    zpl_u8 node_props=0;
-
-    /* skip false positives and special cases */
-    if (!!zpl_strchr("eE", *p) || (!!zpl_strchr(".+-", *p) && !zpl_char_is_hex_digit(*(p+1)) && *(p+1) != '.')) {
-        return ++base_str;
-    }
-
-    node_type = ZPL_ADT_TYPE_INTEGER;
-    neg_zero = false;
-
-    zpl_isize ib = 0;
-    char buf[48] = { 0 };
-
-    if (*e == '+')
-        ++e;
-    else if (*e == '-') {
-        buf[ib++] = *e++;
-    }
-
-    if (*e == '.') {
-        node_type = ZPL_ADT_TYPE_REAL;
-        node_props = ZPL_ADT_PROPS_IS_PARSED_REAL;
-        lead_digit = false;
-        buf[ib++] = '0';
-        do {
-            buf[ib++] = *e;
-        } while (zpl_char_is_digit(*++e));
+    zpl_u8 node_type=ZPL_ADT_TYPE_INTEGER;
+    zpl_u8 node_props=ZPL_ADT_PROPS_NONE;
+    zpl_b32 negative = *e == '-';
+    zpl_u64 value = 0;
+    zpl_u64 limit = negative ? cast(zpl_u64)ZPL_I64_MAX + 1 : cast(zpl_u64)ZPL_I64_MAX;
+
+    if (*e == '+' || *e == '-') ++e;
+
+    if (*e == '0' && (e[1] == 'x' || e[1] == 'X') && zpl_char_is_hex_digit(e[2])) {
+        node_props = ZPL_ADT_PROPS_IS_HEX;
+        e += 2;
+        while (zpl_char_is_hex_digit(*e)) { value = (value << 4) | cast(zpl_u64)zpl_hex_digit_to_int(*e++); }
+        node->integer = cast(zpl_i64)(negative ? 0 - value : value);
+        neg_zero = negative && value == 0;
     } else {
-        if (!zpl_strncmp(e, "0x", 2) || !zpl_strncmp(e, "0X", 2)) { node_props = ZPL_ADT_PROPS_IS_HEX; }
+        zpl_isize digits = 0;
+        zpl_isize zeros = 0;
+        zpl_isize digits2 = 0;
+        zpl_u64 value2 = 0;
+
+        for (; zpl_char_is_digit(*e); ++e, ++digits) {
+            zpl_u64 d = cast(zpl_u64)zpl_digit_to_int(*e);
+            if (value > (limit - d) / 10) node_type = ZPL_ADT_TYPE_REAL; /* too large for an integer */
+            value = value * 10 + d;
+        }
 
-        /* bail if ZPL_ADT_PROPS_IS_HEX is unset but we get 'x' on input */
-        if (zpl_char_to_lower(*e) == 'x' && (node_props != ZPL_ADT_PROPS_IS_HEX)) {
+        if (*e == '.' && (digits || zpl_char_is_digit(e[1]))) {
+            node_type = ZPL_ADT_TYPE_REAL;
+            lead_digit = digits > 0;
+            while (*++e == '0') { ++zeros; }
+            for (; zpl_char_is_digit(*e); ++e, ++digits2) { value2 = value2 * 10 + cast(zpl_u64)zpl_digit_to_int(*e); }
+
+            /* check if we have a dot here, this is a false positive (IP address, ...) */
+            if (*e == '.') {
+                return ++base_str;
+            }
+        } else if (!digits) {
             return ++base_str;
         }
 
-        while (zpl_char_is_hex_digit(*e) || zpl_char_to_lower(*e) == 'x') { buf[ib++] = *e++; }
+        if (*e == 'e' || *e == 'E') {
+            char *p = e + 1;
+            zpl_b32 exp_negative = *p == '-';
+            if (*p == '+' || *p == '-') ++p;
+            if (zpl_char_is_digit(*p)) {
+                for (; zpl_char_is_digit(*p); ++p) { if (exp < 1000000) exp = exp * 10 + zpl_digit_to_int(*p); }
+                if (exp_negative) exp = -exp;
+                e = p;
+            }
+        }
 
-        if (*e == '.') {
+        if (node_type == ZPL_ADT_TYPE_INTEGER && exp < 0) {
             node_type = ZPL_ADT_TYPE_REAL;
             lead_digit = true;
-            zpl_u32 step = 0;
-
-            do {
-                buf[ib++] = *e;
-                ++step;
-            } while (zpl_char_is_digit(*++e));
-
-            if (step < 2) { buf[ib++] = '0'; }
         }
-    }
-
-    /* check if we have a dot here, this is a false positive (IP address, ...) */
-    if (*e == '.') {
-        return ++base_str;
-    }
 
-    zpl_f32 eb = 10;
-    char expbuf[6] = { 0 };
-    zpl_isize expi = 0;
-
-    if (*e && !!zpl_strchr("eE", *e)) {
-        ++e;
-        if (*e == '+' || *e == '-' || zpl_char_is_digit(*e)) {
-            if (*e == '-') { eb = 0.1f; }
-            if (!zpl_char_is_digit(*e)) { ++e; }
-            while (zpl_char_is_digit(*e)) { expbuf[expi++] = *e++; }
+        if (node_type == ZPL_ADT_TYPE_INTEGER) {
+            zpl_u64 scaled = value;
+            for (zpl_i32 i = 0; scaled && i < exp && node_type == ZPL_ADT_TYPE_INTEGER; ++i) {
+                if (scaled > limit / 10) node_type = ZPL_ADT_TYPE_REAL;
+                else scaled *= 10;
+            }
+            if (node_type == ZPL_ADT_TYPE_INTEGER) value = scaled;
+            else lead_digit = true;
         }
 
-        orig_exp = exp = (zpl_u8)zpl_str_to_i64(expbuf, NULL, 10);
-    }
+        if (node_type == ZPL_ADT_TYPE_INTEGER) {
+            node->integer = cast(zpl_i64)(negative ? 0 - value : value);
+            neg_zero = negative && value == 0;
+        } else {
+            node->real = zpl_str_to_f64(base_str, 0);
 
-    if (node_type == ZPL_ADT_TYPE_INTEGER) {
-        node->integer = zpl_str_to_i64(buf, 0, 0);
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
-        /* special case: negative zero */
-        if (node->integer == 0 && buf[0] == '-') {
-            neg_zero = true;
-        }
+            /* keep the way it is written, unless it exceeds what we can keep */
+            if (digits <= 9 && digits2 <= 9 && zeros <= 255 && exp >= -128 && exp <= 127) {
+                base = cast(zpl_i32)value * (negative ? -1 : 1);
+                base2 = cast(zpl_i32)value2;
+                base2_offset = cast(zpl_u8)zeros;
+                neg_zero = negative && value == 0;
+                if (exp) node_props = ZPL_ADT_PROPS_IS_EXP;
+                else if (!lead_digit) node_props = ZPL_ADT_PROPS_IS_PARSED_REAL;
+            } else {
+                exp = 0;
+            }
 #endif
-        while (orig_exp-- > 0) { node->integer *= (zpl_i64)eb; }
-    } else {
-        node->real = zpl_str_to_f64(buf, 0);
-
-#ifndef ZPL_PARSER_DISABLE_ANALYSIS
-        char *q = buf, *base_string = q, *base_string2 = q;
-        base_string = cast(char *)zpl_str_skip(base_string, '.');
-        *base_string = '\0';
-        base_string2 = base_string + 1;
-        char *base_string_off = base_string2;
-        while (*base_string_off++ == '0') base2_offset++;
-
-        base = (zpl_i32)zpl_str_to_i64(q, 0, 0);
-        base2 = (zpl_i32)zpl_str_to_i64(base_string2, 0, 0);
-        if (exp) {
-            exp = exp * (!(eb == 10.0f) ? -1 : 1);
-            node_props = ZPL_ADT_PROPS_IS_EXP;
-        }
-
-        /* special case: negative zero */
-        if (base == 0 && buf[0] == '-') {
-            neg_zero = true;
         }
-#endif
-        while (orig_exp-- > 0) { node->real *= eb; }
     }
 
     node->type = node_type;
@@ -519,14 +496,13 @@ char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
     node->base = base;
     node->base2 = base2;
     node->base2_offset = base2_offset;
-    node->exp = exp;
+    node->exp = cast(zpl_i8)(node_type == ZPL_ADT_TYPE_REAL ? exp : 0);
     node->neg_zero = neg_zero;
     node->lead_digit = lead_digit;
 #else
     zpl_unused(base);
     zpl_unused(base2);
     zpl_unused(base2_offset);
-    zpl_unused(exp);
     zpl_unused(neg_zero);
     zpl_unused(lead_digit);
 #endif
-- 
2.43.0


From c56812333f7c9f73be1ae924649493db862d652b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:39 +0000
Subject: [PATCH 095/152] fix: a decimal fraction with a very long exponent was
 read with a wrapped one

---
 code/source/core/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/string.c b/code/source/core/string.c
index f26a3d2..98c30bb 100644
--- a/code/source/core/string.c
+++ b/code/source/core/string.c
@@ -189,7 +189,7 @@ zpl_f64 zpl_str_to_f64(const char *str, char **end_ptr) {
             str++;
         }
 
-        for (exp = 0; zpl_char_is_digit(*str); str++) { exp = exp * 10 + (*str - '0'); }
+        for (exp = 0; zpl_char_is_digit(*str); str++) { if (exp <= 308) exp = exp * 10 + (*str - '0'); }
         if (exp > 308) exp = 308;
 
         while (exp >= 50) {
-- 
2.43.0


From 6e1beaeab88066538d78f046bd22e9844a116b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:46 +0000
Subject: [PATCH 096/152] fix: printing a real number of a document lost digits
 or rearranged them

---
 code/source/adt.c | 55 +++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 51 insertions(+), 4 deletions(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index a0e21c0..aea5d4f 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -509,6 +509,53 @@ char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
     return e;
 }
 
+/* prints the real with as many digits as it takes to read the same value back */
+zpl_internal zpl_adt_error zpl__adt_print_real(zpl_file *file, zpl_f64 value) {
+    char buf[64] = { 0 };
+
+    if (value != value) {
+        zpl__adt_fprintf(file, "NaN");
+        return ZPL_ADT_ERROR_NONE;
+    }
+
+    if (value - value != 0) {
+        zpl__adt_fprintf(file, value < 0 ? "-Infinity" : "Infinity");
+        return ZPL_ADT_ERROR_NONE;
+    }
+
+    zpl_f64 mag = value < 0 ? -value : value;
+
+    if (mag < 1e18) {
+        for (zpl_i32 precision = 6; precision < 18; ++precision) {
+            zpl_snprintf(buf, zpl_size_of(buf), "%.*f", precision, value);
+            if (zpl_str_to_f64(buf, 0) == value) {
+                zpl__adt_fprintf(file, "%s", buf);
+                return ZPL_ADT_ERROR_NONE;
+            }
+        }
+    }
+
+    /* d.ddde+n, the digits being an integer of the given length */
+    for (zpl_i32 digits = 15; digits <= 17; ++digits) {
+        zpl_f64 lo = 1e14, hi, scaled = mag;
+        zpl_i32 exp = digits - 1;
+        for (zpl_i32 i = 15; i < digits; ++i) { lo *= 10; }
+        hi = lo * 10;
+        while (scaled >= hi * 1e16) { scaled /= 1e16; exp += 16; }
+        while (scaled >= hi) { scaled /= 10; exp += 1; }
+        while (scaled < lo / 1e16) { scaled *= 1e16; exp -= 16; }
+        while (scaled < lo) { scaled *= 10; exp -= 1; }
+        zpl_u64 number = cast(zpl_u64)(scaled + 0.5), lead = number, unit = 1;
+        while (lead >= 10) { lead /= 10; unit *= 10; }
+        if (number >= cast(zpl_u64)hi) { exp += 1; number /= 10; unit /= 10; }
+        zpl_snprintf(buf, zpl_size_of(buf), "%s%llu.%0*llue%d", value < 0 ? "-" : "", (unsigned long long)(number / unit), digits - 1, (unsigned long long)(number % unit), exp);
+        if (zpl_str_to_f64(buf, 0) == value) break;
+    }
+
+    zpl__adt_fprintf(file, "%s", buf);
+    return ZPL_ADT_ERROR_NONE;
+}
+
 zpl_adt_error zpl_adt_print_number(zpl_file *file, zpl_adt_node *node) {
     ZPL_ASSERT_NOT_NULL(file);
     ZPL_ASSERT_NOT_NULL(node);
@@ -517,7 +564,7 @@ zpl_adt_error zpl_adt_print_number(zpl_file *file, zpl_adt_node *node) {
     }
 
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
-    if (node->neg_zero) {
+    if (node->neg_zero && (node->type == ZPL_ADT_TYPE_INTEGER || node->props == ZPL_ADT_PROPS_IS_EXP || node->props == ZPL_ADT_PROPS_IS_PARSED_REAL || node->real == 0)) {
         zpl__adt_fprintf(file, "-");
     }
 #endif
@@ -525,7 +572,7 @@ zpl_adt_error zpl_adt_print_number(zpl_file *file, zpl_adt_node *node) {
     switch (node->type) {
         case ZPL_ADT_TYPE_INTEGER: {
             if (node->props == ZPL_ADT_PROPS_IS_HEX) {
-                zpl__adt_fprintf(file, "0x%llx", (long long)node->integer);
+                zpl__adt_fprintf(file, "%s0x%llx", node->integer < 0 ? "-" : "", node->integer < 0 ? 0 - (unsigned long long)node->integer : (unsigned long long)node->integer);
             } else {
                 zpl__adt_fprintf(file, "%lld", (long long)node->integer);
             }
@@ -553,10 +600,10 @@ zpl_adt_error zpl_adt_print_number(zpl_file *file, zpl_adt_node *node) {
                 if (!node->lead_digit)
                     zpl__adt_fprintf(file, ".%0*d%lld", node->base2_offset, 0, (long long)node->base2);
                 else
-                    zpl__adt_fprintf(file, "%lld.%0*d%lld", (long long int)node->base2_offset, 0, (int)node->base, (long long)node->base2);
+                    zpl__adt_fprintf(file, "%lld.%0*d%lld", (long long)node->base, node->base2_offset, 0, (long long)node->base2);
 #endif
             } else {
-                zpl__adt_fprintf(file, "%f", node->real);
+                return zpl__adt_print_real(file, node->real);
             }
         } break;
     }
-- 
2.43.0


From 34116070dbbd6de6e260ddc2b65ae16ec8e599b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:05 +0000
Subject: [PATCH 097/152] fix: comments in JSON text swallowed the character
 that follows or were not closed, and a document that starts with a line break
 was taken for one without braces

---
 code/source/parsers/json.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index 5b6e675..91ab55e 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -34,7 +34,7 @@ zpl_u8 zpl_json_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
     ZPL_ASSERT(root);
     ZPL_ASSERT(text);
     zpl_zero_item(root);
-    text = zpl__json_trim(text, true);
+    text = zpl__json_trim(text, false);
 
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
     if (!zpl_strchr("{[", *text)) {
@@ -352,17 +352,15 @@ char *zpl__json_parse_name(zpl_adt_node *node, char *base, zpl_u8 *err_code) {
 char *zpl__json_trim(char *base, zpl_b32 catch_newline) {
     ZPL_ASSERT_NOT_NULL(base);
     char *p = base;
-    do {
+    for (;;) {
         if (zpl_str_has_prefix(p, "//")) {
-            const char *e = zpl_str_skip(p, '\n');
-            p += (e-p);
+            p = cast(char *)zpl_str_skip(p, '\n');
         }
         else if (zpl_str_has_prefix(p, "/*")) {
-            const char *e = zpl_str_skip(p+2, '*');
-            if (*e && *(e+1) == '/') {
-                e+=2; /* advance past end comment block */
-                p += (e-p);
-            }
+            char *e = p+2;
+            while (*e && !zpl_str_has_prefix(e, "*/")) { ++e; }
+            if (!*e) return p; /* the comment is never closed */
+            p = e+2; /* advance past end comment block */
         }
         else if (*p == '\n' && catch_newline) {
             return p;
@@ -370,8 +368,10 @@ char *zpl__json_trim(char *base, zpl_b32 catch_newline) {
         else if (!zpl_char_is_space(*p)) {
             return p;
         }
-    } while (*p++);
-    return NULL;
+        else {
+            ++p;
+        }
+    }
 }
 
 zpl_b8 zpl_json_write(zpl_file *f, zpl_adt_node *o, zpl_isize indent) {
-- 
2.43.0


From b05449e2f5569d4a63595fbbfa33d256b94a42f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:07 +0000
Subject: [PATCH 098/152] fix: JSON members separated by a comma on the next
 line were misread

---
 code/source/parsers/json.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index 91ab55e..b0f809c 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -257,6 +257,12 @@ char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl
         char *end_p = p; zpl_unused(end_p);
         p = zpl__json_trim(p, true);
 
+        /* a line break separates nothing if another delimiter follows */
+        if (*p == '\n') {
+            char *next_p = zpl__json_trim(p, false);
+            if (*next_p == ',' || *next_p == '|') p = next_p;
+        }
+
         /* this code analyses the keyvalue pair delimiter used in the packet. */
         if (zpl__json_is_delim_char(*p)) {
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
-- 
2.43.0


From e4bbe779950b3751a5747ab31efc553fdabee220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:08 +0000
Subject: [PATCH 099/152] fix: nodes of a parsed JSON document did not know
 their parent

---
 code/source/parsers/json.c | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index b0f809c..f603c53 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -65,17 +65,16 @@ zpl_string zpl_json_write_string(zpl_allocator a, zpl_adt_node *obj, zpl_isize i
 
 /* private */
 
-#define zpl__json_append_node(x, item)\
-do {\
-if (!zpl_array_append(x, item)) {\
-    *err_code = ZPL_JSON_ERROR_OUT_OF_MEMORY;\
-    return NULL;\
-}\
-if (item.type == ZPL_ADT_TYPE_OBJECT || item.type == ZPL_ADT_TYPE_ARRAY) {\
-for (zpl_isize i = 0; i < zpl_array_count(item.nodes); i++)\
-item.nodes[i].parent = zpl_array_end(x);\
-}\
-} while (0);
+zpl_internal zpl_b32 zpl__json_append_node(zpl_adt_node *obj, zpl_adt_node *item, zpl_u8 *err_code) {
+    zpl_adt_node *node = zpl_adt_alloc(obj);
+    if (!node) {
+        *err_code = ZPL_JSON_ERROR_OUT_OF_MEMORY;
+        return false;
+    }
+    *node = *item;
+    zpl__adt_relink(obj, zpl_array_count(obj->nodes) - 1);
+    return true;
+}
 
 static ZPL_ALWAYS_INLINE zpl_b32 zpl__json_is_assign_char(char c) { return !!zpl_strchr(":=|", c); }
 static ZPL_ALWAYS_INLINE zpl_b32 zpl__json_is_delim_char(char c) { return !!zpl_strchr(",|\n", c); }
@@ -128,7 +127,7 @@ char *zpl__json_parse_array(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
 
         if (*err_code != ZPL_JSON_ERROR_NONE) { return NULL; }
 
-        zpl__json_append_node(obj->nodes, elem);
+        if (!zpl__json_append_node(obj, &elem, err_code)) { return NULL; }
 
         p = zpl__json_trim(p, false);
 
@@ -252,7 +251,7 @@ char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl
         p = zpl__json_parse_value(&node, p, a, err_code);
         if (err_code && *err_code != ZPL_JSON_ERROR_NONE) { return NULL; }
 
-        zpl__json_append_node(obj->nodes, node);
+        if (!zpl__json_append_node(obj, &node, err_code)) { return NULL; }
 
         char *end_p = p; zpl_unused(end_p);
         p = zpl__json_trim(p, true);
@@ -527,6 +526,5 @@ zpl_b8 zpl__json_write_value(zpl_file *f, zpl_adt_node *o, zpl_adt_node *t, zpl_
 
 #undef zpl__json_fprintf
 #undef zpl___ind
-#undef zpl__json_append_node
 
 ZPL_END_C_DECLS
-- 
2.43.0


From 4d64aadabf5b8df0c102df0daf26411b6095d270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:11 +0000
Subject: [PATCH 100/152] fix: a JSON document that fails to parse leaked what
 was read of it and was read on from a null pointer

---
 code/source/parsers/json.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index f603c53..61daf50 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -54,8 +54,10 @@ zpl_string zpl_json_write_string(zpl_allocator a, zpl_adt_node *obj, zpl_isize i
     zpl_file tmp;
     if (!zpl_file_stream_new(&tmp, a))
         return NULL;
-    if (!zpl_json_write(&tmp, obj, indent))
+    if (!zpl_json_write(&tmp, obj, indent)) {
+        zpl_file_close(&tmp);
         return NULL;
+    }
     zpl_isize fsize;
     zpl_u8* buf = zpl_file_stream_buf(&tmp, &fsize);
     zpl_string output = zpl_string_make_length(a, (char *)buf, fsize);
@@ -125,9 +127,10 @@ char *zpl__json_parse_array(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
         zpl_adt_node elem = { 0 };
         p = zpl__json_parse_value(&elem, p, a, err_code);
 
-        if (*err_code != ZPL_JSON_ERROR_NONE) { return NULL; }
-
-        if (!zpl__json_append_node(obj, &elem, err_code)) { return NULL; }
+        if (*err_code != ZPL_JSON_ERROR_NONE || !zpl__json_append_node(obj, &elem, err_code)) {
+            zpl_adt_destroy_branch(&elem);
+            return NULL;
+        }
 
         p = zpl__json_trim(p, false);
 
@@ -209,6 +212,7 @@ char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
     } else if (!!zpl_strchr("[{", *p)) {
         /* handle compound objects */
         p = zpl__json_parse_object(obj, p, a, err_code);
+        if (*err_code != ZPL_JSON_ERROR_NONE) { return NULL; }
         ++p;
     }
 
@@ -249,9 +253,10 @@ char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl
         if (err_code && *err_code != ZPL_JSON_ERROR_NONE) { return NULL; }
         p = zpl__json_trim(p + 1, false);
         p = zpl__json_parse_value(&node, p, a, err_code);
-        if (err_code && *err_code != ZPL_JSON_ERROR_NONE) { return NULL; }
-
-        if (!zpl__json_append_node(obj, &node, err_code)) { return NULL; }
+        if (*err_code != ZPL_JSON_ERROR_NONE || !zpl__json_append_node(obj, &node, err_code)) {
+            zpl_adt_destroy_branch(&node);
+            return NULL;
+        }
 
         char *end_p = p; zpl_unused(end_p);
         p = zpl__json_trim(p, true);
-- 
2.43.0


From 4a8615ea6ead9ecfa849ebbaa8e0296cc55fe6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:12 +0000
Subject: [PATCH 101/152] fix: JSON documents with missing values, names or
 brackets were accepted

---
 code/source/parsers/json.c | 55 +++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index 61daf50..1ccdcd9 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -42,7 +42,11 @@ zpl_u8 zpl_json_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
     }
 #endif
 
-    zpl__json_parse_object(root, text, a, &err_code);
+    char *end_p = zpl__json_parse_object(root, text, a, &err_code);
+    if (err_code == ZPL_JSON_ERROR_NONE && *end_p && *zpl__json_trim(end_p + 1, false)) {
+        ZPL_JSON_ASSERT("text after the end of the document");
+        err_code = ZPL_JSON_ERROR_OBJECT_END_PAIR_MISMATCHED;
+    }
     return err_code;
 }
 
@@ -117,11 +121,15 @@ char *zpl__json_parse_array(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
         return NULL;
     }
 
-    while (*p) {
+    for (;;) {
         p = zpl__json_trim(p, false);
 
         if (*p == ']') {
             return p;
+        } else if (*p == '}' || *p == '\0') {
+            ZPL_JSON_ASSERT("end of array unfulfilled");
+            *err_code = ZPL_JSON_ERROR_ARRAY_LEFT_OPEN;
+            return NULL;
         }
 
         zpl_adt_node elem = { 0 };
@@ -146,15 +154,17 @@ char *zpl__json_parse_array(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
             return p;
         }
     }
-
-    *err_code = ZPL_JSON_ERROR_INTERNAL;
-    return NULL;
 }
 
 char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_u8 *err_code) {
     ZPL_ASSERT(obj && base);
     char *p = base, *b = p, *e = p;
 
+    if (*p == '\0') {
+        *err_code = ZPL_JSON_ERROR_INVALID_VALUE;
+        return NULL;
+    }
+
     /* handle quoted strings */
     if (!!zpl_strchr("`\"'", *p)) {
         char c = *p;
@@ -163,7 +173,7 @@ char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
         obj->string = b;
         e = cast(char *)zpl_str_skip_literal(e, c);
         *e = '\0', p = e + 1;
-    } else if (zpl_char_is_alpha(*p) || (*p == '-' && !zpl_char_is_digit(*(p + 1)))) {
+    } else if (zpl_char_is_alpha(*p) || (*p == '-' && !zpl_char_is_digit(*(p + 1)) && *(p + 1) != '.')) {
         /* handle constants */
         if (zpl_str_has_prefix(p, "true")) {
             obj->type = ZPL_ADT_TYPE_REAL;
@@ -209,11 +219,20 @@ char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
         /* handle numbers */
         /* defer operation to our helper method. */
         p = zpl_adt_parse_number(obj, p);
+        if (obj->type == ZPL_ADT_TYPE_UNINITIALISED) {
+            ZPL_JSON_ASSERT("invalid number");
+            *err_code = ZPL_JSON_ERROR_INVALID_VALUE;
+            return NULL;
+        }
     } else if (!!zpl_strchr("[{", *p)) {
         /* handle compound objects */
         p = zpl__json_parse_object(obj, p, a, err_code);
         if (*err_code != ZPL_JSON_ERROR_NONE) { return NULL; }
         ++p;
+    } else {
+        ZPL_JSON_ASSERT("invalid value");
+        *err_code = ZPL_JSON_ERROR_INVALID_VALUE;
+        return NULL;
     }
 
     return p;
@@ -222,9 +241,10 @@ char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
 char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_u8 *err_code) {
     ZPL_ASSERT(obj && base);
     char *p = base;
+    zpl_b32 is_braced = false;
 
     p = zpl__json_trim(p, false);
-    /**/ if (*p == '{') { ++p; }
+    /**/ if (*p == '{') { ++p; is_braced = true; }
     else if (*p == '[') { /* special case for when we call this func on an array. */
         ++p;
         obj->type = ZPL_ADT_TYPE_ARRAY;
@@ -237,11 +257,11 @@ char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl
     }
     obj->type = ZPL_ADT_TYPE_OBJECT;
 
-    do {
+    for (;;) {
         zpl_adt_node node = { 0 };
         p = zpl__json_trim(p, false);
-        if (*p == '}' && obj->type == ZPL_ADT_TYPE_OBJECT) return p;
-        else if (*p == ']' && obj->type == ZPL_ADT_TYPE_ARRAY) return p;
+        if (*p == '}' && is_braced) return p;
+        else if (*p == '\0' && !is_braced && zpl_array_count(obj->nodes) > 0) return p; /* the braces can be omitted around the whole document */
         else if (!!zpl_strchr("}]", *p)) {
             ZPL_JSON_ASSERT("mismatched end pair");
             *err_code = ZPL_JSON_ERROR_OBJECT_END_PAIR_MISMATCHED;
@@ -253,6 +273,10 @@ char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl
         if (err_code && *err_code != ZPL_JSON_ERROR_NONE) { return NULL; }
         p = zpl__json_trim(p + 1, false);
         p = zpl__json_parse_value(&node, p, a, err_code);
+        if (*err_code == ZPL_JSON_ERROR_NONE && !node.name) {
+            ZPL_JSON_ASSERT("missing name");
+            *err_code = ZPL_JSON_ERROR_INVALID_NAME;
+        }
         if (*err_code != ZPL_JSON_ERROR_NONE || !zpl__json_append_node(obj, &node, err_code)) {
             zpl_adt_destroy_branch(&node);
             return NULL;
@@ -268,7 +292,7 @@ char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl
         }
 
         /* this code analyses the keyvalue pair delimiter used in the packet. */
-        if (zpl__json_is_delim_char(*p)) {
+        if (*p && zpl__json_is_delim_char(*p)) {
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
             zpl_adt_node *n = zpl_array_end(obj->nodes);
             n->delim_style = ZPL_ADT_DELIM_STYLE_COMMA;
@@ -280,14 +304,9 @@ char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl
                 n->delim_line_width = cast(zpl_u8)(p-end_p);
             }
 #endif
-            if (*p == 0) {
-                return p;
-            }
             ++p;
         }
-        p = zpl__json_trim(p, false);
-    } while (*p);
-    return p;
+    }
 }
 
 char *zpl__json_parse_name(zpl_adt_node *node, char *base, zpl_u8 *err_code) {
@@ -325,7 +344,7 @@ char *zpl__json_parse_name(zpl_adt_node *node, char *base, zpl_u8 *err_code) {
         node->assign_line_width = cast(zpl_u8)(p-assign_p);
 #endif
 
-        if (*p && !zpl__json_is_assign_char(*p)) {
+        if (!*p || !zpl__json_is_assign_char(*p)) {
             ZPL_JSON_ASSERT("invalid assignment");
             *err_code = ZPL_JSON_ERROR_INVALID_ASSIGNMENT;
             return NULL;
-- 
2.43.0


From 5280c98bcdcb40e4e70a35891ceefd98016023f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:23 +0000
Subject: [PATCH 102/152] fix: JSON strings that are never closed were read and
 terminated past the end of the text, and one that ends in a backslash
 swallowed its quote

---
 code/source/parsers/json.c | 108 +++++++++++++++++++++++--------------
 1 file changed, 69 insertions(+), 39 deletions(-)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index 1ccdcd9..aa38fa1 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -20,6 +20,7 @@ char *zpl__json_parse_array(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
 char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_u8 *err_code);
 char *zpl__json_parse_name(zpl_adt_node *obj, char *base, zpl_u8 *err_code);
 char *zpl__json_trim(char *base, zpl_b32 catch_newline);
+zpl_internal void zpl__json_terminate(zpl_adt_node *obj);
 zpl_b8 zpl__json_write_value(zpl_file *f, zpl_adt_node *o, zpl_adt_node *t, zpl_isize indent, zpl_b32 is_inline, zpl_b32 is_last);
 
 #define zpl__json_fprintf(s_, fmt_, ...)                                                                               \
@@ -47,6 +48,13 @@ zpl_u8 zpl_json_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
         ZPL_JSON_ASSERT("text after the end of the document");
         err_code = ZPL_JSON_ERROR_OBJECT_END_PAIR_MISMATCHED;
     }
+
+    if (err_code == ZPL_JSON_ERROR_NONE) {
+        zpl__json_terminate(root);
+    } else {
+        zpl_adt_destroy_branch(root);
+        zpl_zero_item(root);
+    }
     return err_code;
 }
 
@@ -92,15 +100,22 @@ static ZPL_ALWAYS_INLINE const char *zpl__json_string_eol(zpl_adt_node *o, zpl_i
 #endif
     return !force_new_line && indent == ZPL_JSON_INDENT_STYLE_COMPACT ? "" : "\n";
 }
-ZPL_DEF_INLINE zpl_b32 zpl__json_validate_name(char const *str, char *err);
+/* a backslash escapes the character that follows, another backslash included */
+zpl_internal char *zpl__json_skip_quoted(char *p, char quote) {
+    while (*p && *p != quote) {
+        if (*p == '\\' && *(p+1)) ++p;
+        ++p;
+    }
+    return p;
+}
 
-#define jx(x) !zpl_char_is_hex_digit(str[x])
-ZPL_IMPL_INLINE zpl_b32 zpl__json_validate_name(char const *str, char *err) {
-    while (*str) {
+#define jx(x) (str + x >= end || !zpl_char_is_hex_digit(str[x]))
+zpl_internal zpl_b32 zpl__json_validate_name(char const *str, char const *end) {
+    while (str < end) {
         /* todo: refactor name validation. */
-        if ((str[0] == '\\' && !zpl_char_is_control(str[1])) &&
-            (str[0] == '\\' && jx(1) && jx(2) && jx(3) && jx(4))) {
-            if (err) *err = *str;
+        if (*str == '\\' && str + 1 < end && !!zpl_strchr("\"\\/bfnrt'", str[1])) {
+            ++str;
+        } else if (*str == '\\' && jx(1) && jx(2) && jx(3) && jx(4)) {
             return false;
         }
 
@@ -111,6 +126,29 @@ ZPL_IMPL_INLINE zpl_b32 zpl__json_validate_name(char const *str, char *err) {
 }
 #undef jx
 
+/* names and strings are left open during the parse, so that the text stays as it is if that fails */
+zpl_internal void zpl__json_terminate(zpl_adt_node *obj) {
+    for (zpl_isize i = 0; i < zpl_array_count(obj->nodes); i++) {
+        zpl_adt_node *node = obj->nodes + i;
+        if (node->name) {
+            char *e = cast(char *)node->name;
+            if (*e == '"' || *e == '\'') {
+                e = zpl__json_skip_quoted(e + 1, *e);
+                node->name++;
+            } else {
+                zpl_str_advance_while(e, zpl_char_is_alphanumeric(*e) || *e == '_');
+            }
+            *e = '\0';
+        }
+        if (node->type == ZPL_ADT_TYPE_STRING || node->type == ZPL_ADT_TYPE_MULTISTRING) {
+            *zpl__json_skip_quoted(cast(char *)node->string + 1, *node->string) = '\0';
+            node->string++;
+        } else if (node->type == ZPL_ADT_TYPE_OBJECT || node->type == ZPL_ADT_TYPE_ARRAY) {
+            zpl__json_terminate(node);
+        }
+    }
+}
+
 char *zpl__json_parse_array(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_u8 *err_code) {
     ZPL_ASSERT(obj && base);
     char *p = base;
@@ -158,7 +196,7 @@ char *zpl__json_parse_array(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
 
 char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_u8 *err_code) {
     ZPL_ASSERT(obj && base);
-    char *p = base, *b = p, *e = p;
+    char *p = base;
 
     if (*p == '\0') {
         *err_code = ZPL_JSON_ERROR_INVALID_VALUE;
@@ -169,10 +207,14 @@ char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
     if (!!zpl_strchr("`\"'", *p)) {
         char c = *p;
         obj->type = (c == '`') ? ZPL_ADT_TYPE_MULTISTRING : ZPL_ADT_TYPE_STRING;
-        b = e = p + 1;
-        obj->string = b;
-        e = cast(char *)zpl_str_skip_literal(e, c);
-        *e = '\0', p = e + 1;
+        obj->string = p;
+        p = zpl__json_skip_quoted(p + 1, c);
+        if (!*p) {
+            ZPL_JSON_ASSERT("string left open");
+            *err_code = ZPL_JSON_ERROR_INVALID_VALUE;
+            return NULL;
+        }
+        ++p;
     } else if (zpl_char_is_alpha(*p) || (*p == '-' && !zpl_char_is_digit(*(p + 1)) && *(p + 1) != '.')) {
         /* handle constants */
         if (zpl_str_has_prefix(p, "true")) {
@@ -311,7 +353,6 @@ char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl
 
 char *zpl__json_parse_name(zpl_adt_node *node, char *base, zpl_u8 *err_code) {
     char *p = base, *b = p, *e = p;
-    zpl_u8 name_style=0;
 
     if (*p == '"' || *p == '\'' || zpl_char_is_alpha(*p) || *p == '_' || *p == '$') {
         if (*p == '"' || *p == '\'') {
@@ -322,20 +363,23 @@ char *zpl__json_parse_name(zpl_adt_node *node, char *base, zpl_u8 *err_code) {
                 node->name_style = ZPL_ADT_NAME_STYLE_SINGLE_QUOTE;
             }
 #endif
-            char c = *p;
-            b = ++p;
-            e = cast(char *)zpl_str_control_skip(b, c);
-            node->name = b;
-
-            /* we can safely null-terminate here, since "e" points to the quote pair end. */
-            *e++ = '\0';
+            b = p + 1;
+            e = zpl__json_skip_quoted(b, *p);
+            if (!*e || !zpl__json_validate_name(b, e)) {
+                ZPL_JSON_ASSERT("invalid name");
+                *err_code = ZPL_JSON_ERROR_INVALID_NAME;
+                return NULL;
+            }
+            node->name = p;
+            ++e;
         }
         else {
-            b = e = p;
-            zpl_str_advance_while(e, *e && (zpl_char_is_alphanumeric(*e) || *e == '_') && !zpl_char_is_space(*e) && !zpl__json_is_assign_char(*e));
-            node->name = b;
-            name_style = ZPL_ADT_NAME_STYLE_NO_QUOTES;
-            /* we defer null-termination as it can potentially wipe our assign char as well. */
+            e = p;
+            zpl_str_advance_while(e, zpl_char_is_alphanumeric(*e) || *e == '_');
+            node->name = p;
+#ifndef ZPL_PARSER_DISABLE_ANALYSIS
+            node->name_style = ZPL_ADT_NAME_STYLE_NO_QUOTES;
+#endif
         }
 
         char *assign_p = e; zpl_unused(assign_p);
@@ -359,20 +403,6 @@ char *zpl__json_parse_name(zpl_adt_node *node, char *base, zpl_u8 *err_code) {
             else node->assign_style = ZPL_ADT_ASSIGN_STYLE_COLON;
 #endif
         }
-
-        /* since we already know the assign style, we can cut it here for unquoted names */
-        if (name_style == ZPL_ADT_NAME_STYLE_NO_QUOTES && *e) {
-            *e = '\0';
-#ifndef ZPL_PARSER_DISABLE_ANALYSIS
-            node->name_style = name_style;
-#endif
-        }
-    }
-
-    if (node->name && !zpl__json_validate_name(node->name, NULL)) {
-        ZPL_JSON_ASSERT("invalid name");
-        *err_code = ZPL_JSON_ERROR_INVALID_NAME;
-        return NULL;
     }
 
     return p;
-- 
2.43.0


From e5e720fd4d5ce23c453b328dd0968dffc9c3e713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:55 +0000
Subject: [PATCH 103/152] fix: writing a JSON string escaped quotes that were
 escaped already and gave up on a long one

---
 code/source/adt.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index aea5d4f..dbc5676 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -625,15 +625,23 @@ zpl_adt_error zpl_adt_print_string(zpl_file *file, zpl_adt_node *node, char cons
     if (!p)
         return ZPL_ADT_ERROR_NONE;
 
-    do {
-        p = zpl_str_skip_any(p, escaped_chars);
-        zpl__adt_fprintf(file, "%.*s", zpl_ptr_diff(b, p), b);
-        if (*p && !!zpl_strchr(escaped_chars, *p)) {
-            zpl__adt_fprintf(file, "%s%c", escape_symbol, *p);
-            p++;
+    /* text that uses a backslash to escape characters can have them escaped already */
+    zpl_b32 has_escapes = !zpl_strcmp(escape_symbol, "\\");
+
+    while (*p) {
+        if (has_escapes && *p == '\\' && *(p+1)) {
+            p += 2;
+            continue;
+        }
+        if ((has_escapes && *p == '\\') || !!zpl_strchr(escaped_chars, *p)) {
+            if (!zpl_file_write(file, b, zpl_ptr_diff(b, p))) return ZPL_ADT_ERROR_OUT_OF_MEMORY;
+            zpl__adt_fprintf(file, "%s", escape_symbol);
+            b = p;
         }
-        b = p;
-    } while (*p);
+        p++;
+    }
+
+    if (!zpl_file_write(file, b, zpl_ptr_diff(b, p))) return ZPL_ADT_ERROR_OUT_OF_MEMORY;
 
     return ZPL_ADT_ERROR_NONE;
 }
-- 
2.43.0


From b0bd98afeb668696c0b3e1fb3405baf7e91de06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:57 +0000
Subject: [PATCH 104/152] fix: deeply nested JSON text exhausted the stack

---
 code/header/parsers/json.h |  5 +++++
 code/source/parsers/json.c | 27 ++++++++++++++++-----------
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/code/header/parsers/json.h b/code/header/parsers/json.h
index 48eaa29..8810e51 100644
--- a/code/header/parsers/json.h
+++ b/code/header/parsers/json.h
@@ -1,6 +1,11 @@
 // file: header/parsers/json.h
 
 
+/* objects and arrays nested deeper than this are refused, as the parser recurses into them */
+#ifndef ZPL_JSON_MAX_DEPTH
+#define ZPL_JSON_MAX_DEPTH 2048
+#endif
+
 ZPL_BEGIN_C_DECLS
 
 typedef enum zpl_json_error {
diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index aa38fa1..65cf621 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -15,9 +15,9 @@
 
 ZPL_BEGIN_C_DECLS
 
-char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_u8 *err_code);
-char *zpl__json_parse_array(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_u8 *err_code);
-char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_u8 *err_code);
+char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_u8 *err_code, zpl_i32 depth);
+char *zpl__json_parse_array(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_u8 *err_code, zpl_i32 depth);
+char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_u8 *err_code, zpl_i32 depth);
 char *zpl__json_parse_name(zpl_adt_node *obj, char *base, zpl_u8 *err_code);
 char *zpl__json_trim(char *base, zpl_b32 catch_newline);
 zpl_internal void zpl__json_terminate(zpl_adt_node *obj);
@@ -43,7 +43,7 @@ zpl_u8 zpl_json_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
     }
 #endif
 
-    char *end_p = zpl__json_parse_object(root, text, a, &err_code);
+    char *end_p = zpl__json_parse_object(root, text, a, &err_code, 0);
     if (err_code == ZPL_JSON_ERROR_NONE && *end_p && *zpl__json_trim(end_p + 1, false)) {
         ZPL_JSON_ASSERT("text after the end of the document");
         err_code = ZPL_JSON_ERROR_OBJECT_END_PAIR_MISMATCHED;
@@ -149,7 +149,7 @@ zpl_internal void zpl__json_terminate(zpl_adt_node *obj) {
     }
 }
 
-char *zpl__json_parse_array(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_u8 *err_code) {
+char *zpl__json_parse_array(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_u8 *err_code, zpl_i32 depth) {
     ZPL_ASSERT(obj && base);
     char *p = base;
 
@@ -171,7 +171,7 @@ char *zpl__json_parse_array(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
         }
 
         zpl_adt_node elem = { 0 };
-        p = zpl__json_parse_value(&elem, p, a, err_code);
+        p = zpl__json_parse_value(&elem, p, a, err_code, depth);
 
         if (*err_code != ZPL_JSON_ERROR_NONE || !zpl__json_append_node(obj, &elem, err_code)) {
             zpl_adt_destroy_branch(&elem);
@@ -194,7 +194,7 @@ char *zpl__json_parse_array(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
     }
 }
 
-char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_u8 *err_code) {
+char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_u8 *err_code, zpl_i32 depth) {
     ZPL_ASSERT(obj && base);
     char *p = base;
 
@@ -268,7 +268,12 @@ char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
         }
     } else if (!!zpl_strchr("[{", *p)) {
         /* handle compound objects */
-        p = zpl__json_parse_object(obj, p, a, err_code);
+        if (depth >= ZPL_JSON_MAX_DEPTH) {
+            ZPL_JSON_ASSERT("nested too deep");
+            *err_code = ZPL_JSON_ERROR_INTERNAL;
+            return NULL;
+        }
+        p = zpl__json_parse_object(obj, p, a, err_code, depth + 1);
         if (*err_code != ZPL_JSON_ERROR_NONE) { return NULL; }
         ++p;
     } else {
@@ -280,7 +285,7 @@ char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
     return p;
 }
 
-char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_u8 *err_code) {
+char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_u8 *err_code, zpl_i32 depth) {
     ZPL_ASSERT(obj && base);
     char *p = base;
     zpl_b32 is_braced = false;
@@ -290,7 +295,7 @@ char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl
     else if (*p == '[') { /* special case for when we call this func on an array. */
         ++p;
         obj->type = ZPL_ADT_TYPE_ARRAY;
-        return zpl__json_parse_array(obj, p, a, err_code);
+        return zpl__json_parse_array(obj, p, a, err_code, depth);
     }
 
     if (!zpl_array_init(obj->nodes, a)) {
@@ -314,7 +319,7 @@ char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl
         p = zpl__json_parse_name(&node, p, err_code);
         if (err_code && *err_code != ZPL_JSON_ERROR_NONE) { return NULL; }
         p = zpl__json_trim(p + 1, false);
-        p = zpl__json_parse_value(&node, p, a, err_code);
+        p = zpl__json_parse_value(&node, p, a, err_code, depth);
         if (*err_code == ZPL_JSON_ERROR_NONE && !node.name) {
             ZPL_JSON_ASSERT("missing name");
             *err_code = ZPL_JSON_ERROR_INVALID_NAME;
-- 
2.43.0


From 62894106a295fae7c5c7c97173f382c727b0a02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:25 +0000
Subject: [PATCH 105/152] fix: zeroing, moving, swapping and scanning memory by
 words broke the compiler's aliasing rules, so writes could overtake reads of
 the same memory

---
 code/header/essentials/memory.h | 51 ++++++++++++++++++++-------------
 code/source/essentials/memory.c |  8 +++---
 code/source/hashing.c           |  6 ++--
 3 files changed, 38 insertions(+), 27 deletions(-)

diff --git a/code/header/essentials/memory.h b/code/header/essentials/memory.h
index 4ca13a6..00dde1e 100644
--- a/code/header/essentials/memory.h
+++ b/code/header/essentials/memory.h
@@ -108,6 +108,17 @@ do {
 
 /* inlines */
 
+// NOTE: words of memory that holds values of any type; without the attribute the compiler assumes that
+// an access to such a word never concerns, say, a pointer, and moves reads and writes of it across
+#if defined(__GNUC__) || defined(__clang__)
+#define ZPL__MAY_ALIAS __attribute__((__may_alias__))
+#else
+#define ZPL__MAY_ALIAS
+#endif
+typedef zpl_u32 ZPL__MAY_ALIAS zpl__word32;
+typedef zpl_u64 ZPL__MAY_ALIAS zpl__word64;
+typedef zpl_isize ZPL__MAY_ALIAS zpl__word;
+
 #define ZPL__ONES (cast(zpl_usize) - 1 / ZPL_U8_MAX)
 #define ZPL__HIGHS (ZPL__ONES * (ZPL_U8_MAX / 2 + 1))
 #define ZPL__HAS_ZERO(x) (((x)-ZPL__ONES) & ~(x)&ZPL__HIGHS)
@@ -164,7 +175,7 @@ ZPL_IMPL_INLINE void *zpl_memmove(void *dest, void const *source, zpl_isize n) {
                 *d++ = *s++;
             }
             while (n >= zpl_size_of(zpl_isize)) {
-                *cast(zpl_isize *) d = *cast(zpl_isize *) s;
+                *cast(zpl__word *) d = *cast(zpl__word *) s;
                 n -= zpl_size_of(zpl_isize);
                 d += zpl_size_of(zpl_isize);
                 s += zpl_size_of(zpl_isize);
@@ -179,7 +190,7 @@ ZPL_IMPL_INLINE void *zpl_memmove(void *dest, void const *source, zpl_isize n) {
             }
             while (n >= zpl_size_of(zpl_isize)) {
                 n -= zpl_size_of(zpl_isize);
-                *cast(zpl_isize *)(d + n) = *cast(zpl_isize *)(s + n);
+                *cast(zpl__word *)(d + n) = *cast(zpl__word *)(s + n);
             }
         }
         while (n) n--, d[n] = s[n];
@@ -209,22 +220,22 @@ ZPL_IMPL_INLINE void *zpl_memset(void *dest, zpl_u8 c, zpl_isize n) {
     n -= k;
     n &= -4;
 
-    *cast(zpl_u32 *)(s + 0) = c32;
-    *cast(zpl_u32 *)(s + n - 4) = c32;
+    *cast(zpl__word32 *)(s + 0) = c32;
+    *cast(zpl__word32 *)(s + n - 4) = c32;
     if (n < 9) return dest;
-    *cast(zpl_u32 *)(s + 4) = c32;
-    *cast(zpl_u32 *)(s + 8) = c32;
-    *cast(zpl_u32 *)(s + n - 12) = c32;
-    *cast(zpl_u32 *)(s + n - 8) = c32;
+    *cast(zpl__word32 *)(s + 4) = c32;
+    *cast(zpl__word32 *)(s + 8) = c32;
+    *cast(zpl__word32 *)(s + n - 12) = c32;
+    *cast(zpl__word32 *)(s + n - 8) = c32;
     if (n < 25) return dest;
-    *cast(zpl_u32 *)(s + 12) = c32;
-    *cast(zpl_u32 *)(s + 16) = c32;
-    *cast(zpl_u32 *)(s + 20) = c32;
-    *cast(zpl_u32 *)(s + 24) = c32;
-    *cast(zpl_u32 *)(s + n - 28) = c32;
-    *cast(zpl_u32 *)(s + n - 24) = c32;
-    *cast(zpl_u32 *)(s + n - 20) = c32;
-    *cast(zpl_u32 *)(s + n - 16) = c32;
+    *cast(zpl__word32 *)(s + 12) = c32;
+    *cast(zpl__word32 *)(s + 16) = c32;
+    *cast(zpl__word32 *)(s + 20) = c32;
+    *cast(zpl__word32 *)(s + 24) = c32;
+    *cast(zpl__word32 *)(s + n - 28) = c32;
+    *cast(zpl__word32 *)(s + n - 24) = c32;
+    *cast(zpl__word32 *)(s + n - 20) = c32;
+    *cast(zpl__word32 *)(s + n - 16) = c32;
 
     k = 24 + (cast(zpl_uintptr) s & 4);
     s += k;
@@ -233,10 +244,10 @@ ZPL_IMPL_INLINE void *zpl_memset(void *dest, zpl_u8 c, zpl_isize n) {
     {
         zpl_u64 c64 = (cast(zpl_u64) c32 << 32) | c32;
         while (n > 31) {
-            *cast(zpl_u64 *)(s + 0) = c64;
-            *cast(zpl_u64 *)(s + 8) = c64;
-            *cast(zpl_u64 *)(s + 16) = c64;
-            *cast(zpl_u64 *)(s + 24) = c64;
+            *cast(zpl__word64 *)(s + 0) = c64;
+            *cast(zpl__word64 *)(s + 8) = c64;
+            *cast(zpl__word64 *)(s + 16) = c64;
+            *cast(zpl__word64 *)(s + 24) = c64;
 
             n -= 32;
             s += 32;
diff --git a/code/source/essentials/memory.c b/code/source/essentials/memory.c
index 9064cff..a4879dd 100644
--- a/code/source/essentials/memory.c
+++ b/code/source/essentials/memory.c
@@ -10,9 +10,9 @@ void zpl_memswap(void *i, void *j, zpl_isize size) {
     if (i == j) return;
 
     if (size == 4) {
-        zpl_swap(zpl_u32, *cast(zpl_u32 *) i, *cast(zpl_u32 *) j);
+        zpl_swap(zpl_u32, *cast(zpl__word32 *) i, *cast(zpl__word32 *) j);
     } else if (size == 8) {
-        zpl_swap(zpl_u64, *cast(zpl_u64 *) i, *cast(zpl_u64 *) j);
+        zpl_swap(zpl_u64, *cast(zpl__word64 *) i, *cast(zpl__word64 *) j);
     } else if (size < 8) {
         zpl_u8 *a = cast(zpl_u8 *) i;
         zpl_u8 *b = cast(zpl_u8 *) j;
@@ -42,9 +42,9 @@ void const *zpl_memchr(void const *data, zpl_u8 c, zpl_isize n) {
         n--;
     }
     if (n && *s != c) {
-        zpl_isize const *w;
+        zpl__word const *w;
         zpl_isize k = ZPL__ONES * c;
-        w = cast(zpl_isize const *) s;
+        w = cast(zpl__word const *) s;
         while (n >= zpl_size_of(zpl_isize) && !ZPL__HAS_ZERO(*w ^ k)) {
             w++;
             n -= zpl_size_of(zpl_isize);
diff --git a/code/source/hashing.c b/code/source/hashing.c
index 0026c31..4665e47 100644
--- a/code/source/hashing.c
+++ b/code/source/hashing.c
@@ -338,7 +338,7 @@ zpl_u32 zpl_murmur32_seed(void const *data, zpl_isize len, zpl_u32 seed) {
 
     zpl_isize i, nblocks = len / 4;
     zpl_u32 hash = seed, k1 = 0;
-    zpl_u32 const *blocks = cast(zpl_u32 const *) data;
+    zpl__word32 const *blocks = cast(zpl__word32 const *) data;
     zpl_u8 const *tail = cast(zpl_u8 const *)(data) + nblocks * 4;
 
     for (i = 0; i < nblocks; i++) {
@@ -379,9 +379,9 @@ zpl_u64 zpl_murmur64_seed(void const *data_, zpl_isize len, zpl_u64 seed) {
 
     zpl_u64 h = seed ^ (len * m);
 
-    zpl_u64 const *data = cast(zpl_u64 const *) data_;
+    zpl__word64 const *data = cast(zpl__word64 const *) data_;
     zpl_u8 const *data2 = cast(zpl_u8 const *) data_;
-    zpl_u64 const *end = data + (len / 8);
+    zpl__word64 const *end = data + (len / 8);
 
     while (data != end) {
         zpl_u64 k = *data++;
-- 
2.43.0


From e89f35cfa4ea68bcc85b49f19d18fe084d942996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:27 +0000
Subject: [PATCH 106/152] fix: children of a node moved within its parent kept
 the address it was moved from as their parent

---
 code/source/adt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/source/adt.c b/code/source/adt.c
index dbc5676..3f10e77 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -296,6 +296,7 @@ zpl_adt_node *zpl_adt_move_node_at(zpl_adt_node *node, zpl_adt_node *new_parent,
     if (same_parent) {
         /* the new slot has shifted the node, and removing it shifts the new slot back */
         zpl_adt_remove_node(new_parent->nodes + (index <= old_index ? old_index + 1 : old_index));
+        zpl__adt_relink(new_parent, index <= old_index ? index : old_index);
         if (index > old_index)
             new_node--;
     } else if (node->parent) {
-- 
2.43.0


From 784f7ccb383bc4b6f7386a84d9130f4c8a6253af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:41 +0000
Subject: [PATCH 107/152] fix: a query step into an array that is no index took
 element 0, an overlong one wrapped, and nameless members crashed the lookup

---
 code/source/adt.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index 3f10e77..2df136c 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -59,7 +59,7 @@ zpl_adt_node *zpl_adt_find(zpl_adt_node *node, char const *name, zpl_b32 deep_se
     }
 
     for (zpl_isize i = 0; i < zpl_array_count(node->nodes); i++) {
-        if (!zpl_strcmp(node->nodes[i].name, name)) {
+        if (node->nodes[i].name && !zpl_strcmp(node->nodes[i].name, name)) {
             return (node->nodes + i);
         }
     }
@@ -111,7 +111,7 @@ zpl_internal zpl_adt_node *zpl__adt_get_value(zpl_adt_node *node, char const *va
 
 zpl_internal zpl_adt_node *zpl__adt_get_field(zpl_adt_node *node, char *name, char *value) {
     for (zpl_isize i = 0; i < zpl_array_count(node->nodes); i++) {
-        if (!zpl_strcmp(node->nodes[i].name, name)) {
+        if (node->nodes[i].name && !zpl_strcmp(node->nodes[i].name, name)) {
             zpl_adt_node *child = &node->nodes[i];
             if (zpl__adt_get_value(child, value)) {
                 return node; /* this object does contain a field of a specified value! */
@@ -213,8 +213,12 @@ zpl_adt_node *zpl_adt_query(zpl_adt_node *node, char const *uri) {
     }
     /* handle array index lookup */
     else {
-        zpl_isize idx = (zpl_isize)zpl_str_to_i64(buf, NULL, 10);
-        if (idx >= 0 && idx < zpl_array_count(node->nodes)) {
+        char *idx_end = buf;
+        zpl_isize idx = 0;
+        while (zpl_char_is_digit(*idx_end) && idx < zpl_array_count(node->nodes)) {
+            idx = idx * 10 + (*idx_end++ - '0');
+        }
+        if (idx_end != buf && *idx_end == 0 && idx < zpl_array_count(node->nodes)) {
             found_node = &node->nodes[idx];
 
             /* go deeper if uri continues */
-- 
2.43.0


From 06e5a4ea1b15239ce74df9cc33a62026a432c802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:54 +0000
Subject: [PATCH 108/152] fix: JSON names with a dollar sign were refused

---
 code/source/parsers/json.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index 65cf621..155adad 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -136,7 +136,7 @@ zpl_internal void zpl__json_terminate(zpl_adt_node *obj) {
                 e = zpl__json_skip_quoted(e + 1, *e);
                 node->name++;
             } else {
-                zpl_str_advance_while(e, zpl_char_is_alphanumeric(*e) || *e == '_');
+                zpl_str_advance_while(e, zpl_char_is_alphanumeric(*e) || *e == '_' || *e == '$');
             }
             *e = '\0';
         }
@@ -380,7 +380,7 @@ char *zpl__json_parse_name(zpl_adt_node *node, char *base, zpl_u8 *err_code) {
         }
         else {
             e = p;
-            zpl_str_advance_while(e, zpl_char_is_alphanumeric(*e) || *e == '_');
+            zpl_str_advance_while(e, zpl_char_is_alphanumeric(*e) || *e == '_' || *e == '$');
             node->name = p;
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
             node->name_style = ZPL_ADT_NAME_STYLE_NO_QUOTES;
-- 
2.43.0


From 81f12a346cd17b93ca5e774dc9f6cd52af2f52a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:41 +0000
Subject: [PATCH 109/152] fix: a JSON document without braces was written with
 a closing one when indented

---
 code/source/parsers/json.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index 155adad..5a6b466 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -466,12 +466,13 @@ zpl_b8 zpl_json_write(zpl_file *f, zpl_adt_node *o, zpl_isize indent) {
 
     zpl___ind(indent);
 
+#ifndef ZPL_PARSER_DISABLE_ANALYSIS
+    if (o->cfg_mode) return true;
+#endif
+
     if (indent > 0) {
         zpl__json_fprintf(f, "%c", o->type == ZPL_ADT_TYPE_OBJECT ? '}' : ']');
     } else {
-#ifndef ZPL_PARSER_DISABLE_ANALYSIS
-        if (!o->cfg_mode)
-#endif
         zpl__json_fprintf(f, "%c%s", o->type == ZPL_ADT_TYPE_OBJECT ? '}' : ']', zpl__json_string_eol(o, indent));
     }
 
-- 
2.43.0


From b97e7b17d79f89de591628dccf2d88eaebd3dd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:26 +0000
Subject: [PATCH 110/152] fix: CSV lost trailing empty fields, accepted ragged
 tables, skipped tab delimiters, overran escapes and wrote cells that do not
 read back

---
 code/source/parsers/csv.c | 185 +++++++++++++++++++++-----------------
 1 file changed, 101 insertions(+), 84 deletions(-)

diff --git a/code/source/parsers/csv.c b/code/source/parsers/csv.c
index 4a1a5b3..37c678d 100644
--- a/code/source/parsers/csv.c
+++ b/code/source/parsers/csv.c
@@ -10,19 +10,25 @@
 
 ZPL_BEGIN_C_DECLS
 
+zpl_internal char *zpl__csv_trim(char *p, zpl_b32 catch_newline, char delim) {
+    while (zpl_char_is_space(*p) && *p != delim && !(catch_newline && *p == '\n')) { ++p; }
+    return p;
+}
+
 zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator allocator, zpl_b32 has_header, char delim) {
     zpl_csv_error err = ZPL_CSV_ERROR_NONE;
     ZPL_ASSERT_NOT_NULL(root);
     ZPL_ASSERT_NOT_NULL(text);
     zpl_zero_item(root);
-    zpl_adt_make_branch(root, allocator, NULL, has_header ? false : true);
+    if (zpl_adt_make_branch(root, allocator, NULL, has_header ? false : true)) return ZPL_CSV_ERROR_INTERNAL;
     char *p = text, *b = p, *e = p;
-    zpl_isize colc = 0, total_colc = 0;
+    zpl_isize colc = 0, total_colc = 0, rowc = 0;
+    char d = 0;
 
     do {
-        char d = 0;
-        p = cast(char *)zpl_str_trim(p, false);
-        if (*p == 0) break;
+        /* blank lines are skipped, unless a delimiter has opened the next field of the row */
+        p = zpl__csv_trim(p, colc > 0, delim);
+        if (*p == 0 && colc == 0) break;
         zpl_adt_node row_item = {0};
         row_item.type = ZPL_ADT_TYPE_STRING;
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
@@ -49,79 +55,76 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
                 return err;
             }
             *e = 0;
-            p = cast(char *)zpl_str_trim(e+1, true);
+            p = zpl__csv_trim(e+1, true, delim);
             d = *p;
 
+            if (d != delim && d != '\n' && d != 0) {
+                ZPL_CSV_ASSERT("text after a quoted string");
+                err = ZPL_CSV_ERROR_INTERNAL;
+                return err;
+            }
+
             /* unescape escaped quotes (so that unescaped text escapes :) */
             {
-                char *ep = b;
-                do {
-                    if (*ep == '"' && *(ep+1) == '"') {
-                        zpl_memmove(ep, ep+1, zpl_strlen(ep));
-                    }
-                    ep++;
-                } while (*ep);
+                char *ep = b, *op = b;
+                while (*ep) {
+                    if (*ep == '"' && *(ep+1) == '"') ep++;
+                    *op++ = *ep++;
+                }
+                *op = 0;
             }
         }
-        else if (*p == delim) {
+        else if (*p == delim || *p == '\n' || *p == 0) {
             d = *p;
             row_item.string = "";
         }
-        else if (*p) {
+        else {
             /* regular data */
             b = e = p;
             row_item.string = b;
             do {
                 e++;
             } while (*e && *e != delim && *e != '\n');
-            if (*e) {
-                p = cast(char *)zpl_str_trim(e, true);
-                while (zpl_char_is_space(*(e-1))) { e--; }
-                d = *p;
-                *e = 0;
-            }
-            else {
-                d = 0;
-                p = e;
-            }
-
-            /* check if number and process if so */
-            zpl_b32 skip_number = false;
-            char *num_p = b;
-            do {
-                if (!zpl_char_is_hex_digit(*num_p) && (!zpl_strchr("+-.eExX", *num_p))) {
-                    skip_number = true;
-                    break;
-                }
-            } while (*num_p++);
+            p = e;
+            d = *p;
+            while (zpl_char_is_space(*(e-1))) { e--; }
+            *e = 0;
 
-            if (!skip_number) {
-                zpl_adt_str_to_number(&row_item);
+            /* check if number and process if so, headers are names however */
+            if (!has_header || rowc > 0) {
+                zpl_adt_str_to_number_strict(&row_item);
             }
         }
 
-        if (colc >= zpl_array_count(root->nodes)) {
-            zpl_adt_append_arr(root, NULL);
+        if (rowc > 0 && colc >= total_colc) {
+            ZPL_CSV_ASSERT("mismatched rows");
+            err = ZPL_CSV_ERROR_MISMATCHED_ROWS;
+            return err;
         }
 
-        zpl_array_append(root->nodes[colc].nodes, row_item);
-
-        if (d == delim) {
-            colc++;
-            p++;
+        if (colc >= zpl_array_count(root->nodes) && !zpl_adt_append_arr(root, NULL)) {
+            return ZPL_CSV_ERROR_INTERNAL;
         }
-        else if (d == '\n' || d == 0) {
+
+        zpl_adt_node *cell = zpl_adt_alloc(root->nodes + colc);
+        if (!cell) return ZPL_CSV_ERROR_INTERNAL;
+        row_item.parent = cell->parent;
+        *cell = row_item;
+        colc++;
+
+        if (d != delim) {
             /* check if number of rows is not mismatched */
-            if (total_colc < colc) total_colc = colc;
+            if (rowc == 0) total_colc = colc;
             else if (total_colc != colc) {
                 ZPL_CSV_ASSERT("mismatched rows");
                 err = ZPL_CSV_ERROR_MISMATCHED_ROWS;
                 return err;
             }
             colc = 0;
-            if (d != 0) p++;
+            rowc++;
         }
-    } while(*p);
+        if (d != 0) p++;
+    } while (d != 0);
 
     if (zpl_array_count(root->nodes) == 0) {
         ZPL_CSV_ASSERT("unexpected end of input. stream is empty.");
@@ -145,77 +148,91 @@ void zpl_csv_free(zpl_csv_object *obj) {
     zpl_adt_destroy_branch(obj);
 }
 
-void zpl__csv_write_record(zpl_file *file, zpl_csv_object *node) {
+/* text which would not read back as the same cell, unless it is quoted */
+zpl_internal zpl_b32 zpl__csv_needs_quotes(char const *text, char delim) {
+    if (!*text) return false;
+    if (*text == '"' || zpl_char_is_space(*text)) return true;
+    while (*text) {
+        if (*text == delim || *text == '\n') return true;
+        text++;
+    }
+    return zpl_char_is_space(*(text-1));
+}
+
+zpl_internal zpl_b32 zpl__csv_write_char(zpl_file *file, char c) {
+    return zpl_file_write(file, &c, 1);
+}
+
+zpl_internal zpl_b32 zpl__csv_write_record(zpl_file *file, zpl_csv_object *node, char delim, zpl_b32 single_col) {
     switch (node->type) {
+        case ZPL_ADT_TYPE_MULTISTRING:
         case ZPL_ADT_TYPE_STRING: {
+            char const *text = node->string ? node->string : "";
+            /* an empty line is no row, hence an empty cell of a lone column has to be quoted */
+            zpl_b32 quoted = (single_col && !*text) || zpl__csv_needs_quotes(text, delim);
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
-            switch (node->name_style) {
-                case ZPL_ADT_NAME_STYLE_DOUBLE_QUOTE: {
-                    zpl_fprintf(file, "\"");
-                    zpl_adt_print_string(file, node, "\"", "\"");
-                    zpl_fprintf(file, "\"");
-                } break;
-
-                case ZPL_ADT_NAME_STYLE_NO_QUOTES: {
-#endif
-                    zpl_fprintf(file, "%s", node->string);
-#ifndef ZPL_PARSER_DISABLE_ANALYSIS
-                } break;
-            }
+            if (node->name_style != ZPL_ADT_NAME_STYLE_NO_QUOTES) quoted = true;
 #endif
+            if (!quoted) return zpl_file_write(file, text, zpl_strlen(text));
+
+            return zpl__csv_write_char(file, '"')
+                && !zpl_adt_print_string(file, node, "\"", "\"")
+                && zpl__csv_write_char(file, '"');
         } break;
 
         case ZPL_ADT_TYPE_REAL:
         case ZPL_ADT_TYPE_INTEGER: {
-            zpl_adt_print_number(file, node);
+            return !zpl_adt_print_number(file, node);
         } break;
     }
+    return true;
 }
 
-void zpl__csv_write_header(zpl_file *file, zpl_csv_object *header) {
+zpl_internal zpl_b32 zpl__csv_write_header(zpl_file *file, zpl_csv_object *header, char delim, zpl_b32 single_col) {
     zpl_csv_object temp = *header;
     temp.string = temp.name;
     temp.type = ZPL_ADT_TYPE_STRING;
-    zpl__csv_write_record(file, &temp);
+    return zpl__csv_write_record(file, &temp, delim, single_col);
 }
 
-void zpl_csv_write_delimiter(zpl_file *file, zpl_csv_object *obj, char delimiter) {
-    ZPL_ASSERT_NOT_NULL(file);
-    ZPL_ASSERT_NOT_NULL(obj);
-    ZPL_ASSERT(obj->nodes);
+zpl_internal zpl_b32 zpl__csv_write_table(zpl_file *file, zpl_csv_object *obj, char delimiter) {
     zpl_isize cols = zpl_array_count(obj->nodes);
-    if (cols == 0) return;
+    if (cols == 0) return true;
 
     zpl_isize rows = zpl_array_count(obj->nodes[0].nodes);
-    if (rows == 0) return;
-
     zpl_b32 has_headers = obj->nodes[0].name != NULL;
 
     if (has_headers) {
         for (zpl_isize i = 0; i < cols; i++) {
-            zpl__csv_write_header(file, &obj->nodes[i]);
-            if (i+1 != cols) {
-                zpl_fprintf(file, "%c", delimiter);
-            }
+            if (!zpl__csv_write_header(file, &obj->nodes[i], delimiter, cols == 1)) return false;
+            if (!zpl__csv_write_char(file, i+1 != cols ? delimiter : '\n')) return false;
         }
-        zpl_fprintf(file, "\n");
     }
 
     for (zpl_isize r = 0; r < rows; r++) {
         for (zpl_isize i = 0; i < cols; i++) {
-            zpl__csv_write_record(file, &obj->nodes[i].nodes[r]);
-            if (i+1 != cols) {
-                zpl_fprintf(file, "%c", delimiter);
-            }
+            if (!zpl__csv_write_record(file, &obj->nodes[i].nodes[r], delimiter, cols == 1)) return false;
+            if (!zpl__csv_write_char(file, i+1 != cols ? delimiter : '\n')) return false;
         }
-        zpl_fprintf(file, "\n");
     }
+    return true;
+}
+
+void zpl_csv_write_delimiter(zpl_file *file, zpl_csv_object *obj, char delimiter) {
+    ZPL_ASSERT_NOT_NULL(file);
+    ZPL_ASSERT_NOT_NULL(obj);
+    ZPL_ASSERT(obj->nodes);
+    zpl__csv_write_table(file, obj, delimiter);
 }
 
 zpl_string zpl_csv_write_string_delimiter(zpl_allocator a, zpl_csv_object *obj, char delimiter) {
     zpl_file tmp;
-    zpl_file_stream_new(&tmp, a);
-    zpl_csv_write_delimiter(&tmp, obj, delimiter);
+    if (!zpl_file_stream_new(&tmp, a))
+        return NULL;
+    if (!zpl__csv_write_table(&tmp, obj, delimiter)) {
+        zpl_file_close(&tmp);
+        return NULL;
+    }
     zpl_isize fsize;
     zpl_u8* buf = zpl_file_stream_buf(&tmp, &fsize);
     zpl_string output = zpl_string_make_length(a, (char *)buf, fsize);
-- 
2.43.0


From 8e2ddea6e297ed4608c199cddc0ee2ce9e64d741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:36 +0000
Subject: [PATCH 111/152] fix: decoding a URI field overflowed the stack past
 64 kB and read beyond a field that ends in a percent sign

---
 code/source/parsers/uri.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/code/source/parsers/uri.c b/code/source/parsers/uri.c
index 846b84f..8a7c836 100644
--- a/code/source/parsers/uri.c
+++ b/code/source/parsers/uri.c
@@ -3,7 +3,8 @@
 ZPL_BEGIN_C_DECLS
 
 void zpl__uri_decode_str(char *text) {
-    char buf[ZPL_PRINTF_MAXLEN] = {0}, *p = buf;
+    /* decoded text is never longer than the encoded one, so that it can be replaced in place */
+    char *p = text;
     char *tp = text;
     
     char ch = -1;
@@ -16,6 +17,8 @@ void zpl__uri_decode_str(char *text) {
             } else {
                 *(p++) = ch;
             }
+        } else if (!zpl_char_is_hex_digit(tp[0]) || !zpl_char_is_hex_digit(tp[1])) {
+            *(p++) = ch;
         } else {
             char hex[3] = {0};
             hex[0] = tp[0];
@@ -26,8 +29,7 @@ void zpl__uri_decode_str(char *text) {
         }
     }
     
-    zpl_strcpy(text, buf);
-    text[p-buf] = 0;
+    *p = 0;
 }
 
 zpl_u8 zpl_uri_init(zpl_adt_node *root, char *origin, zpl_allocator a) {
-- 
2.43.0


From adcbac30bb5cbab0af58e197d8e06b3d6b61d8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:38 +0000
Subject: [PATCH 112/152] fix: the URI origin was used as a printf format, the
 separators were misplaced around it, and failed allocations were dereferenced
 or cut the text short

---
 code/source/parsers/uri.c | 84 +++++++++++++++++++++++----------------
 1 file changed, 49 insertions(+), 35 deletions(-)

diff --git a/code/source/parsers/uri.c b/code/source/parsers/uri.c
index 8a7c836..5f2e329 100644
--- a/code/source/parsers/uri.c
+++ b/code/source/parsers/uri.c
@@ -36,9 +36,9 @@ zpl_u8 zpl_uri_init(zpl_adt_node *root, char *origin, zpl_allocator a) {
     zpl_u8 err_code = ZPL_URI_ERROR_NONE;
     ZPL_ASSERT_NOT_NULL(root);
     zpl_zero_item(root);
-    zpl_adt_set_obj(root, NULL, a);
-    if (origin)
-        zpl_adt_append_str(root, "__zpl_origin__", origin);
+    if (zpl_adt_set_obj(root, NULL, a)) return ZPL_URI_ERROR_INTERNAL;
+    if (origin && !zpl_adt_append_str(root, "__zpl_origin__", origin))
+        err_code = ZPL_URI_ERROR_INTERNAL;
     return err_code;
 }
 
@@ -49,7 +49,7 @@ zpl_u8 zpl_uri_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
     zpl_zero_item(root);
     text = (char *)zpl_str_trim(text, false);
     
-    zpl_adt_set_obj(root, NULL, a);
+    if (zpl_adt_set_obj(root, NULL, a)) return ZPL_URI_ERROR_INTERNAL;
     
     char *p = text, *b = p;
 
@@ -63,7 +63,9 @@ zpl_u8 zpl_uri_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
         char c = *p;
         *p = 0;
 
-        zpl_adt_append_str(root, "__zpl_origin__", b);
+        if (!zpl_adt_append_str(root, "__zpl_origin__", b)) {
+            return ZPL_URI_ERROR_INTERNAL;
+        }
         
         if (!c) {
             // NOTE(zaklaus): URI has no query params, bail
@@ -96,9 +98,11 @@ zpl_u8 zpl_uri_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
             field_value = b;
             zpl__uri_decode_str(field_value);
             zpl_adt_node *obj = zpl_adt_append_str(root, field_name, field_value);
+            if (!obj) return ZPL_URI_ERROR_INTERNAL;
             zpl_adt_str_to_number_strict(obj);
         } else {
             zpl_adt_node *obj = zpl_adt_append_flt(root, field_name, 1);
+            if (!obj) return ZPL_URI_ERROR_INTERNAL;
             obj->props = ZPL_ADT_PROPS_TRUE;
         }
         
@@ -113,11 +117,15 @@ zpl_u8 zpl_uri_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
     return err_code;
 }
 
-zpl_adt_error zpl__uri_print_str(zpl_file *file, const char *text) {
+zpl_internal zpl_b32 zpl__uri_write_char(zpl_file *file, char c) {
+    return zpl_file_write(file, &c, 1);
+}
+
+zpl_internal zpl_b32 zpl__uri_print_str(zpl_file *file, const char *text) {
     ZPL_ASSERT_NOT_NULL(file);
     
     if (!text) {
-        return ZPL_ADT_ERROR_NONE;
+        return true;
     }
     
     const char *p = text;
@@ -127,58 +135,61 @@ zpl_adt_error zpl__uri_print_str(zpl_file *file, const char *text) {
     while (*p) {
         ch = (zpl_u8) *p++;
         if (ch == ' ') {
-            zpl_fprintf(file, "%s", "+");
+            if (!zpl__uri_write_char(file, '+')) return false;
         } else if (zpl_char_is_alphanumeric(ch) || zpl_strchr("-_.~", ch)) {
-            zpl_fprintf(file, "%c", ch);
+            if (!zpl__uri_write_char(file, ch)) return false;
         } else {
-            zpl_snprintf(buf, zpl_size_of(buf), "%02X", ch);
-            zpl_fprintf(file, "%c%s", '%', buf);
+            zpl_snprintf(buf, zpl_size_of(buf), "%%%02X", ch);
+            if (!zpl_file_write(file, buf, 3)) return false;
         }
     }
     
-    return ZPL_ADT_ERROR_NONE;
+    return true;
 }
 
-void zpl_uri_write(zpl_file *f, zpl_adt_node *obj) {
-    ZPL_ASSERT_NOT_NULL(f);
-    ZPL_ASSERT_NOT_NULL(obj);
-    ZPL_ASSERT(obj->type == ZPL_ADT_TYPE_OBJECT);
-    
+zpl_internal zpl_b32 zpl__uri_write(zpl_file *f, zpl_adt_node *obj) {
     zpl_adt_node *origin = NULL;
+    char separator = '?';
     
     // NOTE(zaklaus): write URI origin if available
     {
         origin = zpl_adt_query(obj, "__zpl_origin__");
-        if (origin) {
-            zpl_fprintf(f, origin->string);
+        if (origin && origin->type != ZPL_ADT_TYPE_STRING) {
+            origin = NULL;
+        }
+        if (origin && origin->string) {
+            if (!zpl_file_write(f, origin->string, zpl_strlen(origin->string))) return false;
         }
     }
     
 	// NOTE(zaklaus): write params
-	if (zpl_array_count(obj->nodes) > 0)
-    	zpl_fprintf(f, "%s", "?");
-    
     for (zpl_isize i = 0; i < zpl_array_count(obj->nodes); i++) {
         zpl_adt_node *n = (obj->nodes+i);
         if (origin == n) continue;
         
-        zpl__uri_print_str(f, n->name);
+        if (!zpl__uri_write_char(f, separator)) return false;
+        separator = '&';
+        if (!zpl__uri_print_str(f, n->name)) return false;
 
         if (n->type == ZPL_ADT_TYPE_STRING) {
-            zpl_fprintf(f, "%c", '=');
-            zpl__uri_print_str(f, n->string);
+            if (!zpl__uri_write_char(f, '=')) return false;
+            if (!zpl__uri_print_str(f, n->string)) return false;
         } else if (n->type == ZPL_ADT_TYPE_INTEGER || n->type == ZPL_ADT_TYPE_REAL) {
            if (n->props != ZPL_ADT_PROPS_TRUE) {
-                zpl_fprintf(f, "%c", '=');
-                // TODO: ensure the output is URI-encoded
-                zpl_adt_print_number(f, n);
+                if (!zpl__uri_write_char(f, '=')) return false;
+                if (zpl_adt_print_number(f, n)) return false;
            } 
         }
-        
-        if (i+1 < zpl_array_count(obj->nodes)) {
-            zpl_fprintf(f, "%s", "&");
-        }
     }
+    
+    return true;
+}
+
+void zpl_uri_write(zpl_file *f, zpl_adt_node *obj) {
+    ZPL_ASSERT_NOT_NULL(f);
+    ZPL_ASSERT_NOT_NULL(obj);
+    ZPL_ASSERT(obj->type == ZPL_ADT_TYPE_OBJECT);
+    zpl__uri_write(f, obj);
 }
 
 void zpl_uri_free(zpl_adt_node *obj) {
@@ -187,8 +198,12 @@ void zpl_uri_free(zpl_adt_node *obj) {
 
 zpl_string zpl_uri_write_string(zpl_allocator a, zpl_adt_node *obj) {
     zpl_file tmp;
-    zpl_file_stream_new(&tmp, a);
-    zpl_uri_write(&tmp, obj);
+    if (!zpl_file_stream_new(&tmp, a))
+        return NULL;
+    if (!zpl__uri_write(&tmp, obj)) {
+        zpl_file_close(&tmp);
+        return NULL;
+    }
     zpl_isize fsize;
     zpl_u8* buf = zpl_file_stream_buf(&tmp, &fsize);
     zpl_string output = zpl_string_make_length(a, (char *)buf, fsize);
@@ -197,4 +212,3 @@ zpl_string zpl_uri_write_string(zpl_allocator a, zpl_adt_node *obj) {
 }
 
 ZPL_END_C_DECLS
-
-- 
2.43.0


From 85c23522a327b7582d6154fcf207016e8672e580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:43 +0000
Subject: [PATCH 113/152] fix: floor, ceil and round were off by one on whole
 and near-half numbers, mod added the divisor to every result, and 1/pi and
 1/tau were wrong

---
 code/header/math.h | 1396 ++++++++++++++++++++++----------------------
 code/source/math.c |   39 +-
 2 files changed, 729 insertions(+), 706 deletions(-)

diff --git a/code/header/math.h b/code/header/math.h
index a75301a..e5a503c 100644
--- a/code/header/math.h
+++ b/code/header/math.h
@@ -1,698 +1,698 @@
-// file: header/math.h
-
-/** @file math.c
-@brief Math operations
-@defgroup math Math operations
-
-OpenGL gamedev friendly library for math.
-
-@{
-*/
-
-ZPL_BEGIN_C_DECLS
-
-typedef union zpl_vec2 {
-    struct {
-        zpl_f32 x, y;
-    };
-    struct {
-        zpl_f32 s, t;
-    };
-    zpl_f32 e[2];
-} zpl_vec2;
-
-typedef union zpl_vec3 {
-    struct {
-        zpl_f32 x, y, z;
-    };
-    struct {
-        zpl_f32 r, g, b;
-    };
-    struct {
-        zpl_f32 s, t, p;
-    };
-    
-    zpl_vec2 xy;
-    zpl_vec2 st;
-    zpl_f32 e[3];
-} zpl_vec3;
-
-typedef union zpl_vec4 {
-    struct {
-        zpl_f32 x, y, z, w;
-    };
-    struct {
-        zpl_f32 r, g, b, a;
-    };
-    struct {
-        zpl_f32 s, t, p, q;
-    };
-    struct {
-        zpl_vec2 xy, zw;
-    };
-    struct {
-        zpl_vec2 st, pq;
-    };
-    zpl_vec3 xyz;
-    zpl_vec3 rgb;
-    zpl_f32 e[4];
-} zpl_vec4;
-
-typedef union zpl_mat2 {
-    struct {
-        zpl_vec2 x, y;
-    };
-    zpl_vec2 col[2];
-    zpl_f32 e[4];
-} zpl_mat2;
-
-typedef union zpl_mat3 {
-    struct {
-        zpl_vec3 x, y, z;
-    };
-    zpl_vec3 col[3];
-    zpl_f32 e[9];
-} zpl_mat3;
-
-typedef union zpl_mat4 {
-    struct {
-        zpl_vec4 x, y, z, w;
-    };
-    zpl_vec4 col[4];
-    zpl_f32 e[16];
-} zpl_mat4;
-
-typedef union zpl_quat {
-    struct {
-        zpl_f32 x, y, z, w;
-    };
-    zpl_vec4 xyzw;
-    zpl_vec3 xyz;
-    zpl_f32 e[4];
-} zpl_quat;
-
-typedef union zpl_plane {
-    struct {
-        zpl_f32 a, b, c, d;
-    };
-    zpl_vec4 xyzw;
-    zpl_vec3 n;
-    zpl_f32 e[4];
-} zpl_plane;
-
-typedef struct zpl_frustum {
-    zpl_plane x1;
-    zpl_plane x2;
-    zpl_plane y1;
-    zpl_plane y2;
-    zpl_plane z1;
-    zpl_plane z2;
-} zpl_frustum;
-
-typedef zpl_f32 zpl_float2[2];
-typedef zpl_f32 zpl_float3[3];
-typedef zpl_f32 zpl_float4[4];
-
-typedef struct zpl_rect2 {
-    zpl_vec2 pos, dim;
-} zpl_rect2;
-typedef struct zpl_rect3 {
-    zpl_vec3 pos, dim;
-} zpl_rect3;
-
-typedef struct zpl_aabb2 {
-    zpl_vec2 min, max;
-} zpl_aabb2;
-typedef struct zpl_aabb3 {
-    zpl_vec3 min, max;
-} zpl_aabb3;
-
-typedef short zpl_half;
-
-#ifndef ZPL_CONSTANTS
-#define ZPL_CONSTANTS
-#define ZPL_EPSILON    1.19209290e-7f
-#define ZPL_ZERO       0.0f
-#define ZPL_ONE        1.0f
-#define ZPL_TWO_THIRDS 0.666666666666666666666666666666666666667f
-
-#define ZPL_TAU          6.28318530717958647692528676655900576f
-#define ZPL_PI           3.14159265358979323846264338327950288f
-#define ZPL_ONE_OVER_TAU 0.636619772367581343075535053490057448f
-#define ZPL_ONE_OVER_PI  0.159154943091895335768883763372514362f
-
-#define ZPL_TAU_OVER_2 3.14159265358979323846264338327950288f
-#define ZPL_TAU_OVER_4 1.570796326794896619231321691639751442f
-#define ZPL_TAU_OVER_8 0.785398163397448309615660845819875721f
-
-#define ZPL_E          2.71828182845904523536f
-#define ZPL_SQRT_TWO   1.41421356237309504880168872420969808f
-#define ZPL_SQRT_THREE 1.73205080756887729352744634150587236f
-#define ZPL_SQRT_FIVE  2.23606797749978969640917366873127623f
-
-#define ZPL_LOG_TWO 0.693147180559945309417232121458176568f
-#define ZPL_LOG_TEN 2.30258509299404568401799145468436421f
-#endif // ZPL_CONSTANTS
-
-#ifndef zpl_square
-#define zpl_square(x) ((x) * (x))
-#endif
-
-#ifndef zpl_cube
-#define zpl_cube(x) ((x) * (x) * (x))
-#endif
-
-#ifndef zpl_sign
-#define zpl_sign(x) ((x) >= 0.0f ? 1.0f : -1.0f)
-#endif
-
-#ifndef zpl_sign0
-#define zpl_sign0(x) ((x == 0.0f) ? 0.0f : ((x) >= 0.0f ? 1.0f : -1.0f))
-#endif
-
-ZPL_DEF zpl_f32 zpl_to_radians(zpl_f32 degrees);
-ZPL_DEF zpl_f32 zpl_to_degrees(zpl_f32 radians);
-
-/* NOTE: Because to interpolate angles */
-ZPL_DEF zpl_f32 zpl_angle_diff(zpl_f32 radians_a, zpl_f32 radians_b);
-
-ZPL_DEF zpl_f32 zpl_copy_sign(zpl_f32 x, zpl_f32 y);
-ZPL_DEF zpl_f32 zpl_remainder(zpl_f32 x, zpl_f32 y);
-ZPL_DEF zpl_f32 zpl_mod(zpl_f32 x, zpl_f32 y);
-ZPL_DEF zpl_f64 zpl_copy_sign64(zpl_f64 x, zpl_f64 y);
-ZPL_DEF zpl_f64 zpl_floor64(zpl_f64 x);
-ZPL_DEF zpl_f64 zpl_ceil64(zpl_f64 x);
-ZPL_DEF zpl_f64 zpl_round64(zpl_f64 x);
-ZPL_DEF zpl_f64 zpl_remainder64(zpl_f64 x, zpl_f64 y);
-ZPL_DEF zpl_f64 zpl_abs64(zpl_f64 x);
-ZPL_DEF zpl_f64 zpl_sign64(zpl_f64 x);
-ZPL_DEF zpl_f64 zpl_mod64(zpl_f64 x, zpl_f64 y);
-ZPL_DEF zpl_f32 zpl_sqrt(zpl_f32 a);
-ZPL_DEF zpl_f32 zpl_rsqrt(zpl_f32 a);
-ZPL_DEF zpl_f32 zpl_quake_rsqrt(zpl_f32 a); /* NOTE: It's probably better to use 1.0f/zpl_sqrt(a)
-                                     * And for simd, there is usually isqrt functions too!
-                                     */
-ZPL_DEF zpl_f32 zpl_hypot(zpl_f32 x, zpl_f32 y);
-ZPL_DEF zpl_f32 zpl_sin(zpl_f32 radians);
-ZPL_DEF zpl_f32 zpl_cos(zpl_f32 radians);
-ZPL_DEF zpl_f32 zpl_tan(zpl_f32 radians);
-ZPL_DEF zpl_f32 zpl_arcsin(zpl_f32 a);
-ZPL_DEF zpl_f32 zpl_arccos(zpl_f32 a);
-ZPL_DEF zpl_f32 zpl_arctan(zpl_f32 a);
-ZPL_DEF zpl_f32 zpl_arctan2(zpl_f32 y, zpl_f32 x);
-
-ZPL_DEF zpl_f32 zpl_exp(zpl_f32 x);
-ZPL_DEF zpl_f32 zpl_exp2(zpl_f32 x);
-ZPL_DEF zpl_f32 zpl_log(zpl_f32 x);
-ZPL_DEF zpl_f32 zpl_log2(zpl_f32 x);
-ZPL_DEF zpl_f32 zpl_fast_exp(zpl_f32 x);   /* NOTE: Only valid from -1 <= x <= +1 */
-ZPL_DEF zpl_f32 zpl_fast_exp2(zpl_f32 x);  /* NOTE: Only valid from -1 <= x <= +1 */
-ZPL_DEF zpl_f32 zpl_pow(zpl_f32 x, zpl_f32 y); /* x^y */
-
-ZPL_DEF zpl_f32 zpl_round(zpl_f32 x);
-ZPL_DEF zpl_f32 zpl_floor(zpl_f32 x);
-ZPL_DEF zpl_f32 zpl_ceil(zpl_f32 x);
-
-ZPL_DEF zpl_f32  zpl_half_to_float(zpl_half value);
-ZPL_DEF zpl_half zpl_float_to_half(zpl_f32 value);
-
-ZPL_DEF zpl_vec2 zpl_vec2f_zero(void);
-ZPL_DEF zpl_vec2 zpl_vec2f(zpl_f32 x, zpl_f32 y);
-ZPL_DEF zpl_vec2 zpl_vec2fv(zpl_f32 x[2]);
-
-ZPL_DEF zpl_vec3 zpl_vec3f_zero(void);
-ZPL_DEF zpl_vec3 zpl_vec3f(zpl_f32 x, zpl_f32 y, zpl_f32 z);
-ZPL_DEF zpl_vec3 zpl_vec3fv(zpl_f32 x[3]);
-
-ZPL_DEF zpl_vec4 zpl_vec4f_zero(void);
-ZPL_DEF zpl_vec4 zpl_vec4f(zpl_f32 x, zpl_f32 y, zpl_f32 z, zpl_f32 w);
-ZPL_DEF zpl_vec4 zpl_vec4fv(zpl_f32 x[4]);
-
-ZPL_DEF zpl_f32 zpl_vec2_max(zpl_vec2 v);
-ZPL_DEF zpl_f32 zpl_vec2_side(zpl_vec2 p, zpl_vec2 q, zpl_vec2 r);
-ZPL_DEF void zpl_vec2_add(zpl_vec2 *d, zpl_vec2 v0, zpl_vec2 v1);
-ZPL_DEF void zpl_vec2_sub(zpl_vec2 *d, zpl_vec2 v0, zpl_vec2 v1);
-ZPL_DEF void zpl_vec2_mul(zpl_vec2 *d, zpl_vec2 v, zpl_f32 s);
-ZPL_DEF void zpl_vec2_div(zpl_vec2 *d, zpl_vec2 v, zpl_f32 s);
-
-ZPL_DEF zpl_f32 zpl_vec3_max(zpl_vec3 v);
-ZPL_DEF void zpl_vec3_add(zpl_vec3 *d, zpl_vec3 v0, zpl_vec3 v1);
-ZPL_DEF void zpl_vec3_sub(zpl_vec3 *d, zpl_vec3 v0, zpl_vec3 v1);
-ZPL_DEF void zpl_vec3_mul(zpl_vec3 *d, zpl_vec3 v, zpl_f32 s);
-ZPL_DEF void zpl_vec3_div(zpl_vec3 *d, zpl_vec3 v, zpl_f32 s);
-
-ZPL_DEF void zpl_vec4_add(zpl_vec4 *d, zpl_vec4 v0, zpl_vec4 v1);
-ZPL_DEF void zpl_vec4_sub(zpl_vec4 *d, zpl_vec4 v0, zpl_vec4 v1);
-ZPL_DEF void zpl_vec4_mul(zpl_vec4 *d, zpl_vec4 v, zpl_f32 s);
-ZPL_DEF void zpl_vec4_div(zpl_vec4 *d, zpl_vec4 v, zpl_f32 s);
-
-ZPL_DEF void zpl_vec2_addeq(zpl_vec2 *d, zpl_vec2 v);
-ZPL_DEF void zpl_vec2_subeq(zpl_vec2 *d, zpl_vec2 v);
-ZPL_DEF void zpl_vec2_muleq(zpl_vec2 *d, zpl_f32 s);
-ZPL_DEF void zpl_vec2_diveq(zpl_vec2 *d, zpl_f32 s);
-
-ZPL_DEF void zpl_vec3_addeq(zpl_vec3 *d, zpl_vec3 v);
-ZPL_DEF void zpl_vec3_subeq(zpl_vec3 *d, zpl_vec3 v);
-ZPL_DEF void zpl_vec3_muleq(zpl_vec3 *d, zpl_f32 s);
-ZPL_DEF void zpl_vec3_diveq(zpl_vec3 *d, zpl_f32 s);
-
-ZPL_DEF void zpl_vec4_addeq(zpl_vec4 *d, zpl_vec4 v);
-ZPL_DEF void zpl_vec4_subeq(zpl_vec4 *d, zpl_vec4 v);
-ZPL_DEF void zpl_vec4_muleq(zpl_vec4 *d, zpl_f32 s);
-ZPL_DEF void zpl_vec4_diveq(zpl_vec4 *d, zpl_f32 s);
-
-ZPL_DEF zpl_f32 zpl_vec2_dot(zpl_vec2 v0, zpl_vec2 v1);
-ZPL_DEF zpl_f32 zpl_vec3_dot(zpl_vec3 v0, zpl_vec3 v1);
-ZPL_DEF zpl_f32 zpl_vec4_dot(zpl_vec4 v0, zpl_vec4 v1);
-
-ZPL_DEF void zpl_vec2_cross(zpl_f32 *d, zpl_vec2 v0, zpl_vec2 v1);
-ZPL_DEF void zpl_vec3_cross(zpl_vec3 *d, zpl_vec3 v0, zpl_vec3 v1);
-
-ZPL_DEF zpl_f32 zpl_vec2_mag2(zpl_vec2 v);
-ZPL_DEF zpl_f32 zpl_vec3_mag2(zpl_vec3 v);
-ZPL_DEF zpl_f32 zpl_vec4_mag2(zpl_vec4 v);
-
-ZPL_DEF zpl_f32 zpl_vec2_mag(zpl_vec2 v);
-ZPL_DEF zpl_f32 zpl_vec3_mag(zpl_vec3 v);
-ZPL_DEF zpl_f32 zpl_vec4_mag(zpl_vec4 v);
-
-ZPL_DEF void zpl_vec2_norm(zpl_vec2 *d, zpl_vec2 v);
-ZPL_DEF void zpl_vec3_norm(zpl_vec3 *d, zpl_vec3 v);
-ZPL_DEF void zpl_vec4_norm(zpl_vec4 *d, zpl_vec4 v);
-
-ZPL_DEF void zpl_vec2_norm0(zpl_vec2 *d, zpl_vec2 v);
-ZPL_DEF void zpl_vec3_norm0(zpl_vec3 *d, zpl_vec3 v);
-ZPL_DEF void zpl_vec4_norm0(zpl_vec4 *d, zpl_vec4 v);
-
-ZPL_DEF void zpl_vec2_reflect(zpl_vec2 *d, zpl_vec2 i, zpl_vec2 n);
-ZPL_DEF void zpl_vec3_reflect(zpl_vec3 *d, zpl_vec3 i, zpl_vec3 n);
-ZPL_DEF void zpl_vec2_refract(zpl_vec2 *d, zpl_vec2 i, zpl_vec2 n, zpl_f32 eta);
-ZPL_DEF void zpl_vec3_refract(zpl_vec3 *d, zpl_vec3 i, zpl_vec3 n, zpl_f32 eta);
-
-ZPL_DEF zpl_f32 zpl_vec2_aspect_ratio(zpl_vec2 v);
-
-ZPL_DEF void zpl_mat2_identity(zpl_mat2 *m);
-ZPL_DEF void zpl_float22_identity(zpl_f32 m[2][2]);
-
-ZPL_DEF void    zpl_mat2_transpose(zpl_mat2 *m);
-ZPL_DEF void    zpl_mat2_mul(zpl_mat2 *out, zpl_mat2 *m1, zpl_mat2 *m2);
-ZPL_DEF void    zpl_mat2_mul_vec2(zpl_vec2 *out, zpl_mat2 *m, zpl_vec2 in);
-ZPL_DEF void    zpl_mat2_inverse(zpl_mat2 *out, zpl_mat2 *in);
-ZPL_DEF zpl_f32 zpl_mat2_determinate(zpl_mat2 *m);
-
-ZPL_DEF zpl_mat2   *zpl_mat2_v(zpl_vec2 m[2]);
-ZPL_DEF zpl_mat2   *zpl_mat2_f(zpl_f32 m[2][2]);
-ZPL_DEF zpl_float2 *zpl_float22_m(zpl_mat2 *m);
-ZPL_DEF zpl_float2 *zpl_float22_v(zpl_vec2 m[2]);
-ZPL_DEF zpl_float2 *zpl_float22_4(zpl_f32 m[4]);
-
-ZPL_DEF void zpl_float22_transpose(zpl_f32 (*vec)[2]);
-ZPL_DEF void zpl_float22_mul(zpl_f32 (*out)[2], zpl_f32 (*mat1)[2], zpl_f32 (*mat2)[2]);
-ZPL_DEF void zpl_float22_mul_vec2(zpl_vec2 *out, zpl_f32 m[2][2], zpl_vec2 in);
-
-ZPL_DEF void zpl_mat3_identity(zpl_mat3 *m);
-ZPL_DEF void zpl_float33_identity(zpl_f32 m[3][3]);
-
-ZPL_DEF void    zpl_mat3_transpose(zpl_mat3 *m);
-ZPL_DEF void    zpl_mat3_mul(zpl_mat3 *out, zpl_mat3 *m1, zpl_mat3 *m2);
-ZPL_DEF void    zpl_mat3_mul_vec3(zpl_vec3 *out, zpl_mat3 *m, zpl_vec3 in);
-ZPL_DEF void    zpl_mat3_inverse(zpl_mat3 *out, zpl_mat3 *in);
-ZPL_DEF zpl_f32 zpl_mat3_determinate(zpl_mat3 *m);
-
-ZPL_DEF zpl_mat3   *zpl_mat3_v(zpl_vec3 m[3]);
-ZPL_DEF zpl_mat3   *zpl_mat3_f(zpl_f32 m[3][3]);
-
-ZPL_DEF zpl_float3 *zpl_float33_m(zpl_mat3 *m);
-ZPL_DEF zpl_float3 *zpl_float33_v(zpl_vec3 m[3]);
-ZPL_DEF zpl_float3 *zpl_float33_9(zpl_f32 m[9]);
-
-ZPL_DEF void zpl_float33_transpose(zpl_f32 (*vec)[3]);
-ZPL_DEF void zpl_float33_mul(zpl_f32 (*out)[3], zpl_f32 (*mat1)[3], zpl_f32 (*mat2)[3]);
-ZPL_DEF void zpl_float33_mul_vec3(zpl_vec3 *out, zpl_f32 m[3][3], zpl_vec3 in);
-
-ZPL_DEF void zpl_mat4_identity(zpl_mat4 *m);
-ZPL_DEF void zpl_float44_identity(zpl_f32 m[4][4]);
-ZPL_DEF void zpl_mat4_copy(zpl_mat4* out, zpl_mat4* m);
-
-ZPL_DEF void zpl_mat4_transpose(zpl_mat4 *m);
-ZPL_DEF void zpl_mat4_mul(zpl_mat4 *out, zpl_mat4 *m1, zpl_mat4 *m2);
-ZPL_DEF void zpl_mat4_mul_vec4(zpl_vec4 *out, zpl_mat4 *m, zpl_vec4 in);
-ZPL_DEF void zpl_mat4_inverse(zpl_mat4 *out, zpl_mat4 *in);
-
-ZPL_DEF zpl_mat4 *zpl_mat4_v(zpl_vec4 m[4]);
-ZPL_DEF zpl_mat4 *zpl_mat4_f(zpl_f32 m[4][4]);
-
-ZPL_DEF zpl_float4 *zpl_float44_m(zpl_mat4 *m);
-ZPL_DEF zpl_float4 *zpl_float44_v(zpl_vec4 m[4]);
-ZPL_DEF zpl_float4 *zpl_float44_16(zpl_f32 m[16]);
-
-ZPL_DEF void zpl_float44_transpose(zpl_f32 (*vec)[4]);
-ZPL_DEF void zpl_float44_mul(zpl_f32 (*out)[4], zpl_f32 (*mat1)[4], zpl_f32 (*mat2)[4]);
-ZPL_DEF void zpl_float44_mul_vec4(zpl_vec4 *out, zpl_f32 m[4][4], zpl_vec4 in);
-
-ZPL_DEF void zpl_mat4_axis_angle(zpl_mat4* out, zpl_vec3 v, zpl_f32 angle_radians);
-ZPL_DEF void zpl_mat4_to_translate(zpl_mat4* out, zpl_vec3 v);
-ZPL_DEF void zpl_mat4_to_rotate(zpl_mat4* out, zpl_vec3 v, zpl_f32 angle_radians);
-ZPL_DEF void zpl_mat4_to_scale(zpl_mat4* out, zpl_vec3 v);
-ZPL_DEF void zpl_mat4_to_scalef(zpl_mat4* out, zpl_f32 s);
-ZPL_DEF void zpl_mat4_translate(zpl_mat4* out, zpl_vec3 v);
-ZPL_DEF void zpl_mat4_rotate(zpl_mat4* out, zpl_vec3 v, zpl_f32 angle_radians);
-ZPL_DEF void zpl_mat4_scale(zpl_mat4* out, zpl_vec3 v);
-ZPL_DEF void zpl_mat4_scalef(zpl_mat4 *out, zpl_f32 s);
-ZPL_DEF void zpl_mat4_ortho2d(zpl_mat4 *out, zpl_f32 left, zpl_f32 right, zpl_f32 bottom, zpl_f32 top);
-ZPL_DEF void zpl_mat4_ortho3d(zpl_mat4 *out, zpl_f32 left, zpl_f32 right, zpl_f32 bottom, zpl_f32 top, zpl_f32 z_near, zpl_f32 z_far);
-ZPL_DEF void zpl_mat4_perspective(zpl_mat4 *out, zpl_f32 fovy, zpl_f32 aspect, zpl_f32 z_near, zpl_f32 z_far);
-ZPL_DEF void zpl_mat4_infinite_perspective(zpl_mat4 *out, zpl_f32 fovy, zpl_f32 aspect, zpl_f32 z_near);
-
-ZPL_DEF void zpl_mat4_ortho2d_dx(zpl_mat4 *out, zpl_f32 left, zpl_f32 right, zpl_f32 bottom, zpl_f32 top);
-ZPL_DEF void zpl_mat4_ortho3d_dx(zpl_mat4 *out, zpl_f32 left, zpl_f32 right, zpl_f32 bottom, zpl_f32 top, zpl_f32 z_near, zpl_f32 z_far);
-ZPL_DEF void zpl_mat4_perspective_dx(zpl_mat4 *out, zpl_f32 fovy, zpl_f32 aspect, zpl_f32 z_near, zpl_f32 z_far);
-ZPL_DEF void zpl_mat4_infinite_perspective_dx(zpl_mat4 *out, zpl_f32 fovy, zpl_f32 aspect, zpl_f32 z_near);
-
-ZPL_DEF void zpl_mat4_look_at(zpl_mat4 *out, zpl_vec3 eye, zpl_vec3 centre, zpl_vec3 up);
-
-ZPL_DEF void zpl_mat4_look_at_lh(zpl_mat4 *out, zpl_vec3 eye, zpl_vec3 centre, zpl_vec3 up);
-
-ZPL_DEF zpl_quat zpl_quatf(zpl_f32 x, zpl_f32 y, zpl_f32 z, zpl_f32 w);
-ZPL_DEF zpl_quat zpl_quatfv(zpl_f32 e[4]);
-ZPL_DEF zpl_quat zpl_quat_axis_angle(zpl_vec3 axis, zpl_f32 angle_radians);
-ZPL_DEF zpl_quat zpl_quat_euler_angles(zpl_f32 pitch, zpl_f32 yaw, zpl_f32 roll);
-ZPL_DEF zpl_quat zpl_quat_identity(void);
-
-ZPL_DEF void zpl_quat_add(zpl_quat *d, zpl_quat q0, zpl_quat q1);
-ZPL_DEF void zpl_quat_sub(zpl_quat *d, zpl_quat q0, zpl_quat q1);
-ZPL_DEF void zpl_quat_mul(zpl_quat *d, zpl_quat q0, zpl_quat q1);
-ZPL_DEF void zpl_quat_div(zpl_quat *d, zpl_quat q0, zpl_quat q1);
-
-ZPL_DEF void zpl_quat_mulf(zpl_quat *d, zpl_quat q, zpl_f32 s);
-ZPL_DEF void zpl_quat_divf(zpl_quat *d, zpl_quat q, zpl_f32 s);
-
-ZPL_DEF void zpl_quat_addeq(zpl_quat *d, zpl_quat q);
-ZPL_DEF void zpl_quat_subeq(zpl_quat *d, zpl_quat q);
-ZPL_DEF void zpl_quat_muleq(zpl_quat *d, zpl_quat q);
-ZPL_DEF void zpl_quat_diveq(zpl_quat *d, zpl_quat q);
-
-ZPL_DEF void zpl_quat_muleqf(zpl_quat *d, zpl_f32 s);
-ZPL_DEF void zpl_quat_diveqf(zpl_quat *d, zpl_f32 s);
-
-ZPL_DEF zpl_f32 zpl_quat_dot(zpl_quat q0, zpl_quat q1);
-ZPL_DEF zpl_f32 zpl_quat_mag(zpl_quat q);
-
-ZPL_DEF void zpl_quat_norm(zpl_quat *d, zpl_quat q);
-ZPL_DEF void zpl_quat_conj(zpl_quat *d, zpl_quat q);
-ZPL_DEF void zpl_quat_inverse(zpl_quat *d, zpl_quat q);
-
-ZPL_DEF void    zpl_quat_axis(zpl_vec3 *axis, zpl_quat q);
-ZPL_DEF zpl_f32 zpl_quat_angle(zpl_quat q);
-
-ZPL_DEF zpl_f32 zpl_quat_pitch(zpl_quat q);
-ZPL_DEF zpl_f32 zpl_quat_yaw(zpl_quat q);
-ZPL_DEF zpl_f32 zpl_quat_roll(zpl_quat q);
-
-/* NOTE: Rotate v by q */
-ZPL_DEF void zpl_quat_rotate_vec3(zpl_vec3 *d, zpl_quat q, zpl_vec3 v);
-ZPL_DEF void zpl_mat4_from_quat(zpl_mat4 *out, zpl_quat q);
-ZPL_DEF void zpl_quat_from_mat4(zpl_quat *out, zpl_mat4 *m);
-
-/* Plane math. */
-ZPL_DEF zpl_f32 zpl_plane_distance(zpl_plane* p, zpl_vec3 v);
-
-/* Frustum culling. */
-ZPL_DEF void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj);
-ZPL_DEF zpl_b8 zpl_frustum_sphere_inside(zpl_frustum* frustum, zpl_vec3 center, zpl_f32 radius);
-ZPL_DEF zpl_b8 zpl_frustum_point_inside(zpl_frustum* frustum, zpl_vec3 point);
-ZPL_DEF zpl_b8 zpl_frustum_box_inside(zpl_frustum* frustum, zpl_aabb3 box);
-
-/* Interpolations */
-ZPL_DEF zpl_f32 zpl_lerp(zpl_f32 a, zpl_f32 b, zpl_f32 t);
-ZPL_DEF zpl_f32 zpl_unlerp(zpl_f32 t, zpl_f32 a, zpl_f32 b);
-ZPL_DEF zpl_f32 zpl_smooth_step(zpl_f32 a, zpl_f32 b, zpl_f32 t);
-ZPL_DEF zpl_f32 zpl_smoother_step(zpl_f32 a, zpl_f32 b, zpl_f32 t);
-
-ZPL_DEF void zpl_vec2_lerp(zpl_vec2 *d, zpl_vec2 a, zpl_vec2 b, zpl_f32 t);
-ZPL_DEF void zpl_vec3_lerp(zpl_vec3 *d, zpl_vec3 a, zpl_vec3 b, zpl_f32 t);
-ZPL_DEF void zpl_vec4_lerp(zpl_vec4 *d, zpl_vec4 a, zpl_vec4 b, zpl_f32 t);
-
-ZPL_DEF void zpl_vec2_cslerp(zpl_vec2 *d, zpl_vec2 a, zpl_vec2 v0, zpl_vec2 b, zpl_vec2 v1, zpl_f32 t);
-ZPL_DEF void zpl_vec3_cslerp(zpl_vec3 *d, zpl_vec3 a, zpl_vec3 v0, zpl_vec3 b, zpl_vec3 v1, zpl_f32 t);
-ZPL_DEF void zpl_vec2_dcslerp(zpl_vec2 *d, zpl_vec2 a, zpl_vec2 v0, zpl_vec2 b, zpl_vec2 v1, zpl_f32 t);
-ZPL_DEF void zpl_vec3_dcslerp(zpl_vec3 *d, zpl_vec3 a, zpl_vec3 v0, zpl_vec3 b, zpl_vec3 v1, zpl_f32 t);
-
-ZPL_DEF void zpl_quat_lerp(zpl_quat *d, zpl_quat a, zpl_quat b, zpl_f32 t);
-ZPL_DEF void zpl_quat_nlerp(zpl_quat *d, zpl_quat a, zpl_quat b, zpl_f32 t);
-ZPL_DEF void zpl_quat_slerp(zpl_quat *d, zpl_quat a, zpl_quat b, zpl_f32 t);
-ZPL_DEF void zpl_quat_nquad(zpl_quat *d, zpl_quat p, zpl_quat a, zpl_quat b, zpl_quat q, zpl_f32 t);
-ZPL_DEF void zpl_quat_squad(zpl_quat *d, zpl_quat p, zpl_quat a, zpl_quat b, zpl_quat q, zpl_f32 t);
-ZPL_DEF void zpl_quat_slerp_approx(zpl_quat *d, zpl_quat a, zpl_quat b, zpl_f32 t);
-ZPL_DEF void zpl_quat_squad_approx(zpl_quat *d, zpl_quat p, zpl_quat a, zpl_quat b, zpl_quat q, zpl_f32 t);
-
-/* rects */
-ZPL_DEF zpl_rect2 zpl_rect2f(zpl_vec2 pos, zpl_vec2 dim);
-ZPL_DEF zpl_rect3 zpl_rect3f(zpl_vec3 pos, zpl_vec3 dim);
-
-ZPL_DEF zpl_aabb2 zpl_aabb2f(zpl_f32 minx, zpl_f32 miny, zpl_f32 maxx, zpl_f32 maxy);
-ZPL_DEF zpl_aabb3 zpl_aabb3f(zpl_f32 minx, zpl_f32 miny, zpl_f32 minz, zpl_f32 maxx, zpl_f32 maxy, zpl_f32 maxz);
-
-ZPL_DEF zpl_aabb2 zpl_aabb2_rect2(zpl_rect2 a);
-ZPL_DEF zpl_aabb3 zpl_aabb3_rect3(zpl_rect3 a);
-ZPL_DEF zpl_rect2 zpl_rect2_aabb2(zpl_aabb2 a);
-ZPL_DEF zpl_rect3 zpl_rect3_aabb3(zpl_aabb3 a);
-
-ZPL_DEF int zpl_rect2_contains(zpl_rect2 a, zpl_f32 x, zpl_f32 y);
-ZPL_DEF int zpl_rect2_contains_vec2(zpl_rect2 a, zpl_vec2 p);
-ZPL_DEF int zpl_rect2_intersects(zpl_rect2 a, zpl_rect2 b);
-ZPL_DEF int zpl_rect2_intersection_result(zpl_rect2 a, zpl_rect2 b, zpl_rect2 *intersection);
-ZPL_DEF int zpl_aabb2_contains(zpl_aabb2 a, zpl_f32 x, zpl_f32 y);
-ZPL_DEF int zpl_aabb3_contains(zpl_aabb3 a, zpl_f32 x, zpl_f32 y, zpl_f32 z);
-
-/* rectangle partitioning: based on https://halt.software/dead-simple-layouts/ */
-ZPL_DEF zpl_aabb2 zpl_aabb2_cut_left(zpl_aabb2 *a, zpl_f32 b);
-ZPL_DEF zpl_aabb2 zpl_aabb2_cut_right(zpl_aabb2 *a, zpl_f32 b);
-ZPL_DEF zpl_aabb2 zpl_aabb2_cut_top(zpl_aabb2 *a, zpl_f32 b);
-ZPL_DEF zpl_aabb2 zpl_aabb2_cut_bottom(zpl_aabb2 *a, zpl_f32 b);
-
-ZPL_DEF zpl_aabb2 zpl_aabb2_get_left(const zpl_aabb2 *a, zpl_f32 b);
-ZPL_DEF zpl_aabb2 zpl_aabb2_get_right(const zpl_aabb2 *a, zpl_f32 b);
-ZPL_DEF zpl_aabb2 zpl_aabb2_get_top(const zpl_aabb2 *a, zpl_f32 b);
-ZPL_DEF zpl_aabb2 zpl_aabb2_get_bottom(const zpl_aabb2 *a, zpl_f32 b);
-
-ZPL_DEF zpl_aabb2 zpl_aabb2_add_left(const zpl_aabb2 *a, zpl_f32 b);
-ZPL_DEF zpl_aabb2 zpl_aabb2_add_right(const zpl_aabb2 *a, zpl_f32 b);
-ZPL_DEF zpl_aabb2 zpl_aabb2_add_top(const zpl_aabb2 *a, zpl_f32 b);
-ZPL_DEF zpl_aabb2 zpl_aabb2_add_bottom(const zpl_aabb2 *a, zpl_f32 b);
-
-ZPL_DEF zpl_aabb2 zpl_aabb2_contract(const zpl_aabb2 *a, zpl_f32 b);
-ZPL_DEF zpl_aabb2 zpl_aabb2_expand(const zpl_aabb2 *a, zpl_f32 b);
-
-//! @}
-ZPL_END_C_DECLS
-#if defined(__cplusplus)
-ZPL_INLINE bool operator==(zpl_vec2 a, zpl_vec2 b) { return (a.x == b.x) && (a.y == b.y); }
-ZPL_INLINE bool operator!=(zpl_vec2 a, zpl_vec2 b) { return !operator==(a, b); }
-
-ZPL_INLINE zpl_vec2 operator+(zpl_vec2 a) { return a; }
-ZPL_INLINE zpl_vec2 operator-(zpl_vec2 a) { zpl_vec2 r = {-a.x, -a.y}; return r; }
-
-ZPL_INLINE zpl_vec2 operator+(zpl_vec2 a, zpl_vec2 b) { zpl_vec2 r; zpl_vec2_add(&r, a, b); return r; }
-ZPL_INLINE zpl_vec2 operator-(zpl_vec2 a, zpl_vec2 b) { zpl_vec2 r; zpl_vec2_sub(&r, a, b); return r; }
-
-ZPL_INLINE zpl_vec2 operator*(zpl_vec2 a, float scalar) { zpl_vec2 r; zpl_vec2_mul(&r, a, scalar); return r; }
-ZPL_INLINE zpl_vec2 operator*(float scalar, zpl_vec2 a) { return operator*(a, scalar); }
-
-ZPL_INLINE zpl_vec2 operator/(zpl_vec2 a, float scalar) { return operator*(a, 1.0f/scalar); }
-
-/* Hadamard Product */
-ZPL_INLINE zpl_vec2 operator*(zpl_vec2 a, zpl_vec2 b) { zpl_vec2 r = {a.x*b.x, a.y*b.y}; return r; }
-ZPL_INLINE zpl_vec2 operator/(zpl_vec2 a, zpl_vec2 b) { zpl_vec2 r = {a.x/b.x, a.y/b.y}; return r; }
-
-ZPL_INLINE zpl_vec2 &operator+=(zpl_vec2 &a, zpl_vec2 b)       { return (a = a + b); }
-ZPL_INLINE zpl_vec2 &operator-=(zpl_vec2 &a, zpl_vec2 b)       { return (a = a - b); }
-ZPL_INLINE zpl_vec2 &operator*=(zpl_vec2 &a, float scalar) { return (a = a * scalar); }
-ZPL_INLINE zpl_vec2 &operator/=(zpl_vec2 &a, float scalar) { return (a = a / scalar); }
-
-
-ZPL_INLINE bool operator==(zpl_vec3 a, zpl_vec3 b) { return (a.x == b.x) && (a.y == b.y) && (a.z == b.z); }
-ZPL_INLINE bool operator!=(zpl_vec3 a, zpl_vec3 b) { return !operator==(a, b); }
-
-ZPL_INLINE zpl_vec3 operator+(zpl_vec3 a) { return a; }
-ZPL_INLINE zpl_vec3 operator-(zpl_vec3 a) { zpl_vec3 r = {-a.x, -a.y, -a.z}; return r; }
-
-ZPL_INLINE zpl_vec3 operator+(zpl_vec3 a, zpl_vec3 b) { zpl_vec3 r; zpl_vec3_add(&r, a, b); return r; }
-ZPL_INLINE zpl_vec3 operator-(zpl_vec3 a, zpl_vec3 b) { zpl_vec3 r; zpl_vec3_sub(&r, a, b); return r; }
-
-ZPL_INLINE zpl_vec3 operator*(zpl_vec3 a, float scalar) { zpl_vec3 r; zpl_vec3_mul(&r, a, scalar); return r; }
-ZPL_INLINE zpl_vec3 operator*(float scalar, zpl_vec3 a) { return operator*(a, scalar); }
-
-ZPL_INLINE zpl_vec3 operator/(zpl_vec3 a, float scalar) { return operator*(a, 1.0f/scalar); }
-
-/* Hadamard Product */
-ZPL_INLINE zpl_vec3 operator*(zpl_vec3 a, zpl_vec3 b) { zpl_vec3 r = {a.x*b.x, a.y*b.y, a.z*b.z}; return r; }
-ZPL_INLINE zpl_vec3 operator/(zpl_vec3 a, zpl_vec3 b) { zpl_vec3 r = {a.x/b.x, a.y/b.y, a.z/b.z}; return r; }
-
-ZPL_INLINE zpl_vec3 &operator+=(zpl_vec3 &a, zpl_vec3 b)       { return (a = a + b); }
-ZPL_INLINE zpl_vec3 &operator-=(zpl_vec3 &a, zpl_vec3 b)       { return (a = a - b); }
-ZPL_INLINE zpl_vec3 &operator*=(zpl_vec3 &a, float scalar) { return (a = a * scalar); }
-ZPL_INLINE zpl_vec3 &operator/=(zpl_vec3 &a, float scalar) { return (a = a / scalar); }
-
-
-ZPL_INLINE bool operator==(zpl_vec4 a, zpl_vec4 b) { return (a.x == b.x) && (a.y == b.y) && (a.z == b.z) && (a.w == b.w); }
-ZPL_INLINE bool operator!=(zpl_vec4 a, zpl_vec4 b) { return !operator==(a, b); }
-
-ZPL_INLINE zpl_vec4 operator+(zpl_vec4 a) { return a; }
-ZPL_INLINE zpl_vec4 operator-(zpl_vec4 a) { zpl_vec4 r = {-a.x, -a.y, -a.z, -a.w}; return r; }
-
-ZPL_INLINE zpl_vec4 operator+(zpl_vec4 a, zpl_vec4 b) { zpl_vec4 r; zpl_vec4_add(&r, a, b); return r; }
-ZPL_INLINE zpl_vec4 operator-(zpl_vec4 a, zpl_vec4 b) { zpl_vec4 r; zpl_vec4_sub(&r, a, b); return r; }
-
-ZPL_INLINE zpl_vec4 operator*(zpl_vec4 a, float scalar) { zpl_vec4 r; zpl_vec4_mul(&r, a, scalar); return r; }
-ZPL_INLINE zpl_vec4 operator*(float scalar, zpl_vec4 a) { return operator*(a, scalar); }
-
-ZPL_INLINE zpl_vec4 operator/(zpl_vec4 a, float scalar) { return operator*(a, 1.0f/scalar); }
-
-/* Hadamard Product */
-ZPL_INLINE zpl_vec4 operator*(zpl_vec4 a, zpl_vec4 b) { zpl_vec4 r = {a.x*b.x, a.y*b.y, a.z*b.z, a.w*b.w}; return r; }
-ZPL_INLINE zpl_vec4 operator/(zpl_vec4 a, zpl_vec4 b) { zpl_vec4 r = {a.x/b.x, a.y/b.y, a.z/b.z, a.w/b.w}; return r; }
-
-ZPL_INLINE zpl_vec4 &operator+=(zpl_vec4 &a, zpl_vec4 b)       { return (a = a + b); }
-ZPL_INLINE zpl_vec4 &operator-=(zpl_vec4 &a, zpl_vec4 b)       { return (a = a - b); }
-ZPL_INLINE zpl_vec4 &operator*=(zpl_vec4 &a, float scalar) { return (a = a * scalar); }
-ZPL_INLINE zpl_vec4 &operator/=(zpl_vec4 &a, float scalar) { return (a = a / scalar); }
-
-
-ZPL_INLINE zpl_mat2 operator+(zpl_mat2 const &a, zpl_mat2 const &b) {
-    int i, j;
-    zpl_mat2 r = {0};
-    for (j = 0; j < 2; j++) {
-        for (i = 0; i < 2; i++)
-            r.e[2*j+i] = a.e[2*j+i] + b.e[2*j+i];
-    }
-    return r;
-}
-
-ZPL_INLINE zpl_mat2 operator-(zpl_mat2 const &a, zpl_mat2 const &b) {
-    int i, j;
-    zpl_mat2 r = {0};
-    for (j = 0; j < 2; j++) {
-        for (i = 0; i < 2; i++)
-            r.e[2*j+i] = a.e[2*j+i] - b.e[2*j+i];
-    }
-    return r;
-}
-
-ZPL_INLINE zpl_mat2 operator*(zpl_mat2 const &a, zpl_mat2 const &b) { zpl_mat2 r; zpl_mat2_mul(&r, (zpl_mat2 *)&a, (zpl_mat2 *)&b); return r; }
-ZPL_INLINE zpl_vec2 operator*(zpl_mat2 const &a, zpl_vec2 v) { zpl_vec2 r; zpl_mat2_mul_vec2(&r, (zpl_mat2 *)&a, v); return r; }
-ZPL_INLINE zpl_mat2 operator*(zpl_mat2 const &a, float scalar) {
-    zpl_mat2 r = {0};
-    int i;
-    for (i = 0; i < 2*2; i++) r.e[i] = a.e[i] * scalar;
-    return r;
-}
-ZPL_INLINE zpl_mat2 operator*(float scalar, zpl_mat2 const &a) { return operator*(a, scalar); }
-ZPL_INLINE zpl_mat2 operator/(zpl_mat2 const &a, float scalar) { return operator*(a, 1.0f/scalar); }
-
-ZPL_INLINE zpl_mat2& operator+=(zpl_mat2& a, zpl_mat2 const &b) { return (a = a + b); }
-ZPL_INLINE zpl_mat2& operator-=(zpl_mat2& a, zpl_mat2 const &b) { return (a = a - b); }
-ZPL_INLINE zpl_mat2& operator*=(zpl_mat2& a, zpl_mat2 const &b) { return (a = a * b); }
-
-
-
-ZPL_INLINE zpl_mat3 operator+(zpl_mat3 const &a, zpl_mat3 const &b) {
-    int i, j;
-    zpl_mat3 r = {0};
-    for (j = 0; j < 3; j++) {
-        for (i = 0; i < 3; i++)
-            r.e[3*j+i] = a.e[3*j+i] + b.e[3*j+i];
-    }
-    return r;
-}
-
-ZPL_INLINE zpl_mat3 operator-(zpl_mat3 const &a, zpl_mat3 const &b) {
-    int i, j;
-    zpl_mat3 r = {0};
-    for (j = 0; j < 3; j++) {
-        for (i = 0; i < 3; i++)
-            r.e[3*j+i] = a.e[3*j+i] - b.e[3*j+i];
-    }
-    return r;
-}
-
-ZPL_INLINE zpl_mat3 operator*(zpl_mat3 const &a, zpl_mat3 const &b) { zpl_mat3 r; zpl_mat3_mul(&r, (zpl_mat3 *)&a, (zpl_mat3 *)&b); return r; }
-ZPL_INLINE zpl_vec3 operator*(zpl_mat3 const &a, zpl_vec3 v) { zpl_vec3 r; zpl_mat3_mul_vec3(&r, (zpl_mat3 *)&a, v); return r; }
-ZPL_INLINE zpl_mat3 operator*(zpl_mat3 const &a, float scalar) {
-    zpl_mat3 r = {0};
-    int i;
-    for (i = 0; i < 3*3; i++) r.e[i] = a.e[i] * scalar;
-    return r;
-}
-ZPL_INLINE zpl_mat3 operator*(float scalar, zpl_mat3 const &a) { return operator*(a, scalar); }
-ZPL_INLINE zpl_mat3 operator/(zpl_mat3 const &a, float scalar) { return operator*(a, 1.0f/scalar); }
-
-ZPL_INLINE zpl_mat3& operator+=(zpl_mat3& a, zpl_mat3 const &b) { return (a = a + b); }
-ZPL_INLINE zpl_mat3& operator-=(zpl_mat3& a, zpl_mat3 const &b) { return (a = a - b); }
-ZPL_INLINE zpl_mat3& operator*=(zpl_mat3& a, zpl_mat3 const &b) { return (a = a * b); }
-
-
-
-ZPL_INLINE zpl_mat4 operator+(zpl_mat4 const &a, zpl_mat4 const &b) {
-    int i, j;
-    zpl_mat4 r = {0};
-    for (j = 0; j < 4; j++) {
-        for (i = 0; i < 4; i++)
-            r.e[4*j+i] = a.e[4*j+i] + b.e[4*j+i];
-    }
-    return r;
-}
-
-ZPL_INLINE zpl_mat4 operator-(zpl_mat4 const &a, zpl_mat4 const &b) {
-    int i, j;
-    zpl_mat4 r = {0};
-    for (j = 0; j < 4; j++) {
-        for (i = 0; i < 4; i++)
-            r.e[4*j+i] = a.e[4*j+i] - b.e[4*j+i];
-    }
-    return r;
-}
-
-ZPL_INLINE zpl_mat4 operator*(zpl_mat4 const &a, zpl_mat4 const &b) { zpl_mat4 r; zpl_mat4_mul(&r, (zpl_mat4 *)&a, (zpl_mat4 *)&b); return r; }
-ZPL_INLINE zpl_vec4 operator*(zpl_mat4 const &a, zpl_vec4 v) { zpl_vec4 r; zpl_mat4_mul_vec4(&r, (zpl_mat4 *)&a, v); return r; }
-ZPL_INLINE zpl_mat4 operator*(zpl_mat4 const &a, float scalar) {
-    zpl_mat4 r = {0};
-    int i;
-    for (i = 0; i < 4*4; i++) r.e[i] = a.e[i] * scalar;
-    return r;
-}
-ZPL_INLINE zpl_mat4 operator*(float scalar, zpl_mat4 const &a) { return operator*(a, scalar); }
-ZPL_INLINE zpl_mat4 operator/(zpl_mat4 const &a, float scalar) { return operator*(a, 1.0f/scalar); }
-
-ZPL_INLINE zpl_mat4& operator+=(zpl_mat4 &a, zpl_mat4 const &b) { return (a = a + b); }
-ZPL_INLINE zpl_mat4& operator-=(zpl_mat4 &a, zpl_mat4 const &b) { return (a = a - b); }
-ZPL_INLINE zpl_mat4& operator*=(zpl_mat4 &a, zpl_mat4 const &b) { return (a = a * b); }
-
-
-
-ZPL_INLINE bool operator==(zpl_quat a, zpl_quat b) { return a.xyzw == b.xyzw; }
-ZPL_INLINE bool operator!=(zpl_quat a, zpl_quat b) { return !operator==(a, b); }
-
-ZPL_INLINE zpl_quat operator+(zpl_quat q) { return q; }
-ZPL_INLINE zpl_quat operator-(zpl_quat q) { return zpl_quatf(-q.x, -q.y, -q.z, -q.w); }
-
-ZPL_INLINE zpl_quat operator+(zpl_quat a, zpl_quat b) { zpl_quat r; zpl_quat_add(&r, a, b); return r; }
-ZPL_INLINE zpl_quat operator-(zpl_quat a, zpl_quat b) { zpl_quat r; zpl_quat_sub(&r, a, b); return r; }
-
-ZPL_INLINE zpl_quat operator*(zpl_quat a, zpl_quat b)  { zpl_quat r; zpl_quat_mul(&r, a, b); return r; }
-ZPL_INLINE zpl_quat operator*(zpl_quat q, float s) { zpl_quat r; zpl_quat_mulf(&r, q, s); return r; }
-ZPL_INLINE zpl_quat operator*(float s, zpl_quat q) { return operator*(q, s); }
-ZPL_INLINE zpl_quat operator/(zpl_quat q, float s) { zpl_quat r; zpl_quat_divf(&r, q, s); return r; }
-
-ZPL_INLINE zpl_quat &operator+=(zpl_quat &a, zpl_quat b) { zpl_quat_addeq(&a, b); return a; }
-ZPL_INLINE zpl_quat &operator-=(zpl_quat &a, zpl_quat b) { zpl_quat_subeq(&a, b); return a; }
-ZPL_INLINE zpl_quat &operator*=(zpl_quat &a, zpl_quat b) { zpl_quat_muleq(&a, b); return a; }
-ZPL_INLINE zpl_quat &operator/=(zpl_quat &a, zpl_quat b) { zpl_quat_diveq(&a, b); return a; }
-
-ZPL_INLINE zpl_quat &operator*=(zpl_quat &a, float b) { zpl_quat_muleqf(&a, b); return a; }
-ZPL_INLINE zpl_quat &operator/=(zpl_quat &a, float b) { zpl_quat_diveqf(&a, b); return a; }
-
-/* Rotate v by a */
-ZPL_INLINE zpl_vec3 operator*(zpl_quat q, zpl_vec3 v) { zpl_vec3 r; zpl_quat_rotate_vec3(&r, q, v); return r; }
-#endif
-
+// file: header/math.h
+
+/** @file math.c
+@brief Math operations
+@defgroup math Math operations
+
+OpenGL gamedev friendly library for math.
+
+@{
+*/
+
+ZPL_BEGIN_C_DECLS
+
+typedef union zpl_vec2 {
+    struct {
+        zpl_f32 x, y;
+    };
+    struct {
+        zpl_f32 s, t;
+    };
+    zpl_f32 e[2];
+} zpl_vec2;
+
+typedef union zpl_vec3 {
+    struct {
+        zpl_f32 x, y, z;
+    };
+    struct {
+        zpl_f32 r, g, b;
+    };
+    struct {
+        zpl_f32 s, t, p;
+    };
+    
+    zpl_vec2 xy;
+    zpl_vec2 st;
+    zpl_f32 e[3];
+} zpl_vec3;
+
+typedef union zpl_vec4 {
+    struct {
+        zpl_f32 x, y, z, w;
+    };
+    struct {
+        zpl_f32 r, g, b, a;
+    };
+    struct {
+        zpl_f32 s, t, p, q;
+    };
+    struct {
+        zpl_vec2 xy, zw;
+    };
+    struct {
+        zpl_vec2 st, pq;
+    };
+    zpl_vec3 xyz;
+    zpl_vec3 rgb;
+    zpl_f32 e[4];
+} zpl_vec4;
+
+typedef union zpl_mat2 {
+    struct {
+        zpl_vec2 x, y;
+    };
+    zpl_vec2 col[2];
+    zpl_f32 e[4];
+} zpl_mat2;
+
+typedef union zpl_mat3 {
+    struct {
+        zpl_vec3 x, y, z;
+    };
+    zpl_vec3 col[3];
+    zpl_f32 e[9];
+} zpl_mat3;
+
+typedef union zpl_mat4 {
+    struct {
+        zpl_vec4 x, y, z, w;
+    };
+    zpl_vec4 col[4];
+    zpl_f32 e[16];
+} zpl_mat4;
+
+typedef union zpl_quat {
+    struct {
+        zpl_f32 x, y, z, w;
+    };
+    zpl_vec4 xyzw;
+    zpl_vec3 xyz;
+    zpl_f32 e[4];
+} zpl_quat;
+
+typedef union zpl_plane {
+    struct {
+        zpl_f32 a, b, c, d;
+    };
+    zpl_vec4 xyzw;
+    zpl_vec3 n;
+    zpl_f32 e[4];
+} zpl_plane;
+
+typedef struct zpl_frustum {
+    zpl_plane x1;
+    zpl_plane x2;
+    zpl_plane y1;
+    zpl_plane y2;
+    zpl_plane z1;
+    zpl_plane z2;
+} zpl_frustum;
+
+typedef zpl_f32 zpl_float2[2];
+typedef zpl_f32 zpl_float3[3];
+typedef zpl_f32 zpl_float4[4];
+
+typedef struct zpl_rect2 {
+    zpl_vec2 pos, dim;
+} zpl_rect2;
+typedef struct zpl_rect3 {
+    zpl_vec3 pos, dim;
+} zpl_rect3;
+
+typedef struct zpl_aabb2 {
+    zpl_vec2 min, max;
+} zpl_aabb2;
+typedef struct zpl_aabb3 {
+    zpl_vec3 min, max;
+} zpl_aabb3;
+
+typedef short zpl_half;
+
+#ifndef ZPL_CONSTANTS
+#define ZPL_CONSTANTS
+#define ZPL_EPSILON    1.19209290e-7f
+#define ZPL_ZERO       0.0f
+#define ZPL_ONE        1.0f
+#define ZPL_TWO_THIRDS 0.666666666666666666666666666666666666667f
+
+#define ZPL_TAU          6.28318530717958647692528676655900576f
+#define ZPL_PI           3.14159265358979323846264338327950288f
+#define ZPL_ONE_OVER_TAU 0.159154943091895335768883763372514362f
+#define ZPL_ONE_OVER_PI  0.318309886183790671537767526745028724f
+
+#define ZPL_TAU_OVER_2 3.14159265358979323846264338327950288f
+#define ZPL_TAU_OVER_4 1.570796326794896619231321691639751442f
+#define ZPL_TAU_OVER_8 0.785398163397448309615660845819875721f
+
+#define ZPL_E          2.71828182845904523536f
+#define ZPL_SQRT_TWO   1.41421356237309504880168872420969808f
+#define ZPL_SQRT_THREE 1.73205080756887729352744634150587236f
+#define ZPL_SQRT_FIVE  2.23606797749978969640917366873127623f
+
+#define ZPL_LOG_TWO 0.693147180559945309417232121458176568f
+#define ZPL_LOG_TEN 2.30258509299404568401799145468436421f
+#endif // ZPL_CONSTANTS
+
+#ifndef zpl_square
+#define zpl_square(x) ((x) * (x))
+#endif
+
+#ifndef zpl_cube
+#define zpl_cube(x) ((x) * (x) * (x))
+#endif
+
+#ifndef zpl_sign
+#define zpl_sign(x) ((x) >= 0.0f ? 1.0f : -1.0f)
+#endif
+
+#ifndef zpl_sign0
+#define zpl_sign0(x) ((x == 0.0f) ? 0.0f : ((x) >= 0.0f ? 1.0f : -1.0f))
+#endif
+
+ZPL_DEF zpl_f32 zpl_to_radians(zpl_f32 degrees);
+ZPL_DEF zpl_f32 zpl_to_degrees(zpl_f32 radians);
+
+/* NOTE: Because to interpolate angles */
+ZPL_DEF zpl_f32 zpl_angle_diff(zpl_f32 radians_a, zpl_f32 radians_b);
+
+ZPL_DEF zpl_f32 zpl_copy_sign(zpl_f32 x, zpl_f32 y);
+ZPL_DEF zpl_f32 zpl_remainder(zpl_f32 x, zpl_f32 y);
+ZPL_DEF zpl_f32 zpl_mod(zpl_f32 x, zpl_f32 y);
+ZPL_DEF zpl_f64 zpl_copy_sign64(zpl_f64 x, zpl_f64 y);
+ZPL_DEF zpl_f64 zpl_floor64(zpl_f64 x);
+ZPL_DEF zpl_f64 zpl_ceil64(zpl_f64 x);
+ZPL_DEF zpl_f64 zpl_round64(zpl_f64 x);
+ZPL_DEF zpl_f64 zpl_remainder64(zpl_f64 x, zpl_f64 y);
+ZPL_DEF zpl_f64 zpl_abs64(zpl_f64 x);
+ZPL_DEF zpl_f64 zpl_sign64(zpl_f64 x);
+ZPL_DEF zpl_f64 zpl_mod64(zpl_f64 x, zpl_f64 y);
+ZPL_DEF zpl_f32 zpl_sqrt(zpl_f32 a);
+ZPL_DEF zpl_f32 zpl_rsqrt(zpl_f32 a);
+ZPL_DEF zpl_f32 zpl_quake_rsqrt(zpl_f32 a); /* NOTE: It's probably better to use 1.0f/zpl_sqrt(a)
+                                     * And for simd, there is usually isqrt functions too!
+                                     */
+ZPL_DEF zpl_f32 zpl_hypot(zpl_f32 x, zpl_f32 y);
+ZPL_DEF zpl_f32 zpl_sin(zpl_f32 radians);
+ZPL_DEF zpl_f32 zpl_cos(zpl_f32 radians);
+ZPL_DEF zpl_f32 zpl_tan(zpl_f32 radians);
+ZPL_DEF zpl_f32 zpl_arcsin(zpl_f32 a);
+ZPL_DEF zpl_f32 zpl_arccos(zpl_f32 a);
+ZPL_DEF zpl_f32 zpl_arctan(zpl_f32 a);
+ZPL_DEF zpl_f32 zpl_arctan2(zpl_f32 y, zpl_f32 x);
+
+ZPL_DEF zpl_f32 zpl_exp(zpl_f32 x);
+ZPL_DEF zpl_f32 zpl_exp2(zpl_f32 x);
+ZPL_DEF zpl_f32 zpl_log(zpl_f32 x);
+ZPL_DEF zpl_f32 zpl_log2(zpl_f32 x);
+ZPL_DEF zpl_f32 zpl_fast_exp(zpl_f32 x);   /* NOTE: Only valid from -1 <= x <= +1 */
+ZPL_DEF zpl_f32 zpl_fast_exp2(zpl_f32 x);  /* NOTE: Only valid from -1 <= x <= +1 */
+ZPL_DEF zpl_f32 zpl_pow(zpl_f32 x, zpl_f32 y); /* x^y */
+
+ZPL_DEF zpl_f32 zpl_round(zpl_f32 x);
+ZPL_DEF zpl_f32 zpl_floor(zpl_f32 x);
+ZPL_DEF zpl_f32 zpl_ceil(zpl_f32 x);
+
+ZPL_DEF zpl_f32  zpl_half_to_float(zpl_half value);
+ZPL_DEF zpl_half zpl_float_to_half(zpl_f32 value);
+
+ZPL_DEF zpl_vec2 zpl_vec2f_zero(void);
+ZPL_DEF zpl_vec2 zpl_vec2f(zpl_f32 x, zpl_f32 y);
+ZPL_DEF zpl_vec2 zpl_vec2fv(zpl_f32 x[2]);
+
+ZPL_DEF zpl_vec3 zpl_vec3f_zero(void);
+ZPL_DEF zpl_vec3 zpl_vec3f(zpl_f32 x, zpl_f32 y, zpl_f32 z);
+ZPL_DEF zpl_vec3 zpl_vec3fv(zpl_f32 x[3]);
+
+ZPL_DEF zpl_vec4 zpl_vec4f_zero(void);
+ZPL_DEF zpl_vec4 zpl_vec4f(zpl_f32 x, zpl_f32 y, zpl_f32 z, zpl_f32 w);
+ZPL_DEF zpl_vec4 zpl_vec4fv(zpl_f32 x[4]);
+
+ZPL_DEF zpl_f32 zpl_vec2_max(zpl_vec2 v);
+ZPL_DEF zpl_f32 zpl_vec2_side(zpl_vec2 p, zpl_vec2 q, zpl_vec2 r);
+ZPL_DEF void zpl_vec2_add(zpl_vec2 *d, zpl_vec2 v0, zpl_vec2 v1);
+ZPL_DEF void zpl_vec2_sub(zpl_vec2 *d, zpl_vec2 v0, zpl_vec2 v1);
+ZPL_DEF void zpl_vec2_mul(zpl_vec2 *d, zpl_vec2 v, zpl_f32 s);
+ZPL_DEF void zpl_vec2_div(zpl_vec2 *d, zpl_vec2 v, zpl_f32 s);
+
+ZPL_DEF zpl_f32 zpl_vec3_max(zpl_vec3 v);
+ZPL_DEF void zpl_vec3_add(zpl_vec3 *d, zpl_vec3 v0, zpl_vec3 v1);
+ZPL_DEF void zpl_vec3_sub(zpl_vec3 *d, zpl_vec3 v0, zpl_vec3 v1);
+ZPL_DEF void zpl_vec3_mul(zpl_vec3 *d, zpl_vec3 v, zpl_f32 s);
+ZPL_DEF void zpl_vec3_div(zpl_vec3 *d, zpl_vec3 v, zpl_f32 s);
+
+ZPL_DEF void zpl_vec4_add(zpl_vec4 *d, zpl_vec4 v0, zpl_vec4 v1);
+ZPL_DEF void zpl_vec4_sub(zpl_vec4 *d, zpl_vec4 v0, zpl_vec4 v1);
+ZPL_DEF void zpl_vec4_mul(zpl_vec4 *d, zpl_vec4 v, zpl_f32 s);
+ZPL_DEF void zpl_vec4_div(zpl_vec4 *d, zpl_vec4 v, zpl_f32 s);
+
+ZPL_DEF void zpl_vec2_addeq(zpl_vec2 *d, zpl_vec2 v);
+ZPL_DEF void zpl_vec2_subeq(zpl_vec2 *d, zpl_vec2 v);
+ZPL_DEF void zpl_vec2_muleq(zpl_vec2 *d, zpl_f32 s);
+ZPL_DEF void zpl_vec2_diveq(zpl_vec2 *d, zpl_f32 s);
+
+ZPL_DEF void zpl_vec3_addeq(zpl_vec3 *d, zpl_vec3 v);
+ZPL_DEF void zpl_vec3_subeq(zpl_vec3 *d, zpl_vec3 v);
+ZPL_DEF void zpl_vec3_muleq(zpl_vec3 *d, zpl_f32 s);
+ZPL_DEF void zpl_vec3_diveq(zpl_vec3 *d, zpl_f32 s);
+
+ZPL_DEF void zpl_vec4_addeq(zpl_vec4 *d, zpl_vec4 v);
+ZPL_DEF void zpl_vec4_subeq(zpl_vec4 *d, zpl_vec4 v);
+ZPL_DEF void zpl_vec4_muleq(zpl_vec4 *d, zpl_f32 s);
+ZPL_DEF void zpl_vec4_diveq(zpl_vec4 *d, zpl_f32 s);
+
+ZPL_DEF zpl_f32 zpl_vec2_dot(zpl_vec2 v0, zpl_vec2 v1);
+ZPL_DEF zpl_f32 zpl_vec3_dot(zpl_vec3 v0, zpl_vec3 v1);
+ZPL_DEF zpl_f32 zpl_vec4_dot(zpl_vec4 v0, zpl_vec4 v1);
+
+ZPL_DEF void zpl_vec2_cross(zpl_f32 *d, zpl_vec2 v0, zpl_vec2 v1);
+ZPL_DEF void zpl_vec3_cross(zpl_vec3 *d, zpl_vec3 v0, zpl_vec3 v1);
+
+ZPL_DEF zpl_f32 zpl_vec2_mag2(zpl_vec2 v);
+ZPL_DEF zpl_f32 zpl_vec3_mag2(zpl_vec3 v);
+ZPL_DEF zpl_f32 zpl_vec4_mag2(zpl_vec4 v);
+
+ZPL_DEF zpl_f32 zpl_vec2_mag(zpl_vec2 v);
+ZPL_DEF zpl_f32 zpl_vec3_mag(zpl_vec3 v);
+ZPL_DEF zpl_f32 zpl_vec4_mag(zpl_vec4 v);
+
+ZPL_DEF void zpl_vec2_norm(zpl_vec2 *d, zpl_vec2 v);
+ZPL_DEF void zpl_vec3_norm(zpl_vec3 *d, zpl_vec3 v);
+ZPL_DEF void zpl_vec4_norm(zpl_vec4 *d, zpl_vec4 v);
+
+ZPL_DEF void zpl_vec2_norm0(zpl_vec2 *d, zpl_vec2 v);
+ZPL_DEF void zpl_vec3_norm0(zpl_vec3 *d, zpl_vec3 v);
+ZPL_DEF void zpl_vec4_norm0(zpl_vec4 *d, zpl_vec4 v);
+
+ZPL_DEF void zpl_vec2_reflect(zpl_vec2 *d, zpl_vec2 i, zpl_vec2 n);
+ZPL_DEF void zpl_vec3_reflect(zpl_vec3 *d, zpl_vec3 i, zpl_vec3 n);
+ZPL_DEF void zpl_vec2_refract(zpl_vec2 *d, zpl_vec2 i, zpl_vec2 n, zpl_f32 eta);
+ZPL_DEF void zpl_vec3_refract(zpl_vec3 *d, zpl_vec3 i, zpl_vec3 n, zpl_f32 eta);
+
+ZPL_DEF zpl_f32 zpl_vec2_aspect_ratio(zpl_vec2 v);
+
+ZPL_DEF void zpl_mat2_identity(zpl_mat2 *m);
+ZPL_DEF void zpl_float22_identity(zpl_f32 m[2][2]);
+
+ZPL_DEF void    zpl_mat2_transpose(zpl_mat2 *m);
+ZPL_DEF void    zpl_mat2_mul(zpl_mat2 *out, zpl_mat2 *m1, zpl_mat2 *m2);
+ZPL_DEF void    zpl_mat2_mul_vec2(zpl_vec2 *out, zpl_mat2 *m, zpl_vec2 in);
+ZPL_DEF void    zpl_mat2_inverse(zpl_mat2 *out, zpl_mat2 *in);
+ZPL_DEF zpl_f32 zpl_mat2_determinate(zpl_mat2 *m);
+
+ZPL_DEF zpl_mat2   *zpl_mat2_v(zpl_vec2 m[2]);
+ZPL_DEF zpl_mat2   *zpl_mat2_f(zpl_f32 m[2][2]);
+ZPL_DEF zpl_float2 *zpl_float22_m(zpl_mat2 *m);
+ZPL_DEF zpl_float2 *zpl_float22_v(zpl_vec2 m[2]);
+ZPL_DEF zpl_float2 *zpl_float22_4(zpl_f32 m[4]);
+
+ZPL_DEF void zpl_float22_transpose(zpl_f32 (*vec)[2]);
+ZPL_DEF void zpl_float22_mul(zpl_f32 (*out)[2], zpl_f32 (*mat1)[2], zpl_f32 (*mat2)[2]);
+ZPL_DEF void zpl_float22_mul_vec2(zpl_vec2 *out, zpl_f32 m[2][2], zpl_vec2 in);
+
+ZPL_DEF void zpl_mat3_identity(zpl_mat3 *m);
+ZPL_DEF void zpl_float33_identity(zpl_f32 m[3][3]);
+
+ZPL_DEF void    zpl_mat3_transpose(zpl_mat3 *m);
+ZPL_DEF void    zpl_mat3_mul(zpl_mat3 *out, zpl_mat3 *m1, zpl_mat3 *m2);
+ZPL_DEF void    zpl_mat3_mul_vec3(zpl_vec3 *out, zpl_mat3 *m, zpl_vec3 in);
+ZPL_DEF void    zpl_mat3_inverse(zpl_mat3 *out, zpl_mat3 *in);
+ZPL_DEF zpl_f32 zpl_mat3_determinate(zpl_mat3 *m);
+
+ZPL_DEF zpl_mat3   *zpl_mat3_v(zpl_vec3 m[3]);
+ZPL_DEF zpl_mat3   *zpl_mat3_f(zpl_f32 m[3][3]);
+
+ZPL_DEF zpl_float3 *zpl_float33_m(zpl_mat3 *m);
+ZPL_DEF zpl_float3 *zpl_float33_v(zpl_vec3 m[3]);
+ZPL_DEF zpl_float3 *zpl_float33_9(zpl_f32 m[9]);
+
+ZPL_DEF void zpl_float33_transpose(zpl_f32 (*vec)[3]);
+ZPL_DEF void zpl_float33_mul(zpl_f32 (*out)[3], zpl_f32 (*mat1)[3], zpl_f32 (*mat2)[3]);
+ZPL_DEF void zpl_float33_mul_vec3(zpl_vec3 *out, zpl_f32 m[3][3], zpl_vec3 in);
+
+ZPL_DEF void zpl_mat4_identity(zpl_mat4 *m);
+ZPL_DEF void zpl_float44_identity(zpl_f32 m[4][4]);
+ZPL_DEF void zpl_mat4_copy(zpl_mat4* out, zpl_mat4* m);
+
+ZPL_DEF void zpl_mat4_transpose(zpl_mat4 *m);
+ZPL_DEF void zpl_mat4_mul(zpl_mat4 *out, zpl_mat4 *m1, zpl_mat4 *m2);
+ZPL_DEF void zpl_mat4_mul_vec4(zpl_vec4 *out, zpl_mat4 *m, zpl_vec4 in);
+ZPL_DEF void zpl_mat4_inverse(zpl_mat4 *out, zpl_mat4 *in);
+
+ZPL_DEF zpl_mat4 *zpl_mat4_v(zpl_vec4 m[4]);
+ZPL_DEF zpl_mat4 *zpl_mat4_f(zpl_f32 m[4][4]);
+
+ZPL_DEF zpl_float4 *zpl_float44_m(zpl_mat4 *m);
+ZPL_DEF zpl_float4 *zpl_float44_v(zpl_vec4 m[4]);
+ZPL_DEF zpl_float4 *zpl_float44_16(zpl_f32 m[16]);
+
+ZPL_DEF void zpl_float44_transpose(zpl_f32 (*vec)[4]);
+ZPL_DEF void zpl_float44_mul(zpl_f32 (*out)[4], zpl_f32 (*mat1)[4], zpl_f32 (*mat2)[4]);
+ZPL_DEF void zpl_float44_mul_vec4(zpl_vec4 *out, zpl_f32 m[4][4], zpl_vec4 in);
+
+ZPL_DEF void zpl_mat4_axis_angle(zpl_mat4* out, zpl_vec3 v, zpl_f32 angle_radians);
+ZPL_DEF void zpl_mat4_to_translate(zpl_mat4* out, zpl_vec3 v);
+ZPL_DEF void zpl_mat4_to_rotate(zpl_mat4* out, zpl_vec3 v, zpl_f32 angle_radians);
+ZPL_DEF void zpl_mat4_to_scale(zpl_mat4* out, zpl_vec3 v);
+ZPL_DEF void zpl_mat4_to_scalef(zpl_mat4* out, zpl_f32 s);
+ZPL_DEF void zpl_mat4_translate(zpl_mat4* out, zpl_vec3 v);
+ZPL_DEF void zpl_mat4_rotate(zpl_mat4* out, zpl_vec3 v, zpl_f32 angle_radians);
+ZPL_DEF void zpl_mat4_scale(zpl_mat4* out, zpl_vec3 v);
+ZPL_DEF void zpl_mat4_scalef(zpl_mat4 *out, zpl_f32 s);
+ZPL_DEF void zpl_mat4_ortho2d(zpl_mat4 *out, zpl_f32 left, zpl_f32 right, zpl_f32 bottom, zpl_f32 top);
+ZPL_DEF void zpl_mat4_ortho3d(zpl_mat4 *out, zpl_f32 left, zpl_f32 right, zpl_f32 bottom, zpl_f32 top, zpl_f32 z_near, zpl_f32 z_far);
+ZPL_DEF void zpl_mat4_perspective(zpl_mat4 *out, zpl_f32 fovy, zpl_f32 aspect, zpl_f32 z_near, zpl_f32 z_far);
+ZPL_DEF void zpl_mat4_infinite_perspective(zpl_mat4 *out, zpl_f32 fovy, zpl_f32 aspect, zpl_f32 z_near);
+
+ZPL_DEF void zpl_mat4_ortho2d_dx(zpl_mat4 *out, zpl_f32 left, zpl_f32 right, zpl_f32 bottom, zpl_f32 top);
+ZPL_DEF void zpl_mat4_ortho3d_dx(zpl_mat4 *out, zpl_f32 left, zpl_f32 right, zpl_f32 bottom, zpl_f32 top, zpl_f32 z_near, zpl_f32 z_far);
+ZPL_DEF void zpl_mat4_perspective_dx(zpl_mat4 *out, zpl_f32 fovy, zpl_f32 aspect, zpl_f32 z_near, zpl_f32 z_far);
+ZPL_DEF void zpl_mat4_infinite_perspective_dx(zpl_mat4 *out, zpl_f32 fovy, zpl_f32 aspect, zpl_f32 z_near);
+
+ZPL_DEF void zpl_mat4_look_at(zpl_mat4 *out, zpl_vec3 eye, zpl_vec3 centre, zpl_vec3 up);
+
+ZPL_DEF void zpl_mat4_look_at_lh(zpl_mat4 *out, zpl_vec3 eye, zpl_vec3 centre, zpl_vec3 up);
+
+ZPL_DEF zpl_quat zpl_quatf(zpl_f32 x, zpl_f32 y, zpl_f32 z, zpl_f32 w);
+ZPL_DEF zpl_quat zpl_quatfv(zpl_f32 e[4]);
+ZPL_DEF zpl_quat zpl_quat_axis_angle(zpl_vec3 axis, zpl_f32 angle_radians);
+ZPL_DEF zpl_quat zpl_quat_euler_angles(zpl_f32 pitch, zpl_f32 yaw, zpl_f32 roll);
+ZPL_DEF zpl_quat zpl_quat_identity(void);
+
+ZPL_DEF void zpl_quat_add(zpl_quat *d, zpl_quat q0, zpl_quat q1);
+ZPL_DEF void zpl_quat_sub(zpl_quat *d, zpl_quat q0, zpl_quat q1);
+ZPL_DEF void zpl_quat_mul(zpl_quat *d, zpl_quat q0, zpl_quat q1);
+ZPL_DEF void zpl_quat_div(zpl_quat *d, zpl_quat q0, zpl_quat q1);
+
+ZPL_DEF void zpl_quat_mulf(zpl_quat *d, zpl_quat q, zpl_f32 s);
+ZPL_DEF void zpl_quat_divf(zpl_quat *d, zpl_quat q, zpl_f32 s);
+
+ZPL_DEF void zpl_quat_addeq(zpl_quat *d, zpl_quat q);
+ZPL_DEF void zpl_quat_subeq(zpl_quat *d, zpl_quat q);
+ZPL_DEF void zpl_quat_muleq(zpl_quat *d, zpl_quat q);
+ZPL_DEF void zpl_quat_diveq(zpl_quat *d, zpl_quat q);
+
+ZPL_DEF void zpl_quat_muleqf(zpl_quat *d, zpl_f32 s);
+ZPL_DEF void zpl_quat_diveqf(zpl_quat *d, zpl_f32 s);
+
+ZPL_DEF zpl_f32 zpl_quat_dot(zpl_quat q0, zpl_quat q1);
+ZPL_DEF zpl_f32 zpl_quat_mag(zpl_quat q);
+
+ZPL_DEF void zpl_quat_norm(zpl_quat *d, zpl_quat q);
+ZPL_DEF void zpl_quat_conj(zpl_quat *d, zpl_quat q);
+ZPL_DEF void zpl_quat_inverse(zpl_quat *d, zpl_quat q);
+
+ZPL_DEF void    zpl_quat_axis(zpl_vec3 *axis, zpl_quat q);
+ZPL_DEF zpl_f32 zpl_quat_angle(zpl_quat q);
+
+ZPL_DEF zpl_f32 zpl_quat_pitch(zpl_quat q);
+ZPL_DEF zpl_f32 zpl_quat_yaw(zpl_quat q);
+ZPL_DEF zpl_f32 zpl_quat_roll(zpl_quat q);
+
+/* NOTE: Rotate v by q */
+ZPL_DEF void zpl_quat_rotate_vec3(zpl_vec3 *d, zpl_quat q, zpl_vec3 v);
+ZPL_DEF void zpl_mat4_from_quat(zpl_mat4 *out, zpl_quat q);
+ZPL_DEF void zpl_quat_from_mat4(zpl_quat *out, zpl_mat4 *m);
+
+/* Plane math. */
+ZPL_DEF zpl_f32 zpl_plane_distance(zpl_plane* p, zpl_vec3 v);
+
+/* Frustum culling. */
+ZPL_DEF void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj);
+ZPL_DEF zpl_b8 zpl_frustum_sphere_inside(zpl_frustum* frustum, zpl_vec3 center, zpl_f32 radius);
+ZPL_DEF zpl_b8 zpl_frustum_point_inside(zpl_frustum* frustum, zpl_vec3 point);
+ZPL_DEF zpl_b8 zpl_frustum_box_inside(zpl_frustum* frustum, zpl_aabb3 box);
+
+/* Interpolations */
+ZPL_DEF zpl_f32 zpl_lerp(zpl_f32 a, zpl_f32 b, zpl_f32 t);
+ZPL_DEF zpl_f32 zpl_unlerp(zpl_f32 t, zpl_f32 a, zpl_f32 b);
+ZPL_DEF zpl_f32 zpl_smooth_step(zpl_f32 a, zpl_f32 b, zpl_f32 t);
+ZPL_DEF zpl_f32 zpl_smoother_step(zpl_f32 a, zpl_f32 b, zpl_f32 t);
+
+ZPL_DEF void zpl_vec2_lerp(zpl_vec2 *d, zpl_vec2 a, zpl_vec2 b, zpl_f32 t);
+ZPL_DEF void zpl_vec3_lerp(zpl_vec3 *d, zpl_vec3 a, zpl_vec3 b, zpl_f32 t);
+ZPL_DEF void zpl_vec4_lerp(zpl_vec4 *d, zpl_vec4 a, zpl_vec4 b, zpl_f32 t);
+
+ZPL_DEF void zpl_vec2_cslerp(zpl_vec2 *d, zpl_vec2 a, zpl_vec2 v0, zpl_vec2 b, zpl_vec2 v1, zpl_f32 t);
+ZPL_DEF void zpl_vec3_cslerp(zpl_vec3 *d, zpl_vec3 a, zpl_vec3 v0, zpl_vec3 b, zpl_vec3 v1, zpl_f32 t);
+ZPL_DEF void zpl_vec2_dcslerp(zpl_vec2 *d, zpl_vec2 a, zpl_vec2 v0, zpl_vec2 b, zpl_vec2 v1, zpl_f32 t);
+ZPL_DEF void zpl_vec3_dcslerp(zpl_vec3 *d, zpl_vec3 a, zpl_vec3 v0, zpl_vec3 b, zpl_vec3 v1, zpl_f32 t);
+
+ZPL_DEF void zpl_quat_lerp(zpl_quat *d, zpl_quat a, zpl_quat b, zpl_f32 t);
+ZPL_DEF void zpl_quat_nlerp(zpl_quat *d, zpl_quat a, zpl_quat b, zpl_f32 t);
+ZPL_DEF void zpl_quat_slerp(zpl_quat *d, zpl_quat a, zpl_quat b, zpl_f32 t);
+ZPL_DEF void zpl_quat_nquad(zpl_quat *d, zpl_quat p, zpl_quat a, zpl_quat b, zpl_quat q, zpl_f32 t);
+ZPL_DEF void zpl_quat_squad(zpl_quat *d, zpl_quat p, zpl_quat a, zpl_quat b, zpl_quat q, zpl_f32 t);
+ZPL_DEF void zpl_quat_slerp_approx(zpl_quat *d, zpl_quat a, zpl_quat b, zpl_f32 t);
+ZPL_DEF void zpl_quat_squad_approx(zpl_quat *d, zpl_quat p, zpl_quat a, zpl_quat b, zpl_quat q, zpl_f32 t);
+
+/* rects */
+ZPL_DEF zpl_rect2 zpl_rect2f(zpl_vec2 pos, zpl_vec2 dim);
+ZPL_DEF zpl_rect3 zpl_rect3f(zpl_vec3 pos, zpl_vec3 dim);
+
+ZPL_DEF zpl_aabb2 zpl_aabb2f(zpl_f32 minx, zpl_f32 miny, zpl_f32 maxx, zpl_f32 maxy);
+ZPL_DEF zpl_aabb3 zpl_aabb3f(zpl_f32 minx, zpl_f32 miny, zpl_f32 minz, zpl_f32 maxx, zpl_f32 maxy, zpl_f32 maxz);
+
+ZPL_DEF zpl_aabb2 zpl_aabb2_rect2(zpl_rect2 a);
+ZPL_DEF zpl_aabb3 zpl_aabb3_rect3(zpl_rect3 a);
+ZPL_DEF zpl_rect2 zpl_rect2_aabb2(zpl_aabb2 a);
+ZPL_DEF zpl_rect3 zpl_rect3_aabb3(zpl_aabb3 a);
+
+ZPL_DEF int zpl_rect2_contains(zpl_rect2 a, zpl_f32 x, zpl_f32 y);
+ZPL_DEF int zpl_rect2_contains_vec2(zpl_rect2 a, zpl_vec2 p);
+ZPL_DEF int zpl_rect2_intersects(zpl_rect2 a, zpl_rect2 b);
+ZPL_DEF int zpl_rect2_intersection_result(zpl_rect2 a, zpl_rect2 b, zpl_rect2 *intersection);
+ZPL_DEF int zpl_aabb2_contains(zpl_aabb2 a, zpl_f32 x, zpl_f32 y);
+ZPL_DEF int zpl_aabb3_contains(zpl_aabb3 a, zpl_f32 x, zpl_f32 y, zpl_f32 z);
+
+/* rectangle partitioning: based on https://halt.software/dead-simple-layouts/ */
+ZPL_DEF zpl_aabb2 zpl_aabb2_cut_left(zpl_aabb2 *a, zpl_f32 b);
+ZPL_DEF zpl_aabb2 zpl_aabb2_cut_right(zpl_aabb2 *a, zpl_f32 b);
+ZPL_DEF zpl_aabb2 zpl_aabb2_cut_top(zpl_aabb2 *a, zpl_f32 b);
+ZPL_DEF zpl_aabb2 zpl_aabb2_cut_bottom(zpl_aabb2 *a, zpl_f32 b);
+
+ZPL_DEF zpl_aabb2 zpl_aabb2_get_left(const zpl_aabb2 *a, zpl_f32 b);
+ZPL_DEF zpl_aabb2 zpl_aabb2_get_right(const zpl_aabb2 *a, zpl_f32 b);
+ZPL_DEF zpl_aabb2 zpl_aabb2_get_top(const zpl_aabb2 *a, zpl_f32 b);
+ZPL_DEF zpl_aabb2 zpl_aabb2_get_bottom(const zpl_aabb2 *a, zpl_f32 b);
+
+ZPL_DEF zpl_aabb2 zpl_aabb2_add_left(const zpl_aabb2 *a, zpl_f32 b);
+ZPL_DEF zpl_aabb2 zpl_aabb2_add_right(const zpl_aabb2 *a, zpl_f32 b);
+ZPL_DEF zpl_aabb2 zpl_aabb2_add_top(const zpl_aabb2 *a, zpl_f32 b);
+ZPL_DEF zpl_aabb2 zpl_aabb2_add_bottom(const zpl_aabb2 *a, zpl_f32 b);
+
+ZPL_DEF zpl_aabb2 zpl_aabb2_contract(const zpl_aabb2 *a, zpl_f32 b);
+ZPL_DEF zpl_aabb2 zpl_aabb2_expand(const zpl_aabb2 *a, zpl_f32 b);
+
+//! @}
+ZPL_END_C_DECLS
+#if defined(__cplusplus)
+ZPL_INLINE bool operator==(zpl_vec2 a, zpl_vec2 b) { return (a.x == b.x) && (a.y == b.y); }
+ZPL_INLINE bool operator!=(zpl_vec2 a, zpl_vec2 b) { return !operator==(a, b); }
+
+ZPL_INLINE zpl_vec2 operator+(zpl_vec2 a) { return a; }
+ZPL_INLINE zpl_vec2 operator-(zpl_vec2 a) { zpl_vec2 r = {-a.x, -a.y}; return r; }
+
+ZPL_INLINE zpl_vec2 operator+(zpl_vec2 a, zpl_vec2 b) { zpl_vec2 r; zpl_vec2_add(&r, a, b); return r; }
+ZPL_INLINE zpl_vec2 operator-(zpl_vec2 a, zpl_vec2 b) { zpl_vec2 r; zpl_vec2_sub(&r, a, b); return r; }
+
+ZPL_INLINE zpl_vec2 operator*(zpl_vec2 a, float scalar) { zpl_vec2 r; zpl_vec2_mul(&r, a, scalar); return r; }
+ZPL_INLINE zpl_vec2 operator*(float scalar, zpl_vec2 a) { return operator*(a, scalar); }
+
+ZPL_INLINE zpl_vec2 operator/(zpl_vec2 a, float scalar) { return operator*(a, 1.0f/scalar); }
+
+/* Hadamard Product */
+ZPL_INLINE zpl_vec2 operator*(zpl_vec2 a, zpl_vec2 b) { zpl_vec2 r = {a.x*b.x, a.y*b.y}; return r; }
+ZPL_INLINE zpl_vec2 operator/(zpl_vec2 a, zpl_vec2 b) { zpl_vec2 r = {a.x/b.x, a.y/b.y}; return r; }
+
+ZPL_INLINE zpl_vec2 &operator+=(zpl_vec2 &a, zpl_vec2 b)       { return (a = a + b); }
+ZPL_INLINE zpl_vec2 &operator-=(zpl_vec2 &a, zpl_vec2 b)       { return (a = a - b); }
+ZPL_INLINE zpl_vec2 &operator*=(zpl_vec2 &a, float scalar) { return (a = a * scalar); }
+ZPL_INLINE zpl_vec2 &operator/=(zpl_vec2 &a, float scalar) { return (a = a / scalar); }
+
+
+ZPL_INLINE bool operator==(zpl_vec3 a, zpl_vec3 b) { return (a.x == b.x) && (a.y == b.y) && (a.z == b.z); }
+ZPL_INLINE bool operator!=(zpl_vec3 a, zpl_vec3 b) { return !operator==(a, b); }
+
+ZPL_INLINE zpl_vec3 operator+(zpl_vec3 a) { return a; }
+ZPL_INLINE zpl_vec3 operator-(zpl_vec3 a) { zpl_vec3 r = {-a.x, -a.y, -a.z}; return r; }
+
+ZPL_INLINE zpl_vec3 operator+(zpl_vec3 a, zpl_vec3 b) { zpl_vec3 r; zpl_vec3_add(&r, a, b); return r; }
+ZPL_INLINE zpl_vec3 operator-(zpl_vec3 a, zpl_vec3 b) { zpl_vec3 r; zpl_vec3_sub(&r, a, b); return r; }
+
+ZPL_INLINE zpl_vec3 operator*(zpl_vec3 a, float scalar) { zpl_vec3 r; zpl_vec3_mul(&r, a, scalar); return r; }
+ZPL_INLINE zpl_vec3 operator*(float scalar, zpl_vec3 a) { return operator*(a, scalar); }
+
+ZPL_INLINE zpl_vec3 operator/(zpl_vec3 a, float scalar) { return operator*(a, 1.0f/scalar); }
+
+/* Hadamard Product */
+ZPL_INLINE zpl_vec3 operator*(zpl_vec3 a, zpl_vec3 b) { zpl_vec3 r = {a.x*b.x, a.y*b.y, a.z*b.z}; return r; }
+ZPL_INLINE zpl_vec3 operator/(zpl_vec3 a, zpl_vec3 b) { zpl_vec3 r = {a.x/b.x, a.y/b.y, a.z/b.z}; return r; }
+
+ZPL_INLINE zpl_vec3 &operator+=(zpl_vec3 &a, zpl_vec3 b)       { return (a = a + b); }
+ZPL_INLINE zpl_vec3 &operator-=(zpl_vec3 &a, zpl_vec3 b)       { return (a = a - b); }
+ZPL_INLINE zpl_vec3 &operator*=(zpl_vec3 &a, float scalar) { return (a = a * scalar); }
+ZPL_INLINE zpl_vec3 &operator/=(zpl_vec3 &a, float scalar) { return (a = a / scalar); }
+
+
+ZPL_INLINE bool operator==(zpl_vec4 a, zpl_vec4 b) { return (a.x == b.x) && (a.y == b.y) && (a.z == b.z) && (a.w == b.w); }
+ZPL_INLINE bool operator!=(zpl_vec4 a, zpl_vec4 b) { return !operator==(a, b); }
+
+ZPL_INLINE zpl_vec4 operator+(zpl_vec4 a) { return a; }
+ZPL_INLINE zpl_vec4 operator-(zpl_vec4 a) { zpl_vec4 r = {-a.x, -a.y, -a.z, -a.w}; return r; }
+
+ZPL_INLINE zpl_vec4 operator+(zpl_vec4 a, zpl_vec4 b) { zpl_vec4 r; zpl_vec4_add(&r, a, b); return r; }
+ZPL_INLINE zpl_vec4 operator-(zpl_vec4 a, zpl_vec4 b) { zpl_vec4 r; zpl_vec4_sub(&r, a, b); return r; }
+
+ZPL_INLINE zpl_vec4 operator*(zpl_vec4 a, float scalar) { zpl_vec4 r; zpl_vec4_mul(&r, a, scalar); return r; }
+ZPL_INLINE zpl_vec4 operator*(float scalar, zpl_vec4 a) { return operator*(a, scalar); }
+
+ZPL_INLINE zpl_vec4 operator/(zpl_vec4 a, float scalar) { return operator*(a, 1.0f/scalar); }
+
+/* Hadamard Product */
+ZPL_INLINE zpl_vec4 operator*(zpl_vec4 a, zpl_vec4 b) { zpl_vec4 r = {a.x*b.x, a.y*b.y, a.z*b.z, a.w*b.w}; return r; }
+ZPL_INLINE zpl_vec4 operator/(zpl_vec4 a, zpl_vec4 b) { zpl_vec4 r = {a.x/b.x, a.y/b.y, a.z/b.z, a.w/b.w}; return r; }
+
+ZPL_INLINE zpl_vec4 &operator+=(zpl_vec4 &a, zpl_vec4 b)       { return (a = a + b); }
+ZPL_INLINE zpl_vec4 &operator-=(zpl_vec4 &a, zpl_vec4 b)       { return (a = a - b); }
+ZPL_INLINE zpl_vec4 &operator*=(zpl_vec4 &a, float scalar) { return (a = a * scalar); }
+ZPL_INLINE zpl_vec4 &operator/=(zpl_vec4 &a, float scalar) { return (a = a / scalar); }
+
+
+ZPL_INLINE zpl_mat2 operator+(zpl_mat2 const &a, zpl_mat2 const &b) {
+    int i, j;
+    zpl_mat2 r = {0};
+    for (j = 0; j < 2; j++) {
+        for (i = 0; i < 2; i++)
+            r.e[2*j+i] = a.e[2*j+i] + b.e[2*j+i];
+    }
+    return r;
+}
+
+ZPL_INLINE zpl_mat2 operator-(zpl_mat2 const &a, zpl_mat2 const &b) {
+    int i, j;
+    zpl_mat2 r = {0};
+    for (j = 0; j < 2; j++) {
+        for (i = 0; i < 2; i++)
+            r.e[2*j+i] = a.e[2*j+i] - b.e[2*j+i];
+    }
+    return r;
+}
+
+ZPL_INLINE zpl_mat2 operator*(zpl_mat2 const &a, zpl_mat2 const &b) { zpl_mat2 r; zpl_mat2_mul(&r, (zpl_mat2 *)&a, (zpl_mat2 *)&b); return r; }
+ZPL_INLINE zpl_vec2 operator*(zpl_mat2 const &a, zpl_vec2 v) { zpl_vec2 r; zpl_mat2_mul_vec2(&r, (zpl_mat2 *)&a, v); return r; }
+ZPL_INLINE zpl_mat2 operator*(zpl_mat2 const &a, float scalar) {
+    zpl_mat2 r = {0};
+    int i;
+    for (i = 0; i < 2*2; i++) r.e[i] = a.e[i] * scalar;
+    return r;
+}
+ZPL_INLINE zpl_mat2 operator*(float scalar, zpl_mat2 const &a) { return operator*(a, scalar); }
+ZPL_INLINE zpl_mat2 operator/(zpl_mat2 const &a, float scalar) { return operator*(a, 1.0f/scalar); }
+
+ZPL_INLINE zpl_mat2& operator+=(zpl_mat2& a, zpl_mat2 const &b) { return (a = a + b); }
+ZPL_INLINE zpl_mat2& operator-=(zpl_mat2& a, zpl_mat2 const &b) { return (a = a - b); }
+ZPL_INLINE zpl_mat2& operator*=(zpl_mat2& a, zpl_mat2 const &b) { return (a = a * b); }
+
+
+
+ZPL_INLINE zpl_mat3 operator+(zpl_mat3 const &a, zpl_mat3 const &b) {
+    int i, j;
+    zpl_mat3 r = {0};
+    for (j = 0; j < 3; j++) {
+        for (i = 0; i < 3; i++)
+            r.e[3*j+i] = a.e[3*j+i] + b.e[3*j+i];
+    }
+    return r;
+}
+
+ZPL_INLINE zpl_mat3 operator-(zpl_mat3 const &a, zpl_mat3 const &b) {
+    int i, j;
+    zpl_mat3 r = {0};
+    for (j = 0; j < 3; j++) {
+        for (i = 0; i < 3; i++)
+            r.e[3*j+i] = a.e[3*j+i] - b.e[3*j+i];
+    }
+    return r;
+}
+
+ZPL_INLINE zpl_mat3 operator*(zpl_mat3 const &a, zpl_mat3 const &b) { zpl_mat3 r; zpl_mat3_mul(&r, (zpl_mat3 *)&a, (zpl_mat3 *)&b); return r; }
+ZPL_INLINE zpl_vec3 operator*(zpl_mat3 const &a, zpl_vec3 v) { zpl_vec3 r; zpl_mat3_mul_vec3(&r, (zpl_mat3 *)&a, v); return r; }
+ZPL_INLINE zpl_mat3 operator*(zpl_mat3 const &a, float scalar) {
+    zpl_mat3 r = {0};
+    int i;
+    for (i = 0; i < 3*3; i++) r.e[i] = a.e[i] * scalar;
+    return r;
+}
+ZPL_INLINE zpl_mat3 operator*(float scalar, zpl_mat3 const &a) { return operator*(a, scalar); }
+ZPL_INLINE zpl_mat3 operator/(zpl_mat3 const &a, float scalar) { return operator*(a, 1.0f/scalar); }
+
+ZPL_INLINE zpl_mat3& operator+=(zpl_mat3& a, zpl_mat3 const &b) { return (a = a + b); }
+ZPL_INLINE zpl_mat3& operator-=(zpl_mat3& a, zpl_mat3 const &b) { return (a = a - b); }
+ZPL_INLINE zpl_mat3& operator*=(zpl_mat3& a, zpl_mat3 const &b) { return (a = a * b); }
+
+
+
+ZPL_INLINE zpl_mat4 operator+(zpl_mat4 const &a, zpl_mat4 const &b) {
+    int i, j;
+    zpl_mat4 r = {0};
+    for (j = 0; j < 4; j++) {
+        for (i = 0; i < 4; i++)
+            r.e[4*j+i] = a.e[4*j+i] + b.e[4*j+i];
+    }
+    return r;
+}
+
+ZPL_INLINE zpl_mat4 operator-(zpl_mat4 const &a, zpl_mat4 const &b) {
+    int i, j;
+    zpl_mat4 r = {0};
+    for (j = 0; j < 4; j++) {
+        for (i = 0; i < 4; i++)
+            r.e[4*j+i] = a.e[4*j+i] - b.e[4*j+i];
+    }
+    return r;
+}
+
+ZPL_INLINE zpl_mat4 operator*(zpl_mat4 const &a, zpl_mat4 const &b) { zpl_mat4 r; zpl_mat4_mul(&r, (zpl_mat4 *)&a, (zpl_mat4 *)&b); return r; }
+ZPL_INLINE zpl_vec4 operator*(zpl_mat4 const &a, zpl_vec4 v) { zpl_vec4 r; zpl_mat4_mul_vec4(&r, (zpl_mat4 *)&a, v); return r; }
+ZPL_INLINE zpl_mat4 operator*(zpl_mat4 const &a, float scalar) {
+    zpl_mat4 r = {0};
+    int i;
+    for (i = 0; i < 4*4; i++) r.e[i] = a.e[i] * scalar;
+    return r;
+}
+ZPL_INLINE zpl_mat4 operator*(float scalar, zpl_mat4 const &a) { return operator*(a, scalar); }
+ZPL_INLINE zpl_mat4 operator/(zpl_mat4 const &a, float scalar) { return operator*(a, 1.0f/scalar); }
+
+ZPL_INLINE zpl_mat4& operator+=(zpl_mat4 &a, zpl_mat4 const &b) { return (a = a + b); }
+ZPL_INLINE zpl_mat4& operator-=(zpl_mat4 &a, zpl_mat4 const &b) { return (a = a - b); }
+ZPL_INLINE zpl_mat4& operator*=(zpl_mat4 &a, zpl_mat4 const &b) { return (a = a * b); }
+
+
+
+ZPL_INLINE bool operator==(zpl_quat a, zpl_quat b) { return a.xyzw == b.xyzw; }
+ZPL_INLINE bool operator!=(zpl_quat a, zpl_quat b) { return !operator==(a, b); }
+
+ZPL_INLINE zpl_quat operator+(zpl_quat q) { return q; }
+ZPL_INLINE zpl_quat operator-(zpl_quat q) { return zpl_quatf(-q.x, -q.y, -q.z, -q.w); }
+
+ZPL_INLINE zpl_quat operator+(zpl_quat a, zpl_quat b) { zpl_quat r; zpl_quat_add(&r, a, b); return r; }
+ZPL_INLINE zpl_quat operator-(zpl_quat a, zpl_quat b) { zpl_quat r; zpl_quat_sub(&r, a, b); return r; }
+
+ZPL_INLINE zpl_quat operator*(zpl_quat a, zpl_quat b)  { zpl_quat r; zpl_quat_mul(&r, a, b); return r; }
+ZPL_INLINE zpl_quat operator*(zpl_quat q, float s) { zpl_quat r; zpl_quat_mulf(&r, q, s); return r; }
+ZPL_INLINE zpl_quat operator*(float s, zpl_quat q) { return operator*(q, s); }
+ZPL_INLINE zpl_quat operator/(zpl_quat q, float s) { zpl_quat r; zpl_quat_divf(&r, q, s); return r; }
+
+ZPL_INLINE zpl_quat &operator+=(zpl_quat &a, zpl_quat b) { zpl_quat_addeq(&a, b); return a; }
+ZPL_INLINE zpl_quat &operator-=(zpl_quat &a, zpl_quat b) { zpl_quat_subeq(&a, b); return a; }
+ZPL_INLINE zpl_quat &operator*=(zpl_quat &a, zpl_quat b) { zpl_quat_muleq(&a, b); return a; }
+ZPL_INLINE zpl_quat &operator/=(zpl_quat &a, zpl_quat b) { zpl_quat_diveq(&a, b); return a; }
+
+ZPL_INLINE zpl_quat &operator*=(zpl_quat &a, float b) { zpl_quat_muleqf(&a, b); return a; }
+ZPL_INLINE zpl_quat &operator/=(zpl_quat &a, float b) { zpl_quat_diveqf(&a, b); return a; }
+
+/* Rotate v by a */
+ZPL_INLINE zpl_vec3 operator*(zpl_quat q, zpl_vec3 v) { zpl_vec3 r; zpl_quat_rotate_vec3(&r, q, v); return r; }
+#endif
+
diff --git a/code/source/math.c b/code/source/math.c
index fcb3fcf..e4612d9 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -44,7 +44,7 @@ zpl_f32 zpl_mod(zpl_f32 x, zpl_f32 y) {
     zpl_f32 result;
     y = zpl_abs(y);
     result = zpl_remainder(zpl_abs(x), y);
-    if (zpl_sign(result) > 0.0f) result += y;
+    if (result < 0.0f) result += y;
     return zpl_copy_sign(result, x);
 }
 
@@ -60,9 +60,21 @@ zpl_f64 zpl_copy_sign64(zpl_f64 x, zpl_f64 y) {
     return r;
 }
 
-zpl_f64 zpl_floor64(zpl_f64 x)                { return cast(zpl_f64)((x >= 0.0) ? cast(zpl_i64) x : cast(zpl_i64)(x - 0.9999999999999999)); }
-zpl_f64 zpl_ceil64(zpl_f64 x)                 { return cast(zpl_f64)((x < 0) ? cast(zpl_i64) x : (cast(zpl_i64) x) + 1); }
-zpl_f64 zpl_round64(zpl_f64 x)                { return cast(zpl_f64)((x >= 0.0) ? zpl_floor64(x + 0.5) : zpl_ceil64(x - 0.5)); }
+zpl_f64 zpl_floor64(zpl_f64 x) {
+    zpl_f64 r;
+    if (!(zpl_abs64(x) < 4503599627370496.0)) return x; /* NOTE: values this large have no fraction */
+    r = cast(zpl_f64)cast(zpl_i64)x;
+    return (r > x) ? r - 1.0 : r;
+}
+
+zpl_f64 zpl_ceil64(zpl_f64 x) { return -zpl_floor64(-x); }
+
+zpl_f64 zpl_round64(zpl_f64 x) {
+    zpl_f64 a = zpl_abs64(x), r = zpl_floor64(a);
+    if (a - r >= 0.5) r += 1.0;
+    return zpl_copy_sign64(r, x);
+}
+
 zpl_f64 zpl_remainder64(zpl_f64 x, zpl_f64 y) { return x - (zpl_round64(x / y) * y); }
 zpl_f64 zpl_abs64(zpl_f64 x)                  { return x < 0 ? -x : x; }
 zpl_f64 zpl_sign64(zpl_f64 x)                 { return x < 0 ? -1.0 : +1.0; }
@@ -71,7 +83,7 @@ zpl_f64 zpl_mod64(zpl_f64 x, zpl_f64 y) {
     zpl_f64 result;
     y = zpl_abs64(y);
     result = zpl_remainder64(zpl_abs64(x), y);
-    if (zpl_sign64(result)) result += y;
+    if (result < 0.0) result += y;
     return zpl_copy_sign64(result, x);
 }
 
@@ -255,9 +267,20 @@ zpl_f32 zpl_fast_exp(zpl_f32 x) {
 
 zpl_f32 zpl_fast_exp2(zpl_f32 x) { return zpl_fast_exp(ZPL_LOG_TWO * x); }
 
-zpl_f32 zpl_round(zpl_f32 x) { return (float)((x >= 0.0f) ? zpl_floor(x + 0.5f) : zpl_ceil(x - 0.5f)); }
-zpl_f32 zpl_floor(zpl_f32 x) { return (float)((x >= 0.0f) ? (int)x              : (int)(x - 0.9999999999999999f)); }
-zpl_f32 zpl_ceil(zpl_f32 x)  { return (float)((x <  0.0f) ? (int)x              : ((int)x) + 1); }
+zpl_f32 zpl_round(zpl_f32 x) {
+    zpl_f32 a = zpl_abs(x), r = zpl_floor(a);
+    if (a - r >= 0.5f) r += 1.0f;
+    return zpl_copy_sign(r, x);
+}
+
+zpl_f32 zpl_floor(zpl_f32 x) {
+    zpl_f32 r;
+    if (!(zpl_abs(x) < 8388608.0f)) return x; /* NOTE: values this large have no fraction */
+    r = (float)(int)x;
+    return (r > x) ? r - 1.0f : r;
+}
+
+zpl_f32 zpl_ceil(zpl_f32 x) { return -zpl_floor(-x); }
 
 zpl_f32 zpl_half_to_float(zpl_half value) {
     union {
-- 
2.43.0


From 65975dcd704b1599651baa894972f345189e9dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:23 +0000
Subject: [PATCH 114/152] fix: refracted vectors were scaled instead of bent,
 and not zero but NaN under total reflection

---
 code/source/math.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index e4612d9..4cd4b3b 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -577,10 +577,13 @@ void zpl_vec2_refract(zpl_vec2 *d, zpl_vec2 i, zpl_vec2 n, zpl_f32 eta) {
 
     dv = zpl_vec2_dot(n, i);
     k = 1.0f - eta * eta * (1.0f - dv * dv);
+    if (k < 0.0f) {
+        *d = zpl_vec2f_zero( );
+        return;
+    }
     zpl_vec2_mul(&a, i, eta);
-    zpl_vec2_mul(&b, n, eta * dv * zpl_sqrt(k));
+    zpl_vec2_mul(&b, n, eta * dv + zpl_sqrt(k));
     zpl_vec2_sub(d, a, b);
-    zpl_vec2_muleq(d, (float)(k >= 0.0f));
 }
 
 void zpl_vec3_refract(zpl_vec3 *d, zpl_vec3 i, zpl_vec3 n, zpl_f32 eta) {
@@ -589,10 +592,13 @@ void zpl_vec3_refract(zpl_vec3 *d, zpl_vec3 i, zpl_vec3 n, zpl_f32 eta) {
 
     dv = zpl_vec3_dot(n, i);
     k = 1.0f - eta * eta * (1.0f - dv * dv);
+    if (k < 0.0f) {
+        *d = zpl_vec3f_zero( );
+        return;
+    }
     zpl_vec3_mul(&a, i, eta);
-    zpl_vec3_mul(&b, n, eta * dv * zpl_sqrt(k));
+    zpl_vec3_mul(&b, n, eta * dv + zpl_sqrt(k));
     zpl_vec3_sub(d, a, b);
-    zpl_vec3_muleq(d, (float)(k >= 0.0f));
 }
 
 zpl_f32 zpl_vec2_aspect_ratio(zpl_vec2 v) { return (v.y < 0.0001f) ? 0.0f : v.x / v.y; }
-- 
2.43.0


From 2033226a93401ee3b33cef38a2b2e7094ace8fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:24 +0000
Subject: [PATCH 115/152] fix: 2x2 and 3x3 matrices were applied to vectors
 transposed, unlike their product and the 4x4 ones; copying a 2x2 matrix
 overran it

---
 code/source/math.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index 4cd4b3b..caf2f3e 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -617,7 +617,7 @@ void zpl_float22_identity(zpl_f32 m[2][2]) {
 }
 
 void zpl_mat2_copy(zpl_mat2* out, zpl_mat2* m) {
-    zpl_memcopy(out, m, sizeof(zpl_mat3));
+    zpl_memcopy(out, m, sizeof(zpl_mat2));
 }
 
 void zpl_mat2_mul_vec2(zpl_vec2 *out, zpl_mat2 *m, zpl_vec2 in) { zpl_float22_mul_vec2(out, zpl_float22_m(m), in); }
@@ -657,8 +657,8 @@ void zpl_float22_mul(zpl_f32 (*out)[2], zpl_f32 (*mat1)[2], zpl_f32 (*mat2)[2])
 }
 
 void zpl_float22_mul_vec2(zpl_vec2 *out, zpl_f32 m[2][2], zpl_vec2 v) {
-    out->x = m[0][0] * v.x + m[0][1] * v.y;
-    out->y = m[1][0] * v.x + m[1][1] * v.y;
+    out->x = m[0][0] * v.x + m[1][0] * v.y;
+    out->y = m[0][1] * v.x + m[1][1] * v.y;
 }
 
 zpl_f32 zpl_mat2_determinate(zpl_mat2 *m) {
@@ -740,9 +740,9 @@ void zpl_float33_mul(zpl_f32 (*out)[3], zpl_f32 (*mat1)[3], zpl_f32 (*mat2)[3])
 }
 
 void zpl_float33_mul_vec3(zpl_vec3 *out, zpl_f32 m[3][3], zpl_vec3 v) {
-    out->x = m[0][0] * v.x + m[0][1] * v.y + m[0][2] * v.z;
-    out->y = m[1][0] * v.x + m[1][1] * v.y + m[1][2] * v.z;
-    out->z = m[2][0] * v.x + m[2][1] * v.y + m[2][2] * v.z;
+    out->x = m[0][0] * v.x + m[1][0] * v.y + m[2][0] * v.z;
+    out->y = m[0][1] * v.x + m[1][1] * v.y + m[2][1] * v.z;
+    out->z = m[0][2] * v.x + m[1][2] * v.y + m[2][2] * v.z;
 }
 
 zpl_f32 zpl_mat3_determinate(zpl_mat3 *m) {
-- 
2.43.0


From 93b0f58b6357c1b10fca953979f795b67eaf2339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:26 +0000
Subject: [PATCH 116/152] fix: the inverse of a 3x3 matrix was transposed

---
 code/source/math.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index caf2f3e..398028d 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -761,13 +761,13 @@ void zpl_mat3_inverse(zpl_mat3 *out, zpl_mat3 *in) {
     zpl_f32 ood = 1.0f / zpl_mat3_determinate(in);
 
     o[0][0] = +(i[1][1] * i[2][2] - i[2][1] * i[1][2]) * ood;
-    o[0][1] = -(i[1][0] * i[2][2] - i[2][0] * i[1][2]) * ood;
-    o[0][2] = +(i[1][0] * i[2][1] - i[2][0] * i[1][1]) * ood;
-    o[1][0] = -(i[0][1] * i[2][2] - i[2][1] * i[0][2]) * ood;
+    o[1][0] = -(i[1][0] * i[2][2] - i[2][0] * i[1][2]) * ood;
+    o[2][0] = +(i[1][0] * i[2][1] - i[2][0] * i[1][1]) * ood;
+    o[0][1] = -(i[0][1] * i[2][2] - i[2][1] * i[0][2]) * ood;
     o[1][1] = +(i[0][0] * i[2][2] - i[2][0] * i[0][2]) * ood;
-    o[1][2] = -(i[0][0] * i[2][1] - i[2][0] * i[0][1]) * ood;
-    o[2][0] = +(i[0][1] * i[1][2] - i[1][1] * i[0][2]) * ood;
-    o[2][1] = -(i[0][0] * i[1][2] - i[1][0] * i[0][2]) * ood;
+    o[2][1] = -(i[0][0] * i[2][1] - i[2][0] * i[0][1]) * ood;
+    o[0][2] = +(i[0][1] * i[1][2] - i[1][1] * i[0][2]) * ood;
+    o[1][2] = -(i[0][0] * i[1][2] - i[1][0] * i[0][2]) * ood;
     o[2][2] = +(i[0][0] * i[1][1] - i[1][0] * i[0][1]) * ood;
 }
 
-- 
2.43.0


From 4b5b4c9f8af523835723f143796037814b45a8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:27 +0000
Subject: [PATCH 117/152] fix: the DirectX perspective matrix did not map the
 near plane to zero

---
 code/source/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/math.c b/code/source/math.c
index 398028d..f53adf9 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -1080,7 +1080,7 @@ void zpl_mat4_perspective_dx(zpl_mat4 *out, zpl_f32 fovy, zpl_f32 aspect, zpl_f3
     m[1][1] = 1.0f / (tan_half_fovy);
     m[2][2] = -(z_far ) / (z_far - z_near);
     m[2][3] = -1.0f;
-    m[3][2] = - z_near / (z_far - z_near);
+    m[3][2] = -(z_far * z_near) / (z_far - z_near);
 }
 
 void zpl_mat4_infinite_perspective_dx(zpl_mat4 *out, zpl_f32 fovy, zpl_f32 aspect, zpl_f32 z_near) {
-- 
2.43.0


From b27f7500687525db051ada869935bf3fe16f6895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:29 +0000
Subject: [PATCH 118/152] fix: slerp between equal quaternions gave NaN, and
 the roll, pitch and axis of a quaternion were wrong

---
 code/source/math.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index f53adf9..d9939f8 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -1255,7 +1255,7 @@ void zpl_quat_inverse(zpl_quat *d, zpl_quat q) {
 void zpl_quat_axis(zpl_vec3 *axis, zpl_quat q) {
     zpl_quat n;
     zpl_quat_norm(&n, q);
-    zpl_vec3_div(axis, n.xyz, zpl_sin(zpl_arccos(q.w)));
+    zpl_vec3_div(axis, n.xyz, zpl_sin(zpl_arccos(n.w)));
 }
 
 zpl_f32 zpl_quat_angle(zpl_quat q) {
@@ -1266,10 +1266,10 @@ zpl_f32 zpl_quat_angle(zpl_quat q) {
 }
 
 zpl_f32 zpl_quat_roll(zpl_quat q) {
-    return zpl_arctan2(2.0f * q.x * q.y + q.z * q.w, q.x * q.x + q.w * q.w - q.y * q.y - q.z * q.z);
+    return zpl_arctan2(2.0f * (q.x * q.y + q.z * q.w), q.x * q.x + q.w * q.w - q.y * q.y - q.z * q.z);
 }
 zpl_f32 zpl_quat_pitch(zpl_quat q) {
-    return zpl_arctan2(2.0f * q.y * q.z + q.w * q.x, q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
+    return zpl_arctan2(2.0f * (q.y * q.z + q.w * q.x), q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
 }
 zpl_f32 zpl_quat_yaw(zpl_quat q) { return zpl_arcsin(-2.0f * (q.x * q.z - q.w * q.y)); }
 
@@ -1636,9 +1636,10 @@ void zpl_quat_slerp(zpl_quat *d, zpl_quat a, zpl_quat b, zpl_f32 t) {
         cos_theta = -cos_theta;
     }
 
-    if (cos_theta > 1.0f) {
+    if (cos_theta >= 1.0f) {
         /* NOTE: Use lerp not nlerp as it's not a real angle or they are not normalized */
-        zpl_quat_lerp(d, a, b, t);
+        zpl_quat_lerp(d, a, z, t);
+        return;
     }
 
     angle = zpl_arccos(cos_theta);
-- 
2.43.0


From 5ec2e5eecf6d5357423c3bf76c37a5778f6eb912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:30 +0000
Subject: [PATCH 119/152] fix: the frustum planes were taken from the wrong
 entries of the reversed camera and projection product

---
 code/source/math.c | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index d9939f8..fda5891 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -1386,16 +1386,16 @@ zpl_f32 zpl_plane_distance(zpl_plane* p, zpl_vec3 v) {
 void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj) {
     zpl_mat4 pv;
 
-    zpl_mat4_mul(&pv, camera, proj);
+    zpl_mat4_mul(&pv, proj, camera);
 
     zpl_plane* fp = 0;
     zpl_f32 rmag;
 
     fp = &out->x1;
     fp->a = pv.x.w + pv.x.x;
-    fp->b = pv.y.w + pv.x.y;
-    fp->c = pv.z.w + pv.x.z;
-    fp->d = pv.w.w + pv.x.w;
+    fp->b = pv.y.w + pv.y.x;
+    fp->c = pv.z.w + pv.z.x;
+    fp->d = pv.w.w + pv.w.x;
 
     rmag = zpl_rsqrt(zpl_square(fp->a) + zpl_square(fp->b) + zpl_square(fp->c));
 
@@ -1407,9 +1407,9 @@ void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj) {
     fp = &out->x2;
 
     fp->a = pv.x.w - pv.x.x;
-    fp->b = pv.y.w - pv.x.y;
-    fp->c = pv.z.w - pv.x.z;
-    fp->d = pv.w.w - pv.x.w;
+    fp->b = pv.y.w - pv.y.x;
+    fp->c = pv.z.w - pv.z.x;
+    fp->d = pv.w.w - pv.w.x;
 
     rmag = zpl_rsqrt(zpl_square(fp->a) + zpl_square(fp->b) + zpl_square(fp->c));
 
@@ -1420,10 +1420,10 @@ void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj) {
 
     fp = &out->y1;
 
-    fp->a = pv.x.w - pv.y.x;
+    fp->a = pv.x.w - pv.x.y;
     fp->b = pv.y.w - pv.y.y;
-    fp->c = pv.z.w - pv.y.w;
-    fp->d = pv.w.w - pv.y.z;
+    fp->c = pv.z.w - pv.z.y;
+    fp->d = pv.w.w - pv.w.y;
 
     rmag = zpl_rsqrt(zpl_square(fp->a) + zpl_square(fp->b) + zpl_square(fp->c));
 
@@ -1434,10 +1434,10 @@ void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj) {
 
     fp = &out->y2;
 
-    fp->a = pv.x.w + pv.y.x;
+    fp->a = pv.x.w + pv.x.y;
     fp->b = pv.y.w + pv.y.y;
-    fp->c = pv.z.w + pv.y.z;
-    fp->d = pv.w.w + pv.y.w;
+    fp->c = pv.z.w + pv.z.y;
+    fp->d = pv.w.w + pv.w.y;
 
     rmag = zpl_rsqrt(zpl_square(fp->a) + zpl_square(fp->b) + zpl_square(fp->c));
 
@@ -1448,10 +1448,10 @@ void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj) {
 
     fp = &out->z1;
 
-    fp->a = pv.x.w + pv.z.x;
-    fp->b = pv.y.w + pv.z.y;
+    fp->a = pv.x.w + pv.x.z;
+    fp->b = pv.y.w + pv.y.z;
     fp->c = pv.z.w + pv.z.z;
-    fp->d = pv.w.w + pv.z.w;
+    fp->d = pv.w.w + pv.w.z;
 
     rmag = zpl_rsqrt(zpl_square(fp->a) + zpl_square(fp->b) + zpl_square(fp->c));
 
@@ -1462,10 +1462,10 @@ void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj) {
 
     fp = &out->z2;
 
-    fp->a = pv.x.w - pv.z.x;
-    fp->b = pv.y.w - pv.z.y;
+    fp->a = pv.x.w - pv.x.z;
+    fp->b = pv.y.w - pv.y.z;
     fp->c = pv.z.w - pv.z.z;
-    fp->d = pv.w.w - pv.z.w;
+    fp->d = pv.w.w - pv.w.z;
 
     rmag = zpl_rsqrt(zpl_square(fp->a) + zpl_square(fp->b) + zpl_square(fp->c));
 
-- 
2.43.0


From 7c4aa4a02440f287d7b30f7ebaaa0a9ccec0be08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:32 +0000
Subject: [PATCH 120/152] fix: contracting or expanding a box away from the
 first quadrant emptied it

---
 code/source/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/math.c b/code/source/math.c
index fda5891..c7a7894 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -1848,7 +1848,7 @@ zpl_aabb2 zpl_aabb2_contract(const zpl_aabb2 *a, zpl_f32 b) {
     zpl_vec2_addeq(&r.min, vb);
     zpl_vec2_subeq(&r.max, vb);
 
-    if (zpl_vec2_mag2(r.min) > zpl_vec2_mag2(r.max)) {
+    if (r.min.x > r.max.x || r.min.y > r.max.y) {
         return zpl_aabb2f(0,0,0,0);
     }
     return r;
-- 
2.43.0


From a7af0a6d0a9cb7ab842522463bde286b60e5311a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:18 +0000
Subject: [PATCH 121/152] fix: the angle of identity quaternions and the yaw at
 the poles could be NaN

---
 code/source/math.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index c7a7894..10df2cb 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -1261,7 +1261,7 @@ void zpl_quat_axis(zpl_vec3 *axis, zpl_quat q) {
 zpl_f32 zpl_quat_angle(zpl_quat q) {
     zpl_f32 mag   = zpl_quat_mag(q);
     zpl_f32 c     = q.w * (1.0f / mag);
-    zpl_f32 angle = 2.0f * zpl_arccos(c);
+    zpl_f32 angle = 2.0f * zpl_arccos(zpl_clamp(c, -1.0f, 1.0f));
     return angle;
 }
 
@@ -1271,7 +1271,10 @@ zpl_f32 zpl_quat_roll(zpl_quat q) {
 zpl_f32 zpl_quat_pitch(zpl_quat q) {
     return zpl_arctan2(2.0f * (q.y * q.z + q.w * q.x), q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
 }
-zpl_f32 zpl_quat_yaw(zpl_quat q) { return zpl_arcsin(-2.0f * (q.x * q.z - q.w * q.y)); }
+zpl_f32 zpl_quat_yaw(zpl_quat q) {
+    zpl_f32 s = -2.0f * (q.x * q.z - q.w * q.y);
+    return zpl_arcsin(zpl_clamp(s, -1.0f, 1.0f));
+}
 
 void zpl_quat_rotate_vec3(zpl_vec3 *d, zpl_quat q, zpl_vec3 v) {
     /* zpl_vec3 t = 2.0f * cross(q.xyz, v);
-- 
2.43.0


From 51fe3b9e2a31f6f0020712100936ced4e34e0fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:01 +0000
Subject: [PATCH 122/152] fix: converting a negative half shifted into the sign
 bit of an int

---
 code/source/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/math.c b/code/source/math.c
index 10df2cb..2955a45 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -287,7 +287,7 @@ zpl_f32 zpl_half_to_float(zpl_half value) {
         unsigned int i;
         zpl_f32 f;
     } result;
-    int s = (value >> 15) & 0x001;
+    unsigned int s = (value >> 15) & 0x001;
     int e = (value >> 10) & 0x01f;
     int m = value & 0x3ff;
 
-- 
2.43.0


From 3942355363532f84676ff3e37ba6d53a9eb90c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:18 +0000
Subject: [PATCH 123/152] fix: sleeping ended early on signals and fractions,
 concurrent first readings of the clock raced, and local time assumed an hour
 of daylight saving

---
 code/header/core/time.h |  4 +++-
 code/source/core/time.c | 39 ++++++++++++++++++++++++++++++---------
 2 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/code/header/core/time.h b/code/header/core/time.h
index 2cb3fb7..6602359 100644
--- a/code/header/core/time.h
+++ b/code/header/core/time.h
@@ -66,7 +66,9 @@ ZPL_IMPL_INLINE zpl_u64 zpl_time_unix_to_win32(zpl_u64 ms) {
 }
 
 ZPL_IMPL_INLINE void zpl_sleep(zpl_f32 s) {
-    zpl_sleep_ms((zpl_u32)(s * 1000));
+    zpl_u32 ms = (zpl_u32)(s * 1000);
+    if ((zpl_f64)ms < (zpl_f64)s * 1000) ms += 1;
+    zpl_sleep_ms(ms);
 }
 
 ZPL_IMPL_INLINE zpl_f64 zpl_time_now() {
diff --git a/code/source/core/time.c b/code/source/core/time.c
index c12fec6..307add1 100644
--- a/code/source/core/time.c
+++ b/code/source/core/time.c
@@ -2,6 +2,7 @@
 
 
 #if defined(ZPL_SYSTEM_MACOS) || ZPL_SYSTEM_UNIX
+#    include <errno.h>
 #    include <time.h>
 #    include <sys/time.h>
 #endif
@@ -177,13 +178,26 @@ ZPL_BEGIN_C_DECLS
         result = 1.0e-6 * (mach_absolute_time() - timestart) * timebase;
         return result;
 #    else
-        zpl_local_persist zpl_u64 unix_timestart = 0.0;
+#        if defined(ZPL_MODULE_THREADING)
+            // NOTE: Threads may race for the first call, all have to count from the same start.
+            zpl_local_persist zpl_atomic64 unix_timestart = { 0 };
+            zpl_u64 start = (zpl_u64)zpl_atomic64_load(&unix_timestart);
+
+            if (!start) {
+                zpl_atomic64_compare_exchange(&unix_timestart, 0, (zpl_i64)zpl__unix_gettime( ));
+                start = (zpl_u64)zpl_atomic64_load(&unix_timestart);
+            }
+
+            return zpl__unix_gettime( ) - start;
+#        else
+            zpl_local_persist zpl_u64 unix_timestart = 0;
 
-        if (!unix_timestart) { unix_timestart = zpl__unix_gettime( ); }
+            if (!unix_timestart) { unix_timestart = zpl__unix_gettime( ); }
 
-        zpl_u64 now = zpl__unix_gettime( );
+            zpl_u64 now = zpl__unix_gettime( );
 
-        return (now - unix_timestart);
+            return (now - unix_timestart);
+#        endif
 #    endif
     }
 
@@ -206,17 +220,24 @@ ZPL_BEGIN_C_DECLS
     void zpl_sleep_ms(zpl_u32 ms) {
         struct timespec req = { cast(time_t)(ms * 1e-3), cast(long)((ms % 1000) * 1e6) };
         struct timespec rem = { 0, 0 };
-        nanosleep(&req, &rem);
+        while (nanosleep(&req, &rem) == -1 && errno == EINTR) {
+            req = rem;
+        }
     }
 
     zpl_u64 zpl_time_tz_ms(void) {
         struct tm t;
         zpl_u64 result = zpl_time_utc_ms() - ZPL__UNIX_TO_WIN32_EPOCH;
         zpl_u16 ms = result % 1000;
-        result *= 1e-3;
-        localtime_r((const time_t*)&result, &t);
-        result = (zpl_u64)mktime(&t);
-        return (result - timezone + t.tm_isdst * 3600) * 1000 + ms + ZPL__UNIX_TO_WIN32_EPOCH;
+        time_t secs = (time_t)(result / 1000);
+        zpl_i64 days, years;
+        localtime_r(&secs, &t);
+
+        // NOTE: The local calendar time counted as if it were UTC, whatever the offset and the daylight saving are.
+        years = t.tm_year;
+        days = t.tm_yday + (years - 70) * 365 + (years - 69) / 4 - (years - 1) / 100 + (years + 299) / 400;
+        result = (zpl_u64)(((days * 24 + t.tm_hour) * 60 + t.tm_min) * 60 + t.tm_sec);
+        return result * 1000 + ms + ZPL__UNIX_TO_WIN32_EPOCH;
     }
 #endif
 
-- 
2.43.0


From f446d79b680f271503f158524e520ebfd29a956f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:31 +0000
Subject: [PATCH 124/152] fix: testing a bit beyond the eighth always said no,
 and bit 31 shifted into the sign

---
 code/header/core/misc.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/header/core/misc.h b/code/header/core/misc.h
index b5d50c7..a28d840 100644
--- a/code/header/core/misc.h
+++ b/code/header/core/misc.h
@@ -58,9 +58,9 @@ ZPL_IMPL_INLINE zpl_i32 zpl_next_pow2(zpl_i32 x) {
     return x + 1;
 }
 
-ZPL_IMPL_INLINE void zpl_bit_set(zpl_u32* x, zpl_u32 bit) { *x = *x | (1 << bit); }
-ZPL_IMPL_INLINE zpl_b8 zpl_bit_get(zpl_u32 x, zpl_u32 bit) { return (x & (1 << bit)); }
-ZPL_IMPL_INLINE void zpl_bit_reset(zpl_u32* x, zpl_u32 bit) { *x = *x & ~(1 << bit); }
+ZPL_IMPL_INLINE void zpl_bit_set(zpl_u32* x, zpl_u32 bit) { *x = *x | (1u << bit); }
+ZPL_IMPL_INLINE zpl_b8 zpl_bit_get(zpl_u32 x, zpl_u32 bit) { return (x & (1u << bit)) != 0; }
+ZPL_IMPL_INLINE void zpl_bit_reset(zpl_u32* x, zpl_u32 bit) { *x = *x & ~(1u << bit); }
 
 ZPL_IMPL_INLINE zpl_isize zpl_count_set_bits(zpl_u64 mask) {
     zpl_isize count = 0;
-- 
2.43.0


From 29c1763426625749542ee3568caeb13c22a694eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:41 +0000
Subject: [PATCH 125/152] fix: zero bytes were left out of the captured output
 of a command

---
 code/source/core/misc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/core/misc.c b/code/source/core/misc.c
index 2fee10a..50ce05a 100644
--- a/code/source/core/misc.c
+++ b/code/source/core/misc.c
@@ -122,8 +122,8 @@ zpl_string zpl_system_command_str(const char *command, zpl_allocator backing) {
 
         int c;
         while ((c = getc(handle)) != EOF) {
-            char ins[2] = {(char)c,0};
-            output = zpl_string_appendc(output, ins);
+            char ins = (char)c;
+            output = zpl_string_append_length(output, &ins, 1);
         }
 
 #        if defined(ZPL_SYSTEM_WINDOWS)
-- 
2.43.0


From cb153fcf9689d969e60b4946e99561ddb32da220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:40 +0000
Subject: [PATCH 126/152] fix: sleeping for long fractional times was up to a
 quarter second short

---
 code/header/core/time.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/header/core/time.h b/code/header/core/time.h
index 6602359..2bebe3b 100644
--- a/code/header/core/time.h
+++ b/code/header/core/time.h
@@ -66,8 +66,9 @@ ZPL_IMPL_INLINE zpl_u64 zpl_time_unix_to_win32(zpl_u64 ms) {
 }
 
 ZPL_IMPL_INLINE void zpl_sleep(zpl_f32 s) {
-    zpl_u32 ms = (zpl_u32)(s * 1000);
-    if ((zpl_f64)ms < (zpl_f64)s * 1000) ms += 1;
+    zpl_f64 exact = (zpl_f64)s * 1000;
+    zpl_u32 ms = (zpl_u32)exact;
+    if (ms < exact) ms += 1;
     zpl_sleep_ms(ms);
 }
 
-- 
2.43.0


From 2f0cd5f008524d078552aa89e03255f6df8e4199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:06 +0000
Subject: [PATCH 127/152] fix: several helpers wrote through the missing block
 when an allocation failed

---
 code/header/core/string.h                 |  7 +++++--
 code/header/essentials/collections/ring.h |  2 +-
 code/header/essentials/memory_custom.h    |  7 +++++--
 code/source/core/file.c                   | 25 +++++++++++++++--------
 code/source/core/file_misc.c              | 21 +++++++++++--------
 code/source/core/misc.c                   |  6 ++++--
 code/source/core/print.c                  |  2 +-
 code/source/core/stringlib.c              | 14 ++++++++-----
 code/source/hashing.c                     |  3 ++-
 9 files changed, 57 insertions(+), 30 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index f4039cc..24b321d 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -440,14 +440,17 @@ ZPL_IMPL_INLINE char *zpl_strdup(zpl_allocator a, char *src, zpl_isize max_len)
 
 ZPL_IMPL_INLINE char **zpl_str_split_lines(zpl_allocator alloc, char *source, zpl_b32 strip_whitespace) {
     char **lines = NULL, *p = source, *pd = p;
-    zpl_array_init(lines, alloc);
+    if (!zpl_array_init(lines, alloc)) return NULL;
 
     while (*p) {
         if (*pd == '\n' || *pd == '\0') {
             zpl_b32 last = (*pd == '\0');
             *pd = 0;
             if (pd > p && *(pd - 1) == '\r') *(pd - 1) = 0;
-            if (!strip_whitespace || *p) zpl_array_append(lines, p);
+            if ((!strip_whitespace || *p) && !zpl_array_append(lines, p)) {
+                zpl_array_free(lines);
+                return NULL;
+            }
             if (last) break;
             p = pd + 1;
         }
diff --git a/code/header/essentials/collections/ring.h b/code/header/essentials/collections/ring.h
index 5645442..5863b53 100644
--- a/code/header/essentials/collections/ring.h
+++ b/code/header/essentials/collections/ring.h
@@ -90,7 +90,7 @@ return data;
 zpl_array(type)                                                                                                    \
 ZPL_JOIN2(func, get_array)(ZPL_JOIN2(func, type) * pad, zpl_usize max_size, zpl_allocator a) {    \
 zpl_array(type) vals = 0;                                                                                          \
-zpl_array_init(vals, a);                                                                                       \
+if (!zpl_array_init(vals, a)) { return NULL; }                                                                 \
 while (max_size-- && !ZPL_JOIN2(func, empty)(pad)) {                                               \
 zpl_array_append(vals, *ZPL_JOIN2(func, get)(pad));                                            \
 }                                                                                                              \
diff --git a/code/header/essentials/memory_custom.h b/code/header/essentials/memory_custom.h
index 5b74390..5307f9d 100644
--- a/code/header/essentials/memory_custom.h
+++ b/code/header/essentials/memory_custom.h
@@ -275,15 +275,18 @@ ZPL_IMPL_INLINE void *zpl_resize_align(zpl_allocator a, void *ptr, zpl_isize old
 }
 
 ZPL_IMPL_INLINE void *zpl_alloc_copy(zpl_allocator a, void const *src, zpl_isize size) {
-    return zpl_memcopy(zpl_alloc(a, size), src, size);
+    void *ptr = zpl_alloc(a, size);
+    return ptr ? zpl_memcopy(ptr, src, size) : NULL;
 }
 ZPL_IMPL_INLINE void *zpl_alloc_copy_align(zpl_allocator a, void const *src, zpl_isize size, zpl_isize alignment) {
-    return zpl_memcopy(zpl_alloc_align(a, size, alignment), src, size);
+    void *ptr = zpl_alloc_align(a, size, alignment);
+    return ptr ? zpl_memcopy(ptr, src, size) : NULL;
 }
 
 ZPL_IMPL_INLINE char *zpl_alloc_str_len(zpl_allocator a, char const *str, zpl_isize len) {
     char *result;
     result = cast(char *) zpl_alloc(a, len + 1);
+    if (!result) return NULL;
     zpl_memmove(result, str, len);
     result[len] = '\0';
     return result;
diff --git a/code/source/core/file.c b/code/source/core/file.c
index 4cbe281..c333936 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -453,11 +453,13 @@ zpl_file_contents zpl_file_read_contents(zpl_allocator a, zpl_b32 zero_terminate
         zpl_isize file_size = cast(zpl_isize) zpl_file_size(&file);
         if (file_size > 0) {
             result.data = zpl_alloc(a, zero_terminate ? file_size + 1 : file_size);
-            result.size = file_size;
-            zpl_file_read_at(&file, result.data, result.size, 0);
-            if (zero_terminate) {
-                zpl_u8 *str = cast(zpl_u8 *) result.data;
-                str[file_size] = '\0';
+            if (result.data) {
+                result.size = file_size;
+                zpl_file_read_at(&file, result.data, result.size, 0);
+                if (zero_terminate) {
+                    zpl_u8 *str = cast(zpl_u8 *) result.data;
+                    str[file_size] = '\0';
+                }
             }
         }
         zpl_file_close(&file);
@@ -498,9 +500,16 @@ char *zpl_file_read_lines(zpl_allocator alloc, zpl_array(char *)*lines, char con
     zpl_isize fsize = (zpl_isize)zpl_file_size(&f);
 
     char *contents = (char *)zpl_alloc(alloc, fsize + 1);
-    zpl_file_read(&f, contents, fsize);
-    contents[fsize] = 0;
-    *lines = zpl_str_split_lines(alloc, contents, strip_whitespace);
+    *lines = NULL;
+    if (contents) {
+        zpl_file_read(&f, contents, fsize);
+        contents[fsize] = 0;
+        *lines = zpl_str_split_lines(alloc, contents, strip_whitespace);
+        if (!*lines) {
+            zpl_free(alloc, contents);
+            contents = NULL;
+        }
+    }
     zpl_file_close(&f);
 
     return contents;
diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index e3e7ae8..3aeb0fa 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -306,19 +306,24 @@ void zpl__file_direntry(zpl_allocator alloc, char const *dirname, zpl_string *ou
     d = opendir(dirname);
 
     if (d) {
-        while ((dir = readdir(d))) {
+        while (*output && (dir = readdir(d))) {
             if (dir == 0) break;
             if (!zpl_strcmp(dir->d_name, "..")) continue;
             if (dir->d_name[0] == '.' && dir->d_name[1] == 0) continue;
 
-            zpl_string dirpath = zpl_string_make(alloc, dirname);
-            dirpath = zpl_string_appendc(dirpath, "/");
-            dirpath = zpl_string_appendc(dirpath, dir->d_name);
+            char const *parts[] = { dirname, dir->d_name };
+            zpl_string dirpath = zpl_string_join(alloc, parts, 2, "/");
+            zpl_string grown = dirpath ? zpl_string_make_space_for(*output, zpl_string_length(dirpath) + 1) : NULL;
 
-            *output = zpl_string_appendc(*output, dirpath);
-            *output = zpl_string_appendc(*output, "\n");
+            if (grown) {
+                grown = zpl_string_append(grown, dirpath);
+                *output = zpl_string_appendc(grown, "\n");
+            } else {
+                zpl_string_free(*output);
+                *output = NULL;
+            }
 
-            if (recurse && dir->d_type == DT_DIR) { zpl__file_direntry(alloc, dirpath, output, recurse); }
+            if (*output && recurse && dir->d_type == DT_DIR) { zpl__file_direntry(alloc, dirpath, output, recurse); }
             zpl_string_free(dirpath);
         }
         closedir(d);
@@ -374,7 +379,7 @@ void zpl__file_direntry(zpl_allocator alloc, char const *dirname, zpl_string *ou
 
 zpl_string zpl_path_dirlist(zpl_allocator alloc, char const *dirname, zpl_b32 recurse) {
     zpl_string buf = zpl_string_make_reserve(alloc, 4);
-    zpl__file_direntry(alloc, dirname, &buf, recurse);
+    if (buf) zpl__file_direntry(alloc, dirname, &buf, recurse);
     return buf;
 }
 
diff --git a/code/source/core/misc.c b/code/source/core/misc.c
index 50ce05a..eddf931 100644
--- a/code/source/core/misc.c
+++ b/code/source/core/misc.c
@@ -121,9 +121,11 @@ zpl_string zpl_system_command_str(const char *command, zpl_allocator backing) {
         zpl_string output = zpl_string_make_reserve(backing, 4);
 
         int c;
-        while ((c = getc(handle)) != EOF) {
+        while (output && (c = getc(handle)) != EOF) {
             char ins = (char)c;
-            output = zpl_string_append_length(output, &ins, 1);
+            zpl_string grown = zpl_string_append_length(output, &ins, 1);
+            if (!grown) zpl_string_free(output);
+            output = grown;
         }
 
 #        if defined(ZPL_SYSTEM_WINDOWS)
diff --git a/code/source/core/print.c b/code/source/core/print.c
index c05d108..078701d 100644
--- a/code/source/core/print.c
+++ b/code/source/core/print.c
@@ -31,7 +31,7 @@ zpl_isize zpl_asprintf_va(zpl_allocator allocator, char **buffer, char const *fm
     zpl_isize res;
     res = zpl_snprintf_va(tmp, zpl_size_of(tmp), fmt, va);
     *buffer = zpl_alloc_str(allocator, tmp);
-    return res;
+    return *buffer ? res : -1;
 }
 
 zpl_isize zpl_printf(char const *fmt, ...) {
diff --git a/code/source/core/stringlib.c b/code/source/core/stringlib.c
index 975b7a7..41867c0 100644
--- a/code/source/core/stringlib.c
+++ b/code/source/core/stringlib.c
@@ -87,16 +87,20 @@ ZPL_ALWAYS_INLINE zpl_string zpl_string_appendc(zpl_string str, const char *othe
 }
 
 ZPL_ALWAYS_INLINE zpl_string zpl_string_join(zpl_allocator a, const char **parts, zpl_isize count, const char *glue) {
-    zpl_string ret;
+    zpl_string ret, grown;
     zpl_isize i;
 
     ret = zpl_string_make(a, NULL);
 
-    for (i=0; i<count; ++i) {
-        ret = zpl_string_appendc(ret, parts[i]);
+    for (i=0; ret && i<count; ++i) {
+        grown = zpl_string_appendc(ret, parts[i]);
+        if (!grown) zpl_string_free(ret);
+        ret = grown;
 
-        if ((i+1) < count) {
-            ret = zpl_string_appendc(ret, glue);
+        if (ret && (i+1) < count) {
+            grown = zpl_string_appendc(ret, glue);
+            if (!grown) zpl_string_free(ret);
+            ret = grown;
         }
     }
 
diff --git a/code/source/hashing.c b/code/source/hashing.c
index 4665e47..a6755b7 100644
--- a/code/source/hashing.c
+++ b/code/source/hashing.c
@@ -258,6 +258,7 @@ zpl_u8 *zpl_base64_encode(zpl_allocator a, void const *data, zpl_isize len) {
 
     enc_len = zpl__base64_encoded_size(len);
     ret = cast(zpl_u8 *)zpl_alloc(a, enc_len+1);
+    if (ret == NULL) return NULL;
     ret[enc_len] = 0;
 
     for (i=0, j=0; i < len; i+=3, j+=4) {
@@ -306,7 +307,7 @@ zpl_u8 *zpl_base64_decode(zpl_allocator a, void const *data, zpl_isize len) {
     alen = zpl__base64_decoded_size(s, len);
     ret = cast(zpl_u8 *)zpl_alloc(a, alen+1);
 
-    ZPL_ASSERT_NOT_NULL(ret);
+    if (ret == NULL) return NULL;
 
     ret[alen] = 0;
 
-- 
2.43.0


From 67fae7a2f344478ea876e9dbcb0ecef0e139be72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:23 +0000
Subject: [PATCH 128/152] fix: a failed allocation left a branch without nodes,
 and a stream extended by a write it refused

---
 code/source/adt.c              | 4 ++--
 code/source/core/file_stream.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index 2df136c..7f52d2d 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -25,11 +25,11 @@ zpl_u8 zpl_adt_make_branch(zpl_adt_node *node, zpl_allocator backing, char const
     }
     zpl_adt_node *parent = node->parent;
     zpl_zero_item(node);
-    node->type = type;
     node->name = name;
     node->parent = parent;
     if (!zpl_array_init(node->nodes, backing))
-        return ZPL_ADT_ERROR_OUT_OF_MEMORY;
+        return ZPL_ADT_ERROR_OUT_OF_MEMORY; /* a branch always has room for its nodes, so this node stays uninitialised */
+    node->type = type;
     return 0;
 }
 
diff --git a/code/source/core/file_stream.c b/code/source/core/file_stream.c
index 6971cd5..c234cea 100644
--- a/code/source/core/file_stream.c
+++ b/code/source/core/file_stream.c
@@ -128,8 +128,8 @@ zpl_internal ZPL_FILE_WRITE_AT_PROC(zpl__memory_file_write) {
             if (bytes_written) *bytes_written = 0;
             return true;
         }
-        if (zpl_array_capacity(d->buf) < offset) {
-            if (!zpl_array_grow(d->buf, (zpl_i64)(offset))) return false;
+        if (zpl_array_capacity(d->buf) < offset+size) {
+            if (!zpl_array_grow(d->buf, (zpl_i64)(offset+size))) return false;
         }
         zpl_memset(d->buf + buflen, 0, gap);
         d->cap = zpl_array_count(d->buf) = buflen = offset;
-- 
2.43.0


From dd9c2a053ea6bae283cac1f06d33ddbfa139dae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:49 +0000
Subject: [PATCH 129/152] fix: compiled as C++, the implementation left out two
 string functions other translation units need

---
 code/source/core/stringlib.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/core/stringlib.c b/code/source/core/stringlib.c
index 41867c0..8fc5575 100644
--- a/code/source/core/stringlib.c
+++ b/code/source/core/stringlib.c
@@ -82,11 +82,11 @@ zpl_string zpl_string_append_length(zpl_string str, void const *other, zpl_isize
     return str;
 }
 
-ZPL_ALWAYS_INLINE zpl_string zpl_string_appendc(zpl_string str, const char *other) {
+zpl_string zpl_string_appendc(zpl_string str, const char *other) {
     return zpl_string_append_length(str, other, zpl_strlen(other));
 }
 
-ZPL_ALWAYS_INLINE zpl_string zpl_string_join(zpl_allocator a, const char **parts, zpl_isize count, const char *glue) {
+zpl_string zpl_string_join(zpl_allocator a, const char **parts, zpl_isize count, const char *glue) {
     zpl_string ret, grown;
     zpl_isize i;
 
-- 
2.43.0


From 1306d783acb0135446b2473d54f2ee2244f9848d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:52 +0000
Subject: [PATCH 130/152] fix: the pattern matcher took failed steps for
 matches, never backtracked and read past the subject

---
 code/source/regex.c | 364 ++++++++++++++++++--------------------------
 1 file changed, 149 insertions(+), 215 deletions(-)

diff --git a/code/source/regex.c b/code/source/regex.c
index 7ef20d9..671929e 100644
--- a/code/source/regex.c
+++ b/code/source/regex.c
@@ -56,7 +56,7 @@ static char const ZPL_RE__META_CHARS[] = "^$()[].*+?|\\";
 static char const ZPL_RE__WHITESPACE[] = " \r\t\n\v\f";
 #define ZPL_RE__LITERAL(str) (str), zpl_size_of(str)-1
 
-static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str, zpl_isize str_len, zpl_isize offset, zpl_re_capture *captures, zpl_isize max_capture_count);
+static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str, zpl_isize str_len, zpl_isize offset);
 static zpl_re_ctx zpl_re__exec(zpl_re *re, zpl_isize op, char const *str, zpl_isize str_len, zpl_isize offset, zpl_re_capture *captures, zpl_isize max_capture_count);
 
 static zpl_re_ctx zpl_re__ctx_no_match(zpl_isize op) {
@@ -111,246 +111,172 @@ static zpl_b32 zpl_re__match_escape(char c, int code) {
     return 0;
 }
 
-static zpl_re_ctx zpl_re__consume(zpl_re *re, zpl_isize op, char const *str, zpl_isize str_len, zpl_isize offset, zpl_re_capture *captures, zpl_isize max_capture_count, zpl_b32 is_greedy)
+/* Repeats the single step at `op` between `min_count` and `max_count` times (negative means no limit), and matches the rest
+ * of the expression behind it. */
+static zpl_re_ctx zpl_re__consume(zpl_re *re, zpl_isize op, char const *str, zpl_isize str_len, zpl_isize offset, zpl_re_capture *captures, zpl_isize max_capture_count, zpl_isize min_count, zpl_isize max_count, zpl_b32 is_greedy)
 {
-    zpl_re_ctx c, best_c, next_c;
+    zpl_re_ctx c, next_c;
+    zpl_isize count = 0, next_op;
 
-    c.op = op;
-    c.offset = offset;
-
-    best_c.op = ZPL_RE__NO_MATCH;
-    best_c.offset = offset;
+    c = zpl_re__exec_single(re, op, str, str_len, offset);
+    next_op = c.op;
 
-    for (;;) {
-        c = zpl_re__exec_single(re, op, str, str_len, c.offset, 0, 0);
-        if (c.offset > str_len || c.offset == -1) break;
-        if (c.op >= re->buf_len) return c;
+    if (is_greedy) {
+        while (c.offset >= 0) {
+            count++;
+            if (count == max_count) break;
+            c = zpl_re__exec_single(re, op, str, str_len, c.offset);
+        }
 
-        next_c = zpl_re__exec(re, c.op, str, str_len, c.offset, captures, max_capture_count);
-        if (next_c.offset <= str_len) {
-            if (captures)
-                zpl_re__exec(re, c.op, str, str_len, c.offset, captures, max_capture_count);
+        for (; count >= min_count; count--) {
+            next_c = zpl_re__exec(re, next_op, str, str_len, offset + count, captures, max_capture_count);
+            if (next_c.offset != ZPL_RE__NO_MATCH) return next_c;
+        }
+    } else {
+        for (;;) {
+            if (count >= min_count) {
+                next_c = zpl_re__exec(re, next_op, str, str_len, offset + count, captures, max_capture_count);
+                if (next_c.offset != ZPL_RE__NO_MATCH) return next_c;
+            }
 
-            best_c = next_c;
-            if (!is_greedy) break;
+            if (c.offset < 0 || count == max_count) break;
+            count++;
+            c = zpl_re__exec_single(re, op, str, str_len, c.offset);
         }
+    }
 
-        if (best_c.op > re->buf_len)
-            best_c.op = c.op;
+    return zpl_re__ctx_no_match(next_op);
+}
 
+static zpl_b32 zpl_re__in_set(char const *set, zpl_isize set_len, char c) {
+    zpl_isize i;
+    for (i = 0; i < set_len; i++) {
+        if (!set[i]) {
+            i++;
+            if (zpl_re__match_escape(c, set[i] << 8)) return 1;
+        } else if (c == set[i]) {
+            return 1;
+        }
     }
-
-    return best_c;
+    return 0;
 }
 
-static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str, zpl_isize str_len, zpl_isize offset, zpl_re_capture *captures, zpl_isize max_capture_count) {
+/* Matches one step that takes a known amount of the string. The returned op is the one behind the step, matched or not. */
+static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str, zpl_isize str_len, zpl_isize offset) {
     zpl_re_ctx ctx;
     zpl_isize buffer_len;
-    zpl_isize match_len;
-    zpl_isize next_op;
-    zpl_isize skip;
+    zpl_b32 matched = 0;
 
     switch (re->buf[op++]) {
-        case ZPL_RE_OP_BEGIN_CAPTURE: {
-            zpl_u8 capture = re->buf[op++];
-            if (captures && (capture < max_capture_count))
-                captures[capture].str = str + offset;
-        } break;
-
-        case ZPL_RE_OP_END_CAPTURE: {
-            zpl_u8 capture = re->buf[op++];
-            if (captures && (capture < max_capture_count))
-                captures[capture].len = (str + offset) - captures[capture].str;
-        } break;
-
         case ZPL_RE_OP_BEGINNING_OF_LINE: {
-            if (offset != 0)
-                return zpl_re__ctx_no_match(op);
+            matched = offset == 0;
         } break;
 
         case ZPL_RE_OP_END_OF_LINE: {
-            if (offset != str_len)
-                return zpl_re__ctx_no_match(op);
-        } break;
-
-        case ZPL_RE_OP_BRANCH_START: {
-            skip = re->buf[op++];
-            ctx = zpl_re__exec(re, op, str, str_len, offset, captures, max_capture_count);
-            if (ctx.offset <= str_len) {
-                offset = ctx.offset;
-                op = ctx.op;
-            } else {
-                ctx = zpl_re__exec(re, op + skip, str, str_len, offset, captures, max_capture_count);
-                offset = ctx.offset;
-                op = ctx.op;
-            }
-        } break;
-
-        case ZPL_RE_OP_BRANCH_END: {
-            skip = re->buf[op++];
-            op += skip;
+            matched = offset == str_len;
         } break;
 
         case ZPL_RE_OP_ANY: {
-            if (offset < str_len) {
-                offset++;
-                break;
-            }
-            return zpl_re__ctx_no_match(op);
+            matched = offset < str_len;
+            offset++;
         } break;
 
         case ZPL_RE_OP_ANY_OF: {
-            zpl_isize i;
-            char cin = str[offset];
-            buffer_len = re->buf[op++];
-
-            if (offset >= str_len)
-                return zpl_re__ctx_no_match(op + buffer_len);
-
-            for (i = 0; i < buffer_len; i++) {
-                char cmatch = (char)re->buf[op+i];
-                if (!cmatch) {
-                    i++;
-                    if (zpl_re__match_escape(cin, re->buf[op+i] << 8))
-                        break;
-                } else if (cin == cmatch) {
-                    break;
-                }
-            }
-
-            if (i == buffer_len)
-                return zpl_re__ctx_no_match(op + buffer_len);
-
+            buffer_len = (zpl_u8)re->buf[op++];
+            matched = offset < str_len && zpl_re__in_set(re->buf + op, buffer_len, str[offset]);
             offset++;
             op += buffer_len;
         } break;
 
         case ZPL_RE_OP_ANY_BUT: {
-            zpl_isize i;
-            char cin = str[offset];
-            buffer_len = re->buf[op++];
-
-            if (offset >= str_len)
-                return zpl_re__ctx_no_match(op + buffer_len);
-
-            for (i = 0; i < buffer_len; i++) {
-                char cmatch = (char)re->buf[op + i];
-                if (!cmatch) {
-                    i++;
-                    if (zpl_re__match_escape(cin, re->buf[op+i] << 8))
-                        return zpl_re__ctx_no_match(op + buffer_len);
-                } else if (cin == cmatch) {
-                    return zpl_re__ctx_no_match(op + buffer_len);
-                }
-            }
-
+            buffer_len = (zpl_u8)re->buf[op++];
+            matched = offset < str_len && !zpl_re__in_set(re->buf + op, buffer_len, str[offset]);
             offset++;
             op += buffer_len;
         } break;
 
         case ZPL_RE_OP_EXACT_MATCH: {
-            match_len = re->buf[op++];
-
-            if ((match_len > (str_len - offset)) ||
-                zpl_strncmp(str+offset, (const char*)re->buf + op, match_len) != 0)
-                return zpl_re__ctx_no_match(op + match_len);
-
-            op += match_len;
-            offset += match_len;
+            buffer_len = (zpl_u8)re->buf[op++];
+            matched = buffer_len <= str_len - offset && zpl_memcompare(str + offset, re->buf + op, buffer_len) == 0;
+            offset += buffer_len;
+            op += buffer_len;
         } break;
 
         case ZPL_RE_OP_META_MATCH: {
-            char cin = (char)re->buf[op++];
-            char cmatch = str[offset++];
-
-            if (!cin) {
-                if (zpl_re__match_escape(cmatch, re->buf[op++] << 8))
-                    break;
-            }
-            else if (cin == cmatch) break;
-
-            return zpl_re__ctx_no_match(op);
-        } break;
-
-        case ZPL_RE_OP_ZERO_OR_MORE: {
-            ctx = zpl_re__consume(re, op, str, str_len, offset, captures, max_capture_count, 1);
-            offset = ctx.offset;
-            op = ctx.op;
-        } break;
-
-        case ZPL_RE_OP_ONE_OR_MORE: {
-            ctx = zpl_re__exec_single(re, op, str, str_len, offset, captures, max_capture_count);
-
-            if (ctx.offset > str_len)
-                return ctx;
-
-            ctx = zpl_re__consume(re, op, str, str_len, offset, captures, max_capture_count, 1);
-            offset = ctx.offset;
-            op = ctx.op;
-        } break;
-
-        case ZPL_RE_OP_ZERO_OR_MORE_SHORTEST: {
-            ctx = zpl_re__consume(re, op, str, str_len, offset, captures, max_capture_count, 0);
-            offset = ctx.offset;
-            op = ctx.op;
-        } break;
-
-        case ZPL_RE_OP_ONE_OR_MORE_SHORTEST: {
-            ctx = zpl_re__exec_single(re, op, str, str_len, offset, captures, max_capture_count);
-
-            if (ctx.offset > str_len)
-                return ctx;
-
-            ctx = zpl_re__consume(re, op, str, str_len, offset, captures, max_capture_count, 0);
-            offset = ctx.offset;
-            op = ctx.op;
-        } break;
-
-        case ZPL_RE_OP_ZERO_OR_ONE: {
-            ctx = zpl_re__exec_single(re, op, str, str_len, offset, captures, max_capture_count);
-
-            if (ctx.offset <= str_len) {
-                zpl_re_ctx possible_ctx = zpl_re__exec(re, ctx.op, str, str_len, ctx.offset, captures, max_capture_count);
-
-                if (possible_ctx.offset <= str_len) {
-                    op = possible_ctx.op;
-                    offset = possible_ctx.offset;
-                    break;
-                }
-            }
-
-            next_op = ctx.op;
-            ctx = zpl_re__exec(re, next_op, str, str_len, offset, captures, max_capture_count);
-
-            if (ctx.offset <= str_len) {
-                op = ctx.op;
-                offset = ctx.offset;
-                break;
-            }
-            return zpl_re__ctx_no_match(op);
+            buffer_len = re->buf[op] ? 1 : 2;
+            matched = offset < str_len && zpl_re__in_set(re->buf + op, buffer_len, str[offset]);
+            offset++;
+            op += buffer_len;
         } break;
 
-        default: {
-            return zpl_re__ctx_internal_failure(op);
-        } break;
+        default: return zpl_re__ctx_internal_failure(op);
     }
 
+    if (!matched) return zpl_re__ctx_no_match(op);
+
     ctx.op = op;
     ctx.offset = offset;
 
     return ctx;
 }
 
+/* Matches the rest of the expression from `op` on, trying the choices in it in order until one of them lets all of it match. */
 static zpl_re_ctx zpl_re__exec(zpl_re *re, zpl_isize op, char const *str, zpl_isize str_len, zpl_isize offset, zpl_re_capture *captures, zpl_isize max_capture_count) {
-    zpl_re_ctx c;
+    zpl_re_ctx c, next_c;
     c.op = op;
     c.offset = offset;
 
     while (c.op < re->buf_len) {
-        c = zpl_re__exec_single(re, c.op, str, str_len, c.offset, captures, max_capture_count);
+        switch (re->buf[c.op]) {
+            case ZPL_RE_OP_BEGIN_CAPTURE:
+            case ZPL_RE_OP_END_CAPTURE: {
+                zpl_u8 capture = (zpl_u8)re->buf[c.op + 1];
+                if (captures && (capture < max_capture_count)) {
+                    zpl_re_capture previous = captures[capture];
+
+                    if (re->buf[c.op] == ZPL_RE_OP_BEGIN_CAPTURE)
+                        captures[capture].str = str + c.offset;
+                    else
+                        captures[capture].len = (str + c.offset) - captures[capture].str;
+
+                    next_c = zpl_re__exec(re, c.op + 2, str, str_len, c.offset, captures, max_capture_count);
+                    if (next_c.offset < 0)
+                        captures[capture] = previous;
+                    return next_c;
+                }
+                c.op += 2;
+            } break;
 
-        if (c.offset > str_len || c.offset == -1)
-            break;
+            case ZPL_RE_OP_BRANCH_START: {
+                next_c = zpl_re__exec(re, c.op + 2, str, str_len, c.offset, captures, max_capture_count);
+                if (next_c.offset != ZPL_RE__NO_MATCH) return next_c;
+                c.op += 2 + (zpl_u8)re->buf[c.op + 1];
+            } break;
+
+            case ZPL_RE_OP_BRANCH_END: {
+                c.op += 2 + (zpl_u8)re->buf[c.op + 1];
+            } break;
+
+            case ZPL_RE_OP_ZERO_OR_MORE:
+                return zpl_re__consume(re, c.op + 1, str, str_len, c.offset, captures, max_capture_count, 0, -1, 1);
+
+            case ZPL_RE_OP_ONE_OR_MORE:
+                return zpl_re__consume(re, c.op + 1, str, str_len, c.offset, captures, max_capture_count, 1, -1, 1);
+
+            case ZPL_RE_OP_ZERO_OR_MORE_SHORTEST:
+                return zpl_re__consume(re, c.op + 1, str, str_len, c.offset, captures, max_capture_count, 0, -1, 0);
+
+            case ZPL_RE_OP_ONE_OR_MORE_SHORTEST:
+                return zpl_re__consume(re, c.op + 1, str, str_len, c.offset, captures, max_capture_count, 1, -1, 0);
+
+            case ZPL_RE_OP_ZERO_OR_ONE:
+                return zpl_re__consume(re, c.op + 1, str, str_len, c.offset, captures, max_capture_count, 0, 1, 1);
+
+            default: {
+                c = zpl_re__exec_single(re, c.op, str, str_len, c.offset);
+                if (c.offset < 0) return c;
+            } break;
+        }
     }
 
     return c;
@@ -712,22 +638,36 @@ zpl_regex_error zpl_re_compile(zpl_re *re, zpl_allocator backing, char const *pa
 
 zpl_isize zpl_re_capture_count(zpl_re *re) { return re->capture_count; }
 
-zpl_b32 zpl_re_match(zpl_re *re, char const *str, zpl_isize len, zpl_re_capture *captures, zpl_isize max_capture_count, zpl_isize *offset) {
-    if (re && re->buf_len > 0) {
-        if (re->buf[0] == ZPL_RE_OP_BEGINNING_OF_LINE) {
-            zpl_re_ctx c = zpl_re__exec(re, 0, str, len, 0, captures, max_capture_count);
-            if (c.offset >= 0 && c.offset <= len) { if (offset) *offset = c.offset; return 1; };
-            if (c.offset == ZPL_RE__INTERNAL_FAILURE) return 0;
-        } else {
-            zpl_isize i;
-            for (i = 0; i < len; i++) {
-                zpl_re_ctx c = zpl_re__exec(re, 0, str, len, i, captures, max_capture_count);
-                if (c.offset >= 0 && c.offset <= len) { if (offset) *offset = c.offset; return 1; };
-                if (c.offset == ZPL_RE__INTERNAL_FAILURE) return 0;
-            }
+/* Finds the first match at or behind `start`. */
+static zpl_b32 zpl_re__search(zpl_re *re, char const *str, zpl_isize len, zpl_isize start, zpl_re_capture *captures, zpl_isize max_capture_count, zpl_isize *match_begin, zpl_isize *match_end) {
+    zpl_isize i, last = len;
+
+    if (re->buf_len > 0 && re->buf[0] == ZPL_RE_OP_BEGINNING_OF_LINE)
+        last = 0;
+
+    for (i = 0; captures && i < max_capture_count; i++) {
+        captures[i].str = NULL;
+        captures[i].len = 0;
+    }
+
+    for (i = start; i <= last; i++) {
+        zpl_re_ctx c = zpl_re__exec(re, 0, str, len, i, captures, max_capture_count);
+        if (c.offset == ZPL_RE__INTERNAL_FAILURE) return 0;
+        if (c.offset >= 0) {
+            *match_begin = i;
+            *match_end = c.offset;
+            return 1;
         }
-        return 0;
     }
+
+    return 0;
+}
+
+zpl_b32 zpl_re_match(zpl_re *re, char const *str, zpl_isize len, zpl_re_capture *captures, zpl_isize max_capture_count, zpl_isize *offset) {
+    zpl_isize match_begin, match_end;
+    if (!re) return 1;
+    if (!zpl_re__search(re, str, len, 0, captures, max_capture_count, &match_begin, &match_end)) return 0;
+    if (offset) *offset = match_end;
     return 1;
 }
 
@@ -735,31 +675,25 @@ zpl_b32 zpl_re_match(zpl_re *re, char const *str, zpl_isize len, zpl_re_capture
 zpl_b32 zpl_re_match_all(zpl_re *re, char const *str, zpl_isize str_len, zpl_isize max_capture_count,
                      zpl_re_capture **out_captures)
 {
-    char *end = (char *)str + str_len;
-    char *p = (char *)str;
+    zpl_isize offset = 0, match_begin = 0, match_end = 0;
+    zpl_b32 ok = false;
 
     zpl_buffer_make(zpl_re_capture, cps, zpl_heap(), max_capture_count);
 
-    zpl_isize offset = 0;
-
-    while (p < end)
-    {
-        zpl_b32 ok = zpl_re_match(re, p, end - p, cps, max_capture_count, &offset);
-        if (!ok) {
-            zpl_buffer_free(cps);
-            return false;
-        }
-
-        p += offset;
+    while (offset <= str_len && zpl_re__search(re, str, str_len, offset, cps, max_capture_count, &match_begin, &match_end)) {
+        ok = true;
 
         for (zpl_isize i = 0; i < max_capture_count; i++) {
             zpl_array_append(*out_captures, cps[i]);
         }
+
+        /* an empty match would be found again at the same place */
+        offset = match_end > match_begin ? match_end : match_end + 1;
     }
 
     zpl_buffer_free(cps);
 
-    return true;
+    return ok;
 }
 
 ZPL_END_C_DECLS
-- 
2.43.0


From a762f536b438768f5d254449511383fe91e88589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:54 +0000
Subject: [PATCH 131/152] fix: pattern compilation hung on a lone ']', mixed up
 escapes, counts and branches and ignored nested errors

---
 code/source/regex.c | 127 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 98 insertions(+), 29 deletions(-)

diff --git a/code/source/regex.c b/code/source/regex.c
index 671929e..3852007 100644
--- a/code/source/regex.c
+++ b/code/source/regex.c
@@ -54,6 +54,7 @@ enum {
 
 static char const ZPL_RE__META_CHARS[] = "^$()[].*+?|\\";
 static char const ZPL_RE__WHITESPACE[] = " \r\t\n\v\f";
+#define ZPL_RE__MAX_LEN 0x4000 /* the matcher recurses once for every choice in the expression */
 #define ZPL_RE__LITERAL(str) (str), zpl_size_of(str)-1
 
 static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str, zpl_isize str_len, zpl_isize offset);
@@ -77,6 +78,10 @@ static zpl_u8 zpl_re__hex(char const *s) {
     return ((zpl_char_to_hex_digit(*s) << 4) & 0xf0) | (zpl_char_to_hex_digit(*(s+1)) & 0x0f);
 }
 
+static zpl_b32 zpl_re__is_hex(char const *pattern, zpl_isize len, zpl_isize offset) {
+    return (offset + 1 < len) && zpl_char_is_hex_digit(pattern[offset]) && zpl_char_is_hex_digit(pattern[offset+1]);
+}
+
 static zpl_isize zpl_re__strfind(char const *s, zpl_isize len, char c, zpl_isize offset) {
     if (offset < len) {
         char const *found = (char const *)zpl_memchr(s+offset, c, len-offset);
@@ -284,6 +289,10 @@ static zpl_re_ctx zpl_re__exec(zpl_re *re, zpl_isize op, char const *str, zpl_is
 
 static zpl_regex_error zpl_re__emit_ops(zpl_re *re, zpl_isize op_count, ...) {
     va_list va;
+    zpl_regex_error err = ZPL_RE_ERROR_NONE;
+
+    if (re->buf_len + op_count > ZPL_RE__MAX_LEN)
+        return ZPL_RE_ERROR_TOO_LONG;
 
     if (re->buf_len + op_count > re->buf_cap) {
         if (!re->can_realloc) {
@@ -291,7 +300,9 @@ static zpl_regex_error zpl_re__emit_ops(zpl_re *re, zpl_isize op_count, ...) {
         }
         else {
             zpl_isize new_cap = (re->buf_cap*2) + op_count;
-            re->buf = (char *)zpl_resize(re->backing, re->buf, re->buf_cap, new_cap);
+            char *new_buf = (char *)zpl_resize(re->backing, re->buf, re->buf_cap, new_cap);
+            if (!new_buf) return ZPL_RE_ERROR_INTERNAL_FAILURE;
+            re->buf = new_buf;
             re->buf_cap = new_cap;
         }
     }
@@ -300,23 +311,30 @@ static zpl_regex_error zpl_re__emit_ops(zpl_re *re, zpl_isize op_count, ...) {
     for (zpl_isize i = 0; i < op_count; i++)
     {
         zpl_i32 v = va_arg(va, zpl_i32);
-        if (v > 256)
-            return ZPL_RE_ERROR_TOO_LONG;
+        if (v > 255) {
+            err = ZPL_RE_ERROR_TOO_LONG;
+            break;
+        }
         re->buf[re->buf_len++] = (char)v;
     }
     va_end(va);
 
-    return ZPL_RE_ERROR_NONE;
+    return err;
 }
 
 static zpl_regex_error zpl_re__emit_ops_buffer(zpl_re *re, zpl_isize op_count, char const *buffer) {
+    if (re->buf_len + op_count > ZPL_RE__MAX_LEN)
+        return ZPL_RE_ERROR_TOO_LONG;
+
     if (re->buf_len + op_count > re->buf_cap) {
         if (!re->can_realloc) {
             return ZPL_RE_ERROR_TOO_LONG;
         }
         else {
             zpl_isize new_cap = (re->buf_cap*2) + op_count;
-            re->buf = (char *)zpl_resize(re->backing, re->buf, re->buf_cap, new_cap);
+            char *new_buf = (char *)zpl_resize(re->backing, re->buf, re->buf_cap, new_cap);
+            if (!new_buf) return ZPL_RE_ERROR_INTERNAL_FAILURE;
+            re->buf = new_buf;
             re->buf_cap = new_cap;
         }
     }
@@ -368,7 +386,7 @@ static zpl_regex_error zpl_re__parse_group(zpl_re *re, char const *pattern, zpl_
     zpl_b32 closed = 0;
     zplreOp op = ZPL_RE_OP_ANY_OF;
 
-    if (pattern[offset] == '^') {
+    if (offset < len && pattern[offset] == '^') {
         offset++;
         op = ZPL_RE_OP_ANY_BUT;
     }
@@ -394,9 +412,17 @@ static zpl_regex_error zpl_re__parse_group(zpl_re *re, char const *pattern, zpl_
         if (pattern[offset] == '\\') {
             offset++;
 
-            if ((offset + 1 < len) && zpl_char_is_hex_digit(*(pattern+offset))) {
-                buffer[buffer_len++] = zpl_re__hex((pattern+offset));
+            if (zpl_re__is_hex(pattern, len, offset)) {
+                zpl_u8 hex_value = zpl_re__hex((pattern+offset));
+                buffer[buffer_len++] = (char)hex_value;
                 offset++;
+
+                if (!hex_value) {
+                    if (buffer_len >= buffer_cap)
+                        return ZPL_RE_ERROR_TOO_LONG;
+
+                    buffer[buffer_len++] = 0;
+                }
             }
             else if (offset < len) {
                 zpl_i32 code = zpl_re__encode_escape(pattern[offset]);
@@ -415,7 +441,14 @@ static zpl_regex_error zpl_re__parse_group(zpl_re *re, char const *pattern, zpl_
             }
         }
         else {
-            buffer[buffer_len++] = (unsigned char)pattern[offset];
+            buffer[buffer_len++] = pattern[offset];
+
+            if (!pattern[offset]) {
+                if (buffer_len >= buffer_cap)
+                    return ZPL_RE_ERROR_TOO_LONG;
+
+                buffer[buffer_len++] = 0;
+            }
         }
 
         offset++;
@@ -427,23 +460,24 @@ static zpl_regex_error zpl_re__parse_group(zpl_re *re, char const *pattern, zpl_
     return ZPL_RE_ERROR_NONE;
 }
 
-static zpl_regex_error zpl_re__compile_quantifier(zpl_re *re, zpl_isize last_buf_len, unsigned char quantifier) {
+static zpl_regex_error zpl_re__compile_quantifier(zpl_re *re, zpl_isize *last_op, unsigned char quantifier) {
     zpl_regex_error err;
-    zpl_isize move_size;
+    zpl_isize move_size, last_buf_len = *last_op;
 
     if ((re->buf[last_buf_len] == ZPL_RE_OP_EXACT_MATCH) &&
-        (re->buf[last_buf_len+1] > 1))
+        ((zpl_u8)re->buf[last_buf_len+1] > 1))
     {
         unsigned char last_char = re->buf[re->buf_len-1];
 
         re->buf[last_buf_len+1]--;
         re->buf_len--;
+        *last_op = re->buf_len;
         err = zpl_re__emit_ops(re, 4, (zpl_i32)quantifier, (zpl_i32)ZPL_RE_OP_EXACT_MATCH, 1, (zpl_i32)last_char);
         if (err) return err;
         return ZPL_RE_ERROR_NONE;
     }
 
-    move_size = re->buf_len - last_buf_len + 1;
+    move_size = re->buf_len - last_buf_len;
 
     err = zpl_re__emit_ops(re, 1, 0);
     if (err) return err;
@@ -454,6 +488,16 @@ static zpl_regex_error zpl_re__compile_quantifier(zpl_re *re, zpl_isize last_buf
     return ZPL_RE_ERROR_NONE;
 }
 
+/* Lets the alternative that ends here continue behind the one it has been tried before. */
+static zpl_regex_error zpl_re__close_branch(zpl_re *re, zpl_isize branch_op) {
+    if (branch_op != -1) {
+        zpl_isize skip = re->buf_len - (branch_op+2);
+        if (skip > 255) return ZPL_RE_ERROR_TOO_LONG;
+        re->buf[branch_op + 1] = (char)skip;
+    }
+    return ZPL_RE_ERROR_NONE;
+}
+
 static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize len, zpl_isize offset, zpl_isize level, zpl_isize *new_offset) {
     zpl_regex_error err = ZPL_RE_ERROR_NONE;
     zpl_isize last_buf_len = re->buf_len;
@@ -463,11 +507,13 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
     while (offset < len) {
         switch (pattern[offset++]) {
             case '^': {
+                last_buf_len = re->buf_len;
                 err = zpl_re__emit_ops(re, 1, ZPL_RE_OP_BEGINNING_OF_LINE);
                 if (err) return err;
             } break;
 
             case '$': {
+                last_buf_len = re->buf_len;
                 err = zpl_re__emit_ops(re, 1, ZPL_RE_OP_END_OF_LINE);
                 if (err) return err;
             } break;
@@ -479,6 +525,7 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
                 if (err) return err;
 
                 err = zpl_re__parse(re, pattern, len, offset, level+1, &offset);
+                if (err) return err;
 
                 if ((offset > len) || (pattern[offset-1] != ')'))
                     return ZPL_RE_ERROR_MISMATCHED_CAPTURES;
@@ -488,21 +535,21 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
             } break;
 
             case ')': {
-                if (branch_op != -1)
-                    re->buf[branch_op + 1] = (unsigned char)(re->buf_len - (branch_op+2));
-
                 if (level == 0)
                     return ZPL_RE_ERROR_MISMATCHED_CAPTURES;
 
                 if (new_offset) *new_offset = offset;
-                return ZPL_RE_ERROR_NONE;
+                return zpl_re__close_branch(re, branch_op);
             } break;
 
             case '[': {
                 last_buf_len = re->buf_len;
                 err = zpl_re__parse_group(re, pattern, len, offset, &offset);
-                if (offset > len)
-                    return err;
+                if (err) return err;
+            } break;
+
+            case ']': {
+                return ZPL_RE_ERROR_MISMATCHED_BLOCKS;
             } break;
 
             /* NOTE(bill): Branching magic! */
@@ -511,13 +558,17 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
                     return ZPL_RE_ERROR_BRANCH_FAILURE;
                 } else {
                     zpl_isize size = re->buf_len - branch_begin;
+                    if (size + 2 > 255) return ZPL_RE_ERROR_TOO_LONG;
+                    err = zpl_re__close_branch(re, branch_op);
+                    if (err) return err;
                     err = zpl_re__emit_ops(re, 4, 0, 0, ZPL_RE_OP_BRANCH_END, 0);
                     if (err) return err;
 
                     zpl_memmove(re->buf + branch_begin + 2, re->buf + branch_begin, size);
                     re->buf[branch_begin] = ZPL_RE_OP_BRANCH_START;
-                    re->buf[branch_begin+1] = (size+2) & 0xff;
+                    re->buf[branch_begin+1] = (char)(size+2);
                     branch_op = re->buf_len-2;
+                    last_buf_len = re->buf_len;
                 }
             } break;
 
@@ -541,11 +592,11 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
                     return ZPL_RE_ERROR_INVALID_QUANTIFIER;
 
                 if ((offset < len) && (pattern[offset] == '?')) {
-                    quantifier = ZPL_RE_OP_ONE_OR_MORE_SHORTEST;
+                    quantifier = quantifier == ZPL_RE_OP_ZERO_OR_MORE ? ZPL_RE_OP_ZERO_OR_MORE_SHORTEST : ZPL_RE_OP_ONE_OR_MORE_SHORTEST;
                     offset++;
                 }
 
-                err = zpl_re__compile_quantifier(re, last_buf_len, quantifier);
+                err = zpl_re__compile_quantifier(re, &last_buf_len, quantifier);
                 if (err) return err;
             } break;
 
@@ -556,17 +607,17 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
                     (re->buf[last_buf_len] > ZPL_RE_OP_ANY_BUT))
                     return ZPL_RE_ERROR_INVALID_QUANTIFIER;
 
-                err = zpl_re__compile_quantifier(re, last_buf_len,
+                err = zpl_re__compile_quantifier(re, &last_buf_len,
                                                  (unsigned char)ZPL_RE_OP_ZERO_OR_ONE);
                 if (err) return err;
             } break;
 
             case '\\': {
                 last_buf_len = re->buf_len;
-                if ((offset+1 < len) && zpl_char_is_hex_digit(*(pattern+offset))) {
+                if (zpl_re__is_hex(pattern, len, offset)) {
                     unsigned char hex_value = zpl_re__hex((pattern+offset));
                     offset += 2;
-                    err = zpl_re__emit_ops(re, 2, ZPL_RE_OP_META_MATCH, (int)hex_value);
+                    err = zpl_re__emit_ops(re, hex_value ? 2 : 3, ZPL_RE_OP_META_MATCH, (int)hex_value, 0);
                     if (err) return err;
                 } else if (offset < len) {
                     int code = zpl_re__encode_escape(pattern[offset++]);
@@ -600,8 +651,11 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
         }
     }
 
+    if (level > 0)
+        return ZPL_RE_ERROR_MISMATCHED_CAPTURES;
+
     if (new_offset) *new_offset = offset;
-    return ZPL_RE_ERROR_NONE;
+    return zpl_re__close_branch(re, branch_op);
 }
 
 zpl_regex_error zpl_re_compile_from_buffer(zpl_re *re, char const *pattern, zpl_isize pattern_len, void *buffer, zpl_isize buffer_len) {
@@ -609,7 +663,7 @@ zpl_regex_error zpl_re_compile_from_buffer(zpl_re *re, char const *pattern, zpl_
     re->capture_count = 0;
     re->buf = (char *)buffer;
     re->buf_len = 0;
-    re->buf_cap = re->buf_len;
+    re->buf_cap = buffer_len;
     re->can_realloc = 0;
 
     err = zpl_re__parse(re, pattern, pattern_len, 0, 0, 0);
@@ -628,14 +682,29 @@ zpl_regex_error zpl_re_compile(zpl_re *re, zpl_allocator backing, char const *pa
     re->buf_cap = cap;
     re->can_realloc = 1;
 
+    if (!re->buf) {
+        re->buf_cap = 0;
+        return ZPL_RE_ERROR_INTERNAL_FAILURE;
+    }
+
     err = zpl_re__parse(re, pattern, pattern_len, 0, 0, &offset);
 
-    if (offset != pattern_len)
-        zpl_free(backing, re->buf);
+    if (err)
+        zpl_re_destroy(re);
 
     return err;
 }
 
+void zpl_re_destroy(zpl_re *re) {
+    if (re->can_realloc && re->buf)
+        zpl_free(re->backing, re->buf);
+
+    re->capture_count = 0;
+    re->buf = NULL;
+    re->buf_len = re->buf_cap = 0;
+    re->can_realloc = 0;
+}
+
 zpl_isize zpl_re_capture_count(zpl_re *re) { return re->capture_count; }
 
 /* Finds the first match at or behind `start`. */
-- 
2.43.0


From 77f3b1b49ddf62c032e4b8505e958d1ecdda7c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:03 +0000
Subject: [PATCH 132/152] fix: math.h keeps the line endings it had

---
 code/header/math.h | 1396 ++++++++++++++++++++++----------------------
 1 file changed, 698 insertions(+), 698 deletions(-)

diff --git a/code/header/math.h b/code/header/math.h
index e5a503c..4580b3b 100644
--- a/code/header/math.h
+++ b/code/header/math.h
@@ -1,698 +1,698 @@
-// file: header/math.h
-
-/** @file math.c
-@brief Math operations
-@defgroup math Math operations
-
-OpenGL gamedev friendly library for math.
-
-@{
-*/
-
-ZPL_BEGIN_C_DECLS
-
-typedef union zpl_vec2 {
-    struct {
-        zpl_f32 x, y;
-    };
-    struct {
-        zpl_f32 s, t;
-    };
-    zpl_f32 e[2];
-} zpl_vec2;
-
-typedef union zpl_vec3 {
-    struct {
-        zpl_f32 x, y, z;
-    };
-    struct {
-        zpl_f32 r, g, b;
-    };
-    struct {
-        zpl_f32 s, t, p;
-    };
-    
-    zpl_vec2 xy;
-    zpl_vec2 st;
-    zpl_f32 e[3];
-} zpl_vec3;
-
-typedef union zpl_vec4 {
-    struct {
-        zpl_f32 x, y, z, w;
-    };
-    struct {
-        zpl_f32 r, g, b, a;
-    };
-    struct {
-        zpl_f32 s, t, p, q;
-    };
-    struct {
-        zpl_vec2 xy, zw;
-    };
-    struct {
-        zpl_vec2 st, pq;
-    };
-    zpl_vec3 xyz;
-    zpl_vec3 rgb;
-    zpl_f32 e[4];
-} zpl_vec4;
-
-typedef union zpl_mat2 {
-    struct {
-        zpl_vec2 x, y;
-    };
-    zpl_vec2 col[2];
-    zpl_f32 e[4];
-} zpl_mat2;
-
-typedef union zpl_mat3 {
-    struct {
-        zpl_vec3 x, y, z;
-    };
-    zpl_vec3 col[3];
-    zpl_f32 e[9];
-} zpl_mat3;
-
-typedef union zpl_mat4 {
-    struct {
-        zpl_vec4 x, y, z, w;
-    };
-    zpl_vec4 col[4];
-    zpl_f32 e[16];
-} zpl_mat4;
-
-typedef union zpl_quat {
-    struct {
-        zpl_f32 x, y, z, w;
-    };
-    zpl_vec4 xyzw;
-    zpl_vec3 xyz;
-    zpl_f32 e[4];
-} zpl_quat;
-
-typedef union zpl_plane {
-    struct {
-        zpl_f32 a, b, c, d;
-    };
-    zpl_vec4 xyzw;
-    zpl_vec3 n;
-    zpl_f32 e[4];
-} zpl_plane;
-
-typedef struct zpl_frustum {
-    zpl_plane x1;
-    zpl_plane x2;
-    zpl_plane y1;
-    zpl_plane y2;
-    zpl_plane z1;
-    zpl_plane z2;
-} zpl_frustum;
-
-typedef zpl_f32 zpl_float2[2];
-typedef zpl_f32 zpl_float3[3];
-typedef zpl_f32 zpl_float4[4];
-
-typedef struct zpl_rect2 {
-    zpl_vec2 pos, dim;
-} zpl_rect2;
-typedef struct zpl_rect3 {
-    zpl_vec3 pos, dim;
-} zpl_rect3;
-
-typedef struct zpl_aabb2 {
-    zpl_vec2 min, max;
-} zpl_aabb2;
-typedef struct zpl_aabb3 {
-    zpl_vec3 min, max;
-} zpl_aabb3;
-
-typedef short zpl_half;
-
-#ifndef ZPL_CONSTANTS
-#define ZPL_CONSTANTS
-#define ZPL_EPSILON    1.19209290e-7f
-#define ZPL_ZERO       0.0f
-#define ZPL_ONE        1.0f
-#define ZPL_TWO_THIRDS 0.666666666666666666666666666666666666667f
-
-#define ZPL_TAU          6.28318530717958647692528676655900576f
-#define ZPL_PI           3.14159265358979323846264338327950288f
-#define ZPL_ONE_OVER_TAU 0.159154943091895335768883763372514362f
-#define ZPL_ONE_OVER_PI  0.318309886183790671537767526745028724f
-
-#define ZPL_TAU_OVER_2 3.14159265358979323846264338327950288f
-#define ZPL_TAU_OVER_4 1.570796326794896619231321691639751442f
-#define ZPL_TAU_OVER_8 0.785398163397448309615660845819875721f
-
-#define ZPL_E          2.71828182845904523536f
-#define ZPL_SQRT_TWO   1.41421356237309504880168872420969808f
-#define ZPL_SQRT_THREE 1.73205080756887729352744634150587236f
-#define ZPL_SQRT_FIVE  2.23606797749978969640917366873127623f
-
-#define ZPL_LOG_TWO 0.693147180559945309417232121458176568f
-#define ZPL_LOG_TEN 2.30258509299404568401799145468436421f
-#endif // ZPL_CONSTANTS
-
-#ifndef zpl_square
-#define zpl_square(x) ((x) * (x))
-#endif
-
-#ifndef zpl_cube
-#define zpl_cube(x) ((x) * (x) * (x))
-#endif
-
-#ifndef zpl_sign
-#define zpl_sign(x) ((x) >= 0.0f ? 1.0f : -1.0f)
-#endif
-
-#ifndef zpl_sign0
-#define zpl_sign0(x) ((x == 0.0f) ? 0.0f : ((x) >= 0.0f ? 1.0f : -1.0f))
-#endif
-
-ZPL_DEF zpl_f32 zpl_to_radians(zpl_f32 degrees);
-ZPL_DEF zpl_f32 zpl_to_degrees(zpl_f32 radians);
-
-/* NOTE: Because to interpolate angles */
-ZPL_DEF zpl_f32 zpl_angle_diff(zpl_f32 radians_a, zpl_f32 radians_b);
-
-ZPL_DEF zpl_f32 zpl_copy_sign(zpl_f32 x, zpl_f32 y);
-ZPL_DEF zpl_f32 zpl_remainder(zpl_f32 x, zpl_f32 y);
-ZPL_DEF zpl_f32 zpl_mod(zpl_f32 x, zpl_f32 y);
-ZPL_DEF zpl_f64 zpl_copy_sign64(zpl_f64 x, zpl_f64 y);
-ZPL_DEF zpl_f64 zpl_floor64(zpl_f64 x);
-ZPL_DEF zpl_f64 zpl_ceil64(zpl_f64 x);
-ZPL_DEF zpl_f64 zpl_round64(zpl_f64 x);
-ZPL_DEF zpl_f64 zpl_remainder64(zpl_f64 x, zpl_f64 y);
-ZPL_DEF zpl_f64 zpl_abs64(zpl_f64 x);
-ZPL_DEF zpl_f64 zpl_sign64(zpl_f64 x);
-ZPL_DEF zpl_f64 zpl_mod64(zpl_f64 x, zpl_f64 y);
-ZPL_DEF zpl_f32 zpl_sqrt(zpl_f32 a);
-ZPL_DEF zpl_f32 zpl_rsqrt(zpl_f32 a);
-ZPL_DEF zpl_f32 zpl_quake_rsqrt(zpl_f32 a); /* NOTE: It's probably better to use 1.0f/zpl_sqrt(a)
-                                     * And for simd, there is usually isqrt functions too!
-                                     */
-ZPL_DEF zpl_f32 zpl_hypot(zpl_f32 x, zpl_f32 y);
-ZPL_DEF zpl_f32 zpl_sin(zpl_f32 radians);
-ZPL_DEF zpl_f32 zpl_cos(zpl_f32 radians);
-ZPL_DEF zpl_f32 zpl_tan(zpl_f32 radians);
-ZPL_DEF zpl_f32 zpl_arcsin(zpl_f32 a);
-ZPL_DEF zpl_f32 zpl_arccos(zpl_f32 a);
-ZPL_DEF zpl_f32 zpl_arctan(zpl_f32 a);
-ZPL_DEF zpl_f32 zpl_arctan2(zpl_f32 y, zpl_f32 x);
-
-ZPL_DEF zpl_f32 zpl_exp(zpl_f32 x);
-ZPL_DEF zpl_f32 zpl_exp2(zpl_f32 x);
-ZPL_DEF zpl_f32 zpl_log(zpl_f32 x);
-ZPL_DEF zpl_f32 zpl_log2(zpl_f32 x);
-ZPL_DEF zpl_f32 zpl_fast_exp(zpl_f32 x);   /* NOTE: Only valid from -1 <= x <= +1 */
-ZPL_DEF zpl_f32 zpl_fast_exp2(zpl_f32 x);  /* NOTE: Only valid from -1 <= x <= +1 */
-ZPL_DEF zpl_f32 zpl_pow(zpl_f32 x, zpl_f32 y); /* x^y */
-
-ZPL_DEF zpl_f32 zpl_round(zpl_f32 x);
-ZPL_DEF zpl_f32 zpl_floor(zpl_f32 x);
-ZPL_DEF zpl_f32 zpl_ceil(zpl_f32 x);
-
-ZPL_DEF zpl_f32  zpl_half_to_float(zpl_half value);
-ZPL_DEF zpl_half zpl_float_to_half(zpl_f32 value);
-
-ZPL_DEF zpl_vec2 zpl_vec2f_zero(void);
-ZPL_DEF zpl_vec2 zpl_vec2f(zpl_f32 x, zpl_f32 y);
-ZPL_DEF zpl_vec2 zpl_vec2fv(zpl_f32 x[2]);
-
-ZPL_DEF zpl_vec3 zpl_vec3f_zero(void);
-ZPL_DEF zpl_vec3 zpl_vec3f(zpl_f32 x, zpl_f32 y, zpl_f32 z);
-ZPL_DEF zpl_vec3 zpl_vec3fv(zpl_f32 x[3]);
-
-ZPL_DEF zpl_vec4 zpl_vec4f_zero(void);
-ZPL_DEF zpl_vec4 zpl_vec4f(zpl_f32 x, zpl_f32 y, zpl_f32 z, zpl_f32 w);
-ZPL_DEF zpl_vec4 zpl_vec4fv(zpl_f32 x[4]);
-
-ZPL_DEF zpl_f32 zpl_vec2_max(zpl_vec2 v);
-ZPL_DEF zpl_f32 zpl_vec2_side(zpl_vec2 p, zpl_vec2 q, zpl_vec2 r);
-ZPL_DEF void zpl_vec2_add(zpl_vec2 *d, zpl_vec2 v0, zpl_vec2 v1);
-ZPL_DEF void zpl_vec2_sub(zpl_vec2 *d, zpl_vec2 v0, zpl_vec2 v1);
-ZPL_DEF void zpl_vec2_mul(zpl_vec2 *d, zpl_vec2 v, zpl_f32 s);
-ZPL_DEF void zpl_vec2_div(zpl_vec2 *d, zpl_vec2 v, zpl_f32 s);
-
-ZPL_DEF zpl_f32 zpl_vec3_max(zpl_vec3 v);
-ZPL_DEF void zpl_vec3_add(zpl_vec3 *d, zpl_vec3 v0, zpl_vec3 v1);
-ZPL_DEF void zpl_vec3_sub(zpl_vec3 *d, zpl_vec3 v0, zpl_vec3 v1);
-ZPL_DEF void zpl_vec3_mul(zpl_vec3 *d, zpl_vec3 v, zpl_f32 s);
-ZPL_DEF void zpl_vec3_div(zpl_vec3 *d, zpl_vec3 v, zpl_f32 s);
-
-ZPL_DEF void zpl_vec4_add(zpl_vec4 *d, zpl_vec4 v0, zpl_vec4 v1);
-ZPL_DEF void zpl_vec4_sub(zpl_vec4 *d, zpl_vec4 v0, zpl_vec4 v1);
-ZPL_DEF void zpl_vec4_mul(zpl_vec4 *d, zpl_vec4 v, zpl_f32 s);
-ZPL_DEF void zpl_vec4_div(zpl_vec4 *d, zpl_vec4 v, zpl_f32 s);
-
-ZPL_DEF void zpl_vec2_addeq(zpl_vec2 *d, zpl_vec2 v);
-ZPL_DEF void zpl_vec2_subeq(zpl_vec2 *d, zpl_vec2 v);
-ZPL_DEF void zpl_vec2_muleq(zpl_vec2 *d, zpl_f32 s);
-ZPL_DEF void zpl_vec2_diveq(zpl_vec2 *d, zpl_f32 s);
-
-ZPL_DEF void zpl_vec3_addeq(zpl_vec3 *d, zpl_vec3 v);
-ZPL_DEF void zpl_vec3_subeq(zpl_vec3 *d, zpl_vec3 v);
-ZPL_DEF void zpl_vec3_muleq(zpl_vec3 *d, zpl_f32 s);
-ZPL_DEF void zpl_vec3_diveq(zpl_vec3 *d, zpl_f32 s);
-
-ZPL_DEF void zpl_vec4_addeq(zpl_vec4 *d, zpl_vec4 v);
-ZPL_DEF void zpl_vec4_subeq(zpl_vec4 *d, zpl_vec4 v);
-ZPL_DEF void zpl_vec4_muleq(zpl_vec4 *d, zpl_f32 s);
-ZPL_DEF void zpl_vec4_diveq(zpl_vec4 *d, zpl_f32 s);
-
-ZPL_DEF zpl_f32 zpl_vec2_dot(zpl_vec2 v0, zpl_vec2 v1);
-ZPL_DEF zpl_f32 zpl_vec3_dot(zpl_vec3 v0, zpl_vec3 v1);
-ZPL_DEF zpl_f32 zpl_vec4_dot(zpl_vec4 v0, zpl_vec4 v1);
-
-ZPL_DEF void zpl_vec2_cross(zpl_f32 *d, zpl_vec2 v0, zpl_vec2 v1);
-ZPL_DEF void zpl_vec3_cross(zpl_vec3 *d, zpl_vec3 v0, zpl_vec3 v1);
-
-ZPL_DEF zpl_f32 zpl_vec2_mag2(zpl_vec2 v);
-ZPL_DEF zpl_f32 zpl_vec3_mag2(zpl_vec3 v);
-ZPL_DEF zpl_f32 zpl_vec4_mag2(zpl_vec4 v);
-
-ZPL_DEF zpl_f32 zpl_vec2_mag(zpl_vec2 v);
-ZPL_DEF zpl_f32 zpl_vec3_mag(zpl_vec3 v);
-ZPL_DEF zpl_f32 zpl_vec4_mag(zpl_vec4 v);
-
-ZPL_DEF void zpl_vec2_norm(zpl_vec2 *d, zpl_vec2 v);
-ZPL_DEF void zpl_vec3_norm(zpl_vec3 *d, zpl_vec3 v);
-ZPL_DEF void zpl_vec4_norm(zpl_vec4 *d, zpl_vec4 v);
-
-ZPL_DEF void zpl_vec2_norm0(zpl_vec2 *d, zpl_vec2 v);
-ZPL_DEF void zpl_vec3_norm0(zpl_vec3 *d, zpl_vec3 v);
-ZPL_DEF void zpl_vec4_norm0(zpl_vec4 *d, zpl_vec4 v);
-
-ZPL_DEF void zpl_vec2_reflect(zpl_vec2 *d, zpl_vec2 i, zpl_vec2 n);
-ZPL_DEF void zpl_vec3_reflect(zpl_vec3 *d, zpl_vec3 i, zpl_vec3 n);
-ZPL_DEF void zpl_vec2_refract(zpl_vec2 *d, zpl_vec2 i, zpl_vec2 n, zpl_f32 eta);
-ZPL_DEF void zpl_vec3_refract(zpl_vec3 *d, zpl_vec3 i, zpl_vec3 n, zpl_f32 eta);
-
-ZPL_DEF zpl_f32 zpl_vec2_aspect_ratio(zpl_vec2 v);
-
-ZPL_DEF void zpl_mat2_identity(zpl_mat2 *m);
-ZPL_DEF void zpl_float22_identity(zpl_f32 m[2][2]);
-
-ZPL_DEF void    zpl_mat2_transpose(zpl_mat2 *m);
-ZPL_DEF void    zpl_mat2_mul(zpl_mat2 *out, zpl_mat2 *m1, zpl_mat2 *m2);
-ZPL_DEF void    zpl_mat2_mul_vec2(zpl_vec2 *out, zpl_mat2 *m, zpl_vec2 in);
-ZPL_DEF void    zpl_mat2_inverse(zpl_mat2 *out, zpl_mat2 *in);
-ZPL_DEF zpl_f32 zpl_mat2_determinate(zpl_mat2 *m);
-
-ZPL_DEF zpl_mat2   *zpl_mat2_v(zpl_vec2 m[2]);
-ZPL_DEF zpl_mat2   *zpl_mat2_f(zpl_f32 m[2][2]);
-ZPL_DEF zpl_float2 *zpl_float22_m(zpl_mat2 *m);
-ZPL_DEF zpl_float2 *zpl_float22_v(zpl_vec2 m[2]);
-ZPL_DEF zpl_float2 *zpl_float22_4(zpl_f32 m[4]);
-
-ZPL_DEF void zpl_float22_transpose(zpl_f32 (*vec)[2]);
-ZPL_DEF void zpl_float22_mul(zpl_f32 (*out)[2], zpl_f32 (*mat1)[2], zpl_f32 (*mat2)[2]);
-ZPL_DEF void zpl_float22_mul_vec2(zpl_vec2 *out, zpl_f32 m[2][2], zpl_vec2 in);
-
-ZPL_DEF void zpl_mat3_identity(zpl_mat3 *m);
-ZPL_DEF void zpl_float33_identity(zpl_f32 m[3][3]);
-
-ZPL_DEF void    zpl_mat3_transpose(zpl_mat3 *m);
-ZPL_DEF void    zpl_mat3_mul(zpl_mat3 *out, zpl_mat3 *m1, zpl_mat3 *m2);
-ZPL_DEF void    zpl_mat3_mul_vec3(zpl_vec3 *out, zpl_mat3 *m, zpl_vec3 in);
-ZPL_DEF void    zpl_mat3_inverse(zpl_mat3 *out, zpl_mat3 *in);
-ZPL_DEF zpl_f32 zpl_mat3_determinate(zpl_mat3 *m);
-
-ZPL_DEF zpl_mat3   *zpl_mat3_v(zpl_vec3 m[3]);
-ZPL_DEF zpl_mat3   *zpl_mat3_f(zpl_f32 m[3][3]);
-
-ZPL_DEF zpl_float3 *zpl_float33_m(zpl_mat3 *m);
-ZPL_DEF zpl_float3 *zpl_float33_v(zpl_vec3 m[3]);
-ZPL_DEF zpl_float3 *zpl_float33_9(zpl_f32 m[9]);
-
-ZPL_DEF void zpl_float33_transpose(zpl_f32 (*vec)[3]);
-ZPL_DEF void zpl_float33_mul(zpl_f32 (*out)[3], zpl_f32 (*mat1)[3], zpl_f32 (*mat2)[3]);
-ZPL_DEF void zpl_float33_mul_vec3(zpl_vec3 *out, zpl_f32 m[3][3], zpl_vec3 in);
-
-ZPL_DEF void zpl_mat4_identity(zpl_mat4 *m);
-ZPL_DEF void zpl_float44_identity(zpl_f32 m[4][4]);
-ZPL_DEF void zpl_mat4_copy(zpl_mat4* out, zpl_mat4* m);
-
-ZPL_DEF void zpl_mat4_transpose(zpl_mat4 *m);
-ZPL_DEF void zpl_mat4_mul(zpl_mat4 *out, zpl_mat4 *m1, zpl_mat4 *m2);
-ZPL_DEF void zpl_mat4_mul_vec4(zpl_vec4 *out, zpl_mat4 *m, zpl_vec4 in);
-ZPL_DEF void zpl_mat4_inverse(zpl_mat4 *out, zpl_mat4 *in);
-
-ZPL_DEF zpl_mat4 *zpl_mat4_v(zpl_vec4 m[4]);
-ZPL_DEF zpl_mat4 *zpl_mat4_f(zpl_f32 m[4][4]);
-
-ZPL_DEF zpl_float4 *zpl_float44_m(zpl_mat4 *m);
-ZPL_DEF zpl_float4 *zpl_float44_v(zpl_vec4 m[4]);
-ZPL_DEF zpl_float4 *zpl_float44_16(zpl_f32 m[16]);
-
-ZPL_DEF void zpl_float44_transpose(zpl_f32 (*vec)[4]);
-ZPL_DEF void zpl_float44_mul(zpl_f32 (*out)[4], zpl_f32 (*mat1)[4], zpl_f32 (*mat2)[4]);
-ZPL_DEF void zpl_float44_mul_vec4(zpl_vec4 *out, zpl_f32 m[4][4], zpl_vec4 in);
-
-ZPL_DEF void zpl_mat4_axis_angle(zpl_mat4* out, zpl_vec3 v, zpl_f32 angle_radians);
-ZPL_DEF void zpl_mat4_to_translate(zpl_mat4* out, zpl_vec3 v);
-ZPL_DEF void zpl_mat4_to_rotate(zpl_mat4* out, zpl_vec3 v, zpl_f32 angle_radians);
-ZPL_DEF void zpl_mat4_to_scale(zpl_mat4* out, zpl_vec3 v);
-ZPL_DEF void zpl_mat4_to_scalef(zpl_mat4* out, zpl_f32 s);
-ZPL_DEF void zpl_mat4_translate(zpl_mat4* out, zpl_vec3 v);
-ZPL_DEF void zpl_mat4_rotate(zpl_mat4* out, zpl_vec3 v, zpl_f32 angle_radians);
-ZPL_DEF void zpl_mat4_scale(zpl_mat4* out, zpl_vec3 v);
-ZPL_DEF void zpl_mat4_scalef(zpl_mat4 *out, zpl_f32 s);
-ZPL_DEF void zpl_mat4_ortho2d(zpl_mat4 *out, zpl_f32 left, zpl_f32 right, zpl_f32 bottom, zpl_f32 top);
-ZPL_DEF void zpl_mat4_ortho3d(zpl_mat4 *out, zpl_f32 left, zpl_f32 right, zpl_f32 bottom, zpl_f32 top, zpl_f32 z_near, zpl_f32 z_far);
-ZPL_DEF void zpl_mat4_perspective(zpl_mat4 *out, zpl_f32 fovy, zpl_f32 aspect, zpl_f32 z_near, zpl_f32 z_far);
-ZPL_DEF void zpl_mat4_infinite_perspective(zpl_mat4 *out, zpl_f32 fovy, zpl_f32 aspect, zpl_f32 z_near);
-
-ZPL_DEF void zpl_mat4_ortho2d_dx(zpl_mat4 *out, zpl_f32 left, zpl_f32 right, zpl_f32 bottom, zpl_f32 top);
-ZPL_DEF void zpl_mat4_ortho3d_dx(zpl_mat4 *out, zpl_f32 left, zpl_f32 right, zpl_f32 bottom, zpl_f32 top, zpl_f32 z_near, zpl_f32 z_far);
-ZPL_DEF void zpl_mat4_perspective_dx(zpl_mat4 *out, zpl_f32 fovy, zpl_f32 aspect, zpl_f32 z_near, zpl_f32 z_far);
-ZPL_DEF void zpl_mat4_infinite_perspective_dx(zpl_mat4 *out, zpl_f32 fovy, zpl_f32 aspect, zpl_f32 z_near);
-
-ZPL_DEF void zpl_mat4_look_at(zpl_mat4 *out, zpl_vec3 eye, zpl_vec3 centre, zpl_vec3 up);
-
-ZPL_DEF void zpl_mat4_look_at_lh(zpl_mat4 *out, zpl_vec3 eye, zpl_vec3 centre, zpl_vec3 up);
-
-ZPL_DEF zpl_quat zpl_quatf(zpl_f32 x, zpl_f32 y, zpl_f32 z, zpl_f32 w);
-ZPL_DEF zpl_quat zpl_quatfv(zpl_f32 e[4]);
-ZPL_DEF zpl_quat zpl_quat_axis_angle(zpl_vec3 axis, zpl_f32 angle_radians);
-ZPL_DEF zpl_quat zpl_quat_euler_angles(zpl_f32 pitch, zpl_f32 yaw, zpl_f32 roll);
-ZPL_DEF zpl_quat zpl_quat_identity(void);
-
-ZPL_DEF void zpl_quat_add(zpl_quat *d, zpl_quat q0, zpl_quat q1);
-ZPL_DEF void zpl_quat_sub(zpl_quat *d, zpl_quat q0, zpl_quat q1);
-ZPL_DEF void zpl_quat_mul(zpl_quat *d, zpl_quat q0, zpl_quat q1);
-ZPL_DEF void zpl_quat_div(zpl_quat *d, zpl_quat q0, zpl_quat q1);
-
-ZPL_DEF void zpl_quat_mulf(zpl_quat *d, zpl_quat q, zpl_f32 s);
-ZPL_DEF void zpl_quat_divf(zpl_quat *d, zpl_quat q, zpl_f32 s);
-
-ZPL_DEF void zpl_quat_addeq(zpl_quat *d, zpl_quat q);
-ZPL_DEF void zpl_quat_subeq(zpl_quat *d, zpl_quat q);
-ZPL_DEF void zpl_quat_muleq(zpl_quat *d, zpl_quat q);
-ZPL_DEF void zpl_quat_diveq(zpl_quat *d, zpl_quat q);
-
-ZPL_DEF void zpl_quat_muleqf(zpl_quat *d, zpl_f32 s);
-ZPL_DEF void zpl_quat_diveqf(zpl_quat *d, zpl_f32 s);
-
-ZPL_DEF zpl_f32 zpl_quat_dot(zpl_quat q0, zpl_quat q1);
-ZPL_DEF zpl_f32 zpl_quat_mag(zpl_quat q);
-
-ZPL_DEF void zpl_quat_norm(zpl_quat *d, zpl_quat q);
-ZPL_DEF void zpl_quat_conj(zpl_quat *d, zpl_quat q);
-ZPL_DEF void zpl_quat_inverse(zpl_quat *d, zpl_quat q);
-
-ZPL_DEF void    zpl_quat_axis(zpl_vec3 *axis, zpl_quat q);
-ZPL_DEF zpl_f32 zpl_quat_angle(zpl_quat q);
-
-ZPL_DEF zpl_f32 zpl_quat_pitch(zpl_quat q);
-ZPL_DEF zpl_f32 zpl_quat_yaw(zpl_quat q);
-ZPL_DEF zpl_f32 zpl_quat_roll(zpl_quat q);
-
-/* NOTE: Rotate v by q */
-ZPL_DEF void zpl_quat_rotate_vec3(zpl_vec3 *d, zpl_quat q, zpl_vec3 v);
-ZPL_DEF void zpl_mat4_from_quat(zpl_mat4 *out, zpl_quat q);
-ZPL_DEF void zpl_quat_from_mat4(zpl_quat *out, zpl_mat4 *m);
-
-/* Plane math. */
-ZPL_DEF zpl_f32 zpl_plane_distance(zpl_plane* p, zpl_vec3 v);
-
-/* Frustum culling. */
-ZPL_DEF void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj);
-ZPL_DEF zpl_b8 zpl_frustum_sphere_inside(zpl_frustum* frustum, zpl_vec3 center, zpl_f32 radius);
-ZPL_DEF zpl_b8 zpl_frustum_point_inside(zpl_frustum* frustum, zpl_vec3 point);
-ZPL_DEF zpl_b8 zpl_frustum_box_inside(zpl_frustum* frustum, zpl_aabb3 box);
-
-/* Interpolations */
-ZPL_DEF zpl_f32 zpl_lerp(zpl_f32 a, zpl_f32 b, zpl_f32 t);
-ZPL_DEF zpl_f32 zpl_unlerp(zpl_f32 t, zpl_f32 a, zpl_f32 b);
-ZPL_DEF zpl_f32 zpl_smooth_step(zpl_f32 a, zpl_f32 b, zpl_f32 t);
-ZPL_DEF zpl_f32 zpl_smoother_step(zpl_f32 a, zpl_f32 b, zpl_f32 t);
-
-ZPL_DEF void zpl_vec2_lerp(zpl_vec2 *d, zpl_vec2 a, zpl_vec2 b, zpl_f32 t);
-ZPL_DEF void zpl_vec3_lerp(zpl_vec3 *d, zpl_vec3 a, zpl_vec3 b, zpl_f32 t);
-ZPL_DEF void zpl_vec4_lerp(zpl_vec4 *d, zpl_vec4 a, zpl_vec4 b, zpl_f32 t);
-
-ZPL_DEF void zpl_vec2_cslerp(zpl_vec2 *d, zpl_vec2 a, zpl_vec2 v0, zpl_vec2 b, zpl_vec2 v1, zpl_f32 t);
-ZPL_DEF void zpl_vec3_cslerp(zpl_vec3 *d, zpl_vec3 a, zpl_vec3 v0, zpl_vec3 b, zpl_vec3 v1, zpl_f32 t);
-ZPL_DEF void zpl_vec2_dcslerp(zpl_vec2 *d, zpl_vec2 a, zpl_vec2 v0, zpl_vec2 b, zpl_vec2 v1, zpl_f32 t);
-ZPL_DEF void zpl_vec3_dcslerp(zpl_vec3 *d, zpl_vec3 a, zpl_vec3 v0, zpl_vec3 b, zpl_vec3 v1, zpl_f32 t);
-
-ZPL_DEF void zpl_quat_lerp(zpl_quat *d, zpl_quat a, zpl_quat b, zpl_f32 t);
-ZPL_DEF void zpl_quat_nlerp(zpl_quat *d, zpl_quat a, zpl_quat b, zpl_f32 t);
-ZPL_DEF void zpl_quat_slerp(zpl_quat *d, zpl_quat a, zpl_quat b, zpl_f32 t);
-ZPL_DEF void zpl_quat_nquad(zpl_quat *d, zpl_quat p, zpl_quat a, zpl_quat b, zpl_quat q, zpl_f32 t);
-ZPL_DEF void zpl_quat_squad(zpl_quat *d, zpl_quat p, zpl_quat a, zpl_quat b, zpl_quat q, zpl_f32 t);
-ZPL_DEF void zpl_quat_slerp_approx(zpl_quat *d, zpl_quat a, zpl_quat b, zpl_f32 t);
-ZPL_DEF void zpl_quat_squad_approx(zpl_quat *d, zpl_quat p, zpl_quat a, zpl_quat b, zpl_quat q, zpl_f32 t);
-
-/* rects */
-ZPL_DEF zpl_rect2 zpl_rect2f(zpl_vec2 pos, zpl_vec2 dim);
-ZPL_DEF zpl_rect3 zpl_rect3f(zpl_vec3 pos, zpl_vec3 dim);
-
-ZPL_DEF zpl_aabb2 zpl_aabb2f(zpl_f32 minx, zpl_f32 miny, zpl_f32 maxx, zpl_f32 maxy);
-ZPL_DEF zpl_aabb3 zpl_aabb3f(zpl_f32 minx, zpl_f32 miny, zpl_f32 minz, zpl_f32 maxx, zpl_f32 maxy, zpl_f32 maxz);
-
-ZPL_DEF zpl_aabb2 zpl_aabb2_rect2(zpl_rect2 a);
-ZPL_DEF zpl_aabb3 zpl_aabb3_rect3(zpl_rect3 a);
-ZPL_DEF zpl_rect2 zpl_rect2_aabb2(zpl_aabb2 a);
-ZPL_DEF zpl_rect3 zpl_rect3_aabb3(zpl_aabb3 a);
-
-ZPL_DEF int zpl_rect2_contains(zpl_rect2 a, zpl_f32 x, zpl_f32 y);
-ZPL_DEF int zpl_rect2_contains_vec2(zpl_rect2 a, zpl_vec2 p);
-ZPL_DEF int zpl_rect2_intersects(zpl_rect2 a, zpl_rect2 b);
-ZPL_DEF int zpl_rect2_intersection_result(zpl_rect2 a, zpl_rect2 b, zpl_rect2 *intersection);
-ZPL_DEF int zpl_aabb2_contains(zpl_aabb2 a, zpl_f32 x, zpl_f32 y);
-ZPL_DEF int zpl_aabb3_contains(zpl_aabb3 a, zpl_f32 x, zpl_f32 y, zpl_f32 z);
-
-/* rectangle partitioning: based on https://halt.software/dead-simple-layouts/ */
-ZPL_DEF zpl_aabb2 zpl_aabb2_cut_left(zpl_aabb2 *a, zpl_f32 b);
-ZPL_DEF zpl_aabb2 zpl_aabb2_cut_right(zpl_aabb2 *a, zpl_f32 b);
-ZPL_DEF zpl_aabb2 zpl_aabb2_cut_top(zpl_aabb2 *a, zpl_f32 b);
-ZPL_DEF zpl_aabb2 zpl_aabb2_cut_bottom(zpl_aabb2 *a, zpl_f32 b);
-
-ZPL_DEF zpl_aabb2 zpl_aabb2_get_left(const zpl_aabb2 *a, zpl_f32 b);
-ZPL_DEF zpl_aabb2 zpl_aabb2_get_right(const zpl_aabb2 *a, zpl_f32 b);
-ZPL_DEF zpl_aabb2 zpl_aabb2_get_top(const zpl_aabb2 *a, zpl_f32 b);
-ZPL_DEF zpl_aabb2 zpl_aabb2_get_bottom(const zpl_aabb2 *a, zpl_f32 b);
-
-ZPL_DEF zpl_aabb2 zpl_aabb2_add_left(const zpl_aabb2 *a, zpl_f32 b);
-ZPL_DEF zpl_aabb2 zpl_aabb2_add_right(const zpl_aabb2 *a, zpl_f32 b);
-ZPL_DEF zpl_aabb2 zpl_aabb2_add_top(const zpl_aabb2 *a, zpl_f32 b);
-ZPL_DEF zpl_aabb2 zpl_aabb2_add_bottom(const zpl_aabb2 *a, zpl_f32 b);
-
-ZPL_DEF zpl_aabb2 zpl_aabb2_contract(const zpl_aabb2 *a, zpl_f32 b);
-ZPL_DEF zpl_aabb2 zpl_aabb2_expand(const zpl_aabb2 *a, zpl_f32 b);
-
-//! @}
-ZPL_END_C_DECLS
-#if defined(__cplusplus)
-ZPL_INLINE bool operator==(zpl_vec2 a, zpl_vec2 b) { return (a.x == b.x) && (a.y == b.y); }
-ZPL_INLINE bool operator!=(zpl_vec2 a, zpl_vec2 b) { return !operator==(a, b); }
-
-ZPL_INLINE zpl_vec2 operator+(zpl_vec2 a) { return a; }
-ZPL_INLINE zpl_vec2 operator-(zpl_vec2 a) { zpl_vec2 r = {-a.x, -a.y}; return r; }
-
-ZPL_INLINE zpl_vec2 operator+(zpl_vec2 a, zpl_vec2 b) { zpl_vec2 r; zpl_vec2_add(&r, a, b); return r; }
-ZPL_INLINE zpl_vec2 operator-(zpl_vec2 a, zpl_vec2 b) { zpl_vec2 r; zpl_vec2_sub(&r, a, b); return r; }
-
-ZPL_INLINE zpl_vec2 operator*(zpl_vec2 a, float scalar) { zpl_vec2 r; zpl_vec2_mul(&r, a, scalar); return r; }
-ZPL_INLINE zpl_vec2 operator*(float scalar, zpl_vec2 a) { return operator*(a, scalar); }
-
-ZPL_INLINE zpl_vec2 operator/(zpl_vec2 a, float scalar) { return operator*(a, 1.0f/scalar); }
-
-/* Hadamard Product */
-ZPL_INLINE zpl_vec2 operator*(zpl_vec2 a, zpl_vec2 b) { zpl_vec2 r = {a.x*b.x, a.y*b.y}; return r; }
-ZPL_INLINE zpl_vec2 operator/(zpl_vec2 a, zpl_vec2 b) { zpl_vec2 r = {a.x/b.x, a.y/b.y}; return r; }
-
-ZPL_INLINE zpl_vec2 &operator+=(zpl_vec2 &a, zpl_vec2 b)       { return (a = a + b); }
-ZPL_INLINE zpl_vec2 &operator-=(zpl_vec2 &a, zpl_vec2 b)       { return (a = a - b); }
-ZPL_INLINE zpl_vec2 &operator*=(zpl_vec2 &a, float scalar) { return (a = a * scalar); }
-ZPL_INLINE zpl_vec2 &operator/=(zpl_vec2 &a, float scalar) { return (a = a / scalar); }
-
-
-ZPL_INLINE bool operator==(zpl_vec3 a, zpl_vec3 b) { return (a.x == b.x) && (a.y == b.y) && (a.z == b.z); }
-ZPL_INLINE bool operator!=(zpl_vec3 a, zpl_vec3 b) { return !operator==(a, b); }
-
-ZPL_INLINE zpl_vec3 operator+(zpl_vec3 a) { return a; }
-ZPL_INLINE zpl_vec3 operator-(zpl_vec3 a) { zpl_vec3 r = {-a.x, -a.y, -a.z}; return r; }
-
-ZPL_INLINE zpl_vec3 operator+(zpl_vec3 a, zpl_vec3 b) { zpl_vec3 r; zpl_vec3_add(&r, a, b); return r; }
-ZPL_INLINE zpl_vec3 operator-(zpl_vec3 a, zpl_vec3 b) { zpl_vec3 r; zpl_vec3_sub(&r, a, b); return r; }
-
-ZPL_INLINE zpl_vec3 operator*(zpl_vec3 a, float scalar) { zpl_vec3 r; zpl_vec3_mul(&r, a, scalar); return r; }
-ZPL_INLINE zpl_vec3 operator*(float scalar, zpl_vec3 a) { return operator*(a, scalar); }
-
-ZPL_INLINE zpl_vec3 operator/(zpl_vec3 a, float scalar) { return operator*(a, 1.0f/scalar); }
-
-/* Hadamard Product */
-ZPL_INLINE zpl_vec3 operator*(zpl_vec3 a, zpl_vec3 b) { zpl_vec3 r = {a.x*b.x, a.y*b.y, a.z*b.z}; return r; }
-ZPL_INLINE zpl_vec3 operator/(zpl_vec3 a, zpl_vec3 b) { zpl_vec3 r = {a.x/b.x, a.y/b.y, a.z/b.z}; return r; }
-
-ZPL_INLINE zpl_vec3 &operator+=(zpl_vec3 &a, zpl_vec3 b)       { return (a = a + b); }
-ZPL_INLINE zpl_vec3 &operator-=(zpl_vec3 &a, zpl_vec3 b)       { return (a = a - b); }
-ZPL_INLINE zpl_vec3 &operator*=(zpl_vec3 &a, float scalar) { return (a = a * scalar); }
-ZPL_INLINE zpl_vec3 &operator/=(zpl_vec3 &a, float scalar) { return (a = a / scalar); }
-
-
-ZPL_INLINE bool operator==(zpl_vec4 a, zpl_vec4 b) { return (a.x == b.x) && (a.y == b.y) && (a.z == b.z) && (a.w == b.w); }
-ZPL_INLINE bool operator!=(zpl_vec4 a, zpl_vec4 b) { return !operator==(a, b); }
-
-ZPL_INLINE zpl_vec4 operator+(zpl_vec4 a) { return a; }
-ZPL_INLINE zpl_vec4 operator-(zpl_vec4 a) { zpl_vec4 r = {-a.x, -a.y, -a.z, -a.w}; return r; }
-
-ZPL_INLINE zpl_vec4 operator+(zpl_vec4 a, zpl_vec4 b) { zpl_vec4 r; zpl_vec4_add(&r, a, b); return r; }
-ZPL_INLINE zpl_vec4 operator-(zpl_vec4 a, zpl_vec4 b) { zpl_vec4 r; zpl_vec4_sub(&r, a, b); return r; }
-
-ZPL_INLINE zpl_vec4 operator*(zpl_vec4 a, float scalar) { zpl_vec4 r; zpl_vec4_mul(&r, a, scalar); return r; }
-ZPL_INLINE zpl_vec4 operator*(float scalar, zpl_vec4 a) { return operator*(a, scalar); }
-
-ZPL_INLINE zpl_vec4 operator/(zpl_vec4 a, float scalar) { return operator*(a, 1.0f/scalar); }
-
-/* Hadamard Product */
-ZPL_INLINE zpl_vec4 operator*(zpl_vec4 a, zpl_vec4 b) { zpl_vec4 r = {a.x*b.x, a.y*b.y, a.z*b.z, a.w*b.w}; return r; }
-ZPL_INLINE zpl_vec4 operator/(zpl_vec4 a, zpl_vec4 b) { zpl_vec4 r = {a.x/b.x, a.y/b.y, a.z/b.z, a.w/b.w}; return r; }
-
-ZPL_INLINE zpl_vec4 &operator+=(zpl_vec4 &a, zpl_vec4 b)       { return (a = a + b); }
-ZPL_INLINE zpl_vec4 &operator-=(zpl_vec4 &a, zpl_vec4 b)       { return (a = a - b); }
-ZPL_INLINE zpl_vec4 &operator*=(zpl_vec4 &a, float scalar) { return (a = a * scalar); }
-ZPL_INLINE zpl_vec4 &operator/=(zpl_vec4 &a, float scalar) { return (a = a / scalar); }
-
-
-ZPL_INLINE zpl_mat2 operator+(zpl_mat2 const &a, zpl_mat2 const &b) {
-    int i, j;
-    zpl_mat2 r = {0};
-    for (j = 0; j < 2; j++) {
-        for (i = 0; i < 2; i++)
-            r.e[2*j+i] = a.e[2*j+i] + b.e[2*j+i];
-    }
-    return r;
-}
-
-ZPL_INLINE zpl_mat2 operator-(zpl_mat2 const &a, zpl_mat2 const &b) {
-    int i, j;
-    zpl_mat2 r = {0};
-    for (j = 0; j < 2; j++) {
-        for (i = 0; i < 2; i++)
-            r.e[2*j+i] = a.e[2*j+i] - b.e[2*j+i];
-    }
-    return r;
-}
-
-ZPL_INLINE zpl_mat2 operator*(zpl_mat2 const &a, zpl_mat2 const &b) { zpl_mat2 r; zpl_mat2_mul(&r, (zpl_mat2 *)&a, (zpl_mat2 *)&b); return r; }
-ZPL_INLINE zpl_vec2 operator*(zpl_mat2 const &a, zpl_vec2 v) { zpl_vec2 r; zpl_mat2_mul_vec2(&r, (zpl_mat2 *)&a, v); return r; }
-ZPL_INLINE zpl_mat2 operator*(zpl_mat2 const &a, float scalar) {
-    zpl_mat2 r = {0};
-    int i;
-    for (i = 0; i < 2*2; i++) r.e[i] = a.e[i] * scalar;
-    return r;
-}
-ZPL_INLINE zpl_mat2 operator*(float scalar, zpl_mat2 const &a) { return operator*(a, scalar); }
-ZPL_INLINE zpl_mat2 operator/(zpl_mat2 const &a, float scalar) { return operator*(a, 1.0f/scalar); }
-
-ZPL_INLINE zpl_mat2& operator+=(zpl_mat2& a, zpl_mat2 const &b) { return (a = a + b); }
-ZPL_INLINE zpl_mat2& operator-=(zpl_mat2& a, zpl_mat2 const &b) { return (a = a - b); }
-ZPL_INLINE zpl_mat2& operator*=(zpl_mat2& a, zpl_mat2 const &b) { return (a = a * b); }
-
-
-
-ZPL_INLINE zpl_mat3 operator+(zpl_mat3 const &a, zpl_mat3 const &b) {
-    int i, j;
-    zpl_mat3 r = {0};
-    for (j = 0; j < 3; j++) {
-        for (i = 0; i < 3; i++)
-            r.e[3*j+i] = a.e[3*j+i] + b.e[3*j+i];
-    }
-    return r;
-}
-
-ZPL_INLINE zpl_mat3 operator-(zpl_mat3 const &a, zpl_mat3 const &b) {
-    int i, j;
-    zpl_mat3 r = {0};
-    for (j = 0; j < 3; j++) {
-        for (i = 0; i < 3; i++)
-            r.e[3*j+i] = a.e[3*j+i] - b.e[3*j+i];
-    }
-    return r;
-}
-
-ZPL_INLINE zpl_mat3 operator*(zpl_mat3 const &a, zpl_mat3 const &b) { zpl_mat3 r; zpl_mat3_mul(&r, (zpl_mat3 *)&a, (zpl_mat3 *)&b); return r; }
-ZPL_INLINE zpl_vec3 operator*(zpl_mat3 const &a, zpl_vec3 v) { zpl_vec3 r; zpl_mat3_mul_vec3(&r, (zpl_mat3 *)&a, v); return r; }
-ZPL_INLINE zpl_mat3 operator*(zpl_mat3 const &a, float scalar) {
-    zpl_mat3 r = {0};
-    int i;
-    for (i = 0; i < 3*3; i++) r.e[i] = a.e[i] * scalar;
-    return r;
-}
-ZPL_INLINE zpl_mat3 operator*(float scalar, zpl_mat3 const &a) { return operator*(a, scalar); }
-ZPL_INLINE zpl_mat3 operator/(zpl_mat3 const &a, float scalar) { return operator*(a, 1.0f/scalar); }
-
-ZPL_INLINE zpl_mat3& operator+=(zpl_mat3& a, zpl_mat3 const &b) { return (a = a + b); }
-ZPL_INLINE zpl_mat3& operator-=(zpl_mat3& a, zpl_mat3 const &b) { return (a = a - b); }
-ZPL_INLINE zpl_mat3& operator*=(zpl_mat3& a, zpl_mat3 const &b) { return (a = a * b); }
-
-
-
-ZPL_INLINE zpl_mat4 operator+(zpl_mat4 const &a, zpl_mat4 const &b) {
-    int i, j;
-    zpl_mat4 r = {0};
-    for (j = 0; j < 4; j++) {
-        for (i = 0; i < 4; i++)
-            r.e[4*j+i] = a.e[4*j+i] + b.e[4*j+i];
-    }
-    return r;
-}
-
-ZPL_INLINE zpl_mat4 operator-(zpl_mat4 const &a, zpl_mat4 const &b) {
-    int i, j;
-    zpl_mat4 r = {0};
-    for (j = 0; j < 4; j++) {
-        for (i = 0; i < 4; i++)
-            r.e[4*j+i] = a.e[4*j+i] - b.e[4*j+i];
-    }
-    return r;
-}
-
-ZPL_INLINE zpl_mat4 operator*(zpl_mat4 const &a, zpl_mat4 const &b) { zpl_mat4 r; zpl_mat4_mul(&r, (zpl_mat4 *)&a, (zpl_mat4 *)&b); return r; }
-ZPL_INLINE zpl_vec4 operator*(zpl_mat4 const &a, zpl_vec4 v) { zpl_vec4 r; zpl_mat4_mul_vec4(&r, (zpl_mat4 *)&a, v); return r; }
-ZPL_INLINE zpl_mat4 operator*(zpl_mat4 const &a, float scalar) {
-    zpl_mat4 r = {0};
-    int i;
-    for (i = 0; i < 4*4; i++) r.e[i] = a.e[i] * scalar;
-    return r;
-}
-ZPL_INLINE zpl_mat4 operator*(float scalar, zpl_mat4 const &a) { return operator*(a, scalar); }
-ZPL_INLINE zpl_mat4 operator/(zpl_mat4 const &a, float scalar) { return operator*(a, 1.0f/scalar); }
-
-ZPL_INLINE zpl_mat4& operator+=(zpl_mat4 &a, zpl_mat4 const &b) { return (a = a + b); }
-ZPL_INLINE zpl_mat4& operator-=(zpl_mat4 &a, zpl_mat4 const &b) { return (a = a - b); }
-ZPL_INLINE zpl_mat4& operator*=(zpl_mat4 &a, zpl_mat4 const &b) { return (a = a * b); }
-
-
-
-ZPL_INLINE bool operator==(zpl_quat a, zpl_quat b) { return a.xyzw == b.xyzw; }
-ZPL_INLINE bool operator!=(zpl_quat a, zpl_quat b) { return !operator==(a, b); }
-
-ZPL_INLINE zpl_quat operator+(zpl_quat q) { return q; }
-ZPL_INLINE zpl_quat operator-(zpl_quat q) { return zpl_quatf(-q.x, -q.y, -q.z, -q.w); }
-
-ZPL_INLINE zpl_quat operator+(zpl_quat a, zpl_quat b) { zpl_quat r; zpl_quat_add(&r, a, b); return r; }
-ZPL_INLINE zpl_quat operator-(zpl_quat a, zpl_quat b) { zpl_quat r; zpl_quat_sub(&r, a, b); return r; }
-
-ZPL_INLINE zpl_quat operator*(zpl_quat a, zpl_quat b)  { zpl_quat r; zpl_quat_mul(&r, a, b); return r; }
-ZPL_INLINE zpl_quat operator*(zpl_quat q, float s) { zpl_quat r; zpl_quat_mulf(&r, q, s); return r; }
-ZPL_INLINE zpl_quat operator*(float s, zpl_quat q) { return operator*(q, s); }
-ZPL_INLINE zpl_quat operator/(zpl_quat q, float s) { zpl_quat r; zpl_quat_divf(&r, q, s); return r; }
-
-ZPL_INLINE zpl_quat &operator+=(zpl_quat &a, zpl_quat b) { zpl_quat_addeq(&a, b); return a; }
-ZPL_INLINE zpl_quat &operator-=(zpl_quat &a, zpl_quat b) { zpl_quat_subeq(&a, b); return a; }
-ZPL_INLINE zpl_quat &operator*=(zpl_quat &a, zpl_quat b) { zpl_quat_muleq(&a, b); return a; }
-ZPL_INLINE zpl_quat &operator/=(zpl_quat &a, zpl_quat b) { zpl_quat_diveq(&a, b); return a; }
-
-ZPL_INLINE zpl_quat &operator*=(zpl_quat &a, float b) { zpl_quat_muleqf(&a, b); return a; }
-ZPL_INLINE zpl_quat &operator/=(zpl_quat &a, float b) { zpl_quat_diveqf(&a, b); return a; }
-
-/* Rotate v by a */
-ZPL_INLINE zpl_vec3 operator*(zpl_quat q, zpl_vec3 v) { zpl_vec3 r; zpl_quat_rotate_vec3(&r, q, v); return r; }
-#endif
-
+// file: header/math.h
+
+/** @file math.c
+@brief Math operations
+@defgroup math Math operations
+
+OpenGL gamedev friendly library for math.
+
+@{
+*/
+
+ZPL_BEGIN_C_DECLS
+
+typedef union zpl_vec2 {
+    struct {
+        zpl_f32 x, y;
+    };
+    struct {
+        zpl_f32 s, t;
+    };
+    zpl_f32 e[2];
+} zpl_vec2;
+
+typedef union zpl_vec3 {
+    struct {
+        zpl_f32 x, y, z;
+    };
+    struct {
+        zpl_f32 r, g, b;
+    };
+    struct {
+        zpl_f32 s, t, p;
+    };
+    
+    zpl_vec2 xy;
+    zpl_vec2 st;
+    zpl_f32 e[3];
+} zpl_vec3;
+
+typedef union zpl_vec4 {
+    struct {
+        zpl_f32 x, y, z, w;
+    };
+    struct {
+        zpl_f32 r, g, b, a;
+    };
+    struct {
+        zpl_f32 s, t, p, q;
+    };
+    struct {
+        zpl_vec2 xy, zw;
+    };
+    struct {
+        zpl_vec2 st, pq;
+    };
+    zpl_vec3 xyz;
+    zpl_vec3 rgb;
+    zpl_f32 e[4];
+} zpl_vec4;
+
+typedef union zpl_mat2 {
+    struct {
+        zpl_vec2 x, y;
+    };
+    zpl_vec2 col[2];
+    zpl_f32 e[4];
+} zpl_mat2;
+
+typedef union zpl_mat3 {
+    struct {
+        zpl_vec3 x, y, z;
+    };
+    zpl_vec3 col[3];
+    zpl_f32 e[9];
+} zpl_mat3;
+
+typedef union zpl_mat4 {
+    struct {
+        zpl_vec4 x, y, z, w;
+    };
+    zpl_vec4 col[4];
+    zpl_f32 e[16];
+} zpl_mat4;
+
+typedef union zpl_quat {
+    struct {
+        zpl_f32 x, y, z, w;
+    };
+    zpl_vec4 xyzw;
+    zpl_vec3 xyz;
+    zpl_f32 e[4];
+} zpl_quat;
+
+typedef union zpl_plane {
+    struct {
+        zpl_f32 a, b, c, d;
+    };
+    zpl_vec4 xyzw;
+    zpl_vec3 n;
+    zpl_f32 e[4];
+} zpl_plane;
+
+typedef struct zpl_frustum {
+    zpl_plane x1;
+    zpl_plane x2;
+    zpl_plane y1;
+    zpl_plane y2;
+    zpl_plane z1;
+    zpl_plane z2;
+} zpl_frustum;
+
+typedef zpl_f32 zpl_float2[2];
+typedef zpl_f32 zpl_float3[3];
+typedef zpl_f32 zpl_float4[4];
+
+typedef struct zpl_rect2 {
+    zpl_vec2 pos, dim;
+} zpl_rect2;
+typedef struct zpl_rect3 {
+    zpl_vec3 pos, dim;
+} zpl_rect3;
+
+typedef struct zpl_aabb2 {
+    zpl_vec2 min, max;
+} zpl_aabb2;
+typedef struct zpl_aabb3 {
+    zpl_vec3 min, max;
+} zpl_aabb3;
+
+typedef short zpl_half;
+
+#ifndef ZPL_CONSTANTS
+#define ZPL_CONSTANTS
+#define ZPL_EPSILON    1.19209290e-7f
+#define ZPL_ZERO       0.0f
+#define ZPL_ONE        1.0f
+#define ZPL_TWO_THIRDS 0.666666666666666666666666666666666666667f
+
+#define ZPL_TAU          6.28318530717958647692528676655900576f
+#define ZPL_PI           3.14159265358979323846264338327950288f
+#define ZPL_ONE_OVER_TAU 0.159154943091895335768883763372514362f
+#define ZPL_ONE_OVER_PI  0.318309886183790671537767526745028724f
+
+#define ZPL_TAU_OVER_2 3.14159265358979323846264338327950288f
+#define ZPL_TAU_OVER_4 1.570796326794896619231321691639751442f
+#define ZPL_TAU_OVER_8 0.785398163397448309615660845819875721f
+
+#define ZPL_E          2.71828182845904523536f
+#define ZPL_SQRT_TWO   1.41421356237309504880168872420969808f
+#define ZPL_SQRT_THREE 1.73205080756887729352744634150587236f
+#define ZPL_SQRT_FIVE  2.23606797749978969640917366873127623f
+
+#define ZPL_LOG_TWO 0.693147180559945309417232121458176568f
+#define ZPL_LOG_TEN 2.30258509299404568401799145468436421f
+#endif // ZPL_CONSTANTS
+
+#ifndef zpl_square
+#define zpl_square(x) ((x) * (x))
+#endif
+
+#ifndef zpl_cube
+#define zpl_cube(x) ((x) * (x) * (x))
+#endif
+
+#ifndef zpl_sign
+#define zpl_sign(x) ((x) >= 0.0f ? 1.0f : -1.0f)
+#endif
+
+#ifndef zpl_sign0
+#define zpl_sign0(x) ((x == 0.0f) ? 0.0f : ((x) >= 0.0f ? 1.0f : -1.0f))
+#endif
+
+ZPL_DEF zpl_f32 zpl_to_radians(zpl_f32 degrees);
+ZPL_DEF zpl_f32 zpl_to_degrees(zpl_f32 radians);
+
+/* NOTE: Because to interpolate angles */
+ZPL_DEF zpl_f32 zpl_angle_diff(zpl_f32 radians_a, zpl_f32 radians_b);
+
+ZPL_DEF zpl_f32 zpl_copy_sign(zpl_f32 x, zpl_f32 y);
+ZPL_DEF zpl_f32 zpl_remainder(zpl_f32 x, zpl_f32 y);
+ZPL_DEF zpl_f32 zpl_mod(zpl_f32 x, zpl_f32 y);
+ZPL_DEF zpl_f64 zpl_copy_sign64(zpl_f64 x, zpl_f64 y);
+ZPL_DEF zpl_f64 zpl_floor64(zpl_f64 x);
+ZPL_DEF zpl_f64 zpl_ceil64(zpl_f64 x);
+ZPL_DEF zpl_f64 zpl_round64(zpl_f64 x);
+ZPL_DEF zpl_f64 zpl_remainder64(zpl_f64 x, zpl_f64 y);
+ZPL_DEF zpl_f64 zpl_abs64(zpl_f64 x);
+ZPL_DEF zpl_f64 zpl_sign64(zpl_f64 x);
+ZPL_DEF zpl_f64 zpl_mod64(zpl_f64 x, zpl_f64 y);
+ZPL_DEF zpl_f32 zpl_sqrt(zpl_f32 a);
+ZPL_DEF zpl_f32 zpl_rsqrt(zpl_f32 a);
+ZPL_DEF zpl_f32 zpl_quake_rsqrt(zpl_f32 a); /* NOTE: It's probably better to use 1.0f/zpl_sqrt(a)
+                                     * And for simd, there is usually isqrt functions too!
+                                     */
+ZPL_DEF zpl_f32 zpl_hypot(zpl_f32 x, zpl_f32 y);
+ZPL_DEF zpl_f32 zpl_sin(zpl_f32 radians);
+ZPL_DEF zpl_f32 zpl_cos(zpl_f32 radians);
+ZPL_DEF zpl_f32 zpl_tan(zpl_f32 radians);
+ZPL_DEF zpl_f32 zpl_arcsin(zpl_f32 a);
+ZPL_DEF zpl_f32 zpl_arccos(zpl_f32 a);
+ZPL_DEF zpl_f32 zpl_arctan(zpl_f32 a);
+ZPL_DEF zpl_f32 zpl_arctan2(zpl_f32 y, zpl_f32 x);
+
+ZPL_DEF zpl_f32 zpl_exp(zpl_f32 x);
+ZPL_DEF zpl_f32 zpl_exp2(zpl_f32 x);
+ZPL_DEF zpl_f32 zpl_log(zpl_f32 x);
+ZPL_DEF zpl_f32 zpl_log2(zpl_f32 x);
+ZPL_DEF zpl_f32 zpl_fast_exp(zpl_f32 x);   /* NOTE: Only valid from -1 <= x <= +1 */
+ZPL_DEF zpl_f32 zpl_fast_exp2(zpl_f32 x);  /* NOTE: Only valid from -1 <= x <= +1 */
+ZPL_DEF zpl_f32 zpl_pow(zpl_f32 x, zpl_f32 y); /* x^y */
+
+ZPL_DEF zpl_f32 zpl_round(zpl_f32 x);
+ZPL_DEF zpl_f32 zpl_floor(zpl_f32 x);
+ZPL_DEF zpl_f32 zpl_ceil(zpl_f32 x);
+
+ZPL_DEF zpl_f32  zpl_half_to_float(zpl_half value);
+ZPL_DEF zpl_half zpl_float_to_half(zpl_f32 value);
+
+ZPL_DEF zpl_vec2 zpl_vec2f_zero(void);
+ZPL_DEF zpl_vec2 zpl_vec2f(zpl_f32 x, zpl_f32 y);
+ZPL_DEF zpl_vec2 zpl_vec2fv(zpl_f32 x[2]);
+
+ZPL_DEF zpl_vec3 zpl_vec3f_zero(void);
+ZPL_DEF zpl_vec3 zpl_vec3f(zpl_f32 x, zpl_f32 y, zpl_f32 z);
+ZPL_DEF zpl_vec3 zpl_vec3fv(zpl_f32 x[3]);
+
+ZPL_DEF zpl_vec4 zpl_vec4f_zero(void);
+ZPL_DEF zpl_vec4 zpl_vec4f(zpl_f32 x, zpl_f32 y, zpl_f32 z, zpl_f32 w);
+ZPL_DEF zpl_vec4 zpl_vec4fv(zpl_f32 x[4]);
+
+ZPL_DEF zpl_f32 zpl_vec2_max(zpl_vec2 v);
+ZPL_DEF zpl_f32 zpl_vec2_side(zpl_vec2 p, zpl_vec2 q, zpl_vec2 r);
+ZPL_DEF void zpl_vec2_add(zpl_vec2 *d, zpl_vec2 v0, zpl_vec2 v1);
+ZPL_DEF void zpl_vec2_sub(zpl_vec2 *d, zpl_vec2 v0, zpl_vec2 v1);
+ZPL_DEF void zpl_vec2_mul(zpl_vec2 *d, zpl_vec2 v, zpl_f32 s);
+ZPL_DEF void zpl_vec2_div(zpl_vec2 *d, zpl_vec2 v, zpl_f32 s);
+
+ZPL_DEF zpl_f32 zpl_vec3_max(zpl_vec3 v);
+ZPL_DEF void zpl_vec3_add(zpl_vec3 *d, zpl_vec3 v0, zpl_vec3 v1);
+ZPL_DEF void zpl_vec3_sub(zpl_vec3 *d, zpl_vec3 v0, zpl_vec3 v1);
+ZPL_DEF void zpl_vec3_mul(zpl_vec3 *d, zpl_vec3 v, zpl_f32 s);
+ZPL_DEF void zpl_vec3_div(zpl_vec3 *d, zpl_vec3 v, zpl_f32 s);
+
+ZPL_DEF void zpl_vec4_add(zpl_vec4 *d, zpl_vec4 v0, zpl_vec4 v1);
+ZPL_DEF void zpl_vec4_sub(zpl_vec4 *d, zpl_vec4 v0, zpl_vec4 v1);
+ZPL_DEF void zpl_vec4_mul(zpl_vec4 *d, zpl_vec4 v, zpl_f32 s);
+ZPL_DEF void zpl_vec4_div(zpl_vec4 *d, zpl_vec4 v, zpl_f32 s);
+
+ZPL_DEF void zpl_vec2_addeq(zpl_vec2 *d, zpl_vec2 v);
+ZPL_DEF void zpl_vec2_subeq(zpl_vec2 *d, zpl_vec2 v);
+ZPL_DEF void zpl_vec2_muleq(zpl_vec2 *d, zpl_f32 s);
+ZPL_DEF void zpl_vec2_diveq(zpl_vec2 *d, zpl_f32 s);
+
+ZPL_DEF void zpl_vec3_addeq(zpl_vec3 *d, zpl_vec3 v);
+ZPL_DEF void zpl_vec3_subeq(zpl_vec3 *d, zpl_vec3 v);
+ZPL_DEF void zpl_vec3_muleq(zpl_vec3 *d, zpl_f32 s);
+ZPL_DEF void zpl_vec3_diveq(zpl_vec3 *d, zpl_f32 s);
+
+ZPL_DEF void zpl_vec4_addeq(zpl_vec4 *d, zpl_vec4 v);
+ZPL_DEF void zpl_vec4_subeq(zpl_vec4 *d, zpl_vec4 v);
+ZPL_DEF void zpl_vec4_muleq(zpl_vec4 *d, zpl_f32 s);
+ZPL_DEF void zpl_vec4_diveq(zpl_vec4 *d, zpl_f32 s);
+
+ZPL_DEF zpl_f32 zpl_vec2_dot(zpl_vec2 v0, zpl_vec2 v1);
+ZPL_DEF zpl_f32 zpl_vec3_dot(zpl_vec3 v0, zpl_vec3 v1);
+ZPL_DEF zpl_f32 zpl_vec4_dot(zpl_vec4 v0, zpl_vec4 v1);
+
+ZPL_DEF void zpl_vec2_cross(zpl_f32 *d, zpl_vec2 v0, zpl_vec2 v1);
+ZPL_DEF void zpl_vec3_cross(zpl_vec3 *d, zpl_vec3 v0, zpl_vec3 v1);
+
+ZPL_DEF zpl_f32 zpl_vec2_mag2(zpl_vec2 v);
+ZPL_DEF zpl_f32 zpl_vec3_mag2(zpl_vec3 v);
+ZPL_DEF zpl_f32 zpl_vec4_mag2(zpl_vec4 v);
+
+ZPL_DEF zpl_f32 zpl_vec2_mag(zpl_vec2 v);
+ZPL_DEF zpl_f32 zpl_vec3_mag(zpl_vec3 v);
+ZPL_DEF zpl_f32 zpl_vec4_mag(zpl_vec4 v);
+
+ZPL_DEF void zpl_vec2_norm(zpl_vec2 *d, zpl_vec2 v);
+ZPL_DEF void zpl_vec3_norm(zpl_vec3 *d, zpl_vec3 v);
+ZPL_DEF void zpl_vec4_norm(zpl_vec4 *d, zpl_vec4 v);
+
+ZPL_DEF void zpl_vec2_norm0(zpl_vec2 *d, zpl_vec2 v);
+ZPL_DEF void zpl_vec3_norm0(zpl_vec3 *d, zpl_vec3 v);
+ZPL_DEF void zpl_vec4_norm0(zpl_vec4 *d, zpl_vec4 v);
+
+ZPL_DEF void zpl_vec2_reflect(zpl_vec2 *d, zpl_vec2 i, zpl_vec2 n);
+ZPL_DEF void zpl_vec3_reflect(zpl_vec3 *d, zpl_vec3 i, zpl_vec3 n);
+ZPL_DEF void zpl_vec2_refract(zpl_vec2 *d, zpl_vec2 i, zpl_vec2 n, zpl_f32 eta);
+ZPL_DEF void zpl_vec3_refract(zpl_vec3 *d, zpl_vec3 i, zpl_vec3 n, zpl_f32 eta);
+
+ZPL_DEF zpl_f32 zpl_vec2_aspect_ratio(zpl_vec2 v);
+
+ZPL_DEF void zpl_mat2_identity(zpl_mat2 *m);
+ZPL_DEF void zpl_float22_identity(zpl_f32 m[2][2]);
+
+ZPL_DEF void    zpl_mat2_transpose(zpl_mat2 *m);
+ZPL_DEF void    zpl_mat2_mul(zpl_mat2 *out, zpl_mat2 *m1, zpl_mat2 *m2);
+ZPL_DEF void    zpl_mat2_mul_vec2(zpl_vec2 *out, zpl_mat2 *m, zpl_vec2 in);
+ZPL_DEF void    zpl_mat2_inverse(zpl_mat2 *out, zpl_mat2 *in);
+ZPL_DEF zpl_f32 zpl_mat2_determinate(zpl_mat2 *m);
+
+ZPL_DEF zpl_mat2   *zpl_mat2_v(zpl_vec2 m[2]);
+ZPL_DEF zpl_mat2   *zpl_mat2_f(zpl_f32 m[2][2]);
+ZPL_DEF zpl_float2 *zpl_float22_m(zpl_mat2 *m);
+ZPL_DEF zpl_float2 *zpl_float22_v(zpl_vec2 m[2]);
+ZPL_DEF zpl_float2 *zpl_float22_4(zpl_f32 m[4]);
+
+ZPL_DEF void zpl_float22_transpose(zpl_f32 (*vec)[2]);
+ZPL_DEF void zpl_float22_mul(zpl_f32 (*out)[2], zpl_f32 (*mat1)[2], zpl_f32 (*mat2)[2]);
+ZPL_DEF void zpl_float22_mul_vec2(zpl_vec2 *out, zpl_f32 m[2][2], zpl_vec2 in);
+
+ZPL_DEF void zpl_mat3_identity(zpl_mat3 *m);
+ZPL_DEF void zpl_float33_identity(zpl_f32 m[3][3]);
+
+ZPL_DEF void    zpl_mat3_transpose(zpl_mat3 *m);
+ZPL_DEF void    zpl_mat3_mul(zpl_mat3 *out, zpl_mat3 *m1, zpl_mat3 *m2);
+ZPL_DEF void    zpl_mat3_mul_vec3(zpl_vec3 *out, zpl_mat3 *m, zpl_vec3 in);
+ZPL_DEF void    zpl_mat3_inverse(zpl_mat3 *out, zpl_mat3 *in);
+ZPL_DEF zpl_f32 zpl_mat3_determinate(zpl_mat3 *m);
+
+ZPL_DEF zpl_mat3   *zpl_mat3_v(zpl_vec3 m[3]);
+ZPL_DEF zpl_mat3   *zpl_mat3_f(zpl_f32 m[3][3]);
+
+ZPL_DEF zpl_float3 *zpl_float33_m(zpl_mat3 *m);
+ZPL_DEF zpl_float3 *zpl_float33_v(zpl_vec3 m[3]);
+ZPL_DEF zpl_float3 *zpl_float33_9(zpl_f32 m[9]);
+
+ZPL_DEF void zpl_float33_transpose(zpl_f32 (*vec)[3]);
+ZPL_DEF void zpl_float33_mul(zpl_f32 (*out)[3], zpl_f32 (*mat1)[3], zpl_f32 (*mat2)[3]);
+ZPL_DEF void zpl_float33_mul_vec3(zpl_vec3 *out, zpl_f32 m[3][3], zpl_vec3 in);
+
+ZPL_DEF void zpl_mat4_identity(zpl_mat4 *m);
+ZPL_DEF void zpl_float44_identity(zpl_f32 m[4][4]);
+ZPL_DEF void zpl_mat4_copy(zpl_mat4* out, zpl_mat4* m);
+
+ZPL_DEF void zpl_mat4_transpose(zpl_mat4 *m);
+ZPL_DEF void zpl_mat4_mul(zpl_mat4 *out, zpl_mat4 *m1, zpl_mat4 *m2);
+ZPL_DEF void zpl_mat4_mul_vec4(zpl_vec4 *out, zpl_mat4 *m, zpl_vec4 in);
+ZPL_DEF void zpl_mat4_inverse(zpl_mat4 *out, zpl_mat4 *in);
+
+ZPL_DEF zpl_mat4 *zpl_mat4_v(zpl_vec4 m[4]);
+ZPL_DEF zpl_mat4 *zpl_mat4_f(zpl_f32 m[4][4]);
+
+ZPL_DEF zpl_float4 *zpl_float44_m(zpl_mat4 *m);
+ZPL_DEF zpl_float4 *zpl_float44_v(zpl_vec4 m[4]);
+ZPL_DEF zpl_float4 *zpl_float44_16(zpl_f32 m[16]);
+
+ZPL_DEF void zpl_float44_transpose(zpl_f32 (*vec)[4]);
+ZPL_DEF void zpl_float44_mul(zpl_f32 (*out)[4], zpl_f32 (*mat1)[4], zpl_f32 (*mat2)[4]);
+ZPL_DEF void zpl_float44_mul_vec4(zpl_vec4 *out, zpl_f32 m[4][4], zpl_vec4 in);
+
+ZPL_DEF void zpl_mat4_axis_angle(zpl_mat4* out, zpl_vec3 v, zpl_f32 angle_radians);
+ZPL_DEF void zpl_mat4_to_translate(zpl_mat4* out, zpl_vec3 v);
+ZPL_DEF void zpl_mat4_to_rotate(zpl_mat4* out, zpl_vec3 v, zpl_f32 angle_radians);
+ZPL_DEF void zpl_mat4_to_scale(zpl_mat4* out, zpl_vec3 v);
+ZPL_DEF void zpl_mat4_to_scalef(zpl_mat4* out, zpl_f32 s);
+ZPL_DEF void zpl_mat4_translate(zpl_mat4* out, zpl_vec3 v);
+ZPL_DEF void zpl_mat4_rotate(zpl_mat4* out, zpl_vec3 v, zpl_f32 angle_radians);
+ZPL_DEF void zpl_mat4_scale(zpl_mat4* out, zpl_vec3 v);
+ZPL_DEF void zpl_mat4_scalef(zpl_mat4 *out, zpl_f32 s);
+ZPL_DEF void zpl_mat4_ortho2d(zpl_mat4 *out, zpl_f32 left, zpl_f32 right, zpl_f32 bottom, zpl_f32 top);
+ZPL_DEF void zpl_mat4_ortho3d(zpl_mat4 *out, zpl_f32 left, zpl_f32 right, zpl_f32 bottom, zpl_f32 top, zpl_f32 z_near, zpl_f32 z_far);
+ZPL_DEF void zpl_mat4_perspective(zpl_mat4 *out, zpl_f32 fovy, zpl_f32 aspect, zpl_f32 z_near, zpl_f32 z_far);
+ZPL_DEF void zpl_mat4_infinite_perspective(zpl_mat4 *out, zpl_f32 fovy, zpl_f32 aspect, zpl_f32 z_near);
+
+ZPL_DEF void zpl_mat4_ortho2d_dx(zpl_mat4 *out, zpl_f32 left, zpl_f32 right, zpl_f32 bottom, zpl_f32 top);
+ZPL_DEF void zpl_mat4_ortho3d_dx(zpl_mat4 *out, zpl_f32 left, zpl_f32 right, zpl_f32 bottom, zpl_f32 top, zpl_f32 z_near, zpl_f32 z_far);
+ZPL_DEF void zpl_mat4_perspective_dx(zpl_mat4 *out, zpl_f32 fovy, zpl_f32 aspect, zpl_f32 z_near, zpl_f32 z_far);
+ZPL_DEF void zpl_mat4_infinite_perspective_dx(zpl_mat4 *out, zpl_f32 fovy, zpl_f32 aspect, zpl_f32 z_near);
+
+ZPL_DEF void zpl_mat4_look_at(zpl_mat4 *out, zpl_vec3 eye, zpl_vec3 centre, zpl_vec3 up);
+
+ZPL_DEF void zpl_mat4_look_at_lh(zpl_mat4 *out, zpl_vec3 eye, zpl_vec3 centre, zpl_vec3 up);
+
+ZPL_DEF zpl_quat zpl_quatf(zpl_f32 x, zpl_f32 y, zpl_f32 z, zpl_f32 w);
+ZPL_DEF zpl_quat zpl_quatfv(zpl_f32 e[4]);
+ZPL_DEF zpl_quat zpl_quat_axis_angle(zpl_vec3 axis, zpl_f32 angle_radians);
+ZPL_DEF zpl_quat zpl_quat_euler_angles(zpl_f32 pitch, zpl_f32 yaw, zpl_f32 roll);
+ZPL_DEF zpl_quat zpl_quat_identity(void);
+
+ZPL_DEF void zpl_quat_add(zpl_quat *d, zpl_quat q0, zpl_quat q1);
+ZPL_DEF void zpl_quat_sub(zpl_quat *d, zpl_quat q0, zpl_quat q1);
+ZPL_DEF void zpl_quat_mul(zpl_quat *d, zpl_quat q0, zpl_quat q1);
+ZPL_DEF void zpl_quat_div(zpl_quat *d, zpl_quat q0, zpl_quat q1);
+
+ZPL_DEF void zpl_quat_mulf(zpl_quat *d, zpl_quat q, zpl_f32 s);
+ZPL_DEF void zpl_quat_divf(zpl_quat *d, zpl_quat q, zpl_f32 s);
+
+ZPL_DEF void zpl_quat_addeq(zpl_quat *d, zpl_quat q);
+ZPL_DEF void zpl_quat_subeq(zpl_quat *d, zpl_quat q);
+ZPL_DEF void zpl_quat_muleq(zpl_quat *d, zpl_quat q);
+ZPL_DEF void zpl_quat_diveq(zpl_quat *d, zpl_quat q);
+
+ZPL_DEF void zpl_quat_muleqf(zpl_quat *d, zpl_f32 s);
+ZPL_DEF void zpl_quat_diveqf(zpl_quat *d, zpl_f32 s);
+
+ZPL_DEF zpl_f32 zpl_quat_dot(zpl_quat q0, zpl_quat q1);
+ZPL_DEF zpl_f32 zpl_quat_mag(zpl_quat q);
+
+ZPL_DEF void zpl_quat_norm(zpl_quat *d, zpl_quat q);
+ZPL_DEF void zpl_quat_conj(zpl_quat *d, zpl_quat q);
+ZPL_DEF void zpl_quat_inverse(zpl_quat *d, zpl_quat q);
+
+ZPL_DEF void    zpl_quat_axis(zpl_vec3 *axis, zpl_quat q);
+ZPL_DEF zpl_f32 zpl_quat_angle(zpl_quat q);
+
+ZPL_DEF zpl_f32 zpl_quat_pitch(zpl_quat q);
+ZPL_DEF zpl_f32 zpl_quat_yaw(zpl_quat q);
+ZPL_DEF zpl_f32 zpl_quat_roll(zpl_quat q);
+
+/* NOTE: Rotate v by q */
+ZPL_DEF void zpl_quat_rotate_vec3(zpl_vec3 *d, zpl_quat q, zpl_vec3 v);
+ZPL_DEF void zpl_mat4_from_quat(zpl_mat4 *out, zpl_quat q);
+ZPL_DEF void zpl_quat_from_mat4(zpl_quat *out, zpl_mat4 *m);
+
+/* Plane math. */
+ZPL_DEF zpl_f32 zpl_plane_distance(zpl_plane* p, zpl_vec3 v);
+
+/* Frustum culling. */
+ZPL_DEF void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj);
+ZPL_DEF zpl_b8 zpl_frustum_sphere_inside(zpl_frustum* frustum, zpl_vec3 center, zpl_f32 radius);
+ZPL_DEF zpl_b8 zpl_frustum_point_inside(zpl_frustum* frustum, zpl_vec3 point);
+ZPL_DEF zpl_b8 zpl_frustum_box_inside(zpl_frustum* frustum, zpl_aabb3 box);
+
+/* Interpolations */
+ZPL_DEF zpl_f32 zpl_lerp(zpl_f32 a, zpl_f32 b, zpl_f32 t);
+ZPL_DEF zpl_f32 zpl_unlerp(zpl_f32 t, zpl_f32 a, zpl_f32 b);
+ZPL_DEF zpl_f32 zpl_smooth_step(zpl_f32 a, zpl_f32 b, zpl_f32 t);
+ZPL_DEF zpl_f32 zpl_smoother_step(zpl_f32 a, zpl_f32 b, zpl_f32 t);
+
+ZPL_DEF void zpl_vec2_lerp(zpl_vec2 *d, zpl_vec2 a, zpl_vec2 b, zpl_f32 t);
+ZPL_DEF void zpl_vec3_lerp(zpl_vec3 *d, zpl_vec3 a, zpl_vec3 b, zpl_f32 t);
+ZPL_DEF void zpl_vec4_lerp(zpl_vec4 *d, zpl_vec4 a, zpl_vec4 b, zpl_f32 t);
+
+ZPL_DEF void zpl_vec2_cslerp(zpl_vec2 *d, zpl_vec2 a, zpl_vec2 v0, zpl_vec2 b, zpl_vec2 v1, zpl_f32 t);
+ZPL_DEF void zpl_vec3_cslerp(zpl_vec3 *d, zpl_vec3 a, zpl_vec3 v0, zpl_vec3 b, zpl_vec3 v1, zpl_f32 t);
+ZPL_DEF void zpl_vec2_dcslerp(zpl_vec2 *d, zpl_vec2 a, zpl_vec2 v0, zpl_vec2 b, zpl_vec2 v1, zpl_f32 t);
+ZPL_DEF void zpl_vec3_dcslerp(zpl_vec3 *d, zpl_vec3 a, zpl_vec3 v0, zpl_vec3 b, zpl_vec3 v1, zpl_f32 t);
+
+ZPL_DEF void zpl_quat_lerp(zpl_quat *d, zpl_quat a, zpl_quat b, zpl_f32 t);
+ZPL_DEF void zpl_quat_nlerp(zpl_quat *d, zpl_quat a, zpl_quat b, zpl_f32 t);
+ZPL_DEF void zpl_quat_slerp(zpl_quat *d, zpl_quat a, zpl_quat b, zpl_f32 t);
+ZPL_DEF void zpl_quat_nquad(zpl_quat *d, zpl_quat p, zpl_quat a, zpl_quat b, zpl_quat q, zpl_f32 t);
+ZPL_DEF void zpl_quat_squad(zpl_quat *d, zpl_quat p, zpl_quat a, zpl_quat b, zpl_quat q, zpl_f32 t);
+ZPL_DEF void zpl_quat_slerp_approx(zpl_quat *d, zpl_quat a, zpl_quat b, zpl_f32 t);
+ZPL_DEF void zpl_quat_squad_approx(zpl_quat *d, zpl_quat p, zpl_quat a, zpl_quat b, zpl_quat q, zpl_f32 t);
+
+/* rects */
+ZPL_DEF zpl_rect2 zpl_rect2f(zpl_vec2 pos, zpl_vec2 dim);
+ZPL_DEF zpl_rect3 zpl_rect3f(zpl_vec3 pos, zpl_vec3 dim);
+
+ZPL_DEF zpl_aabb2 zpl_aabb2f(zpl_f32 minx, zpl_f32 miny, zpl_f32 maxx, zpl_f32 maxy);
+ZPL_DEF zpl_aabb3 zpl_aabb3f(zpl_f32 minx, zpl_f32 miny, zpl_f32 minz, zpl_f32 maxx, zpl_f32 maxy, zpl_f32 maxz);
+
+ZPL_DEF zpl_aabb2 zpl_aabb2_rect2(zpl_rect2 a);
+ZPL_DEF zpl_aabb3 zpl_aabb3_rect3(zpl_rect3 a);
+ZPL_DEF zpl_rect2 zpl_rect2_aabb2(zpl_aabb2 a);
+ZPL_DEF zpl_rect3 zpl_rect3_aabb3(zpl_aabb3 a);
+
+ZPL_DEF int zpl_rect2_contains(zpl_rect2 a, zpl_f32 x, zpl_f32 y);
+ZPL_DEF int zpl_rect2_contains_vec2(zpl_rect2 a, zpl_vec2 p);
+ZPL_DEF int zpl_rect2_intersects(zpl_rect2 a, zpl_rect2 b);
+ZPL_DEF int zpl_rect2_intersection_result(zpl_rect2 a, zpl_rect2 b, zpl_rect2 *intersection);
+ZPL_DEF int zpl_aabb2_contains(zpl_aabb2 a, zpl_f32 x, zpl_f32 y);
+ZPL_DEF int zpl_aabb3_contains(zpl_aabb3 a, zpl_f32 x, zpl_f32 y, zpl_f32 z);
+
+/* rectangle partitioning: based on https://halt.software/dead-simple-layouts/ */
+ZPL_DEF zpl_aabb2 zpl_aabb2_cut_left(zpl_aabb2 *a, zpl_f32 b);
+ZPL_DEF zpl_aabb2 zpl_aabb2_cut_right(zpl_aabb2 *a, zpl_f32 b);
+ZPL_DEF zpl_aabb2 zpl_aabb2_cut_top(zpl_aabb2 *a, zpl_f32 b);
+ZPL_DEF zpl_aabb2 zpl_aabb2_cut_bottom(zpl_aabb2 *a, zpl_f32 b);
+
+ZPL_DEF zpl_aabb2 zpl_aabb2_get_left(const zpl_aabb2 *a, zpl_f32 b);
+ZPL_DEF zpl_aabb2 zpl_aabb2_get_right(const zpl_aabb2 *a, zpl_f32 b);
+ZPL_DEF zpl_aabb2 zpl_aabb2_get_top(const zpl_aabb2 *a, zpl_f32 b);
+ZPL_DEF zpl_aabb2 zpl_aabb2_get_bottom(const zpl_aabb2 *a, zpl_f32 b);
+
+ZPL_DEF zpl_aabb2 zpl_aabb2_add_left(const zpl_aabb2 *a, zpl_f32 b);
+ZPL_DEF zpl_aabb2 zpl_aabb2_add_right(const zpl_aabb2 *a, zpl_f32 b);
+ZPL_DEF zpl_aabb2 zpl_aabb2_add_top(const zpl_aabb2 *a, zpl_f32 b);
+ZPL_DEF zpl_aabb2 zpl_aabb2_add_bottom(const zpl_aabb2 *a, zpl_f32 b);
+
+ZPL_DEF zpl_aabb2 zpl_aabb2_contract(const zpl_aabb2 *a, zpl_f32 b);
+ZPL_DEF zpl_aabb2 zpl_aabb2_expand(const zpl_aabb2 *a, zpl_f32 b);
+
+//! @}
+ZPL_END_C_DECLS
+#if defined(__cplusplus)
+ZPL_INLINE bool operator==(zpl_vec2 a, zpl_vec2 b) { return (a.x == b.x) && (a.y == b.y); }
+ZPL_INLINE bool operator!=(zpl_vec2 a, zpl_vec2 b) { return !operator==(a, b); }
+
+ZPL_INLINE zpl_vec2 operator+(zpl_vec2 a) { return a; }
+ZPL_INLINE zpl_vec2 operator-(zpl_vec2 a) { zpl_vec2 r = {-a.x, -a.y}; return r; }
+
+ZPL_INLINE zpl_vec2 operator+(zpl_vec2 a, zpl_vec2 b) { zpl_vec2 r; zpl_vec2_add(&r, a, b); return r; }
+ZPL_INLINE zpl_vec2 operator-(zpl_vec2 a, zpl_vec2 b) { zpl_vec2 r; zpl_vec2_sub(&r, a, b); return r; }
+
+ZPL_INLINE zpl_vec2 operator*(zpl_vec2 a, float scalar) { zpl_vec2 r; zpl_vec2_mul(&r, a, scalar); return r; }
+ZPL_INLINE zpl_vec2 operator*(float scalar, zpl_vec2 a) { return operator*(a, scalar); }
+
+ZPL_INLINE zpl_vec2 operator/(zpl_vec2 a, float scalar) { return operator*(a, 1.0f/scalar); }
+
+/* Hadamard Product */
+ZPL_INLINE zpl_vec2 operator*(zpl_vec2 a, zpl_vec2 b) { zpl_vec2 r = {a.x*b.x, a.y*b.y}; return r; }
+ZPL_INLINE zpl_vec2 operator/(zpl_vec2 a, zpl_vec2 b) { zpl_vec2 r = {a.x/b.x, a.y/b.y}; return r; }
+
+ZPL_INLINE zpl_vec2 &operator+=(zpl_vec2 &a, zpl_vec2 b)       { return (a = a + b); }
+ZPL_INLINE zpl_vec2 &operator-=(zpl_vec2 &a, zpl_vec2 b)       { return (a = a - b); }
+ZPL_INLINE zpl_vec2 &operator*=(zpl_vec2 &a, float scalar) { return (a = a * scalar); }
+ZPL_INLINE zpl_vec2 &operator/=(zpl_vec2 &a, float scalar) { return (a = a / scalar); }
+
+
+ZPL_INLINE bool operator==(zpl_vec3 a, zpl_vec3 b) { return (a.x == b.x) && (a.y == b.y) && (a.z == b.z); }
+ZPL_INLINE bool operator!=(zpl_vec3 a, zpl_vec3 b) { return !operator==(a, b); }
+
+ZPL_INLINE zpl_vec3 operator+(zpl_vec3 a) { return a; }
+ZPL_INLINE zpl_vec3 operator-(zpl_vec3 a) { zpl_vec3 r = {-a.x, -a.y, -a.z}; return r; }
+
+ZPL_INLINE zpl_vec3 operator+(zpl_vec3 a, zpl_vec3 b) { zpl_vec3 r; zpl_vec3_add(&r, a, b); return r; }
+ZPL_INLINE zpl_vec3 operator-(zpl_vec3 a, zpl_vec3 b) { zpl_vec3 r; zpl_vec3_sub(&r, a, b); return r; }
+
+ZPL_INLINE zpl_vec3 operator*(zpl_vec3 a, float scalar) { zpl_vec3 r; zpl_vec3_mul(&r, a, scalar); return r; }
+ZPL_INLINE zpl_vec3 operator*(float scalar, zpl_vec3 a) { return operator*(a, scalar); }
+
+ZPL_INLINE zpl_vec3 operator/(zpl_vec3 a, float scalar) { return operator*(a, 1.0f/scalar); }
+
+/* Hadamard Product */
+ZPL_INLINE zpl_vec3 operator*(zpl_vec3 a, zpl_vec3 b) { zpl_vec3 r = {a.x*b.x, a.y*b.y, a.z*b.z}; return r; }
+ZPL_INLINE zpl_vec3 operator/(zpl_vec3 a, zpl_vec3 b) { zpl_vec3 r = {a.x/b.x, a.y/b.y, a.z/b.z}; return r; }
+
+ZPL_INLINE zpl_vec3 &operator+=(zpl_vec3 &a, zpl_vec3 b)       { return (a = a + b); }
+ZPL_INLINE zpl_vec3 &operator-=(zpl_vec3 &a, zpl_vec3 b)       { return (a = a - b); }
+ZPL_INLINE zpl_vec3 &operator*=(zpl_vec3 &a, float scalar) { return (a = a * scalar); }
+ZPL_INLINE zpl_vec3 &operator/=(zpl_vec3 &a, float scalar) { return (a = a / scalar); }
+
+
+ZPL_INLINE bool operator==(zpl_vec4 a, zpl_vec4 b) { return (a.x == b.x) && (a.y == b.y) && (a.z == b.z) && (a.w == b.w); }
+ZPL_INLINE bool operator!=(zpl_vec4 a, zpl_vec4 b) { return !operator==(a, b); }
+
+ZPL_INLINE zpl_vec4 operator+(zpl_vec4 a) { return a; }
+ZPL_INLINE zpl_vec4 operator-(zpl_vec4 a) { zpl_vec4 r = {-a.x, -a.y, -a.z, -a.w}; return r; }
+
+ZPL_INLINE zpl_vec4 operator+(zpl_vec4 a, zpl_vec4 b) { zpl_vec4 r; zpl_vec4_add(&r, a, b); return r; }
+ZPL_INLINE zpl_vec4 operator-(zpl_vec4 a, zpl_vec4 b) { zpl_vec4 r; zpl_vec4_sub(&r, a, b); return r; }
+
+ZPL_INLINE zpl_vec4 operator*(zpl_vec4 a, float scalar) { zpl_vec4 r; zpl_vec4_mul(&r, a, scalar); return r; }
+ZPL_INLINE zpl_vec4 operator*(float scalar, zpl_vec4 a) { return operator*(a, scalar); }
+
+ZPL_INLINE zpl_vec4 operator/(zpl_vec4 a, float scalar) { return operator*(a, 1.0f/scalar); }
+
+/* Hadamard Product */
+ZPL_INLINE zpl_vec4 operator*(zpl_vec4 a, zpl_vec4 b) { zpl_vec4 r = {a.x*b.x, a.y*b.y, a.z*b.z, a.w*b.w}; return r; }
+ZPL_INLINE zpl_vec4 operator/(zpl_vec4 a, zpl_vec4 b) { zpl_vec4 r = {a.x/b.x, a.y/b.y, a.z/b.z, a.w/b.w}; return r; }
+
+ZPL_INLINE zpl_vec4 &operator+=(zpl_vec4 &a, zpl_vec4 b)       { return (a = a + b); }
+ZPL_INLINE zpl_vec4 &operator-=(zpl_vec4 &a, zpl_vec4 b)       { return (a = a - b); }
+ZPL_INLINE zpl_vec4 &operator*=(zpl_vec4 &a, float scalar) { return (a = a * scalar); }
+ZPL_INLINE zpl_vec4 &operator/=(zpl_vec4 &a, float scalar) { return (a = a / scalar); }
+
+
+ZPL_INLINE zpl_mat2 operator+(zpl_mat2 const &a, zpl_mat2 const &b) {
+    int i, j;
+    zpl_mat2 r = {0};
+    for (j = 0; j < 2; j++) {
+        for (i = 0; i < 2; i++)
+            r.e[2*j+i] = a.e[2*j+i] + b.e[2*j+i];
+    }
+    return r;
+}
+
+ZPL_INLINE zpl_mat2 operator-(zpl_mat2 const &a, zpl_mat2 const &b) {
+    int i, j;
+    zpl_mat2 r = {0};
+    for (j = 0; j < 2; j++) {
+        for (i = 0; i < 2; i++)
+            r.e[2*j+i] = a.e[2*j+i] - b.e[2*j+i];
+    }
+    return r;
+}
+
+ZPL_INLINE zpl_mat2 operator*(zpl_mat2 const &a, zpl_mat2 const &b) { zpl_mat2 r; zpl_mat2_mul(&r, (zpl_mat2 *)&a, (zpl_mat2 *)&b); return r; }
+ZPL_INLINE zpl_vec2 operator*(zpl_mat2 const &a, zpl_vec2 v) { zpl_vec2 r; zpl_mat2_mul_vec2(&r, (zpl_mat2 *)&a, v); return r; }
+ZPL_INLINE zpl_mat2 operator*(zpl_mat2 const &a, float scalar) {
+    zpl_mat2 r = {0};
+    int i;
+    for (i = 0; i < 2*2; i++) r.e[i] = a.e[i] * scalar;
+    return r;
+}
+ZPL_INLINE zpl_mat2 operator*(float scalar, zpl_mat2 const &a) { return operator*(a, scalar); }
+ZPL_INLINE zpl_mat2 operator/(zpl_mat2 const &a, float scalar) { return operator*(a, 1.0f/scalar); }
+
+ZPL_INLINE zpl_mat2& operator+=(zpl_mat2& a, zpl_mat2 const &b) { return (a = a + b); }
+ZPL_INLINE zpl_mat2& operator-=(zpl_mat2& a, zpl_mat2 const &b) { return (a = a - b); }
+ZPL_INLINE zpl_mat2& operator*=(zpl_mat2& a, zpl_mat2 const &b) { return (a = a * b); }
+
+
+
+ZPL_INLINE zpl_mat3 operator+(zpl_mat3 const &a, zpl_mat3 const &b) {
+    int i, j;
+    zpl_mat3 r = {0};
+    for (j = 0; j < 3; j++) {
+        for (i = 0; i < 3; i++)
+            r.e[3*j+i] = a.e[3*j+i] + b.e[3*j+i];
+    }
+    return r;
+}
+
+ZPL_INLINE zpl_mat3 operator-(zpl_mat3 const &a, zpl_mat3 const &b) {
+    int i, j;
+    zpl_mat3 r = {0};
+    for (j = 0; j < 3; j++) {
+        for (i = 0; i < 3; i++)
+            r.e[3*j+i] = a.e[3*j+i] - b.e[3*j+i];
+    }
+    return r;
+}
+
+ZPL_INLINE zpl_mat3 operator*(zpl_mat3 const &a, zpl_mat3 const &b) { zpl_mat3 r; zpl_mat3_mul(&r, (zpl_mat3 *)&a, (zpl_mat3 *)&b); return r; }
+ZPL_INLINE zpl_vec3 operator*(zpl_mat3 const &a, zpl_vec3 v) { zpl_vec3 r; zpl_mat3_mul_vec3(&r, (zpl_mat3 *)&a, v); return r; }
+ZPL_INLINE zpl_mat3 operator*(zpl_mat3 const &a, float scalar) {
+    zpl_mat3 r = {0};
+    int i;
+    for (i = 0; i < 3*3; i++) r.e[i] = a.e[i] * scalar;
+    return r;
+}
+ZPL_INLINE zpl_mat3 operator*(float scalar, zpl_mat3 const &a) { return operator*(a, scalar); }
+ZPL_INLINE zpl_mat3 operator/(zpl_mat3 const &a, float scalar) { return operator*(a, 1.0f/scalar); }
+
+ZPL_INLINE zpl_mat3& operator+=(zpl_mat3& a, zpl_mat3 const &b) { return (a = a + b); }
+ZPL_INLINE zpl_mat3& operator-=(zpl_mat3& a, zpl_mat3 const &b) { return (a = a - b); }
+ZPL_INLINE zpl_mat3& operator*=(zpl_mat3& a, zpl_mat3 const &b) { return (a = a * b); }
+
+
+
+ZPL_INLINE zpl_mat4 operator+(zpl_mat4 const &a, zpl_mat4 const &b) {
+    int i, j;
+    zpl_mat4 r = {0};
+    for (j = 0; j < 4; j++) {
+        for (i = 0; i < 4; i++)
+            r.e[4*j+i] = a.e[4*j+i] + b.e[4*j+i];
+    }
+    return r;
+}
+
+ZPL_INLINE zpl_mat4 operator-(zpl_mat4 const &a, zpl_mat4 const &b) {
+    int i, j;
+    zpl_mat4 r = {0};
+    for (j = 0; j < 4; j++) {
+        for (i = 0; i < 4; i++)
+            r.e[4*j+i] = a.e[4*j+i] - b.e[4*j+i];
+    }
+    return r;
+}
+
+ZPL_INLINE zpl_mat4 operator*(zpl_mat4 const &a, zpl_mat4 const &b) { zpl_mat4 r; zpl_mat4_mul(&r, (zpl_mat4 *)&a, (zpl_mat4 *)&b); return r; }
+ZPL_INLINE zpl_vec4 operator*(zpl_mat4 const &a, zpl_vec4 v) { zpl_vec4 r; zpl_mat4_mul_vec4(&r, (zpl_mat4 *)&a, v); return r; }
+ZPL_INLINE zpl_mat4 operator*(zpl_mat4 const &a, float scalar) {
+    zpl_mat4 r = {0};
+    int i;
+    for (i = 0; i < 4*4; i++) r.e[i] = a.e[i] * scalar;
+    return r;
+}
+ZPL_INLINE zpl_mat4 operator*(float scalar, zpl_mat4 const &a) { return operator*(a, scalar); }
+ZPL_INLINE zpl_mat4 operator/(zpl_mat4 const &a, float scalar) { return operator*(a, 1.0f/scalar); }
+
+ZPL_INLINE zpl_mat4& operator+=(zpl_mat4 &a, zpl_mat4 const &b) { return (a = a + b); }
+ZPL_INLINE zpl_mat4& operator-=(zpl_mat4 &a, zpl_mat4 const &b) { return (a = a - b); }
+ZPL_INLINE zpl_mat4& operator*=(zpl_mat4 &a, zpl_mat4 const &b) { return (a = a * b); }
+
+
+
+ZPL_INLINE bool operator==(zpl_quat a, zpl_quat b) { return a.xyzw == b.xyzw; }
+ZPL_INLINE bool operator!=(zpl_quat a, zpl_quat b) { return !operator==(a, b); }
+
+ZPL_INLINE zpl_quat operator+(zpl_quat q) { return q; }
+ZPL_INLINE zpl_quat operator-(zpl_quat q) { return zpl_quatf(-q.x, -q.y, -q.z, -q.w); }
+
+ZPL_INLINE zpl_quat operator+(zpl_quat a, zpl_quat b) { zpl_quat r; zpl_quat_add(&r, a, b); return r; }
+ZPL_INLINE zpl_quat operator-(zpl_quat a, zpl_quat b) { zpl_quat r; zpl_quat_sub(&r, a, b); return r; }
+
+ZPL_INLINE zpl_quat operator*(zpl_quat a, zpl_quat b)  { zpl_quat r; zpl_quat_mul(&r, a, b); return r; }
+ZPL_INLINE zpl_quat operator*(zpl_quat q, float s) { zpl_quat r; zpl_quat_mulf(&r, q, s); return r; }
+ZPL_INLINE zpl_quat operator*(float s, zpl_quat q) { return operator*(q, s); }
+ZPL_INLINE zpl_quat operator/(zpl_quat q, float s) { zpl_quat r; zpl_quat_divf(&r, q, s); return r; }
+
+ZPL_INLINE zpl_quat &operator+=(zpl_quat &a, zpl_quat b) { zpl_quat_addeq(&a, b); return a; }
+ZPL_INLINE zpl_quat &operator-=(zpl_quat &a, zpl_quat b) { zpl_quat_subeq(&a, b); return a; }
+ZPL_INLINE zpl_quat &operator*=(zpl_quat &a, zpl_quat b) { zpl_quat_muleq(&a, b); return a; }
+ZPL_INLINE zpl_quat &operator/=(zpl_quat &a, zpl_quat b) { zpl_quat_diveq(&a, b); return a; }
+
+ZPL_INLINE zpl_quat &operator*=(zpl_quat &a, float b) { zpl_quat_muleqf(&a, b); return a; }
+ZPL_INLINE zpl_quat &operator/=(zpl_quat &a, float b) { zpl_quat_diveqf(&a, b); return a; }
+
+/* Rotate v by a */
+ZPL_INLINE zpl_vec3 operator*(zpl_quat q, zpl_vec3 v) { zpl_vec3 r; zpl_quat_rotate_vec3(&r, q, v); return r; }
+#endif
+
-- 
2.43.0


From 1da3db7c590c395aaf40f7a3e6007add6b0ac482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:53 +0000
Subject: [PATCH 133/152] fix: a write taken only in part counted as complete,
 and an interrupted one lost the rest

---
 code/source/core/file.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/code/source/core/file.c b/code/source/core/file.c
index c333936..8745236 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -180,18 +180,22 @@ ZPL_BEGIN_C_DECLS
     }
 
     zpl_internal ZPL_FILE_WRITE_AT_PROC(zpl__posix_file_write) {
-        zpl_isize res;
+        zpl_isize res, written = 0;
         zpl_i64 curr_offset = 0;
         zpl__posix_file_seek(fd, 0, ZPL_SEEK_WHENCE_CURRENT, &curr_offset);
-        if (curr_offset == offset) {
-            // NOTE: Writing to stdout et al. doesn't like pwrite for numerous reasons
-            res = write(cast(int) fd.i, buffer, size);
-        } else {
-            res = pwrite(cast(int) fd.i, buffer, size, offset);
-        }
-        if (res < 0) return false;
-        if (bytes_written) *bytes_written = res;
-        return true;
+        // NOTE: the system may take only a part at a time, or be interrupted
+        do {
+            char const *rest = cast(char const *) buffer + written;
+            if (curr_offset == offset) {
+                // NOTE: Writing to stdout et al. doesn't like pwrite for numerous reasons
+                res = write(cast(int) fd.i, rest, size - written);
+            } else {
+                res = pwrite(cast(int) fd.i, rest, size - written, offset + written);
+            }
+            if (res > 0) written += res;
+        } while ((res > 0 && written < size) || (res < 0 && errno == EINTR));
+        if (bytes_written) *bytes_written = written;
+        return res >= 0 && written == size;
     }
 
     zpl_internal ZPL_FILE_CLOSE_PROC(zpl__posix_file_close) { close(fd.i); }
-- 
2.43.0


From 14bcc5f401a00d72c61576b82bb746bfffe4d293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:56 +0000
Subject: [PATCH 134/152] fix: standard input could not be read from a pipe or
 a terminal

---
 code/source/core/file.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/code/source/core/file.c b/code/source/core/file.c
index 8745236..8a741c8 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -173,7 +173,12 @@ ZPL_BEGIN_C_DECLS
 
     zpl_internal ZPL_FILE_READ_AT_PROC(zpl__posix_file_read) {
         zpl_unused(stop_at_newline);
-        zpl_isize res = pread(fd.i, buffer, size, offset);
+        zpl_isize res;
+        do {
+            res = pread(fd.i, buffer, size, offset);
+            // NOTE: pipes, sockets and terminals have no offsets
+            if (res < 0 && errno == ESPIPE) res = read(cast(int) fd.i, buffer, size);
+        } while (res < 0 && errno == EINTR);
         if (res < 0) return false;
         if (bytes_read) *bytes_read = res;
         return true;
-- 
2.43.0


From 77c5b2f2008028d2ef1e0c3976b895771882e6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:25 +0000
Subject: [PATCH 135/152] fix: threads printing for the first time raced to set
 up the standard streams

---
 code/source/core/file.c | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/code/source/core/file.c b/code/source/core/file.c
index 8a741c8..ce17d8c 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -322,12 +322,12 @@ zpl_b32 zpl_file_has_changed(zpl_file *f) {
     return result;
 }
 
+#if defined(ZPL_SYSTEM_WINDOWS) || defined(ZPL_SYSTEM_CYGWIN)
+
 // TODO: Is this a bad idea?
 zpl_global zpl_b32 zpl__std_file_set = false;
 zpl_global zpl_file zpl__std_files[ZPL_FILE_STANDARD_COUNT] = { { 0 } };
 
-#if defined(ZPL_SYSTEM_WINDOWS) || defined(ZPL_SYSTEM_CYGWIN)
-
 zpl_file *zpl_file_get_standard(zpl_file_standard_type std) {
     if (!zpl__std_file_set) {
 #define ZPL__SET_STD_FILE(type, v)                                                                                     \
@@ -382,17 +382,12 @@ zpl_b32 zpl_fs_exists(char const *name) {
 
 #else // POSIX
 
+// NOTE: set up in advance, any thread may be the first to print
+#define ZPL__STD_FILE(v) { { zpl__posix_file_read, zpl__posix_file_write, zpl__posix_file_seek, zpl__posix_file_close }, { (void *) v }, false, NULL, 0, NULL }
+zpl_global zpl_file zpl__std_files[ZPL_FILE_STANDARD_COUNT] = { ZPL__STD_FILE(0), ZPL__STD_FILE(1), ZPL__STD_FILE(2) };
+#undef ZPL__STD_FILE
+
 zpl_file *zpl_file_get_standard(zpl_file_standard_type std) {
-    if (!zpl__std_file_set) {
-#define ZPL__SET_STD_FILE(type, v)                                                                                     \
-        zpl__std_files[type].fd.i = v;                                                                                     \
-        zpl__std_files[type].ops = zpl_default_file_operations
-        ZPL__SET_STD_FILE(ZPL_FILE_STANDARD_INPUT, 0);
-        ZPL__SET_STD_FILE(ZPL_FILE_STANDARD_OUTPUT, 1);
-        ZPL__SET_STD_FILE(ZPL_FILE_STANDARD_ERROR, 2);
-#undef ZPL__SET_STD_FILE
-        zpl__std_file_set = true;
-    }
     return &zpl__std_files[std];
 }
 
-- 
2.43.0


From 7369d2c777da13865f6745cef728796f4f8b5a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:48 +0000
Subject: [PATCH 136/152] fix: threads sorting by different fields used each
 other's field offset

---
 code/source/core/sort.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/core/sort.c b/code/source/core/sort.c
index c0c5506..746cec4 100644
--- a/code/source/core/sort.c
+++ b/code/source/core/sort.c
@@ -4,7 +4,7 @@
 ZPL_BEGIN_C_DECLS
 
 #define ZPL__COMPARE_PROC(Type)                                                                                        \
-zpl_global zpl_isize Type##__cmp_offset;                                                                         \
+zpl_global zpl_thread_local zpl_isize Type##__cmp_offset;                                                        \
 ZPL_COMPARE_PROC(Type##__cmp) {                                                                              \
     Type const p = *cast(Type const *) zpl_pointer_add_const(a, Type##__cmp_offset);                         \
     Type const q = *cast(Type const *) zpl_pointer_add_const(b, Type##__cmp_offset);                         \
@@ -24,7 +24,7 @@ ZPL__COMPARE_PROC(zpl_f32);
 ZPL__COMPARE_PROC(zpl_f64);
 
 // NOTE: str_cmp is special as it requires a funny type and funny comparison
-zpl_global zpl_isize zpl__str_cmp_offset;
+zpl_global zpl_thread_local zpl_isize zpl__str_cmp_offset;
 ZPL_COMPARE_PROC(zpl__str_cmp) {
     char const *p = *cast(char const **) zpl_pointer_add_const(a, zpl__str_cmp_offset);
     char const *q = *cast(char const **) zpl_pointer_add_const(b, zpl__str_cmp_offset);
-- 
2.43.0


From a1932f2d3dc97defe1279aa32f231f34de99ddd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:50 +0000
Subject: [PATCH 137/152] fix: threads converting between encodings overwrote
 each other's result

---
 code/source/core/string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/core/string.c b/code/source/core/string.c
index 98c30bb..731de4d 100644
--- a/code/source/core/string.c
+++ b/code/source/core/string.c
@@ -310,12 +310,12 @@ zpl_u8 *zpl_ucs2_to_utf8(zpl_u8 *buffer, zpl_isize len, zpl_u16 const *str) {
 }
 
 zpl_u16 *zpl_utf8_to_ucs2_buf(zpl_u8 const *str) { // NOTE: Uses locally persisting buffer
-    zpl_local_persist zpl_u16 buf[4096];
+    zpl_local_persist zpl_thread_local zpl_u16 buf[4096];
     return zpl_utf8_to_ucs2(buf, zpl_count_of(buf), str);
 }
 
 zpl_u8 *zpl_ucs2_to_utf8_buf(zpl_u16 const *str) { // NOTE: Uses locally persisting buffer
-    zpl_local_persist zpl_u8 buf[4096];
+    zpl_local_persist zpl_thread_local zpl_u8 buf[4096];
     return zpl_ucs2_to_utf8(buf, zpl_count_of(buf), str);
 }
 
-- 
2.43.0


From 5cedbd8c7c80ecf8a17bcf781ff7068424be1d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:59 +0000
Subject: [PATCH 138/152] fix: assertion reports read the condition's own text
 as a format

---
 code/header/essentials/debug.h | 2 +-
 code/source/essentials/debug.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/header/essentials/debug.h b/code/header/essentials/debug.h
index 5e40c67..4aec68d 100644
--- a/code/header/essentials/debug.h
+++ b/code/header/essentials/debug.h
@@ -33,7 +33,7 @@ ZPL_BEGIN_C_DECLS
 #endif
 
 #ifndef ZPL_ASSERT_NOT_NULL
-#    define ZPL_ASSERT_NOT_NULL(ptr) ZPL_ASSERT_MSG((ptr) != NULL, #ptr " must not be NULL")
+#    define ZPL_ASSERT_NOT_NULL(ptr) ZPL_ASSERT_MSG((ptr) != NULL, "%s must not be NULL", #ptr)
 #endif
 
 // NOTE: Things that shouldn't happen with a message!
diff --git a/code/source/essentials/debug.c b/code/source/essentials/debug.c
index cbabee8..5b7cab9 100644
--- a/code/source/essentials/debug.c
+++ b/code/source/essentials/debug.c
@@ -19,7 +19,7 @@ void zpl_assert_handler(char const *condition, char const *file, zpl_i32 line, c
 }
 
 zpl_i32 zpl_assert_crash(char const *condition) {
-    ZPL_PANIC(condition);
+    ZPL_PANIC("%s", condition);
     return 0;
 }
 
-- 
2.43.0


From 2f9cd5d04ab7f6c469f45fbbb73133e444663db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:49 +0000
Subject: [PATCH 139/152] fix: array and buffer macros misread arguments
 written as expressions or named like their own variables

---
 code/header/essentials/collections/array.h  | 14 +++++++-------
 code/header/essentials/collections/buffer.h | 12 ++++++------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/code/header/essentials/collections/array.h b/code/header/essentials/collections/array.h
index 430994c..4c4062d 100644
--- a/code/header/essentials/collections/array.h
+++ b/code/header/essentials/collections/array.h
@@ -85,7 +85,7 @@ ZPL_STATIC_ASSERT(ZPL_ARRAY_GROW_FORMULA(0) > 0, "ZPL_ARRAY_GROW_FORMULA(0) <= 0
 #define zpl_array_elem_size(x) (ZPL_ARRAY_HEADER(x)->elem_size)
 #define zpl_array_count(x)     (ZPL_ARRAY_HEADER(x)->count)
 #define zpl_array_capacity(x)  (ZPL_ARRAY_HEADER(x)->capacity)
-#define zpl_array_end(x)       (x + (zpl_array_count(x) - 1))
+#define zpl_array_end(x)       ((x) + (zpl_array_count(x) - 1))
 
 ZPL_IMPL_INLINE zpl_b8 zpl__array_init_reserve(void **zpl__array_, zpl_allocator allocator_, zpl_isize elem_size, zpl_isize cap) {
     zpl_array_header *zpl__ah =
@@ -146,7 +146,7 @@ ZPL_IMPL_INLINE zpl_b8 zpl__array_append_helper(void **x) {
     return true;
 }
 
-#define zpl_array_append(x, item) (zpl__array_append_helper(cast(void **) & (x)) && (((x)[zpl_array_count(x)++] = (item)), true))
+#define zpl_array_append(x, item) (zpl__array_append_helper(cast(void **) & (x)) && (((x)[zpl_array_count(x)] = (item)), zpl_array_count(x)++, true))
 
 ZPL_IMPL_INLINE zpl_b8 zpl__array_append_at_helper(void **x, zpl_isize ind) {
     if (ind >= zpl_array_count(*x)) ind = zpl_array_count(*x) - 1;
@@ -192,14 +192,14 @@ ZPL_IMPL_INLINE zpl_b8 zpl__array_appendv_at(void **x, void *items, zpl_isize it
 do {                                                                                                               \
     ZPL_ASSERT((begin) >= 0 && (end) <= zpl_array_count(x));                                               \
     ZPL_ASSERT(zpl_size_of(value) == zpl_size_of((x)[0]));                                                    \
-    for (zpl_isize i = (begin); i < (end); i++) { x[i] = value; }                                                  \
+    for (zpl_isize zpl__ai = (begin); zpl__ai < (end); zpl__ai++) { (x)[zpl__ai] = (value); }                      \
 } while (0)
 
 #define zpl_array_remove_at(x, index)                                                                                  \
 do {                                                                                                               \
     zpl_array_header *zpl__ah = ZPL_ARRAY_HEADER(x);                                                               \
-    ZPL_ASSERT(index < zpl__ah->count);                                                                            \
-    zpl_memmove(x + index, x + index + 1, zpl_size_of(x[0]) * (zpl__ah->count - index - 1));                           \
+    ZPL_ASSERT((index) < zpl__ah->count);                                                                          \
+    zpl_memmove((x) + (index), (x) + (index) + 1, zpl_size_of((x)[0]) * (zpl__ah->count - (index) - 1));               \
     --zpl__ah->count;                                                                                              \
 } while (0)
 
@@ -218,8 +218,8 @@ do {
     ZPL_ASSERT(ZPL_ARRAY_HEADER(x)->count > 0);                                                                    \
     ZPL_ARRAY_HEADER(x)->count--;                                                                                  \
 } while (0)
-#define zpl_array_back(x) x[ZPL_ARRAY_HEADER(x)->count - 1]
-#define zpl_array_front(x) x[0]
+#define zpl_array_back(x) (x)[ZPL_ARRAY_HEADER(x)->count - 1]
+#define zpl_array_front(x) (x)[0]
 #define zpl_array_clear(x)                                                                                             \
 do { ZPL_ARRAY_HEADER(x)->count = 0; } while (0)
 
diff --git a/code/header/essentials/collections/buffer.h b/code/header/essentials/collections/buffer.h
index 9a0c6bd..83bccd2 100644
--- a/code/header/essentials/collections/buffer.h
+++ b/code/header/essentials/collections/buffer.h
@@ -32,29 +32,29 @@ typedef struct zpl_buffer_header {
 #define ZPL_BUFFER_HEADER(x)   (cast(zpl_buffer_header *)(x) - 1)
 #define zpl_buffer_count(x)    (ZPL_BUFFER_HEADER(x)->count)
 #define zpl_buffer_capacity(x) (ZPL_BUFFER_HEADER(x)->capacity)
-#define zpl_buffer_end(x) (x + (zpl_buffer_count(x) - 1))
+#define zpl_buffer_end(x) ((x) + (zpl_buffer_count(x) - 1))
 #define zpl_buffer_allocator(x) (ZPL_BUFFER_HEADER(x)->backing)
 
 #define zpl_buffer_init(x, allocator, cap)                                                                             \
 do {                                                                                                               \
-    void **nx = cast(void **) & (x);                                                                               \
+    void **zpl__bx = cast(void **) & (x);                                                                          \
     zpl_buffer_header *zpl__bh =                                                                                   \
     cast(zpl_buffer_header *) zpl_alloc((allocator), sizeof(zpl_buffer_header) + (cap)*zpl_size_of(*(x)));     \
     zpl__bh->backing = allocator;                                                                                  \
     zpl__bh->count = 0;                                                                                            \
     zpl__bh->capacity = cap;                                                                                       \
-    *nx = cast(void *)(zpl__bh + 1);                                                                               \
+    *zpl__bx = cast(void *)(zpl__bh + 1);                                                                          \
 } while (0)
 
 #define zpl_buffer_free(x) (zpl_free(ZPL_BUFFER_HEADER(x)->backing, ZPL_BUFFER_HEADER(x)))
 
 #define zpl_buffer_append(x, item)                                                                                     \
-do { (x)[zpl_buffer_count(x)++] = (item); } while (0)
+do { (x)[zpl_buffer_count(x)] = (item); zpl_buffer_count(x)++; } while (0)
 
 #define zpl_buffer_appendv(x, items, item_count)                                                                       \
 do {                                                                                                               \
     ZPL_ASSERT(zpl_size_of(*(items)) == zpl_size_of(*(x)));                                                        \
-    ZPL_ASSERT(zpl_buffer_count(x) + item_count <= zpl_buffer_capacity(x));                                        \
+    ZPL_ASSERT(zpl_buffer_count(x) + (item_count) <= zpl_buffer_capacity(x));                                      \
     zpl_memcopy(&(x)[zpl_buffer_count(x)], (items), zpl_size_of(*(x)) * (item_count));                             \
     zpl_buffer_count(x) += (item_count);                                                                           \
 } while (0)
@@ -62,7 +62,7 @@ do {
 #define zpl_buffer_copy_init(y, x)                                                                                     \
 do {                                                                                                               \
     zpl_buffer_init(y, zpl_buffer_allocator(x), zpl_buffer_capacity(x));                                   \
-    zpl_memcopy(y, x, zpl_buffer_capacity(x) * zpl_size_of(*x));                                                   \
+    zpl_memcopy(y, x, zpl_buffer_capacity(x) * zpl_size_of(*(x)));                                                 \
     zpl_buffer_count(y) = zpl_buffer_count(x);                                                                     \
 } while (0)
 
-- 
2.43.0


From dba9f8245fdeac8a85822de387a4501d4542a51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:51 +0000
Subject: [PATCH 140/152] fix: helper macros misread arguments written as
 expressions or named like their own variables

---
 code/header/essentials/helpers.h | 4 ++--
 code/header/essentials/memory.h  | 4 ++--
 code/header/math.h               | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/code/header/essentials/helpers.h b/code/header/essentials/helpers.h
index 459c7be..abb7768 100644
--- a/code/header/essentials/helpers.h
+++ b/code/header/essentials/helpers.h
@@ -53,9 +53,9 @@ member)
 #ifndef zpl_swap
 #    define zpl_swap(Type, a, b) \
 do {                         \
-Type tmp = (a);          \
+Type zpl__tmp = (a);     \
 (a) = (b);               \
-(b) = tmp;               \
+(b) = zpl__tmp;          \
 } while (0)
 #endif
 
diff --git a/code/header/essentials/memory.h b/code/header/essentials/memory.h
index 00dde1e..d69fbd1 100644
--- a/code/header/essentials/memory.h
+++ b/code/header/essentials/memory.h
@@ -55,7 +55,7 @@ ZPL_DEF_INLINE void zpl_zero_size(void *ptr, zpl_isize size);
 #define zpl_zero_item(t) zpl_zero_size((t), zpl_size_of(*(t))) // NOTE: Pass pointer of struct
 
 //! Clears up an array.
-#define zpl_zero_array(a, count) zpl_zero_size((a), zpl_size_of(*(a)) * count)
+#define zpl_zero_array(a, count) zpl_zero_size((a), zpl_size_of(*(a)) * (count))
 #endif
 
 //! Copy memory from source to destination.
@@ -94,7 +94,7 @@ ZPL_DEF void *zpl_memcopy(void *dest, void const *source, zpl_isize size);
 #define ZPL_BIT_CAST(dest, source)                                                                                 \
 do {                                                                                                               \
     ZPL_STATIC_ASSERT(zpl_size_of(*(dest)) <= zpl_size_of(source), "zpl_size_of(*(dest)) !<= zpl_size_of(source)");\
-    zpl_memcopy((dest), &(source), zpl_size_of(*dest));                                                            \
+    zpl_memcopy((dest), &(source), zpl_size_of(*(dest)));                                                          \
 } while (0)
 #endif
 
diff --git a/code/header/math.h b/code/header/math.h
index 4580b3b..97e6b23 100644
--- a/code/header/math.h
+++ b/code/header/math.h
@@ -167,7 +167,7 @@ typedef short zpl_half;
 #endif
 
 #ifndef zpl_sign0
-#define zpl_sign0(x) ((x == 0.0f) ? 0.0f : ((x) >= 0.0f ? 1.0f : -1.0f))
+#define zpl_sign0(x) (((x) == 0.0f) ? 0.0f : ((x) >= 0.0f ? 1.0f : -1.0f))
 #endif
 
 ZPL_DEF zpl_f32 zpl_to_radians(zpl_f32 degrees);
-- 
2.43.0


From ec94b280b2363bf655bb5cdbb5dfec14f15a85de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:53 +0000
Subject: [PATCH 141/152] fix: zpl_adt_append and zpl_adt_set cut a float value
 down to an integer

---
 code/header/adt.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/header/adt.h b/code/header/adt.h
index 2762bdf..03494e8 100644
--- a/code/header/adt.h
+++ b/code/header/adt.h
@@ -380,11 +380,13 @@ ZPL_DEF zpl_adt_error zpl_adt_print_string(zpl_file *file, zpl_adt_node *node, c
                                                               char*: zpl_adt_append_str, \
                                                               char const*: zpl_adt_append_str, \
                                                               zpl_f64: zpl_adt_append_flt, \
+                                                              zpl_f32: zpl_adt_append_flt, \
                                                               default: zpl_adt_append_int)(parent, name, value)
 #define zpl_adt_set(obj, name, value) _Generic((value), \
                                                               char*: zpl_adt_set_str, \
                                                               char const*: zpl_adt_set_str, \
                                                               zpl_f64: zpl_adt_set_flt, \
+                                                              zpl_f32: zpl_adt_set_flt, \
                                                               default: zpl_adt_set_int)(obj, name, value)
 #endif
 
-- 
2.43.0


From 454ea3f9df7af05e2ef377d1e20f8210fd4dc7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:52 +0000
Subject: [PATCH 142/152] fix: text too long for zpl_string_append_fmt was
 dropped altogether

---
 code/source/core/stringlib.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/source/core/stringlib.c b/code/source/core/stringlib.c
index 8fc5575..9c9ee86 100644
--- a/code/source/core/stringlib.c
+++ b/code/source/core/stringlib.c
@@ -204,9 +204,10 @@ zpl_string zpl_string_append_fmt(zpl_string str, const char *fmt, ...) {
     char buf[ZPL_PRINTF_MAXLEN] = { 0 };
     va_list va;
     va_start(va, fmt);
-    res = zpl_snprintf_va(buf, zpl_count_of(buf) - 1, fmt, va) - 1;
+    res = zpl_snprintf_va(buf, zpl_count_of(buf), fmt, va);
     va_end(va);
-    return zpl_string_append_length(str, buf, res);
+    // NOTE: text that does not fit is cut off, but it is still appended
+    return zpl_string_append_length(str, buf, res < 0 ? zpl_strlen(buf) : res - 1);
 }
 
 ZPL_END_C_DECLS
-- 
2.43.0


From a6a2e6cfa084a3677aa39a4f7a2580ee0c2d1a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:06 +0000
Subject: [PATCH 143/152] fix: packing a file too large for the archive format,
 or a folder, wrote a wrong size

---
 code/source/core/file_tar.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/source/core/file_tar.c b/code/source/core/file_tar.c
index 350d8df..5d9e6b1 100644
--- a/code/source/core/file_tar.c
+++ b/code/source/core/file_tar.c
@@ -52,6 +52,10 @@ zpl_isize zpl_tar_pack(zpl_file *archive, char const **paths, zpl_isize paths_le
         }
 
         zpl_i64 file_size = zpl_file_size(&file);
+        if (file_size < 0 || file_size > 077777777777) { /* more than the size field can hold */
+            zpl_file_close(&file);
+            return -(ZPL_TAR_ERROR_INVALID_INPUT);
+        }
         zpl_memcopy(hr.name, paths[i], name_len);
         zpl_snprintf(hr.size, 12, "%llo", file_size);
         zpl_snprintf(hr.mode, 8, "%o", 0664);
-- 
2.43.0


From 7d94c53306d1735f046837d1768fc5b784a49012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:56 +0000
Subject: [PATCH 144/152] fix: listing an archive cut offsets and lengths to 32
 bits

---
 code/source/core/file_tar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/file_tar.c b/code/source/core/file_tar.c
index 5d9e6b1..beb1e4a 100644
--- a/code/source/core/file_tar.c
+++ b/code/source/core/file_tar.c
@@ -195,7 +195,7 @@ ZPL_TAR_UNPACK_PROC(zpl_tar_default_list_file) {
         return 0; /* we only care about regular files */
 
     /* proceed as usual */
-    zpl_printf("name: %s, offset: %d, length: %d\n", file->path, file->offset, file->length);
+    zpl_printf("name: %s, offset: %lld, length: %lld\n", file->path, file->offset, file->length);
     return 0;
 }
 
-- 
2.43.0


From be8a1ca7a4434207374eacb725fa93e08cd1f1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:28 +0000
Subject: [PATCH 145/152] fix: binding a thread to a processor did nothing on
 Linux and reported success

---
 code/source/threading/affinity.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/code/source/threading/affinity.c b/code/source/threading/affinity.c
index 62f7d37..b18f450 100644
--- a/code/source/threading/affinity.c
+++ b/code/source/threading/affinity.c
@@ -3,6 +3,9 @@
 
 #if defined(ZPL_SYSTEM_MACOS)
 #    include <sys/sysctl.h>
+#elif defined(ZPL_SYSTEM_LINUX)
+#    include <sys/syscall.h>
+#    include <unistd.h>
 #endif
 
 ZPL_BEGIN_C_DECLS
@@ -152,10 +155,22 @@ ZPL_BEGIN_C_DECLS
     }
 
     zpl_b32 zpl_affinity_set(zpl_affinity * a, zpl_isize core, zpl_isize thread_index) {
+#    if defined(ZPL_SYSTEM_LINUX)
+        unsigned long mask[1024 / (8 * sizeof(unsigned long))] = {0};
+        zpl_isize bits = 8 * zpl_size_of(unsigned long);
+        zpl_isize index = core * a->threads_per_core + thread_index;
+
+        if (core < 0 || core >= a->core_count || thread_index < 0 || thread_index >= a->threads_per_core || index >= 1024)
+            return false;
+
+        mask[index / bits] |= 1ul << (index % bits);
+        return syscall(SYS_sched_setaffinity, 0, zpl_size_of(mask), mask) == 0;
+#    else
         zpl_unused(a);
         zpl_unused(core);
         zpl_unused(thread_index);
         return true;
+#    endif
     }
 
     zpl_isize zpl_affinity_thread_count_for_core(zpl_affinity *a, zpl_isize core) {
-- 
2.43.0


From bc27841550e5cac46427b58cb62154f39210c659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:43 +0000
Subject: [PATCH 146/152] fix: fractions with a precision were not padded with
 zeros

---
 code/source/core/print.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/source/core/print.c b/code/source/core/print.c
index 078701d..d863f98 100644
--- a/code/source/core/print.c
+++ b/code/source/core/print.c
@@ -138,7 +138,7 @@ zpl_internal zpl_isize zpl__print_copy(char *text, zpl_isize max_len, zpl_isize
 
 zpl_internal zpl_isize zpl__print_string(char *text, zpl_isize max_len, zpl__format_info *info, char const *str) {
     zpl_isize res = 0, len = 0, padding = 0;
-    char pad = (info && info->flags & ZPL_FMT_ZERO) ? '0' : ' ';
+    char pad = (info && info->flags & ZPL_FMT_ZERO && info->precision < 0) ? '0' : ' ';
 
     if (str == NULL) str = "(null)";
 
@@ -190,7 +190,8 @@ zpl_internal zpl_isize zpl__print_number(char *text, zpl_isize max_len, zpl__for
     if (info->precision > len) zeros = info->precision - len;
     if (info->width > sign + zeros + len) padding = info->width - (sign + zeros + len);
 
-    if ((info->flags & ZPL_FMT_ZERO) && !(info->flags & ZPL_FMT_MINUS)) {
+    // NOTE: zero padding is for numbers without an explicit precision
+    if ((info->flags & ZPL_FMT_ZERO) && !(info->flags & ZPL_FMT_MINUS) && info->precision < 0) {
         zeros += padding;
         padding = 0;
     }
@@ -334,7 +335,6 @@ ZPL_NEVER_INLINE zpl_isize zpl_snprintf_va(char *text, zpl_isize max_len, char c
             } else {
                 info.precision = cast(zpl_i32) zpl_str_to_i64(fmt, cast(char **) & fmt, 10);
             }
-            info.flags &= ~ZPL_FMT_ZERO;
         }
 
         switch (*fmt++) {
-- 
2.43.0


From 5bc46be76a282ad096ca870ed2ea08b5ba60e447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:25 +0000
Subject: [PATCH 147/152] fix: the sign flags were ignored for integers, and
 the space flag everywhere

---
 code/source/core/print.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/code/source/core/print.c b/code/source/core/print.c
index d863f98..36b5125 100644
--- a/code/source/core/print.c
+++ b/code/source/core/print.c
@@ -176,7 +176,7 @@ zpl_internal zpl_isize zpl__print_repeated_char(char *text, zpl_isize max_len, z
 }
 
 zpl_internal zpl_isize zpl__print_number(char *text, zpl_isize max_len, zpl__format_info *info, char *num) {
-    zpl_isize res = 0, sign = (*num == '-'), len = zpl_strlen(num) - sign, zeros = 0, padding = 0;
+    zpl_isize res = 0, sign = (*num == '-' || *num == '+' || *num == ' '), len = zpl_strlen(num) - sign, zeros = 0, padding = 0;
 
     if (info->width == 0 && info->flags & ZPL_FMT_WIDTH) return 0;
 
@@ -207,7 +207,9 @@ zpl_internal zpl_isize zpl__print_number(char *text, zpl_isize max_len, zpl__for
 
 zpl_internal zpl_isize zpl__print_i64(char *text, zpl_isize max_len, zpl__format_info *info, zpl_i64 value) {
     char num[130];
-    zpl_i64_to_str(value, num, info->base);
+    zpl_isize sign = value >= 0 && (info->flags & (ZPL_FMT_PLUS | ZPL_FMT_SPACE));
+    num[0] = (info->flags & ZPL_FMT_PLUS) ? '+' : ' ';
+    zpl_i64_to_str(value, num + sign, info->base);
     return zpl__print_number(text, max_len, info, num);
 }
 
@@ -234,8 +236,8 @@ zpl_internal zpl_isize zpl__print_f64(char *text, zpl_isize max_len, zpl__format
         if (arg < 0) {
             num[len++] = '-';
             arg = -arg;
-        } else if (info->flags & ZPL_FMT_PLUS) {
-            num[len++] = '+';
+        } else if (info->flags & (ZPL_FMT_PLUS | ZPL_FMT_SPACE)) {
+            num[len++] = (info->flags & ZPL_FMT_PLUS) ? '+' : ' ';
         }
 
         value = cast(zpl_u64) arg;
@@ -263,12 +265,13 @@ zpl_internal zpl_isize zpl__print_f64(char *text, zpl_isize max_len, zpl__format
             }
         }
     } else {
+        if (info->flags & (ZPL_FMT_PLUS | ZPL_FMT_SPACE)) num[len++] = (info->flags & ZPL_FMT_PLUS) ? '+' : ' ';
         num[len++] = '0';
         if (info->flags & ZPL_FMT_ALT) num[len++] = '.';
     }
 
     padding = info->width - (len + zeros);
-    sign = (num[0] == '-' || num[0] == '+');
+    sign = (num[0] == '-' || num[0] == '+' || num[0] == ' ');
     if (!(info->flags & (ZPL_FMT_MINUS | ZPL_FMT_ZERO))) res = zpl__print_fill(text, max_len, res, padding, ' ');
     res = zpl__print_copy(text, max_len, res, num, sign);
     if (!(info->flags & ZPL_FMT_MINUS) && (info->flags & ZPL_FMT_ZERO)) res = zpl__print_fill(text, max_len, res, padding, '0');
-- 
2.43.0


From ea082b885895856c8ea46bf43d99a0ef8ff47845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:33 +0000
Subject: [PATCH 148/152] fix: reading more than the system gives at a time
 returned only a part

---
 code/source/core/file.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/code/source/core/file.c b/code/source/core/file.c
index ce17d8c..0abb9f9 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -173,14 +173,21 @@ ZPL_BEGIN_C_DECLS
 
     zpl_internal ZPL_FILE_READ_AT_PROC(zpl__posix_file_read) {
         zpl_unused(stop_at_newline);
-        zpl_isize res;
+        zpl_isize res, total = 0;
+        zpl_b32 has_offsets = true;
+        // NOTE: the system may give only a part at a time, or be interrupted
         do {
-            res = pread(fd.i, buffer, size, offset);
+            char *rest = cast(char *) buffer + total;
+            res = pread(fd.i, rest, size - total, offset + total);
             // NOTE: pipes, sockets and terminals have no offsets
-            if (res < 0 && errno == ESPIPE) res = read(cast(int) fd.i, buffer, size);
-        } while (res < 0 && errno == EINTR);
+            if (res < 0 && errno == ESPIPE) {
+                has_offsets = false;
+                res = read(cast(int) fd.i, rest, size - total);
+            }
+            if (res > 0) total += res;
+        } while ((res < 0 && errno == EINTR) || (has_offsets && res > 0 && total < size));
         if (res < 0) return false;
-        if (bytes_read) *bytes_read = res;
+        if (bytes_read) *bytes_read = total;
         return true;
     }
 
-- 
2.43.0


From 841361ff7444ed7e51d444ecf606dfea1c5e2472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:10 +0000
Subject: [PATCH 149/152] fix: a wrapped ring allocator took every other
 address for one in use

---
 code/source/essentials/memory_custom.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index 202f233..0a594dd 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -319,7 +319,8 @@ void zpl_scratch_memory_init(zpl_scratch_memory *s, void *start, zpl_isize size)
 zpl_b32 zpl_scratch_memory_is_in_use(zpl_scratch_memory *s, void *ptr) {
     if (s->free_point == s->alloc_point) return false;
     if (s->alloc_point > s->free_point) return ptr >= s->free_point && ptr < s->alloc_point;
-    return ptr >= s->free_point || ptr < s->alloc_point;
+    if (ptr >= s->free_point) return ptr < zpl_pointer_add(s->physical_start, s->total_size);
+    return ptr >= s->physical_start && ptr < s->alloc_point;
 }
 
 zpl_allocator zpl_scratch_allocator(zpl_scratch_memory *s) {
-- 
2.43.0


From c529499b6dd766d2388b44a51fa7b3c92b00ac73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:01 +0000
Subject: [PATCH 150/152] fix: copying a file gave up when the system call was
 interrupted

---
 code/source/core/file_misc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index 3aeb0fa..d5d579e 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -147,6 +147,7 @@ ZPL_BEGIN_C_DECLS
         size = 0;
         while (size < stat_existing.st_size) {
             zpl_isize sent = sendfile(new_fd, existing_fd, 0, stat_existing.st_size - size);
+            if (sent < 0 && errno == EINTR) continue;
             if (sent <= 0) break;
             size += sent;
         }
-- 
2.43.0


From b9930c7c1f9862ed4ebb202e12f488ffc941fc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:46 +0000
Subject: [PATCH 151/152] fix: write JSON documents whose names exceed the
 formatted printing limit

---
 code/source/parsers/json.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index 5a6b466..b8ad864 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -28,6 +28,15 @@ do {
     if (zpl_fprintf(s_, fmt_, ##__VA_ARGS__) < 0) return false;                                                    \
 } while (0)
 
+/* names can be longer than what formatted printing takes */
+#define zpl__json_write_name(s_, quote_, name_)                                                                        \
+do {                                                                                                               \
+    char const *n_ = (name_) ? (name_) : "(null)";                                                                 \
+    zpl__json_fprintf(s_, "%s", quote_);                                                                           \
+    if (!zpl_file_write(s_, n_, zpl_strlen(n_))) return false;                                                     \
+    zpl__json_fprintf(s_, "%s", quote_);                                                                           \
+} while (0)
+
 #define zpl___ind(x) if (x > 0) zpl__json_fprintf(f, "%*r", x, ' ');
 
 zpl_u8 zpl_json_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
@@ -490,15 +499,15 @@ zpl_b8 zpl__json_write_value(zpl_file *f, zpl_adt_node *o, zpl_adt_node *t, zpl_
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
             switch (node->name_style) {
                 case ZPL_ADT_NAME_STYLE_DOUBLE_QUOTE: {
-                    zpl__json_fprintf(f, "\"%s\"", node->name);
+                    zpl__json_write_name(f, "\"", node->name);
                 } break;
 
                 case ZPL_ADT_NAME_STYLE_SINGLE_QUOTE: {
-                    zpl__json_fprintf(f, "\'%s\'", node->name);
+                    zpl__json_write_name(f, "\'", node->name);
                 } break;
 
                 case ZPL_ADT_NAME_STYLE_NO_QUOTES: {
-                    zpl__json_fprintf(f, "%s", node->name);
+                    zpl__json_write_name(f, "", node->name);
                 } break;
             }
 
@@ -515,7 +524,8 @@ zpl_b8 zpl__json_write_value(zpl_file *f, zpl_adt_node *o, zpl_adt_node *t, zpl_
                 }
             }
 #else
-            zpl__json_fprintf(f, "\"%s\":%s", node->name, zpl__json_string_space(indent));
+            zpl__json_write_name(f, "\"", node->name);
+            zpl__json_fprintf(f, ":%s", zpl__json_string_space(indent));
 #endif
         }
     }
@@ -585,6 +595,7 @@ zpl_b8 zpl__json_write_value(zpl_file *f, zpl_adt_node *o, zpl_adt_node *t, zpl_
 }
 
 #undef zpl__json_fprintf
+#undef zpl__json_write_name
 #undef zpl___ind
 
 ZPL_END_C_DECLS
-- 
2.43.0


From 8c9173eab7eafc12b2db54869cad3007b4514854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:09 +0000
Subject: [PATCH 152/152] fix: look up names and values longer than the
 formatted printing limit

---
 code/source/adt.c | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index 7f52d2d..55e223e 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -146,7 +146,12 @@ zpl_adt_node *zpl_adt_query(zpl_adt_node *node, char const *uri) {
 
     b = p;
     p = e = (char*)zpl_str_skip(p, '/');
-    char *buf = zpl_bprintf("%.*s", (int)(e - b), b);
+    zpl_isize len = e - b;
+    zpl_b32 is_long = len >= ZPL_PRINTF_MAXLEN; /* formatted printing would cut it off */
+    char *buf = is_long ? zpl_alloc_str_len(zpl_heap(), b, len) : zpl_bprintf("%.*s", (int)len, b);
+
+    if (!buf)
+        return NULL;
 
     /* handle field value lookup */
     if (*b == '[') {
@@ -155,6 +160,7 @@ zpl_adt_node *zpl_adt_query(zpl_adt_node *node, char const *uri) {
         l_e2 = (char*)zpl_str_skip(l_p, ']');
 
         if ((!*l_e && node->type != ZPL_ADT_TYPE_ARRAY) || !*l_e2) {
+            if (is_long) zpl_mfree(buf);
             ZPL_ASSERT_MSG(0, "Invalid field value lookup");
             return NULL;
         }
@@ -197,19 +203,10 @@ zpl_adt_node *zpl_adt_query(zpl_adt_node *node, char const *uri) {
             }
         }
 
-        /* go deeper if uri continues */
-        if (*e) {
-            return zpl_adt_query(found_node, e+1);
-        }
     }
     /* handle field name lookup */
     else if (node->type == ZPL_ADT_TYPE_OBJECT) {
         found_node = zpl_adt_find(node, buf, false);
-
-        /* go deeper if uri continues */
-        if (*e) {
-            return zpl_adt_query(found_node, e+1);
-        }
     }
     /* handle array index lookup */
     else {
@@ -220,14 +217,16 @@ zpl_adt_node *zpl_adt_query(zpl_adt_node *node, char const *uri) {
         }
         if (idx_end != buf && *idx_end == 0 && idx < zpl_array_count(node->nodes)) {
             found_node = &node->nodes[idx];
-
-            /* go deeper if uri continues */
-            if (*e) {
-                return zpl_adt_query(found_node, e+1);
-            }
         }
     }
 
+    if (is_long) zpl_mfree(buf);
+
+    /* go deeper if uri continues */
+    if (*e) {
+        return zpl_adt_query(found_node, e+1);
+    }
+
     return found_node;
 }
 
-- 
2.43.0

