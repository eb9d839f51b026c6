From 76dabce048ba7a22d35c726af854e0be57ef8a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:33 +0000
Subject: [PATCH 001/104] fix: fifo: write the record header at the tail and in
 the byte order it is read

fifo_record_poke() stored the length of a new record at the head of the queue,
overwriting the header of the oldest record, and least significant byte first
while fifo_record_peek() reads it most significant byte first.
---
 src/fifo.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/fifo.c b/src/fifo.c
index ec1adc4..9c01b5b 100644
--- a/src/fifo.c
+++ b/src/fifo.c
@@ -80,7 +80,7 @@ fifo_record_poke(bfdev_fifo_t *fifo, unsigned long len, unsigned long recsize)
     uint8_t *data;
 
     mask = fifo->mask;
-    offset = fifo->out;
+    offset = fifo->in;
     data = fifo->data;
 
     if (fifo->esize != 1) {
@@ -90,9 +90,8 @@ fifo_record_poke(bfdev_fifo_t *fifo, unsigned long len, unsigned long recsize)
     }
 
     while (recsize--) {
-        data[offset & mask] = (uint8_t)len;
+        data[offset & mask] = (uint8_t)(len >> (recsize * BFDEV_BITS_PER_U8));
         offset += fifo->esize;
-        len >>= BFDEV_BITS_PER_U8;
     }
 }
 
-- 
2.43.0


From 304383591b656617c533a0138c2fb3d5af274208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 002/104] fix: fifo: count objects, not bytes, when a record
 holds one object

bfdev_fifo_put(), bfdev_fifo_get() and bfdev_fifo_peek() passed sizeof(object)
as the number of elements of the record, so a record fifo of elements wider
than a byte read and wrote past the object.
---
 include/bfdev/fifo.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/fifo.h b/include/bfdev/fifo.h
index 7475dd1..5073a52 100644
--- a/include/bfdev/fifo.h
+++ b/include/bfdev/fifo.h
@@ -308,7 +308,8 @@ struct bfdev_fifo {
     unsigned long __retval;                                 \
     if (__recsize) {                                        \
         __retval = bfdev_fifo_peek_record(__fifo,           \
-            __tvalue, sizeof(*__tvalue), __recsize);        \
+            __tvalue, sizeof(*__tvalue) / __fifo->esize,    \
+            __recsize);                                     \
     } else {                                                \
         __retval = !bfdev_fifo_check_empty(__tmp);          \
         if (__retval) {                                     \
@@ -335,7 +336,8 @@ struct bfdev_fifo {
     unsigned long __retval;                                 \
     if (__recsize) {                                        \
         __retval = bfdev_fifo_out_record(__fifo,            \
-            __tvalue, sizeof(*__tvalue), __recsize);        \
+            __tvalue, sizeof(*__tvalue) / __fifo->esize,    \
+            __recsize);                                     \
     } else {                                                \
         __retval = !bfdev_fifo_check_empty(__tmp);          \
         if (__retval) {                                     \
@@ -363,7 +365,8 @@ struct bfdev_fifo {
     unsigned long __retval;                                 \
     if (__recsize) {                                        \
         __retval = bfdev_fifo_in_record(__fifo,             \
-            &__tvalue, sizeof(__tvalue), __recsize);        \
+            &__tvalue, sizeof(__tvalue) / __fifo->esize,    \
+            __recsize);                                     \
     } else {                                                \
         __retval = !bfdev_fifo_check_full(__tmp);           \
         if (__retval) {                                     \
-- 
2.43.0


From 4a5151754f9c7004651b81770fa7575fe66f2598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:55 +0000
Subject: [PATCH 003/104] fix: fifo: refuse a record whose length does not fit
 its header

A longer record was queued with a truncated length, and its remaining bytes
were then taken for the following records.
---
 src/fifo.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fifo.c b/src/fifo.c
index 9c01b5b..ea1873c 100644
--- a/src/fifo.c
+++ b/src/fifo.c
@@ -186,6 +186,10 @@ export unsigned long
 bfdev_fifo_in_record(bfdev_fifo_t *fifo, const void *buff, unsigned long len,
                      unsigned long record)
 {
+    /* the length must fit in the record header */
+    if (record < sizeof(len) && len >> (record * BFDEV_BITS_PER_U8))
+        return 0;
+
     if (len + record > fifo_unused(fifo))
         return 0;
 
-- 
2.43.0


From ac7a71a2e21daa80ed1588197b195d9886263679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:55 +0000
Subject: [PATCH 004/104] fix: ringbuf: write the record header in front of the
 record

ringbuf_record_poke() stored the length of a new record at the head of the
buffer, overwriting the header of the oldest record, and least significant
byte first while ringbuf_record_peek() reads it most significant byte first.
---
 src/ringbuf.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/ringbuf.c b/src/ringbuf.c
index b78a6fe..fe193d1 100644
--- a/src/ringbuf.c
+++ b/src/ringbuf.c
@@ -74,13 +74,13 @@ ringbuf_record_peek(bfdev_ringbuf_t *ringbuf, unsigned long recsize)
 }
 
 static __bfdev_always_inline void
-ringbuf_record_poke(bfdev_ringbuf_t *ringbuf, unsigned long len, unsigned long recsize)
+ringbuf_record_poke(bfdev_ringbuf_t *ringbuf, unsigned long len,
+                    unsigned long recsize, unsigned long offset)
 {
-    unsigned long mask, offset;
+    unsigned long mask;
     uint8_t *data;
 
     mask = ringbuf->mask;
-    offset = ringbuf->out;
     data = ringbuf->data;
 
     if (ringbuf->esize != 1) {
@@ -90,9 +90,8 @@ ringbuf_record_poke(bfdev_ringbuf_t *ringbuf, unsigned long len, unsigned long r
     }
 
     while (recsize--) {
-        data[offset & mask] = (uint8_t)len;
+        data[offset & mask] = (uint8_t)(len >> (recsize * BFDEV_BITS_PER_U8));
         offset += ringbuf->esize;
-        len >>= BFDEV_BITS_PER_U8;
     }
 }
 
@@ -216,7 +215,7 @@ bfdev_ringbuf_in_record(bfdev_ringbuf_t *ringbuf, const void *buff, unsigned lon
         overflow -= bfdev_min(datalen, overflow);
     }
 
-    ringbuf_record_poke(ringbuf, len, record);
+    ringbuf_record_poke(ringbuf, len, record, offset - record);
     ringbuf_in_copy(ringbuf, buff, len, offset);
 
     return len;
-- 
2.43.0


From 751a71aff36ab9d2e61df33b7fc5d09d86171d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 005/104] fix: ringbuf: count objects, not bytes, when a record
 holds one object

bfdev_ringbuf_put(), bfdev_ringbuf_get() and bfdev_ringbuf_peek() passed
sizeof(object) as the number of elements of the record, so a record ringbuf of
elements wider than a byte read and wrote past the object.
---
 include/bfdev/ringbuf.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/ringbuf.h b/include/bfdev/ringbuf.h
index 19e46b7..1557625 100644
--- a/include/bfdev/ringbuf.h
+++ b/include/bfdev/ringbuf.h
@@ -308,7 +308,8 @@ struct bfdev_ringbuf {
     unsigned long __retval;                                 \
     if (__recsize) {                                        \
         __retval = bfdev_ringbuf_peek_record(__ringbuf,     \
-            __tvalue, sizeof(*__tvalue), __recsize);        \
+            __tvalue, sizeof(*__tvalue) / __ringbuf->esize, \
+            __recsize);                                     \
     } else {                                                \
         __retval = !bfdev_ringbuf_check_empty(__tmp);       \
         if (__retval) {                                     \
@@ -335,7 +336,8 @@ struct bfdev_ringbuf {
     unsigned long __retval;                                 \
     if (__recsize) {                                        \
         __retval = bfdev_ringbuf_out_record(__ringbuf,      \
-            __tvalue, sizeof(*__tvalue), __recsize);        \
+            __tvalue, sizeof(*__tvalue) / __ringbuf->esize, \
+            __recsize);                                     \
     } else {                                                \
         __retval = !bfdev_ringbuf_check_empty(__tmp);       \
         if (__retval) {                                     \
@@ -363,7 +365,8 @@ struct bfdev_ringbuf {
     unsigned long __retval;                                 \
     if (__recsize) {                                        \
         __retval = bfdev_ringbuf_in_record(__ringbuf,       \
-            &__tvalue, sizeof(__tvalue), __recsize);        \
+            &__tvalue, sizeof(__tvalue) / __ringbuf->esize, \
+            __recsize);                                     \
     } else {                                                \
         __retval = bfdev_ringbuf_check_full(__tmp);         \
         if (__retval)                                       \
-- 
2.43.0


From 7448c24822d021726b51a970a2e4aa6dc8fbc36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 006/104] fix: ringbuf: limit a record to what the buffer and
 its header can hold

The length was clamped to the size of the buffer without room for the header,
and not to the range of the header: a long record overwrote its own header, or
evicted more than the buffer held.
---
 src/ringbuf.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ringbuf.c b/src/ringbuf.c
index fe193d1..8d36564 100644
--- a/src/ringbuf.c
+++ b/src/ringbuf.c
@@ -203,7 +203,11 @@ bfdev_ringbuf_in_record(bfdev_ringbuf_t *ringbuf, const void *buff, unsigned lon
     unsigned long overflow, datalen;
 
     size = ringbuf->mask + 1;
-    bfdev_min_adj(len, size);
+    bfdev_min_adj(len, size - record);
+
+    /* the length must fit in the record header */
+    if (record < sizeof(len))
+        bfdev_min_adj(len, (1UL << (record * BFDEV_BITS_PER_U8)) - 1);
 
     offset = ringbuf->in + record;
     ringbuf->in = offset + len;
-- 
2.43.0


From f2cd78cce342ae04df35821a8e1ae26cafa0a07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:32 +0000
Subject: [PATCH 007/104] fix: array: refuse counts whose storage size is not
 representable

---
 src/array.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/array.c b/src/array.c
index 2088850..5fdd849 100644
--- a/src/array.c
+++ b/src/array.c
@@ -14,11 +14,14 @@ array_reqsize(bfdev_array_t *array, unsigned long count)
 {
     unsigned long request;
     size_t size;
+    bool overflow;
 
-    request = bfdev_max(BFDEV_ARRAY_MSIZE, count);
-    size = bfdev_pow2_roundup(request * array->cells);
+    request = bfdev_max(count, BFDEV_ARRAY_MSIZE);
+    overflow = bfdev_overflow_check_mul(request, array->cells, &size);
+    if (bfdev_unlikely(overflow || size > BFDEV_ULONG_MAX / 2 + 1))
+        return 0;
 
-    return size;
+    return bfdev_pow2_roundup(size);
 }
 
 static inline int
@@ -47,6 +50,9 @@ array_apply(bfdev_array_t *array, unsigned long count)
         return -BFDEV_ENOERR;
 
     reqsize = array_reqsize(array, count);
+    if (bfdev_unlikely(!reqsize))
+        return -BFDEV_EOVERFLOW;
+
     BFDEV_BUG_ON(count * array->cells > reqsize);
 
     return array_resize(array, reqsize);
-- 
2.43.0


From 8c894eb458e03f48951292b28a292b7a72ea6f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:44 +0000
Subject: [PATCH 008/104] fix: hlist: link the new node in front when adding
 before a node

---
 include/bfdev/hlist.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/hlist.h b/include/bfdev/hlist.h
index fe93023..475e464 100644
--- a/include/bfdev/hlist.h
+++ b/include/bfdev/hlist.h
@@ -128,8 +128,8 @@ bfdev_hlist_prev_add(bfdev_hlist_node_t *node, bfdev_hlist_node_t *newn)
 
     newn->pprev = node->pprev;
     newn->next = node;
-    node->pprev = &node->next;
-    *node->pprev = newn;
+    node->pprev = &newn->next;
+    *newn->pprev = newn;
 }
 
 /**
-- 
2.43.0


From 059c9f23de8c0eb69bd1b6c3e03e2c0c5b472d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:57 +0000
Subject: [PATCH 009/104] fix: hlist: point the next node back at the new node
 when adding behind a node

---
 include/bfdev/hlist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/hlist.h b/include/bfdev/hlist.h
index 475e464..6541171 100644
--- a/include/bfdev/hlist.h
+++ b/include/bfdev/hlist.h
@@ -109,7 +109,7 @@ bfdev_hlist_next_add(bfdev_hlist_node_t *node, bfdev_hlist_node_t *newn)
     newn->next = node->next;
 
     if (newn->next)
-        newn->next->pprev = &node->next;
+        newn->next->pprev = &newn->next;
     node->next = newn;
 }
 
-- 
2.43.0


From cee31c30447b475a96f8c3065aa6c4cce022bd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:18 +0000
Subject: [PATCH 010/104] fix: rbtree: repair the cached remove_augmented and
 find_last wrappers

---
 include/bfdev/rbtree.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/rbtree.h b/include/bfdev/rbtree.h
index f8ef9fc..bcc315e 100644
--- a/include/bfdev/rbtree.h
+++ b/include/bfdev/rbtree.h
@@ -225,7 +225,7 @@ bfdev_rb_parent(bfdev_rb_root_t *root, bfdev_rb_node_t **parentp,
 #define bfdev_rb_cached_erase_augmented(cached, parent, callbacks) \
     bfdev_rb_erase_augmented(&(cached)->root, parent, callbacks)
 
-#define bfdev_rb_cached_remove_augmentebfdev_rb_pre_nextd(cached, node, callbacks) \
+#define bfdev_rb_cached_remove_augmented(cached, node, callbacks) \
     bfdev_rb_remove_augmented(&(cached)->root, node, callbacks)
 
 #define bfdev_rb_cached_erase(cached, parent) \
@@ -237,8 +237,8 @@ bfdev_rb_parent(bfdev_rb_root_t *root, bfdev_rb_node_t **parentp,
 #define bfdev_rb_cached_find(cached, key, cmp) \
     bfdev_rb_find(&(cached)->root, key, cmp)
 
-#define bfdev_rb_cached_find_last(cached, key, cmp, parentp, linkp) \
-    bfdev_rb_find_last(&(cached)->root, key, cmp, parentp, linkp)
+#define bfdev_rb_cached_find_last(cached, key, cmp, parentp, linkp, leftmostp) \
+    bfdev_rb_find_last(&(cached)->root, key, cmp, parentp, linkp, leftmostp)
 
 #define bfdev_rb_cached_parent(cached, parentp, node, cmp, pdata, leftmostp) \
     bfdev_rb_parent(&(cached)->root, parentp, node, cmp, pdata, leftmostp)
-- 
2.43.0


From 5776098cc5188e6a724a821632f4a9a87dd91c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:59 +0000
Subject: [PATCH 011/104] fix: update summaries along the path when inserting
 into an augmented rbtree

---
 include/bfdev/rbtree.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/rbtree.h b/include/bfdev/rbtree.h
index bcc315e..2738555 100644
--- a/include/bfdev/rbtree.h
+++ b/include/bfdev/rbtree.h
@@ -721,7 +721,10 @@ bfdev_rb_insert_augmented(bfdev_rb_root_t *root, bfdev_rb_node_t *node,
     if (bfdev_unlikely(!link))
         return false;
 
-    bfdev_rb_insert_node_augmented(root, parent, link, node, callbacks);
+    bfdev_rb_link(parent, link, node);
+    callbacks->propagate(node, parent);
+    callbacks->propagate(parent, NULL);
+    bfdev_rb_fixup_augmented(root, node, callbacks);
     return true;
 }
 
@@ -982,7 +985,10 @@ bfdev_rb_cached_insert_augmented(bfdev_rb_root_cached_t *cached, bfdev_rb_node_t
     if (bfdev_unlikely(!link))
         return false;
 
-    bfdev_rb_cached_insert_node_augmented(cached, parent, link, node, leftmost, callbacks);
+    bfdev_rb_link(parent, link, node);
+    callbacks->propagate(node, parent);
+    callbacks->propagate(parent, NULL);
+    bfdev_rb_cached_fixup_augmented(cached, node, leftmost, callbacks);
     return true;
 }
 
-- 
2.43.0


From a6fb4ccf96b62353434b7ecb3c2c699ecb95a9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:23 +0000
Subject: [PATCH 012/104] fix: set the summary of a new segment before
 rebalancing

---
 include/bfdev/segtree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/segtree.h b/include/bfdev/segtree.h
index d536671..71f985d 100644
--- a/include/bfdev/segtree.h
+++ b/include/bfdev/segtree.h
@@ -173,11 +173,11 @@ STNAME##_insert(bfdev_rb_root_cached_t *cached, STSTRUCT *node)             \
         }                                                                   \
     }                                                                       \
                                                                             \
+    node->STSUBTREE = end;                                                  \
     bfdev_rb_cached_insert_node_augmented(                                  \
         cached, parent ? &parent->STRB : NULL,                              \
         link, &node->STRB, leftmost, &STNAME##_callbacks                    \
     );                                                                      \
-    node->STSUBTREE = end;                                                  \
 }                                                                           \
                                                                             \
 STSTATIC void                                                               \
-- 
2.43.0


From 4920d22935a7c4f556d9a913b4f4a9f9c6ad8a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:26 +0000
Subject: [PATCH 013/104] fix: find heap nodes by the depth of the wanted index

---
 src/heap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/heap.c b/src/heap.c
index 4470b9c..f06667c 100644
--- a/src/heap.c
+++ b/src/heap.c
@@ -202,7 +202,7 @@ bfdev_heap_find(bfdev_heap_root_t *root, unsigned long index)
     bfdev_heap_node_t *node;
     unsigned int depth;
 
-    depth = bfdev_flsuf(root->count);
+    depth = bfdev_flsuf(index);
     node = root->node;
 
     while (node && depth--) {
-- 
2.43.0


From d64ee9637bd26e66163e1ba20a39636656e3b773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:04 +0000
Subject: [PATCH 014/104] fix: hand the index over to the next node when
 deleting an index node

---
 src/ilist.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ilist.c b/src/ilist.c
index 815d096..6b6ef89 100644
--- a/src/ilist.c
+++ b/src/ilist.c
@@ -126,9 +126,9 @@ bfdev_ilist_del(bfdev_ilist_head_t *ihead, bfdev_ilist_node_t *inode)
     /* Check if index list is inserted */
     if (!bfdev_ilist_node_empty(inode)) {
         if (inode->node_list.next != &ihead->node_list) {
-            next = bfdev_list_next_entry(inode, index_list);
+            next = bfdev_list_next_entry(inode, node_list);
             if (bfdev_ilist_node_empty(next))
-                bfdev_list_add(&inode->index_list, &inode->index_list);
+                bfdev_list_add(&inode->index_list, &next->index_list);
         }
         bfdev_list_del_init(&inode->index_list);
     }
-- 
2.43.0


From 4f51585c019f80ec533ff182bd8e7f56e4af0aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:03 +0000
Subject: [PATCH 015/104] fix: refuse oversized allocpool requests without
 wrapping

---
 src/allocpool.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/allocpool.c b/src/allocpool.c
index b5f63dc..e1dda13 100644
--- a/src/allocpool.c
+++ b/src/allocpool.c
@@ -18,12 +18,12 @@ bfdev_allocpool_alloc(bfdev_allocpool_t *pool, size_t size, size_t align)
 
     align = bfdev_align_high(align ?: 1, sizeof(retval));
     retval = bfdev_align_ptr_high(pool->block + pool->last, align);
-    offset = (retval - pool->block) + size;
+    offset = retval - pool->block;
 
-    if (bfdev_unlikely(offset > pool->size))
+    if (bfdev_unlikely(offset > pool->size || size > pool->size - offset))
         return NULL;
 
-    pool->last = offset;
+    pool->last = offset + size;
     pool->count++;
 
     return retval;
-- 
2.43.0


From 0bdda3c7b172abfc4b89db99684af45948fa7709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 016/104] fix: unlink resources when releasing the whole pool

---
 src/respool.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/respool.c b/src/respool.c
index 6ce5bca..9902153 100644
--- a/src/respool.c
+++ b/src/respool.c
@@ -62,6 +62,8 @@ bfdev_respool_release_all(bfdev_respool_t *pool, void *pdata)
 {
     bfdev_respool_node_t *node, *tmp;
 
-    bfdev_list_for_each_entry_safe(node, tmp, &pool->nodes, list)
+    bfdev_list_for_each_entry_safe(node, tmp, &pool->nodes, list) {
+        bfdev_list_del(&node->list);
         node->release(node, pdata);
+    }
 }
-- 
2.43.0


From 29a03e4aa9c978399a4be396287ddd13bdc8c914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:46 +0000
Subject: [PATCH 017/104] fix: raise the skiplist level only once the node is
 allocated

---
 src/skiplist.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/skiplist.c b/src/skiplist.c
index 2e38c45..654732a 100644
--- a/src/skiplist.c
+++ b/src/skiplist.c
@@ -71,13 +71,12 @@ bfdev_skiplist_insert(bfdev_skip_head_t *head, void *key, bfdev_cmp_t cmp,
     long retval;
 
     level = random_level(head);
-    bfdev_max_adj(head->curr, level);
-
     alloc = head->alloc;
     node = bfdev_malloc(alloc, sizeof(*node) + sizeof(*node->list) * level);
     if (bfdev_unlikely(!node))
         return -BFDEV_ENOMEM;
 
+    bfdev_max_adj(head->curr, level);
     node->key = key;
     list = &head->nodes[head->curr - 1];
     end = &head->nodes[head->curr - 1];
-- 
2.43.0


From 65e1a1b31a639509ff47daaaf9df0e69edec9a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:57 +0000
Subject: [PATCH 018/104] fix: make bfdev_radix_for_each_continue_safe compile

---
 include/bfdev/radix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/radix.h b/include/bfdev/radix.h
index 2165537..b43d11e 100644
--- a/include/bfdev/radix.h
+++ b/include/bfdev/radix.h
@@ -237,7 +237,7 @@ bfdev_radix_index(uintptr_t offset, size_t cells)
     for ((void)((*(index) = *(tidx), (value) = (tval)) && \
          ((tval) = bfdev_radix_next(radix, tidx))); value; \
          (void)((*(index) = *(tidx), (value) = (tval)) && \
-         (tval) = bfdev_radix_next(radix, tidx)))
+         ((tval) = bfdev_radix_next(radix, tidx))))
 
 #define bfdev_radix_for_each_reverse_continue_safe(value, radix, index, tval, tidx) \
     for ((void)((*(index) = *(tidx), (value) = (tval)) && \
-- 
2.43.0


From 5b51b654661899e8e7f896b6d8cbcded1fd52e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:09 +0000
Subject: [PATCH 019/104] fix: reject radix offsets just beyond the tree

---
 src/radix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radix.c b/src/radix.c
index c29b352..770de93 100644
--- a/src/radix.c
+++ b/src/radix.c
@@ -42,7 +42,7 @@ radix_parent(bfdev_radix_root_t *root, uintptr_t offset,
     BFDEV_BUG_ON(level > RADIX_LEVEL_MAX);
 
     /* Directly check capacity overflow */
-    if (bfdev_ilog2(offset) > radix_depth_shift(level))
+    if (bfdev_ilog2(offset) >= radix_depth_shift(level))
         return false;
 
     node = root->node;
-- 
2.43.0


From c2638b4c3a9ae6941f07d0e8a10d989db7f083fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:23 +0000
Subject: [PATCH 020/104] fix: size the radix parent array for the highest
 level

---
 src/radix.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/radix.c b/src/radix.c
index 770de93..599b321 100644
--- a/src/radix.c
+++ b/src/radix.c
@@ -70,7 +70,7 @@ radix_parent(bfdev_radix_root_t *root, uintptr_t offset,
 export void *
 bfdev_radix_root_find(bfdev_radix_root_t *root, uintptr_t offset)
 {
-    struct radix_parent parents[RADIX_LEVEL_MAX];
+    struct radix_parent parents[RADIX_LEVEL_MAX + 1];
     bfdev_radix_node_t *node;
     unsigned int index;
     bool contain;
@@ -178,7 +178,7 @@ bfdev_radix_root_alloc(bfdev_radix_root_t *root, uintptr_t offset)
 export int
 bfdev_radix_root_free(bfdev_radix_root_t *root, uintptr_t offset)
 {
-    struct radix_parent parents[RADIX_LEVEL_MAX];
+    struct radix_parent parents[RADIX_LEVEL_MAX + 1];
     const bfdev_alloc_t *alloc;
     bfdev_radix_node_t *node;
     unsigned int level, index;
@@ -377,7 +377,7 @@ bfdev_radix_root_last(bfdev_radix_root_t *root, uintptr_t *offsetp)
 export void *
 bfdev_radix_root_next(bfdev_radix_root_t *root, uintptr_t *offsetp)
 {
-    struct radix_parent parents[RADIX_LEVEL_MAX];
+    struct radix_parent parents[RADIX_LEVEL_MAX + 1];
     bfdev_radix_node_t *node;
     unsigned int count, index, level;
     bool contain;
@@ -432,7 +432,7 @@ finish:
 export void *
 bfdev_radix_root_prev(bfdev_radix_root_t *root, uintptr_t *offsetp)
 {
-    struct radix_parent parents[RADIX_LEVEL_MAX];
+    struct radix_parent parents[RADIX_LEVEL_MAX + 1];
     bfdev_radix_node_t *node;
     unsigned int count, index, level;
     bool contain;
-- 
2.43.0


From 0c86da8841fa8c393d833ed3a5cb114dc5f75b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:39 +0000
Subject: [PATCH 021/104] fix: report freeing an unallocated radix cell in an
 existing leaf

---
 src/radix.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/radix.c b/src/radix.c
index 599b321..fb61613 100644
--- a/src/radix.c
+++ b/src/radix.c
@@ -191,6 +191,10 @@ bfdev_radix_root_free(bfdev_radix_root_t *root, uintptr_t offset)
     node = parents[0].node;
     index = parents[0].index;
 
+    contain = bfdev_bit_test(node->bitmap, index);
+    if (bfdev_unlikely(!contain))
+        return -BFDEV_ENOENT;
+
     bfdev_bit_clr(node->bitmap, index);
     if (!bfdev_bitmap_empty(node->bitmap, BFDEV_RADIX_BLOCK))
         return -BFDEV_ENOERR;
-- 
2.43.0


From c12e4ec243ee0b150a9a7ae10b663f1decf980b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:58 +0000
Subject: [PATCH 022/104] fix: clear the lower offset bits when radix iteration
 changes branch

---
 src/radix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/radix.c b/src/radix.c
index fb61613..8d4ad52 100644
--- a/src/radix.c
+++ b/src/radix.c
@@ -411,7 +411,7 @@ bfdev_radix_root_next(bfdev_radix_root_t *root, uintptr_t *offsetp)
                 continue;
 
             count = radix_depth_shift(level - 1);
-            *offsetp &= ~((uintptr_t)RADIX_ARY_MASK << count);
+            *offsetp &= ~(uintptr_t)0 << count << RADIX_ARY_SHIFT;
             *offsetp |= (uintptr_t)index << count;
 
             node = node->child[index];
@@ -466,7 +466,7 @@ bfdev_radix_root_prev(bfdev_radix_root_t *root, uintptr_t *offsetp)
                 continue;
 
             count = radix_depth_shift(level - 1);
-            *offsetp &= ~((uintptr_t)RADIX_ARY_MASK << count);
+            *offsetp &= ~(uintptr_t)0 << count << RADIX_ARY_SHIFT;
             *offsetp |= (uintptr_t)index << count;
 
             node = node->child[index];
-- 
2.43.0


From 839bd4af73e4840e266df9b7cf04622780d4e710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 023/104] fix: iterate radix trees whose left most leaf is
 empty

---
 src/radix.c | 116 ++++++++++++++++++++++++++++------------------------
 1 file changed, 62 insertions(+), 54 deletions(-)

diff --git a/src/radix.c b/src/radix.c
index 8d4ad52..e41cbab 100644
--- a/src/radix.c
+++ b/src/radix.c
@@ -324,33 +324,74 @@ radix_right_most(bfdev_radix_node_t *node, unsigned int level,
     return node;
 }
 
-export void *
-bfdev_radix_root_first(bfdev_radix_root_t *root, uintptr_t *offsetp)
+static void *
+radix_next(bfdev_radix_root_t *root, struct radix_parent *parents,
+           uintptr_t *offsetp)
 {
-    unsigned int count, level;
     bfdev_radix_node_t *node;
-    uintptr_t offset;
+    unsigned int count, index, level;
 
-    node = root->node;
-    level = root->level;
+    node = parents[0].node;
+    index = parents[0].index;
 
-    if (!node)
-        return NULL;
+    count = bfdev_find_next_bit(node->bitmap, BFDEV_RADIX_BLOCK, index + 1);
+    if (count < BFDEV_RADIX_BLOCK)
+        goto finish;
 
-    offset = 0;
-    node = radix_left_most(node, level, &offset);
-    BFDEV_BUG_ON(!node);
+    for (level = 1; level <= root->level; ++level) {
+        node = parents[level].node;
+        index = parents[level].index;
+
+        while (++index < BFDEV_RADIX_ARY) {
+            if (!node->child[index])
+                continue;
+
+            count = radix_depth_shift(level - 1);
+            *offsetp &= ~(uintptr_t)0 << count << RADIX_ARY_SHIFT;
+            *offsetp |= (uintptr_t)index << count;
+
+            node = node->child[index];
+            goto downward;
+        }
+    }
 
+    return NULL;
+
+downward:
+    node = radix_left_most(node, level - 1, offsetp);
+    BFDEV_BUG_ON(!node);
     count = bfdev_find_first_bit(node->bitmap, BFDEV_RADIX_BLOCK);
-    if (count == BFDEV_RADIX_BLOCK)
-        return NULL;
 
-    offset |= count;
-    *offsetp = offset;
+finish:
+    *offsetp &= ~(uintptr_t)RADIX_BLOCK_MASK;
+    *offsetp |= count;
 
     return &node->block[count];
 }
 
+export void *
+bfdev_radix_root_first(bfdev_radix_root_t *root, uintptr_t *offsetp)
+{
+    struct radix_parent parents[RADIX_LEVEL_MAX + 1];
+    uintptr_t offset;
+    void *block;
+
+    /* The left most leaf is never pruned */
+    if (!radix_parent(root, 0, parents))
+        return NULL;
+
+    offset = 0;
+    if (bfdev_bit_test(parents[0].node->bitmap, 0))
+        block = parents[0].node->block;
+    else
+        block = radix_next(root, parents, &offset);
+
+    if (block)
+        *offsetp = offset;
+
+    return block;
+}
+
 export void *
 bfdev_radix_root_last(bfdev_radix_root_t *root, uintptr_t *offsetp)
 {
@@ -382,55 +423,18 @@ export void *
 bfdev_radix_root_next(bfdev_radix_root_t *root, uintptr_t *offsetp)
 {
     struct radix_parent parents[RADIX_LEVEL_MAX + 1];
-    bfdev_radix_node_t *node;
-    unsigned int count, index, level;
     bool contain;
 
     contain = radix_parent(root, *offsetp, parents);
     if (bfdev_unlikely(!contain))
         return NULL;
 
-    node = parents[0].node;
-    index = parents[0].index;
-
     /* Check for safety */
-    contain = bfdev_bit_test(node->bitmap, index);
+    contain = bfdev_bit_test(parents[0].node->bitmap, parents[0].index);
     if (bfdev_unlikely(!contain))
         return NULL;
 
-    count = bfdev_find_next_bit(node->bitmap, BFDEV_RADIX_BLOCK, index + 1);
-    if (count < BFDEV_RADIX_BLOCK)
-        goto finish;
-
-    for (level = 1; level <= root->level; ++level) {
-        node = parents[level].node;
-        index = parents[level].index;
-
-        while (++index < BFDEV_RADIX_ARY) {
-            if (!node->child[index])
-                continue;
-
-            count = radix_depth_shift(level - 1);
-            *offsetp &= ~(uintptr_t)0 << count << RADIX_ARY_SHIFT;
-            *offsetp |= (uintptr_t)index << count;
-
-            node = node->child[index];
-            goto downward;
-        }
-    }
-
-    return NULL;
-
-downward:
-    node = radix_left_most(node, level - 1, offsetp);
-    BFDEV_BUG_ON(!node);
-    count = bfdev_find_first_bit(node->bitmap, BFDEV_RADIX_BLOCK);
-
-finish:
-    *offsetp &= ~(uintptr_t)RADIX_BLOCK_MASK;
-    *offsetp |= count;
-
-    return &node->block[count];
+    return radix_next(root, parents, offsetp);
 }
 
 export void *
@@ -481,6 +485,10 @@ downward:
     BFDEV_BUG_ON(!node);
     count = bfdev_find_last_bit(node->bitmap, BFDEV_RADIX_BLOCK);
 
+    /* The left most leaf is not pruned when it is empty */
+    if (count == BFDEV_RADIX_BLOCK)
+        return NULL;
+
 finish:
     *offsetp &= ~(uintptr_t)RADIX_BLOCK_MASK;
     *offsetp |= count;
-- 
2.43.0


From cfffdf374592ff14b7b50ce38aa33e2765b7c172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:32 +0000
Subject: [PATCH 024/104] fix: convert offsets of non power of two radix cells
 back to indexes

---
 include/bfdev/radix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/radix.h b/include/bfdev/radix.h
index b43d11e..f62b8f5 100644
--- a/include/bfdev/radix.h
+++ b/include/bfdev/radix.h
@@ -90,8 +90,8 @@ bfdev_radix_index(uintptr_t offset, size_t cells)
 
     /* object per block */
     num = BFDEV_RADIX_BLOCK / cells;
-    return (offset / num) / BFDEV_RADIX_BLOCK +
-           (offset % num) / cells;
+    return (offset / BFDEV_RADIX_BLOCK) * num +
+           (offset % BFDEV_RADIX_BLOCK) / cells;
 }
 
 #define bfdev_radix_cast(radix) \
-- 
2.43.0


From 73073b1c53025e8cedb6ff38104b73992e28aeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:32 +0000
Subject: [PATCH 025/104] fix: charge the last block of an unaligned radix
 range

---
 src/radix.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/radix.c b/src/radix.c
index e41cbab..878e186 100644
--- a/src/radix.c
+++ b/src/radix.c
@@ -241,7 +241,11 @@ bfdev_radix_root_charge(bfdev_radix_root_t *root,
         if (!bfdev_radix_root_alloc(root, offset))
             return -BFDEV_ENOMEM;
 
-        offset += BFDEV_RADIX_BLOCK;
+        /* Stop before stepping to the next block may wrap around */
+        if (end - offset <= BFDEV_RADIX_BLOCK - (offset & RADIX_BLOCK_MASK))
+            break;
+
+        offset = (offset | RADIX_BLOCK_MASK) + 1;
     }
 
     return -BFDEV_ENOERR;
-- 
2.43.0


From 2d5633682afac53fa9d2b6f185787e1c6f19d65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:53 +0000
Subject: [PATCH 026/104] fix: drop the started branch when a radix allocation
 fails

---
 src/radix.c | 89 +++++++++++++++++++++++++++++++----------------------
 1 file changed, 53 insertions(+), 36 deletions(-)

diff --git a/src/radix.c b/src/radix.c
index 878e186..e579806 100644
--- a/src/radix.c
+++ b/src/radix.c
@@ -141,47 +141,88 @@ radix_shrink(bfdev_radix_root_t *root)
     }
 }
 
+static void
+radix_prune(bfdev_radix_root_t *root, struct radix_parent *parents,
+            uintptr_t offset, unsigned int level)
+{
+    const bfdev_alloc_t *alloc;
+    bfdev_radix_node_t *parent;
+
+    alloc = root->alloc;
+    for (;;) {
+        /* Do not prune the left most branch */
+        offset &= BFDEV_BIT_HIGH_MASK(radix_depth_shift(level));
+        if (offset < BFDEV_RADIX_BLOCK)
+            break;
+
+        bfdev_free(alloc, parents[level].node);
+        parent = parents[++level].node;
+        parent->child[parents[level].index] = NULL;
+
+        if (--parent->refcount)
+            break;
+    }
+
+    /* Prune the leftmost branch */
+    if (level == root->level)
+        radix_shrink(root);
+}
+
 export void *
 bfdev_radix_root_alloc(bfdev_radix_root_t *root, uintptr_t offset)
 {
+    struct radix_parent parents[RADIX_LEVEL_MAX + 1];
     const bfdev_alloc_t *alloc;
     bfdev_radix_node_t *node;
-    unsigned int level;
+    unsigned int level, index;
+    uintptr_t curr;
 
     node = radix_extend(root, offset);
-    if (bfdev_unlikely(!node))
+    if (bfdev_unlikely(!node)) {
+        radix_shrink(root);
         return NULL;
+    }
 
     alloc = root->alloc;
-    for (level = root->level; level--;) {
+    parents[root->level].node = node;
+
+    for (curr = offset, level = root->level; level--;) {
         bfdev_radix_node_t **slot, *newn;
 
-        slot = &node->child[radix_depth_index(level, offset)];
-        offset &= BFDEV_BIT_LOW_MASK(radix_depth_shift(level));
+        index = radix_depth_index(level, curr);
+        slot = &node->child[index];
+        curr &= BFDEV_BIT_LOW_MASK(radix_depth_shift(level));
 
         if (!*slot) {
             newn = bfdev_zalloc(alloc, sizeof(*newn));
-            if (bfdev_unlikely(!newn))
+            if (bfdev_unlikely(!newn)) {
+                /* Drop the branch that was just started */
+                if (!node->refcount)
+                    radix_prune(root, parents, offset, level + 1);
+                else
+                    radix_shrink(root);
                 return NULL;
+            }
 
             *slot = newn;
             node->refcount++;
         }
 
         node = *slot;
+        parents[level].node = node;
+        parents[level + 1].index = index;
     }
 
-    bfdev_bit_set(node->bitmap, offset);
-    return &node->block[offset];
+    bfdev_bit_set(node->bitmap, curr);
+    return &node->block[curr];
 }
 
 export int
 bfdev_radix_root_free(bfdev_radix_root_t *root, uintptr_t offset)
 {
     struct radix_parent parents[RADIX_LEVEL_MAX + 1];
-    const bfdev_alloc_t *alloc;
     bfdev_radix_node_t *node;
-    unsigned int level, index;
+    unsigned int index;
     bool contain;
 
     contain = radix_parent(root, offset, parents);
@@ -196,32 +237,8 @@ bfdev_radix_root_free(bfdev_radix_root_t *root, uintptr_t offset)
         return -BFDEV_ENOENT;
 
     bfdev_bit_clr(node->bitmap, index);
-    if (!bfdev_bitmap_empty(node->bitmap, BFDEV_RADIX_BLOCK))
-        return -BFDEV_ENOERR;
-
-    alloc = root->alloc;
-    for (level = 0; level <= root->level; ++level) {
-        bfdev_radix_node_t *parent;
-
-        if (level && --node->refcount)
-            break;
-
-        /* Do not prune the left most branch */
-        offset &= BFDEV_BIT_HIGH_MASK(radix_depth_shift(level));
-        if (offset < BFDEV_RADIX_BLOCK)
-            break;
-
-        parent = parents[level + 1].node;
-        index = parents[level + 1].index;
-
-        parent->child[index] = NULL;
-        bfdev_free(alloc, node);
-        node = parent;
-    }
-
-    /* Prune the leftmost branch */
-    if (level == root->level)
-        radix_shrink(root);
+    if (bfdev_bitmap_empty(node->bitmap, BFDEV_RADIX_BLOCK))
+        radix_prune(root, parents, offset, 0);
 
     return -BFDEV_ENOERR;
 }
-- 
2.43.0


From 811a7d05a06ee0246398a53a9518201686f5173c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:07 +0000
Subject: [PATCH 027/104] fix: refuse memalloc sizes that wrap when aligned

---
 src/memalloc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/memalloc.c b/src/memalloc.c
index 31018d7..0f32425 100644
--- a/src/memalloc.c
+++ b/src/memalloc.c
@@ -129,6 +129,9 @@ bfdev_memalloc_alloc(bfdev_memalloc_head_t *head, size_t size)
     bfdev_memalloc_chunk_t *node, *free;
     size_t nsize, bsize, fsize;
 
+    if (bfdev_unlikely(size > head->avail))
+        return NULL;
+
     bfdev_align_high_adj(size, BFDEV_MEMALLOC_ALIGN);
     if (bfdev_unlikely(size > head->avail))
         return NULL;
-- 
2.43.0


From 86b59299d5827d66961668396400e44471767d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:42 +0000
Subject: [PATCH 028/104] fix: let memalloc shrink or expand blocks in place
 when little is available

---
 src/memalloc.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/memalloc.c b/src/memalloc.c
index 0f32425..4442919 100644
--- a/src/memalloc.c
+++ b/src/memalloc.c
@@ -177,14 +177,16 @@ bfdev_memalloc_realloc(bfdev_memalloc_head_t *head, void *block, size_t resize)
     if (bfdev_unlikely(!node))
         return NULL;
 
-    bfdev_align_high_adj(resize, BFDEV_MEMALLOC_ALIGN);
-    if (bfdev_unlikely(resize > head->avail))
-        return NULL;
-
     origin = pnode_get_size(node);
     if (origin >= resize)
         return block;
 
+    /* Refuse early what can never fit, also when aligned */
+    if (bfdev_unlikely(resize - origin > head->avail + sizeof(*node)))
+        return NULL;
+
+    bfdev_align_high_adj(resize, BFDEV_MEMALLOC_ALIGN);
+
     expand = bfdev_list_next_entry_or_null(node, &head->block_list, block);
     exsize = resize - origin;
 
-- 
2.43.0


From 341d963b0d9db842993a5f339e8c85571731ed36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:17 +0000
Subject: [PATCH 029/104] fix: initialise the whole first row of the
 levenshtein matrix

---
 src/levenshtein.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/levenshtein.c b/src/levenshtein.c
index 6755f82..6f4b57b 100644
--- a/src/levenshtein.c
+++ b/src/levenshtein.c
@@ -32,7 +32,7 @@ bfdev_levenshtein_len(const bfdev_alloc_t *alloc,
     row2 = row1 + (len1 + 1);
     row3 = row2 + (len1 + 1);
 
-    for (index1 = 0; index1 < len1; ++index1)
+    for (index1 = 0; index1 <= len1; ++index1)
         row2[index1] = index1 * d;
 
     for (index2 = 0; index2 < len2; ++index2) {
-- 
2.43.0


From d04dd6640660f16271d0ac9b8121c01ac35105c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:17 +0000
Subject: [PATCH 030/104] fix: transpose the source matrix into the destination

---
 src/matrix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matrix.c b/src/matrix.c
index 4db6490..8cf3d9e 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -136,8 +136,8 @@ bfdev_matrix_trans(bfdev_matrix_t *dest, const bfdev_matrix_t *src)
     const BFDEV_MATRIX_TYPE (*ads)[src->col];
     BFDEV_MATRIX_TYPE (*add)[dest->col];
 
-    ads = bfdev_array_data(&dest->value, 0);
-    add = bfdev_array_data(&src->value, 0);
+    ads = bfdev_array_data(&src->value, 0);
+    add = bfdev_array_data(&dest->value, 0);
 
     for (row = 0; row < dest->row; ++row) {
         for (col = 0; col < dest->col; ++col)
-- 
2.43.0


From 6bb11d2f43d9acb14b298f89342b81ad9c4938bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:17 +0000
Subject: [PATCH 031/104] fix: address matrix elements by row and column

---
 src/matrix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matrix.c b/src/matrix.c
index 8cf3d9e..98a00a3 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -202,10 +202,10 @@ bfdev_matrix_data(const bfdev_matrix_t *var,
     BFDEV_MATRIX_TYPE *data;
     unsigned int offset;
 
-    if (var->col < row || var->col < col)
+    if (row >= var->row || col >= var->col)
         return NULL;
 
-    offset = row * col;
+    offset = row * var->col + col;
     data = bfdev_array_data(&var->value, offset);
 
     return data;
-- 
2.43.0


From 073a3c0d8cda3f06467b99259b193b266d52fa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:49 +0000
Subject: [PATCH 032/104] fix: make the btree for_each_from_safe macros compile

---
 include/bfdev/btree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/btree.h b/include/bfdev/btree.h
index d71b1b1..63fe090 100644
--- a/include/bfdev/btree.h
+++ b/include/bfdev/btree.h
@@ -211,7 +211,7 @@ bfdev_btree_prev(bfdev_btree_root_t *root, uintptr_t *key);
  * @tval: another value to use as temporary storage.
  */
 #define bfdev_btree_for_each_from_safe(root, key, value, tkey, tval)    \
-    for (btree_key_copy(root, tkey, key),                               \
+    for (bfdev_btree_key_copy(root, tkey, key),                               \
          tval = bfdev_btree_next(root, tkey); value;                    \
          bfdev_btree_key_copy(root, key, tkey),                         \
          value = tval, tval = bfdev_btree_next(root, tkey))
@@ -225,7 +225,7 @@ bfdev_btree_prev(bfdev_btree_root_t *root, uintptr_t *key);
  * @tval: another value to use as temporary storage.
  */
 #define bfdev_btree_for_each_reverse_from_safe(root, key, value, tkey, tval)    \
-    for (btree_key_copy(root, tkey, key),                                       \
+    for (bfdev_btree_key_copy(root, tkey, key),                                       \
          tval = bfdev_btree_prev(root, tkey); value;                            \
          bfdev_btree_key_copy(root, key, tkey),                                 \
          value = tval, tval = bfdev_btree_prev(root, tkey))
-- 
2.43.0


From 81052a61db0f6d159bcaca08a762fd2539bb9cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:07 +0000
Subject: [PATCH 033/104] fix: report no last entry for an emptied btree

---
 src/btree.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/btree.c b/src/btree.c
index 744c83d..dc234bb 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -619,7 +619,10 @@ bfdev_btree_last(bfdev_btree_root_t *root, uintptr_t *key)
         node = bnode_get_value(root, node, last);
     }
 
-    last = bnode_fill_index(root, node, 0) - 1;
+    last = bnode_fill_index(root, node, 0);
+    if (!last--)
+        return NULL;
+
     bnode_takeout_key(root, node, last, key);
     return bnode_get_value(root, node, last);
 }
-- 
2.43.0


From a25dca6e520d55d02da0a812d52fea20fb13ddf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:35 +0000
Subject: [PATCH 034/104] fix: do not look for a btree key behind a full leaf

---
 src/btree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/btree.c b/src/btree.c
index dc234bb..f7fae54 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -508,7 +508,7 @@ remove_level(bfdev_btree_root_t *root, unsigned int level, uintptr_t *key)
 
     value = NULL;
     if (level == 1) {
-        if (bnode_cmp_key(root, node, index, key))
+        if (index == layout->keynum || bnode_cmp_key(root, node, index, key))
             return NULL;
 
         value = bnode_get_value(root, node, index);
-- 
2.43.0


From c1e5c61742d774ac2cdd61216636ff6c4366cdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:46 +0000
Subject: [PATCH 035/104] fix: keep the last entry of an odd btree node in its
 half

---
 src/btree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/btree.c b/src/btree.c
index f7fae54..a9ef412 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -405,7 +405,7 @@ insert_level(bfdev_btree_root_t *root, unsigned int level,
         }
 
         if (fill & 1) {
-            bnode_migrate(root, newn, count, node, fill - 1);
+            bnode_migrate(root, node, count, node, fill - 1);
             bnode_clear_index(root, node, fill - 1);
         }
     }
-- 
2.43.0


From 13be4caa22d9a671ca5ca1a1291e146d0776d9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:06 +0000
Subject: [PATCH 036/104] fix: forget references and states when resetting a
 cache

---
 src/cache/cache.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cache/cache.c b/src/cache/cache.c
index 71ab16a..67f2b50 100644
--- a/src/cache/cache.c
+++ b/src/cache/cache.c
@@ -283,6 +283,7 @@ bfdev_cache_reset(bfdev_cache_head_t *head)
     head->flags = 0;
     head->pending = 0;
     head->used = 0;
+    head->changed = 0;
     head->hits = 0;
     head->misses = 0;
     head->starve = 0;
@@ -296,6 +297,8 @@ bfdev_cache_reset(bfdev_cache_head_t *head)
 
     for (count = 0; count < head->size; ++count) {
         node = head->nodes[count];
+        node->status = BFDEV_CACHE_FREED;
+        node->refcnt = 0;
         bfdev_list_add(&head->freed, &node->list);
     }
 }
-- 
2.43.0


From ae1231a2b4eb593ea20fdc586cb93f236d473fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:19 +0000
Subject: [PATCH 037/104] fix: do not invert bitmap equality of constant sizes

---
 include/bfdev/bitmap.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/bitmap.h b/include/bfdev/bitmap.h
index 70235e4..d398b3d 100644
--- a/include/bfdev/bitmap.h
+++ b/include/bfdev/bitmap.h
@@ -65,12 +65,12 @@ bfdev_bitmap_equal(const unsigned long *src1, const unsigned long *src2,
                    unsigned int bits)
 {
     if (bfdev_const_small_nbits(bits))
-        return !!((*src1 ^ *src2) & BFDEV_BIT_LOW_MASK(bits));
+        return !((*src1 ^ *src2) & BFDEV_BIT_LOW_MASK(bits));
 
     if (!bfdev_bitmap_const_aligned(bits))
         return bfdev_bitmap_comp_equal(src1, src2, bits);
 
-    return bfport_memcmp(src1, src2, bits / BFDEV_BITS_PER_BYTE);
+    return !bfport_memcmp(src1, src2, bits / BFDEV_BITS_PER_BYTE);
 }
 
 static __bfdev_always_inline bool
@@ -83,7 +83,7 @@ bfdev_bitmap_or_equal(const unsigned long *src1, const unsigned long *src2,
         return bfdev_bitmap_comp_or_equal(src1, src2, src3, bits);
 
     value = (*src1 | *src2) ^ *src3;
-    return !!(value & BFDEV_BIT_LOW_MASK(bits));
+    return !(value & BFDEV_BIT_LOW_MASK(bits));
 }
 
 static __bfdev_always_inline bool
-- 
2.43.0


From c33d34a9210c85240f040b26bdc8af70d34dbbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:19 +0000
Subject: [PATCH 038/104] fix: stop bitmap set and clr at the end of the range

---
 src/bitmap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bitmap.c b/src/bitmap.c
index a631220..f9c3227 100644
--- a/src/bitmap.c
+++ b/src/bitmap.c
@@ -302,7 +302,7 @@ bfdev_bitmap_comp_set(unsigned long *bitmap, unsigned int start,
     curr = bitmap + BFDEV_BITS_DIV_LONG(start);
     size = start + bits;
 
-    while (bits - bits_to_set) {
+    while (bits >= bits_to_set) {
         *curr++ |= mask_to_set;
         bits -= bits_to_set;
         mask_to_set = ULONG_MAX;
@@ -327,7 +327,7 @@ bfdev_bitmap_comp_clr(unsigned long *bitmap, unsigned int start,
     curr = bitmap + BFDEV_BITS_DIV_LONG(start);
     size = start + bits;
 
-    while (bits - bits_to_clr) {
+    while (bits >= bits_to_clr) {
         *curr++ &= ~mask_to_clr;
         bits -= bits_to_clr;
         mask_to_clr = ULONG_MAX;
-- 
2.43.0


From 909d0aba7b88742fbe57e7887c1509c6f6d7e7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:19 +0000
Subject: [PATCH 039/104] fix: shift the last partial word of a bitmap right

---
 src/bitmap.c | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/src/bitmap.c b/src/bitmap.c
index f9c3227..56b14c4 100644
--- a/src/bitmap.c
+++ b/src/bitmap.c
@@ -221,30 +221,21 @@ bfdev_bitmap_comp_shr(unsigned long *dest, const unsigned long *src,
 
     /* length > offset */
     rem = BFDEV_BITS_MOD_LONG(shift);
-    index = 0;
-
-    while (index < BFDEV_BITS_DIV_LONG(bits) - offset) {
-        vlow = src[index + offset] >> rem;
-
-        if (rem && index + offset + 1 < length)
-            vhigh = src[index + offset + 1] << (BFDEV_BITS_PER_LONG - rem);
-        else
-            vhigh = 0;
-
-        value = vhigh | vlow;
-        dest[index++] = value;
-    }
-
-    if (BFDEV_BITS_MOD_LONG(bits)) {
-        vlow = src[index] << rem;
-
-        if (rem && index + offset + 1 < length)
-            vhigh = src[index + offset + 1] << (BFDEV_BITS_PER_LONG - rem);
-        else
+    for (index = 0; index + offset < length; ++index) {
+        vlow = src[index + offset];
+        if (index + offset + 1 == length)
+            vlow &= BFDEV_BIT_LOW_MASK(bits);
+
+        if (rem && index + offset + 1 < length) {
+            vhigh = src[index + offset + 1];
+            if (index + offset + 2 == length)
+                vhigh &= BFDEV_BIT_LOW_MASK(bits);
+            vhigh <<= BFDEV_BITS_PER_LONG - rem;
+        } else
             vhigh = 0;
 
-        value = vhigh | vlow;
-        dest[index + offset] = value & BFDEV_BIT_LOW_MASK(bits);
+        value = vhigh | (vlow >> rem);
+        dest[index] = value;
     }
 
     if (offset)
-- 
2.43.0


From e1d7988da64f95194e8a94a0da98ade6d4c24abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:02 +0000
Subject: [PATCH 040/104] fix: find zero bits in a whole constant word

---
 include/bfdev/bitwalk.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/bitwalk.h b/include/bfdev/bitwalk.h
index 496a220..e499ba0 100644
--- a/include/bfdev/bitwalk.h
+++ b/include/bfdev/bitwalk.h
@@ -73,7 +73,7 @@ bfdev_find_first_zero(const unsigned long *addr, unsigned int bits)
     if (!bfdev_const_small_nbits(bits))
         return bfdev_comp_find_first_bit(addr, bits, ~0UL, false);
 
-    value = *addr | BFDEV_BIT_HIGH_MASK(bits);
+    value = *addr | ~BFDEV_BIT_LOW_MASK(bits);
     if (value == BFDEV_ULONG_MAX)
         return bits;
 
@@ -90,7 +90,7 @@ bfdev_find_last_zero(const unsigned long *addr, unsigned int bits)
     if (!bfdev_const_small_nbits(bits))
         return bfdev_comp_find_last_bit(addr, bits, ~0UL, false);
 
-    value = *addr | BFDEV_BIT_HIGH_MASK(bits);
+    value = *addr | ~BFDEV_BIT_LOW_MASK(bits);
     if (value == BFDEV_ULONG_MAX)
         return bits;
 
@@ -192,7 +192,7 @@ bfdev_find_prev_zero(const unsigned long *addr,
     if (bfdev_unlikely(offset >= bits))
         return bits;
 
-    value = *addr | BFDEV_BIT_HIGH_MASK(offset + 1);
+    value = *addr | ~BFDEV_BIT_LOW_MASK(offset + 1);
     if (value == BFDEV_ULONG_MAX)
         return bits;
 
-- 
2.43.0


From 9989916d90bd56994f162e39c123200ac0d94fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:13 +0000
Subject: [PATCH 041/104] fix: pass a type to bfdev_is_unsigned in
 BFDEV_DIV_ROUND_CLOSEST

---
 include/bfdev/math.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/math.h b/include/bfdev/math.h
index 36f1725..732f56a 100644
--- a/include/bfdev/math.h
+++ b/include/bfdev/math.h
@@ -56,8 +56,8 @@ BFDEV_BEGIN_DECLS
 #define BFDEV_DIV_ROUND_CLOSEST(x, divisor) ({  \
     typeof(x) __x = x;                          \
     typeof(divisor) __d = divisor;              \
-    (bfdev_is_unsigned(x) ||                    \
-     bfdev_is_unsigned(divisor) ||              \
+    (bfdev_is_unsigned(typeof(__x)) ||          \
+     bfdev_is_unsigned(typeof(__d)) ||          \
      (((__x) > 0) == ((__d) > 0)))              \
         ? (((__x) + ((__d) / 2)) / (__d))       \
         : (((__x) - ((__d) / 2)) / (__d));      \
-- 
2.43.0


From 48ae77d2e9dfd91da16fb9b7284f03b87c11412f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:27 +0000
Subject: [PATCH 042/104] fix: bfdev_flnsp64 must map to bfdev_flnsp

---
 include/bfdev/bitops.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/bitops.h b/include/bfdev/bitops.h
index d1fa1e7..77d71db 100644
--- a/include/bfdev/bitops.h
+++ b/include/bfdev/bitops.h
@@ -578,7 +578,7 @@ bfdev_flnsp64(uint64_t word, unsigned int *nr)
     return bfdev_flnsp((uint32_t)word, nr);
 }
 #else
-# define bfdev_flnsp64 bfdev_flns
+# define bfdev_flnsp64 bfdev_flnsp
 #endif
 
 #if BFDEV_BITS_PER_LONG == 32
-- 
2.43.0


From 52426e41574ff6484ce5f50f41e5c73a45e80f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:44 +0000
Subject: [PATCH 043/104] fix: ffnsp/flnsp of a full word must count and bound
 the index

---
 include/bfdev/asm-generic/bitops.h | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/include/bfdev/asm-generic/bitops.h b/include/bfdev/asm-generic/bitops.h
index f477e7c..979afe5 100644
--- a/include/bfdev/asm-generic/bitops.h
+++ b/include/bfdev/asm-generic/bitops.h
@@ -564,9 +564,6 @@ bfdev_arch_ffnsp(unsigned long word, unsigned int *nr)
 {
     unsigned int bit;
 
-    if (word == ULONG_MAX)
-        return *nr;
-
     while (word) {
         bit = bfdev_arch_ffsuf(word);
         if (!(*nr)--)
@@ -585,9 +582,6 @@ bfdev_arch_flnsp(unsigned long word, unsigned int *nr)
 {
     unsigned int bit;
 
-    if (word == ULONG_MAX)
-        return *nr;
-
     while (word) {
         bit = bfdev_arch_flsuf(word);
         if (!(*nr)--)
-- 
2.43.0


From 7102551127785ed1c45cde4f6e1d164dd4406a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:50 +0000
Subject: [PATCH 044/104] fix: swapped shifts for bits 27 and 28 of
 bfdev_bitrev32_const

---
 include/bfdev/bitrev.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/bitrev.h b/include/bfdev/bitrev.h
index f278b72..91aa7c3 100644
--- a/include/bfdev/bitrev.h
+++ b/include/bfdev/bitrev.h
@@ -71,8 +71,8 @@ BFDEV_BEGIN_DECLS
     (((uint32_t)(value) & (uint32_t)0x01000000UL) >> 17) |  \
     (((uint32_t)(value) & (uint32_t)0x02000000UL) >> 19) |  \
     (((uint32_t)(value) & (uint32_t)0x04000000UL) >> 21) |  \
-    (((uint32_t)(value) & (uint32_t)0x08000000UL) >> 25) |  \
-    (((uint32_t)(value) & (uint32_t)0x10000000UL) >> 23) |  \
+    (((uint32_t)(value) & (uint32_t)0x08000000UL) >> 23) |  \
+    (((uint32_t)(value) & (uint32_t)0x10000000UL) >> 25) |  \
     (((uint32_t)(value) & (uint32_t)0x20000000UL) >> 27) |  \
     (((uint32_t)(value) & (uint32_t)0x40000000UL) >> 29) |  \
     (((uint32_t)(value) & (uint32_t)0x80000000UL) >> 31))
-- 
2.43.0


From 0c0353e564d96cd27610ff6c8ba25273cc6f63b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:50 +0000
Subject: [PATCH 045/104] fix: swapped shifts for bits 43 and 44 of
 bfdev_bitrev64_const

---
 include/bfdev/bitrev.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/bitrev.h b/include/bfdev/bitrev.h
index 91aa7c3..6806f40 100644
--- a/include/bfdev/bitrev.h
+++ b/include/bfdev/bitrev.h
@@ -121,8 +121,8 @@ BFDEV_BEGIN_DECLS
     (((uint64_t)(value) & (uint64_t)0x0000010000000000ULL) >> 17) | \
     (((uint64_t)(value) & (uint64_t)0x0000020000000000ULL) >> 19) | \
     (((uint64_t)(value) & (uint64_t)0x0000040000000000ULL) >> 21) | \
-    (((uint64_t)(value) & (uint64_t)0x0000080000000000ULL) >> 25) | \
-    (((uint64_t)(value) & (uint64_t)0x0000100000000000ULL) >> 23) | \
+    (((uint64_t)(value) & (uint64_t)0x0000080000000000ULL) >> 23) | \
+    (((uint64_t)(value) & (uint64_t)0x0000100000000000ULL) >> 25) | \
     (((uint64_t)(value) & (uint64_t)0x0000200000000000ULL) >> 27) | \
     (((uint64_t)(value) & (uint64_t)0x0000400000000000ULL) >> 29) | \
     (((uint64_t)(value) & (uint64_t)0x0000800000000000ULL) >> 31) | \
-- 
2.43.0


From 810720b00c6fda4dc11aa197c30dc13ba35e8105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 046/104] fix: retry refcnt addnz until the exchange succeeds

---
 include/bfdev/refcount.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/refcount.h b/include/bfdev/refcount.h
index ad9dd2c..04d66c5 100644
--- a/include/bfdev/refcount.h
+++ b/include/bfdev/refcount.h
@@ -113,7 +113,7 @@ bfdev_refcnt_fetch_addnz_test(bfdev_refcnt_t *ref, bfdev_atomic_t nr,
     do {
         if (!prev)
             break;
-    } while (bfdev_try_cmpxchg(&ref->count, &prev, prev + nr));
+    } while (!bfdev_try_cmpxchg(&ref->count, &prev, prev + nr));
 
     if (oldp)
         *oldp = prev;
-- 
2.43.0


From d9779f8872ba950222bf92c975308f3e9151f18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 047/104] fix: report an overflow of refcnt addnz, not of the
 inverse

---
 include/bfdev/refcount.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/refcount.h b/include/bfdev/refcount.h
index 04d66c5..d24ecd2 100644
--- a/include/bfdev/refcount.h
+++ b/include/bfdev/refcount.h
@@ -121,7 +121,7 @@ bfdev_refcnt_fetch_addnz_test(bfdev_refcnt_t *ref, bfdev_atomic_t nr,
 #ifdef BFDEV_DEBUG_REFCNT
     if (bfdev_unlikely(prev < 0))
         bfdev_refcnt_report(ref, BFDEV_REFCNT_ADDNZ_LEAK);
-    else if (bfdev_unlikely(prev - nr < 0))
+    else if (bfdev_unlikely(prev && (bfdev_atomic_t)((uintptr_t)prev + nr) < 0))
         bfdev_refcnt_report(ref, BFDEV_REFCNT_ADDNZ_OVF);
 #endif
 
-- 
2.43.0


From d55e16c06c3390320c171baea2616a696c3db191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 048/104] fix: no signed overflow when adding references

---
 include/bfdev/refcount.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/refcount.h b/include/bfdev/refcount.h
index d24ecd2..b52dbde 100644
--- a/include/bfdev/refcount.h
+++ b/include/bfdev/refcount.h
@@ -74,7 +74,7 @@ bfdev_refcnt_fetch_add(bfdev_refcnt_t *ref, bfdev_atomic_t cnt,
         bfdev_refcnt_report(ref, BFDEV_REFCNT_ADD_UAF);
     else if (bfdev_unlikely(prev < 0))
         bfdev_refcnt_report(ref, BFDEV_REFCNT_ADD_LEAK);
-    else if (bfdev_unlikely(prev + cnt < 0))
+    else if (bfdev_unlikely((bfdev_atomic_t)((uintptr_t)prev + cnt) < 0))
         bfdev_refcnt_report(ref, BFDEV_REFCNT_ADD_OVF);
 #endif
 }
@@ -113,7 +113,8 @@ bfdev_refcnt_fetch_addnz_test(bfdev_refcnt_t *ref, bfdev_atomic_t nr,
     do {
         if (!prev)
             break;
-    } while (!bfdev_try_cmpxchg(&ref->count, &prev, prev + nr));
+    } while (!bfdev_try_cmpxchg(&ref->count, &prev,
+        (bfdev_atomic_t)((uintptr_t)prev + nr)));
 
     if (oldp)
         *oldp = prev;
-- 
2.43.0


From e8e0f31e0b23227748c89960c65eb794e0509f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 049/104] fix: undeclared identifier in BFDEV_CIRCLE_SPACE_END

---
 include/bfdev/circle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/circle.h b/include/bfdev/circle.h
index 01aeb9a..b07b75b 100644
--- a/include/bfdev/circle.h
+++ b/include/bfdev/circle.h
@@ -49,7 +49,7 @@ struct bfdev_circle {
     unsigned long __end, __len;                     \
     __end = ((size) - 1) - (head);                  \
     __len = (__end + (tail)) & ((size) - 1);        \
-    __len <= end ? __len : end + 1;                 \
+    __len <= __end ? __len : __end + 1;             \
 })
 
 BFDEV_END_DECLS
-- 
2.43.0


From 14b3cda825ba7b04e1c5e1f5b79241b33df400d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:29 +0000
Subject: [PATCH 050/104] fix: carry of an in place mpi addition

---
 src/mpi.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 5695cb9..915bc43 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -89,8 +89,9 @@ mpa_addi(BFDEV_MPI_TYPE *ptrs,
     *ptrs++ = value;
 
     while (--length) {
-        *ptrs = *ptra + carry;
-        carry = *ptrs++ < *ptra++;
+        value = *ptra + carry;
+        carry = value < *ptra++;
+        *ptrs++ = value;
     }
 
     return carry;
-- 
2.43.0


From 061b234039b16a42cd000f3e80c4243c2702ea2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:29 +0000
Subject: [PATCH 051/104] fix: carry and borrow through an all ones mpi word

---
 src/mpi.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 915bc43..622182e 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -105,8 +105,10 @@ mpa_add(BFDEV_MPI_TYPE *ptrs,
     BFDEV_MPI_TYPE value;
 
     while (cnta && cntb) {
-        value = *ptra + *ptrb++ + carry;
-        carry = value < *ptra++;
+        value = *ptrb++ + carry;
+        carry = value < carry;
+        value += *ptra;
+        carry |= value < *ptra++;
         *ptrs++ = value;
 
         cnta--;
@@ -155,9 +157,10 @@ mpa_sub(BFDEV_MPI_TYPE *ptrs,
     BFDEV_MPI_TYPE value;
 
     while (cnta && cntb) {
-        value = *ptra - *ptrb++ - borrow;
-        borrow = value > *ptra++;
-        *ptrs++ = value;
+        value = *ptrb++ + borrow;
+        borrow = value < borrow;
+        borrow |= *ptra < value;
+        *ptrs++ = *ptra++ - value;
 
         cnta--;
         cntb--;
-- 
2.43.0


From 9a76214ad77ddae7e9c53764d80fddf5ccbfa0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 052/104] fix: no negative zero in mpi

---
 src/mpi.c | 64 +++++++++++++++++++++++++++++++------------------------
 1 file changed, 36 insertions(+), 28 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 622182e..ec81f86 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -1127,6 +1127,13 @@ mpi_shri(bfdev_mpi_t *dest,
  * signed mpi and provide export api.
  */
 
+/* There is only one zero, and it is positive */
+static inline void
+mpi_sign(bfdev_mpi_t *var, bool plus)
+{
+    var->plus = plus || !mpi_len(var);
+}
+
 export int
 bfdev_mpi_cmp(const bfdev_mpi_t *va, const bfdev_mpi_t *vb)
 {
@@ -1173,7 +1180,7 @@ bfdev_mpi_add(bfdev_mpi_t *dest,
         if (bfdev_unlikely(retval))
             return retval;
 
-        dest->plus = va->plus;
+        mpi_sign(dest, va->plus);
         return -BFDEV_ENOERR;
     }
 
@@ -1192,7 +1199,7 @@ bfdev_mpi_add(bfdev_mpi_t *dest,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            dest->plus = va->plus;
+            mpi_sign(dest, va->plus);
             break;
 
         case BFDEV_LT:
@@ -1200,7 +1207,7 @@ bfdev_mpi_add(bfdev_mpi_t *dest,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            dest->plus = vb->plus;
+            mpi_sign(dest, vb->plus);
             break;
     }
 
@@ -1247,7 +1254,7 @@ bfdev_mpi_addi(bfdev_mpi_t *dest,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            dest->plus = false;
+            mpi_sign(dest, false);
             break;
     }
 
@@ -1265,7 +1272,7 @@ bfdev_mpi_sub(bfdev_mpi_t *dest,
         if (bfdev_unlikely(retval))
             return retval;
 
-        dest->plus = va->plus;
+        mpi_sign(dest, va->plus);
         return -BFDEV_ENOERR;
     }
 
@@ -1284,7 +1291,7 @@ bfdev_mpi_sub(bfdev_mpi_t *dest,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            dest->plus = va->plus;
+            mpi_sign(dest, va->plus);
             break;
 
         case BFDEV_LT:
@@ -1292,7 +1299,7 @@ bfdev_mpi_sub(bfdev_mpi_t *dest,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            dest->plus = !vb->plus;
+            mpi_sign(dest, !vb->plus);
             break;
     }
 
@@ -1311,7 +1318,7 @@ bfdev_mpi_subi(bfdev_mpi_t *dest,
         if (bfdev_unlikely(retval))
             return retval;
 
-        dest->plus = false;
+        mpi_sign(dest, false);
         return -BFDEV_ENOERR;
     }
 
@@ -1331,7 +1338,7 @@ bfdev_mpi_subi(bfdev_mpi_t *dest,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            dest->plus = false;
+            mpi_sign(dest, false);
             break;
 
         case BFDEV_BT:
@@ -1339,7 +1346,7 @@ bfdev_mpi_subi(bfdev_mpi_t *dest,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            dest->plus = va->plus;
+            mpi_sign(dest, va->plus);
             break;
     }
 
@@ -1364,7 +1371,7 @@ bfdev_mpi_mul(bfdev_mpi_t *dest,
     if (bfdev_unlikely(retval))
         return retval;
 
-    dest->plus = !(va->plus ^ vb->plus);
+    mpi_sign(dest, !(va->plus ^ vb->plus));
 
     return -BFDEV_ENOERR;
 }
@@ -1379,7 +1386,7 @@ bfdev_mpi_muli(bfdev_mpi_t *dest,
     if (bfdev_unlikely(retval))
         return retval;
 
-    dest->plus = va->plus;
+    mpi_sign(dest, va->plus);
 
     return -BFDEV_ENOERR;
 }
@@ -1401,7 +1408,7 @@ bfdev_mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            quot->plus = !(va->plus ^ vb->plus);
+            mpi_sign(quot, !(va->plus ^ vb->plus));
             rem->plus = true;
             break;
 
@@ -1411,7 +1418,7 @@ bfdev_mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
                 if (bfdev_unlikely(retval))
                     return retval;
 
-                rem->plus = va->plus;
+                mpi_sign(rem, va->plus);
             }
 
             /* quot can be equal to va */
@@ -1427,8 +1434,8 @@ bfdev_mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            quot->plus = !(va->plus ^ vb->plus);
-            rem->plus = va->plus;
+            mpi_sign(quot, !(va->plus ^ vb->plus));
+            mpi_sign(rem, va->plus);
             break;
     }
 
@@ -1452,7 +1459,7 @@ bfdev_mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            quot->plus = va->plus;
+            mpi_sign(quot, va->plus);
             rem->plus = true;
             break;
 
@@ -1462,7 +1469,7 @@ bfdev_mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
                 if (bfdev_unlikely(retval))
                     return retval;
 
-                rem->plus = va->plus;
+                mpi_sign(rem, va->plus);
             }
 
             /* quot can be equal to va */
@@ -1478,8 +1485,8 @@ bfdev_mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            quot->plus = va->plus;
-            rem->plus = va->plus;
+            mpi_sign(quot, va->plus);
+            mpi_sign(rem, va->plus);
             break;
     }
 
@@ -1508,7 +1515,7 @@ bfdev_mpi_mod(bfdev_mpi_t *rem,
                 if (bfdev_unlikely(retval))
                     return retval;
 
-                rem->plus = va->plus;
+                mpi_sign(rem, va->plus);
             }
             break;
 
@@ -1517,7 +1524,7 @@ bfdev_mpi_mod(bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            rem->plus = va->plus;
+            mpi_sign(rem, va->plus);
             break;
     }
 
@@ -1546,7 +1553,7 @@ bfdev_mpi_modi(bfdev_mpi_t *rem,
                 if (bfdev_unlikely(retval))
                     return retval;
 
-                rem->plus = va->plus;
+                mpi_sign(rem, va->plus);
             }
             break;
 
@@ -1555,7 +1562,7 @@ bfdev_mpi_modi(bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            rem->plus = va->plus;
+            mpi_sign(rem, va->plus);
             break;
     }
 
@@ -1617,7 +1624,7 @@ bfdev_mpi_shli(bfdev_mpi_t *dest,
     if (bfdev_unlikely(retval))
         return retval;
 
-    dest->plus = va->plus;
+    mpi_sign(dest, va->plus);
 
     return -BFDEV_ENOERR;
 }
@@ -1632,7 +1639,7 @@ bfdev_mpi_shri(bfdev_mpi_t *dest,
     if (bfdev_unlikely(retval))
         return retval;
 
-    dest->plus = va->plus;
+    mpi_sign(dest, va->plus);
 
     return -BFDEV_ENOERR;
 }
@@ -1686,6 +1693,7 @@ bfdev_mpi_bclri(bfdev_mpi_t *dest, BFDEV_MPI_TYPE bit)
     base = mpi_val(dest);
     bfdev_bit_clr(base, bit);
     mpi_relocation(dest);
+    mpi_sign(dest, dest->plus);
 
     return -BFDEV_ENOERR;
 }
@@ -1713,7 +1721,7 @@ bfdev_mpi_set(bfdev_mpi_t *dest, const bfdev_mpi_t *src)
     if (bfdev_unlikely(retval))
         return retval;
 
-    dest->plus = src->plus;
+    mpi_sign(dest, src->plus);
 
     return -BFDEV_ENOERR;
 }
@@ -1728,7 +1736,7 @@ bfdev_mpi_import(bfdev_mpi_t *var, const BFDEV_MPI_TYPE *buffer,
     if (bfdev_unlikely(retval))
         return retval;
 
-    var->plus = sign;
+    mpi_sign(var, sign);
 
     return -BFDEV_ENOERR;
 }
-- 
2.43.0


From 1a5a2c05444dbcb311ac7f442d2515e8fbe2f514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 053/104] fix: compare the magnitude in bfdev_mpi_addi

---
 src/mpi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpi.c b/src/mpi.c
index ec81f86..2a841ca 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -1230,7 +1230,7 @@ bfdev_mpi_addi(bfdev_mpi_t *dest,
         return -BFDEV_ENOERR;
     }
 
-    diff = bfdev_mpi_cmpi(va, vi);
+    diff = mpi_cmpi(va, vi);
     switch (diff) {
         case BFDEV_EQ: default:
             retval = mpi_seti(dest, 0);
-- 
2.43.0


From 3c7b26603cbee023273e38f907dc5d5bb74699aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 054/104] fix: subtraction of an immediate from an empty mpi

---
 src/mpi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpi.c b/src/mpi.c
index 2a841ca..c8bfc8c 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -1334,7 +1334,7 @@ bfdev_mpi_subi(bfdev_mpi_t *dest,
 
         case BFDEV_LT:
             value = mpi_val(va);
-            retval = mpi_seti(dest, vi - *value);
+            retval = mpi_seti(dest, vi - (value ? *value : 0));
             if (bfdev_unlikely(retval))
                 return retval;
 
-- 
2.43.0


From 90c1662fe2ed87f50c6cddc2abdb8aafcf3b5399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 055/104] fix: operands moved by resize of the result of mpi
 add and sub

---
 src/mpi.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mpi.c b/src/mpi.c
index c8bfc8c..3cadb0d 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -614,7 +614,9 @@ mpi_add(bfdev_mpi_t *dest,
     if (bfdev_unlikely(retval))
         return retval;
 
+    /* resize may have moved the operands */
     ptra = mpi_val(va);
+    ptrb = mpi_val(vb);
     ptrs = mpi_val(dest);
 
     carry = mpa_add(ptrs, ptra, ptrb, cnta, cntb, false);
@@ -677,8 +679,10 @@ mpi_sub(bfdev_mpi_t *dest,
     if (bfdev_unlikely(retval))
         return retval;
 
+    /* resize may have moved the operands */
     ptrs = mpi_val(dest);
     ptra = mpi_val(va);
+    ptrb = mpi_val(vb);
 
     borrow = mpa_sub(ptrs, ptra, ptrb, cnta, cntb, false);
     BFDEV_BUG_ON(borrow);
-- 
2.43.0


From 9c469cdbb860bff94bcb0e89499fe4872d832204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 056/104] fix: mpi multiplication into one of its operands

---
 src/mpi.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 3cadb0d..9fa16e7 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -744,7 +744,7 @@ mpi_mul(bfdev_mpi_t *dest,
         return mpi_muli(dest, va, *ptrb);
 
     rename = NULL;
-    if (dest == va && dest == vb) {
+    if (dest == va || dest == vb) {
         rename = dest;
         dest = &buffer;
     }
@@ -761,11 +761,11 @@ mpi_mul(bfdev_mpi_t *dest,
     mpi_relocation(dest);
 
     if (rename) {
-        mpi_set(rename, dest);
+        retval = mpi_set(rename, dest);
         bfdev_mpi_release(dest);
     }
 
-    return -BFDEV_ENOERR;
+    return retval;
 }
 
 static inline int
-- 
2.43.0


From f4ad15acc5d018e318df89cf8c583428a8187a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:26 +0000
Subject: [PATCH 057/104] fix: mpi division by a divisor of several words

---
 src/mpi.c | 131 +++++++++++++++++++-----------------------------------
 1 file changed, 45 insertions(+), 86 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 9fa16e7..8f2dd9d 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -839,11 +839,11 @@ static inline int
 mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
         const bfdev_mpi_t *va, const bfdev_mpi_t *vb)
 {
-    BFDEV_DEFINE_MPI(buffer, quot->alloc);
-    BFDEV_MPI_TYPE *ptrs, *ptra, *ptrb;
-    unsigned long cnta, cntb, length;
-    bfdev_mpi_t *rename;
-    bool limb;
+    BFDEV_DEFINE_MPI(num, rem->alloc);
+    BFDEV_DEFINE_MPI(den, rem->alloc);
+    BFDEV_MPI_TYPE *ptra, *ptrb;
+    unsigned long cnta, cntb;
+    unsigned int shift;
     int retval;
 
     /* divide by zero */
@@ -853,102 +853,61 @@ mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
 
     /* degrade to divi */
     ptrb = mpi_val(vb);
-    if (cntb == 1)
-        return mpi_divi(quot, rem, va, *ptrb);
-
-    /* parameter check */
-    cnta = mpi_len(va);
-    if (!cnta) {
-        retval = mpi_seti(quot, 0);
-        if (retval)
-            return retval;
-
-        retval = mpi_seti(rem, 0);
-        if (retval)
-            return retval;
-
-        return -BFDEV_ENOERR;
-    }
-
-    if (rem != va) {
-        retval = mpi_set(rem, va);
-        if (bfdev_unlikely(retval))
-            return retval;
+    if (cntb == 1) {
+        if (quot)
+            return mpi_divi(quot, rem, va, *ptrb);
+        return mpi_modi(rem, va, *ptrb);
     }
 
-    rename = NULL;
-    if (quot == va) {
-        rename = quot;
-        quot = &buffer;
-    }
+    /* work on copies, the results may be the operands */
+    cnta = mpi_len(va);
+    BFDEV_BUG_ON(cnta < cntb);
 
-    length = cnta + cntb;
-    retval = mpi_resize(quot, length);
+    retval = mpi_set(&den, vb);
     if (bfdev_unlikely(retval))
-        return retval;
-
-    ptrs = mpi_val(quot);
-    ptra = mpi_val(rem);
-
-    limb = mpa_divrem(ptrs, ptra, ptrb, cnta, cntb);
-    length = cnta - cntb;
+        goto failed;
 
-    if (limb) {
-        ptrs[length] = limb;
-        length += 1;
-    }
+    retval = mpi_set(&num, va);
+    if (bfdev_unlikely(retval))
+        goto failed;
 
-    BFDEV_BUG_ON(mpi_resize(quot, length));
-    BFDEV_BUG_ON(mpi_resize(rem, cntb));
+    retval = mpi_extend(&num, cnta + 1);
+    if (bfdev_unlikely(retval))
+        goto failed;
 
-    BFDEV_BUG_ON(mpi_relocation(quot));
-    mpi_relocation(rem);
+    ptra = mpi_val(&num);
+    ptrb = mpi_val(&den);
 
-    if (rename) {
-        mpi_set(rename, quot);
-        bfdev_mpi_release(quot);
+    /* the most significant bit of the divisor must be set */
+    shift = bfdev_clz(ptrb[cntb - 1]);
+    if (shift) {
+        bfdev_bitmap_shl(ptra, ptra, shift, (cnta + 1) * BFDEV_MPI_BITS);
+        bfdev_bitmap_shl(ptrb, ptrb, shift, cntb * BFDEV_MPI_BITS);
     }
 
-    return -BFDEV_ENOERR;
-}
-
-static inline int
-mpi_mod(bfdev_mpi_t *rem,
-        const bfdev_mpi_t *va, const bfdev_mpi_t *vb)
-{
-    BFDEV_MPI_TYPE *ptra, *ptrb;
-    unsigned long cnta, cntb;
-    int retval;
-
-    /* divide by zero */
-    cntb = mpi_len(vb);
-    if (bfdev_unlikely(!cntb))
-        return -BFDEV_EOVERFLOW;
-
-    /* degrade to divi */
-    ptrb = mpi_val(vb);
-    if (cntb == 1)
-        return mpi_modi(rem, va, *ptrb);
+    /* place the quotient right after the remainder */
+    mpa_divrem(ptra + cntb, ptra, ptrb, cnta + 1, cntb);
+    if (shift)
+        bfdev_bitmap_shr(ptra, ptra, shift, cntb * BFDEV_MPI_BITS);
 
-    /* parameter check */
-    cnta = mpi_len(va);
-    if (!cnta)
-        return mpi_seti(rem, 0);
-
-    if (rem != va) {
-        retval = mpi_set(rem, va);
+    if (quot) {
+        retval = bfdev_array_reserve(&quot->value, cnta + 1 - cntb);
         if (bfdev_unlikely(retval))
-            return retval;
+            goto failed;
     }
 
-    cnta = mpi_len(va);
-    ptra = mpi_val(rem);
+    retval = mpi_copy(rem, ptra, cntb);
+    if (bfdev_unlikely(retval))
+        goto failed;
 
-    mpa_divrem(NULL, ptra, ptrb, cnta, cntb);
-    BFDEV_BUG_ON(mpi_resize(rem, cntb));
-    mpi_relocation(rem);
+    if (quot)
+        retval = mpi_copy(quot, ptra + cntb, cnta + 1 - cntb);
 
-    return -BFDEV_ENOERR;
+failed:
+    bfdev_mpi_release(&num);
+    bfdev_mpi_release(&den);
+
+    return retval;
 }
 
 static inline int
@@ -1524,7 +1483,7 @@ bfdev_mpi_mod(bfdev_mpi_t *rem,
             break;
 
         case BFDEV_BT:
-            retval = mpi_mod(rem, va, vb);
+            retval = mpi_div(NULL, rem, va, vb);
             if (bfdev_unlikely(retval))
                 return retval;
 
-- 
2.43.0


From 96cc94c9ca86f0b54c91a2ca724f8383faa7fdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:26 +0000
Subject: [PATCH 058/104] fix: refuse to divide an mpi of zero by zero

---
 src/mpi.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/mpi.c b/src/mpi.c
index 8f2dd9d..d02b9b4 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -1360,6 +1360,10 @@ bfdev_mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
 {
     int retval, diff;
 
+    /* divide by zero */
+    if (bfdev_unlikely(!mpi_len(vb)))
+        return -BFDEV_EOVERFLOW;
+
     diff = mpi_cmp(va, vb);
     switch (diff) {
         case BFDEV_EQ: default:
@@ -1411,6 +1415,10 @@ bfdev_mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
 {
     int retval, diff;
 
+    /* divide by zero */
+    if (bfdev_unlikely(!vi))
+        return -BFDEV_EOVERFLOW;
+
     diff = mpi_cmpi(va, vi);
     switch (diff) {
         case BFDEV_EQ: default:
@@ -1462,6 +1470,10 @@ bfdev_mpi_mod(bfdev_mpi_t *rem,
 {
     int retval, diff;
 
+    /* divide by zero */
+    if (bfdev_unlikely(!mpi_len(vb)))
+        return -BFDEV_EOVERFLOW;
+
     diff = mpi_cmp(va, vb);
     switch (diff) {
         case BFDEV_EQ: default:
@@ -1500,6 +1512,10 @@ bfdev_mpi_modi(bfdev_mpi_t *rem,
 {
     int retval, diff;
 
+    /* divide by zero */
+    if (bfdev_unlikely(!vi))
+        return -BFDEV_EOVERFLOW;
+
     diff = mpi_cmpi(va, vi);
     switch (diff) {
         case BFDEV_EQ: default:
-- 
2.43.0


From e5a00fc8d2b16b2fde3d61c9afc39a93fd472b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 059/104] fix: results of mpi division that are also operands

---
 src/mpi.c | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index d02b9b4..a395466 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -1358,25 +1358,32 @@ export int
 bfdev_mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
               const bfdev_mpi_t *va, const bfdev_mpi_t *vb)
 {
+    bool plus, sign;
     int retval, diff;
 
     /* divide by zero */
     if (bfdev_unlikely(!mpi_len(vb)))
         return -BFDEV_EOVERFLOW;
 
+    /* the results can be equal to the operands */
+    plus = va->plus;
+    sign = !(va->plus ^ vb->plus);
+
     diff = mpi_cmp(va, vb);
     switch (diff) {
         case BFDEV_EQ: default:
-            retval = mpi_seti(quot, 1);
+            retval = mpi_seti(rem, 0);
             if (bfdev_unlikely(retval))
                 return retval;
 
-            retval = mpi_seti(rem, 0);
+            rem->plus = true;
+
+            /* quot can be equal to rem */
+            retval = mpi_seti(quot, 1);
             if (bfdev_unlikely(retval))
                 return retval;
 
-            mpi_sign(quot, !(va->plus ^ vb->plus));
-            rem->plus = true;
+            quot->plus = sign;
             break;
 
         case BFDEV_LT:
@@ -1401,8 +1408,8 @@ bfdev_mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            mpi_sign(quot, !(va->plus ^ vb->plus));
-            mpi_sign(rem, va->plus);
+            mpi_sign(rem, plus);
+            mpi_sign(quot, sign);
             break;
     }
 
@@ -1414,24 +1421,30 @@ bfdev_mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
                const bfdev_mpi_t *va, BFDEV_MPI_TYPE vi)
 {
     int retval, diff;
+    bool sign;
 
     /* divide by zero */
     if (bfdev_unlikely(!vi))
         return -BFDEV_EOVERFLOW;
 
+    /* the results can be equal to the operand */
+    sign = va->plus;
+
     diff = mpi_cmpi(va, vi);
     switch (diff) {
         case BFDEV_EQ: default:
-            retval = mpi_seti(quot, 1);
+            retval = mpi_seti(rem, 0);
             if (bfdev_unlikely(retval))
                 return retval;
 
-            retval = mpi_seti(rem, 0);
+            rem->plus = true;
+
+            /* quot can be equal to rem */
+            retval = mpi_seti(quot, 1);
             if (bfdev_unlikely(retval))
                 return retval;
 
-            mpi_sign(quot, va->plus);
-            rem->plus = true;
+            quot->plus = sign;
             break;
 
         case BFDEV_LT:
@@ -1456,8 +1469,8 @@ bfdev_mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            mpi_sign(quot, va->plus);
-            mpi_sign(rem, va->plus);
+            mpi_sign(rem, sign);
+            mpi_sign(quot, sign);
             break;
     }
 
-- 
2.43.0


From 5fbaa656e05cb3b3fd9c8fd8ce29e2622031ddae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 060/104] fix: report that the remainder of an mpi division
 could not be stored

---
 src/mpi.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index a395466..4aeeb32 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -794,6 +794,10 @@ mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
         return -BFDEV_ENOERR;
     }
 
+    retval = bfdev_array_reserve(&rem->value, 1);
+    if (bfdev_unlikely(retval))
+        return retval;
+
     retval = mpi_resize(quot, length);
     if (bfdev_unlikely(retval))
         return retval;
@@ -805,9 +809,9 @@ mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
     mpi_relocation(quot);
 
     if (quot != rem)
-        mpi_seti(rem, value);
+        retval = mpi_seti(rem, value);
 
-    return -BFDEV_ENOERR;
+    return retval;
 }
 
 static inline int
@@ -830,9 +834,8 @@ mpi_modi(bfdev_mpi_t *rem,
     ptra = mpi_val(va);
 
     value = mpa_modi(ptra, vi, length);
-    mpi_seti(rem, value);
 
-    return -BFDEV_ENOERR;
+    return mpi_seti(rem, value);
 }
 
 static inline int
-- 
2.43.0


From 980c84c4d27ee380136c280a3c591fdfb25d041d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:22 +0000
Subject: [PATCH 061/104] fix: high word of the remainder of udivd by one word

---
 src/dword.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dword.c b/src/dword.c
index dad9024..f550df3 100644
--- a/src/dword.c
+++ b/src/dword.c
@@ -80,8 +80,12 @@ bfdev_dword_generic_udivd(bfdev_uw_t *quot, bfdev_uw_t *rem,
     d1 = div[1];
 
     /* degrade to udiv */
-    if (!d1)
-        return bfdev_dword_udiv(quot, rem, src, d0);
+    if (!d1) {
+        bfdev_dword_udiv(quot, rem, src, d0);
+        if (rem)
+            rem[1] = 0;
+        return;
+    }
 
     bm = bfdev_clz(d1);
     if (bm == 0) {
-- 
2.43.0


From ffaae66ac0bfdae5b966dd9afa66e62e725cd27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 062/104] fix: comparison of double words in udivd

---
 src/dword.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dword.c b/src/dword.c
index f550df3..c5f0afb 100644
--- a/src/dword.c
+++ b/src/dword.c
@@ -89,7 +89,7 @@ bfdev_dword_generic_udivd(bfdev_uw_t *quot, bfdev_uw_t *rem,
 
     bm = bfdev_clz(d1);
     if (bm == 0) {
-        if (n1 <= d1 && n0 < d0)
+        if (n1 < d1 || (n1 == d1 && n0 < d0))
             q0 = 0;
         else {
             q0 = 1;
-- 
2.43.0


From 3cb4bd3f2971338b640c03d24494538f02c634c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 063/104] fix: read of the data following a partial ascii85
 group

---
 src/crypto/ascii85.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/crypto/ascii85.c b/src/crypto/ascii85.c
index 965e4a1..4562d38 100644
--- a/src/crypto/ascii85.c
+++ b/src/crypto/ascii85.c
@@ -35,8 +35,10 @@ ascii85_encode(uint8_t *buff, const void *data, size_t *plen, size_t size)
     }
 
     if (size) {
-        value = bfdev_unaligned_get_be32(data);
-        value &= BFDEV_BIT_HIGH_MASK((BFDEV_BYTES_PER_U32 - size) * BFDEV_BITS_PER_BYTE);
+        uint8_t tail[BFDEV_BYTES_PER_U32] = {};
+
+        bfport_memcpy(tail, data, size);
+        value = bfdev_unaligned_get_be32(tail);
 
         if (!value)
             buff[index] = 'z';
-- 
2.43.0


From f27edd2e5b440ea0cf5a2214b869c218892c107f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 064/104] fix: zero groups in ascii85 text

---
 src/crypto/ascii85.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/crypto/ascii85.c b/src/crypto/ascii85.c
index 4562d38..4ff9a9e 100644
--- a/src/crypto/ascii85.c
+++ b/src/crypto/ascii85.c
@@ -69,6 +69,7 @@ ascii85_decode(void *buff, const uint8_t *data, size_t *plen, size_t size)
             bfport_memset(buff + index, 0, 4);
             data++;
             size--;
+            continue;
         }
 
         if (size >= 5) {
-- 
2.43.0


From 7336d53a69051ff7f71924db8265ad8af9643fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 065/104] fix: refuse ascii85 groups above the largest word

---
 src/crypto/ascii85.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/crypto/ascii85.c b/src/crypto/ascii85.c
index 4ff9a9e..1f3bcd0 100644
--- a/src/crypto/ascii85.c
+++ b/src/crypto/ascii85.c
@@ -7,6 +7,7 @@
 #include <bfdev/ascii85.h>
 #include <bfdev/math.h>
 #include <bfdev/bits.h>
+#include <bfdev/limits.h>
 #include <bfdev/unaligned.h>
 #include <export.h>
 
@@ -61,7 +62,7 @@ static __bfdev_always_inline int
 ascii85_decode(void *buff, const uint8_t *data, size_t *plen, size_t size)
 {
     unsigned int count;
-    uint32_t value;
+    uint64_t value;
     size_t index;
 
     for (index = 0; size; index += 4) {
@@ -83,6 +84,9 @@ ascii85_decode(void *buff, const uint8_t *data, size_t *plen, size_t size)
             value += data[2] - '!'; value *= 85;
             value += data[3] - '!'; value *= 85;
             value += data[4] - '!';
+            if (value > BFDEV_UINT32_MAX)
+                return -BFDEV_EINVAL;
+
             bfdev_unaligned_set_be32(buff + index, value);
 
             data += 5;
-- 
2.43.0


From ac34e29697e4eabcb317ac3b42f64b853ae3c9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 066/104] fix: upper half of 64 bit CRCs in the extended loop

---
 include/bfdev/crypto/crc-inline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/crypto/crc-inline.h b/include/bfdev/crypto/crc-inline.h
index 1e670e2..85c96ff 100644
--- a/include/bfdev/crypto/crc-inline.h
+++ b/include/bfdev/crypto/crc-inline.h
@@ -53,7 +53,7 @@ name##_inline(const uint8_t *src, size_t len, type crc)             \
         value[0] = (__bfdev_force uint32_t)                         \
             bfdev_cpu_to_le32p(combine++) ^ crc;                    \
         value[1] = (__bfdev_force uint32_t)                         \
-            bfdev_cpu_to_le32p(combine++);                          \
+            bfdev_cpu_to_le32p(combine++) ^ ((uint64_t)crc >> 32);  \
                                                                     \
         crc = (                                                     \
             table[7][(value[0] >>  0) & 0xff] ^                     \
-- 
2.43.0


From 64271be4d825b80579345649e4b1dc7f05f0cb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:34 +0000
Subject: [PATCH 067/104] fix: size of the textsearch shift tables

---
 src/textsearch/bm.c     | 4 ++--
 src/textsearch/sunday.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/textsearch/bm.c b/src/textsearch/bm.c
index 24cdeda..fd4a192 100644
--- a/src/textsearch/bm.c
+++ b/src/textsearch/bm.c
@@ -10,7 +10,7 @@ struct bm_context {
     bfdev_ts_context_t tsc;
     uint8_t *pattern;
     unsigned int pattern_len;
-    unsigned int bad_shift[UINT8_MAX];
+    unsigned int bad_shift[UINT8_MAX + 1];
     unsigned int good_shift[0];
 };
 
@@ -100,7 +100,7 @@ bm_compute_prefix(struct bm_context *bctx)
 {
     int index, start, count;
 
-    for (index = 0; index < UINT8_MAX; ++index)
+    for (index = 0; index <= UINT8_MAX; ++index)
         bctx->bad_shift[index] = bctx->pattern_len;
 
     for (index = 0; index < bctx->pattern_len - 1; ++index) {
diff --git a/src/textsearch/sunday.c b/src/textsearch/sunday.c
index 1a3d7b3..eb5af04 100644
--- a/src/textsearch/sunday.c
+++ b/src/textsearch/sunday.c
@@ -9,7 +9,7 @@
 struct sunday_context {
     bfdev_ts_context_t tsc;
     unsigned int pattern_len;
-    unsigned int shift_table[UINT8_MAX];
+    unsigned int shift_table[UINT8_MAX + 1];
     uint8_t pattern[0];
 };
 
@@ -81,7 +81,7 @@ sunday_compute_prefix(struct sunday_context *sctx)
 {
     unsigned int index;
 
-    for (index = 0; index < UINT8_MAX; ++index)
+    for (index = 0; index <= UINT8_MAX; ++index)
         sctx->shift_table[index] = sctx->pattern_len + 1;
 
     for (index = 0; index < sctx->pattern_len; ++index) {
-- 
2.43.0


From 5b24d8b157104c468d86d820ed4c1aa0eed2f8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:34 +0000
Subject: [PATCH 068/104] fix: sunday read past the end of the text

---
 src/textsearch/sunday.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/textsearch/sunday.c b/src/textsearch/sunday.c
index eb5af04..2430725 100644
--- a/src/textsearch/sunday.c
+++ b/src/textsearch/sunday.c
@@ -64,7 +64,7 @@ sunday_find(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss)
             if (index == sctx->pattern_len)
                 return consumed + shift;
 
-            if (sctx->pattern_len >= length)
+            if (sctx->pattern_len + shift >= length)
                 break;
 
             shift += sctx->shift_table[text[shift + sctx->pattern_len]];
-- 
2.43.0


From 411f0aed8e0ee9b2344ebca4e79090fad8947e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:34 +0000
Subject: [PATCH 069/104] fix: successive matches and blocks in bm and sunday

---
 src/textsearch/bm.c     | 9 +++++----
 src/textsearch/sunday.c | 6 ++++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/textsearch/bm.c b/src/textsearch/bm.c
index fd4a192..0d829a4 100644
--- a/src/textsearch/bm.c
+++ b/src/textsearch/bm.c
@@ -50,21 +50,22 @@ bm_find(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss)
     bctx = ts_to_bm(tsc);
     icase = bfdev_ts_igcase_test(tsc);
     consumed = tss->offset;
-    shift = bctx->pattern_len - 1;
-
     for (;;) {
         length = tsc->next_block(tsc, tss, consumed, (const void **)&text);
         if (bfdev_unlikely(!length))
             return UINT_MAX;
 
+        shift = bctx->pattern_len - 1;
         while (shift < length) {
             for (index = 0; index < bctx->pattern_len; ++index) {
                 if (bctx->pattern[bctx->pattern_len - index - 1] != find_pattern())
                     break;
             }
 
-            if (index == bctx->pattern_len)
-                return consumed + shift - bctx->pattern_len + 1;
+            if (index == bctx->pattern_len) {
+                tss->offset = consumed + shift + 1;
+                return tss->offset - bctx->pattern_len;
+            }
 
             bad_shift = shift - index + bctx->bad_shift[text[shift - index]];
             good_shift = shift + bctx->good_shift[index];
diff --git a/src/textsearch/sunday.c b/src/textsearch/sunday.c
index 2430725..b51980e 100644
--- a/src/textsearch/sunday.c
+++ b/src/textsearch/sunday.c
@@ -48,21 +48,23 @@ sunday_find(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss)
     sctx = ts_to_sunday(tsc);
     icase = bfdev_ts_igcase_test(tsc);
     consumed = tss->offset;
-    shift = 0;
 
     for (;;) {
         length = tsc->next_block(tsc, tss, consumed, (const void **)&text);
         if (bfdev_unlikely(!length))
             return UINT_MAX;
 
+        shift = 0;
         while (sctx->pattern_len + shift <= length) {
             for (index = 0; index < sctx->pattern_len; ++index) {
                 if (sctx->pattern[index] != find_pattern())
                     break;
             }
 
-            if (index == sctx->pattern_len)
+            if (index == sctx->pattern_len) {
+                tss->offset = consumed + shift + sctx->pattern_len;
                 return consumed + shift;
+            }
 
             if (sctx->pattern_len + shift >= length)
                 break;
-- 
2.43.0


From a26427971d2fc0ecfa6572d852881c27e536054e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:34 +0000
Subject: [PATCH 070/104] fix: good suffix table of bm

---
 src/textsearch/bm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/textsearch/bm.c b/src/textsearch/bm.c
index 0d829a4..908a5a9 100644
--- a/src/textsearch/bm.c
+++ b/src/textsearch/bm.c
@@ -86,7 +86,7 @@ subpattern(const uint8_t *pattern, int index, int j, int g)
     x = index + g - 1;
     y = j + g - 1;
 
-    while (y && pattern[x--] == pattern[y--]) {
+    while (pattern[x--] == pattern[y--]) {
         if (y < 0)
             return true;
         if (!--g)
@@ -119,7 +119,7 @@ bm_compute_prefix(struct bm_context *bctx)
     for (index = bctx->pattern_len - 1, start = 1; index; ++start, --index) {
         for (count = index - 1; count >= 1 - start; --count) {
             if (subpattern(bctx->pattern, index, count, start)) {
-                bctx->good_shift[count] = bctx->pattern_len - start - count;
+                bctx->good_shift[start] = bctx->pattern_len - start - count;
                 break;
             }
         }
-- 
2.43.0


From f73b490af940677ca8551629906312eda8cfc4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:10 +0000
Subject: [PATCH 071/104] fix: bytes above 0x7f in kmp ignoring case

---
 src/textsearch/kmp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/textsearch/kmp.c b/src/textsearch/kmp.c
index d6592b1..ec1590f 100644
--- a/src/textsearch/kmp.c
+++ b/src/textsearch/kmp.c
@@ -8,7 +8,7 @@
 
 struct kmp_context {
     bfdev_ts_context_t tsc;
-    char *pattern;
+    uint8_t *pattern;
     unsigned int pattern_len;
     unsigned int prefix_table[0];
 };
@@ -42,7 +42,7 @@ kmp_find(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss)
     #define find_pattern() (icase ? toupper(text[index]) : text[index])
     struct kmp_context *kctx;
     unsigned int consumed, length, index, match;
-    const char *text;
+    const uint8_t *text;
     bool icase;
 
     kctx = ts_to_kmp(tsc);
-- 
2.43.0


From 4995aebe94e6e17d54ed5bd20ea31e73f71eb9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 072/104] fix: state left by inherited fsm transitions

---
 src/fsm.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fsm.c b/src/fsm.c
index 2ed6531..33d1e4f 100644
--- a/src/fsm.c
+++ b/src/fsm.c
@@ -62,7 +62,7 @@ bfdev_fsm_handle(bfdev_fsm_t *fsm, bfdev_fsm_event_t *event)
     if (bfdev_unlikely(!curr))
         return -BFDEV_EINVAL;
 
-    for (next = curr; next; curr = next) {
+    for (next = curr; next;) {
         const bfdev_fsm_transition_t *tran;
         const bfdev_fsm_state_t **pstate;
         int retval;
@@ -72,9 +72,9 @@ bfdev_fsm_handle(bfdev_fsm_t *fsm, bfdev_fsm_event_t *event)
          * the current state, check if there are any transitions
          * for any of the parent states (if any).
          */
-        tran = fsm_find_transition(curr, event);
+        tran = fsm_find_transition(next, event);
         if (!tran) {
-            next = curr->parent;
+            next = next->parent;
             continue;
         }
 
@@ -168,8 +168,10 @@ bfdev_fsm_handle(bfdev_fsm_t *fsm, bfdev_fsm_event_t *event)
          * If it is declared as crossing, Immediately
          * change to the next state.
          */
-        if (tran->cross)
+        if (tran->cross) {
+            curr = next;
             continue;
+        }
 
         return BFDEV_FSM_CHANGED;
     }
-- 
2.43.0


From 504602b7d0d8eaa250542f48a41bf2d9cbf5f73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 073/104] fix: previous state after an fsm reset

---
 include/bfdev/fsm.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bfdev/fsm.h b/include/bfdev/fsm.h
index ff85286..33a0ec8 100644
--- a/include/bfdev/fsm.h
+++ b/include/bfdev/fsm.h
@@ -111,7 +111,8 @@ bfdev_fsm_init(bfdev_fsm_t *fsm, const bfdev_alloc_t *alloc,
 static inline void
 bfdev_fsm_reset(bfdev_fsm_t *fsm, const bfdev_fsm_state_t *init)
 {
-    *fsm->state = init;
+    fsm->state[0] = init;
+    fsm->state[1] = NULL;
     fsm->count = 0;
     bfdev_array_reset(&fsm->stack);
 }
-- 
2.43.0


From 9ae485c3d5194120957957a3a222e3de86af3e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 074/104] fix: fsm stack of refused transitions

---
 src/fsm.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/fsm.c b/src/fsm.c
index 33d1e4f..f2cdc1f 100644
--- a/src/fsm.c
+++ b/src/fsm.c
@@ -84,7 +84,7 @@ bfdev_fsm_handle(bfdev_fsm_t *fsm, bfdev_fsm_event_t *event)
          */
         next = tran->next;
         if (!next && tran->stack < 0) {
-            pstate = bfdev_array_pop(&fsm->stack, -tran->stack);
+            pstate = bfdev_array_peek(&fsm->stack, -tran->stack);
             if (bfdev_unlikely(!pstate))
                 return -BFDEV_EOVERFLOW;
             next = *pstate;
@@ -108,6 +108,13 @@ bfdev_fsm_handle(bfdev_fsm_t *fsm, bfdev_fsm_event_t *event)
         while (next->entry)
             next = next->entry;
 
+        /* Reserve the stack while the transition can be refused */
+        if (tran->stack > 0) {
+            retval = bfdev_array_reserve(&fsm->stack, 1);
+            if (bfdev_unlikely(retval))
+                return retval;
+        }
+
         /*
          * Call the curr state's exit action, if state
          * does not return to itself and the stack
@@ -137,6 +144,9 @@ bfdev_fsm_handle(bfdev_fsm_t *fsm, bfdev_fsm_event_t *event)
                 return retval;
         }
 
+        if (!tran->next && tran->stack < 0)
+            bfdev_array_pop(&fsm->stack, -tran->stack);
+
         /* Update history state */
         fsm_push_state(fsm, next);
         if (bfdev_unlikely(next == fsm->error))
-- 
2.43.0


From d5225ffc95b1e9dc202178bb3267070216908915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 075/104] fix: time zero in ratelimit and tokenbucket

---
 include/bfdev/ratelimit.h   | 3 +++
 include/bfdev/tokenbucket.h | 3 +++
 src/ratelimit.c             | 4 +++-
 src/tokenbucket.c           | 3 ++-
 4 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/ratelimit.h b/include/bfdev/ratelimit.h
index 30e73b2..42efc35 100644
--- a/include/bfdev/ratelimit.h
+++ b/include/bfdev/ratelimit.h
@@ -18,6 +18,7 @@ typedef struct bfdev_ratelimit bfdev_ratelimit_t;
  * struct bfdev_ratelimit - describe ratelimit status.
  * @interval: manage time granularity of the maximum number of transfers.
  * @burst: maximum number of transfers allowed in @interval period.
+ * @started: whether @begin has been set.
  * @begin: start time of current management granularity.
  * @passed: number of data passed in compliance with rate limit.
  * @missed: number of lost data exceeding the rate limit.
@@ -26,6 +27,7 @@ struct bfdev_ratelimit {
     bfdev_time_t interval;
     unsigned int burst;
 
+    bool started;
     bfdev_time_t begin;
     unsigned int passed;
     unsigned int missed;
@@ -51,6 +53,7 @@ bfdev_ratelimit_init(bfdev_ratelimit_t *limit,
 static inline void
 bfdev_ratelimit_reset(bfdev_ratelimit_t *limit)
 {
+    limit->started = false;
     limit->begin = 0;
     limit->passed = 0;
     limit->missed = 0;
diff --git a/include/bfdev/tokenbucket.h b/include/bfdev/tokenbucket.h
index 2a19a80..478b9c5 100644
--- a/include/bfdev/tokenbucket.h
+++ b/include/bfdev/tokenbucket.h
@@ -18,6 +18,7 @@ struct bfdev_tokenbucket {
     bfdev_time_t interval;
     unsigned int capacity;
 
+    bool started;
     bfdev_time_t last;
     unsigned int current;
     unsigned int passed;
@@ -45,11 +46,13 @@ static inline void
 bfdev_tokenbucket_update(bfdev_tokenbucket_t *limit, bfdev_time_t current)
 {
     limit->last = current;
+    limit->started = true;
 }
 
 static inline void
 bfdev_tokenbucket_reset(bfdev_tokenbucket_t *limit)
 {
+    limit->started = false;
     limit->last = 0;
     limit->current = 0;
     limit->passed = 0;
diff --git a/src/ratelimit.c b/src/ratelimit.c
index 6908623..f579fb5 100644
--- a/src/ratelimit.c
+++ b/src/ratelimit.c
@@ -16,8 +16,10 @@ bfdev_ratelimit(bfdev_ratelimit_t *limit, bfdev_time_t current)
     if (!limit->interval)
         return true;
 
-    if (bfdev_unlikely(!limit->begin))
+    if (bfdev_unlikely(!limit->started)) {
         limit->begin = current;
+        limit->started = true;
+    }
 
     if (bfdev_time_after(current, bfdev_time_add(limit->begin, limit->interval))) {
         limit->begin = current;
diff --git a/src/tokenbucket.c b/src/tokenbucket.c
index 0ee5544..9d0b0ca 100644
--- a/src/tokenbucket.c
+++ b/src/tokenbucket.c
@@ -16,9 +16,10 @@ bfdev_tokenbucket(bfdev_tokenbucket_t *limit, bfdev_time_t current)
     if (!limit->interval)
         return true;
 
-    if (bfdev_unlikely(!limit->last)) {
+    if (bfdev_unlikely(!limit->started)) {
         limit->current = limit->capacity;
         limit->last = current;
+        limit->started = true;
     }
 
     /* generate token */
-- 
2.43.0


From 7e05285406879b3c4bab0467516a05243682c9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 076/104] fix: tokens generated over long and negative times

---
 src/tokenbucket.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/tokenbucket.c b/src/tokenbucket.c
index 9d0b0ca..7d2c66d 100644
--- a/src/tokenbucket.c
+++ b/src/tokenbucket.c
@@ -11,7 +11,7 @@
 export bool
 bfdev_tokenbucket(bfdev_tokenbucket_t *limit, bfdev_time_t current)
 {
-    unsigned int generate;
+    bfdev_time_t generate;
 
     if (!limit->interval)
         return true;
@@ -23,9 +23,12 @@ bfdev_tokenbucket(bfdev_tokenbucket_t *limit, bfdev_time_t current)
     }
 
     /* generate token */
-    generate = bfdev_time_sub(current, limit->last) / limit->interval;
-    limit->last = bfdev_time_add(generate * limit->interval, limit->last);
-    limit->current = bfdev_min(limit->current + generate, limit->capacity);
+    if (bfdev_likely(bfdev_time_after(current, limit->last))) {
+        generate = bfdev_time_sub(current, limit->last) / limit->interval;
+        limit->last = bfdev_time_add(generate * limit->interval, limit->last);
+        generate = bfdev_min(generate, limit->capacity) + limit->current;
+        limit->current = bfdev_min(generate, limit->capacity);
+    }
 
     if (bfdev_unlikely(!limit->current)) {
         limit->missed++;
-- 
2.43.0


From 97980f3d27d74bf56386d4d70765f2aea55fd713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 077/104] fix: overflow of ratelimit's end of period

---
 src/ratelimit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ratelimit.c b/src/ratelimit.c
index f579fb5..c71c54c 100644
--- a/src/ratelimit.c
+++ b/src/ratelimit.c
@@ -21,7 +21,7 @@ bfdev_ratelimit(bfdev_ratelimit_t *limit, bfdev_time_t current)
         limit->started = true;
     }
 
-    if (bfdev_time_after(current, bfdev_time_add(limit->begin, limit->interval))) {
+    if (bfdev_time_after(bfdev_time_sub(current, limit->begin), limit->interval)) {
         limit->begin = current;
         limit->passed = 0;
     }
-- 
2.43.0


From 3798ded21a84750c1d6e88d7788e16760708d624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 078/104] fix: length of failed formatted output

---
 src/scnprintf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/scnprintf.c b/src/scnprintf.c
index 13d0802..2dd439f 100644
--- a/src/scnprintf.c
+++ b/src/scnprintf.c
@@ -16,6 +16,11 @@ bfdev_vscnprintf(char *buf, size_t size, const char *fmt, va_list args)
         return 0;
 
     len = bfport_vsnprintf(buf, size, fmt, args);
+    if (bfdev_unlikely(len < 0)) {
+        *buf = '\0';
+        return 0;
+    }
+
     if (bfdev_likely(len < size))
         return len;
 
-- 
2.43.0


From d846a39005296f63df9e5ed3d31191754fc20f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:40 +0000
Subject: [PATCH 079/104] fix: end pointer of bfdev_log_level

---
 src/log/log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log/log.c b/src/log/log.c
index efc692c..203e1e6 100644
--- a/src/log/log.c
+++ b/src/log/log.c
@@ -79,7 +79,7 @@ bfdev_log_level(const char *str, const char **endptr)
         }
     }
 
-    if (*endptr)
+    if (endptr)
         *endptr = str;
 
     return level;
-- 
2.43.0


From 2e5d476ec8d65d0f1723e4bb8e96a592e3dcac27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:26 +0000
Subject: [PATCH 080/104] fix: bloom filters without capacity

---
 src/bloom.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bloom.c b/src/bloom.c
index 391e01f..fb3bf7e 100644
--- a/src/bloom.c
+++ b/src/bloom.c
@@ -70,6 +70,8 @@ bfdev_bloom_create(const bfdev_alloc_t *alloc, unsigned int capacity,
 
     bfdev_align_high_adj(capacity, BFDEV_BITS_PER_LONG);
     size = BFDEV_BITS_DIV_LONG(capacity);
+    if (bfdev_unlikely(!size))
+        return NULL;
 
     bloom = bfdev_zalloc(alloc, sizeof(*bloom) + sizeof(*bloom->bitmap) * size);
     if (bfdev_unlikely(!bloom))
-- 
2.43.0


From 72fce5225bdd7d4a687e14d40ed689ebda6cf888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:28 +0000
Subject: [PATCH 081/104] fix: size of the bloom filter flush

---
 src/bloom.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bloom.c b/src/bloom.c
index fb3bf7e..ca5d9d8 100644
--- a/src/bloom.c
+++ b/src/bloom.c
@@ -57,8 +57,8 @@ bfdev_bloom_flush(bfdev_bloom_t *bloom)
 {
     size_t size;
 
-    size = BFDEV_BITS_WORD(bloom->capacity);
-    bfport_memset(bloom->bitmap, 0, size);
+    size = BFDEV_BITS_DIV_LONG(bloom->capacity);
+    bfport_memset(bloom->bitmap, 0, sizeof(*bloom->bitmap) * size);
 }
 
 export bfdev_bloom_t *
-- 
2.43.0


From 3d35230b8db6472ff174c638dfa13f8f59fc124c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:18 +0000
Subject: [PATCH 082/104] fix: refused links left alone by the rbtree fixup

---
 include/bfdev/rbtree.h | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/bfdev/rbtree.h b/include/bfdev/rbtree.h
index 2738555..fa74f4b 100644
--- a/include/bfdev/rbtree.h
+++ b/include/bfdev/rbtree.h
@@ -613,12 +613,12 @@ bfdev_rb_post_next(const bfdev_rb_node_t *node);
  * @link: point to pointer to child node.
  * @node: new node to link.
  */
-static inline void
+static inline bool
 bfdev_rb_link(bfdev_rb_node_t *parent, bfdev_rb_node_t **link, bfdev_rb_node_t *node)
 {
 #ifdef BFDEV_DEBUG_RBTREE
     if (bfdev_unlikely(!bfdev_rb_check_link(parent, link, node)))
-        return;
+        return false;
 #endif
 
     /* link = &parent->left/right */
@@ -626,6 +626,8 @@ bfdev_rb_link(bfdev_rb_node_t *parent, bfdev_rb_node_t **link, bfdev_rb_node_t *
     node->parent = parent;
     node->color = BFDEV_RB_RED;
     node->left = node->right = NULL;
+
+    return true;
 }
 
 /**
@@ -639,7 +641,9 @@ static inline void
 bfdev_rb_insert_node(bfdev_rb_root_t *root, bfdev_rb_node_t *parent,
                      bfdev_rb_node_t **link, bfdev_rb_node_t *node)
 {
-    bfdev_rb_link(parent, link, node);
+    if (bfdev_unlikely(!bfdev_rb_link(parent, link, node)))
+        return;
+
     bfdev_rb_fixup(root, node);
 }
 
@@ -699,7 +703,9 @@ bfdev_rb_insert_node_augmented(bfdev_rb_root_t *root, bfdev_rb_node_t *parent,
                                bfdev_rb_node_t **link, bfdev_rb_node_t *node,
                                const bfdev_rb_callbacks_t *callbacks)
 {
-    bfdev_rb_link(parent, link, node);
+    if (bfdev_unlikely(!bfdev_rb_link(parent, link, node)))
+        return;
+
     bfdev_rb_fixup_augmented(root, node, callbacks);
 }
 
@@ -885,7 +891,9 @@ static inline void
 bfdev_rb_cached_insert_node(bfdev_rb_root_cached_t *cached, bfdev_rb_node_t *parent,
                             bfdev_rb_node_t **link, bfdev_rb_node_t *node, bool leftmost)
 {
-    bfdev_rb_link(parent, link, node);
+    if (bfdev_unlikely(!bfdev_rb_link(parent, link, node)))
+        return;
+
     bfdev_rb_cached_fixup(cached, node, leftmost);
 }
 
@@ -962,7 +970,9 @@ bfdev_rb_cached_insert_node_augmented(bfdev_rb_root_cached_t *cached, bfdev_rb_n
                                       bfdev_rb_node_t **link, bfdev_rb_node_t *node,
                                       bool leftmost, const bfdev_rb_callbacks_t *callbacks)
 {
-    bfdev_rb_link(parent, link, node);
+    if (bfdev_unlikely(!bfdev_rb_link(parent, link, node)))
+        return;
+
     bfdev_rb_cached_fixup_augmented(cached, node, leftmost, callbacks);
 }
 
-- 
2.43.0


From 5a714688700ade58f3a157547f2a72c9c4687699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:26 +0000
Subject: [PATCH 083/104] fix: index ring check of ilist

---
 src/ilist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ilist.c b/src/ilist.c
index 6b6ef89..83ed502 100644
--- a/src/ilist.c
+++ b/src/ilist.c
@@ -60,7 +60,7 @@ ilist_head_check(bfdev_ilist_head_t *ihead)
 
     success = ilist_list_check(&ihead->node_list);
     if (success && !bfdev_ilist_head_empty(ihead))
-        ilist_list_check(&bfdev_ilist_first(ihead)->index_list);
+        success = ilist_list_check(&bfdev_ilist_first(ihead)->index_list);
 
     return success;
 }
-- 
2.43.0


From a5ffca5beadc010441c24045037f8399e7c86c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:23 +0000
Subject: [PATCH 084/104] fix: keep the remainder when the quotient of equal
 numbers is refused

---
 src/mpi.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 4aeeb32..19b73eb 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -1375,18 +1375,21 @@ bfdev_mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
     diff = mpi_cmp(va, vb);
     switch (diff) {
         case BFDEV_EQ: default:
-            retval = mpi_seti(rem, 0);
+            retval = mpi_seti(quot, 1);
             if (bfdev_unlikely(retval))
                 return retval;
 
-            rem->plus = true;
+            quot->plus = sign;
 
             /* quot can be equal to rem */
-            retval = mpi_seti(quot, 1);
+            if (quot == rem)
+                break;
+
+            retval = mpi_seti(rem, 0);
             if (bfdev_unlikely(retval))
                 return retval;
 
-            quot->plus = sign;
+            rem->plus = true;
             break;
 
         case BFDEV_LT:
@@ -1436,18 +1439,21 @@ bfdev_mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
     diff = mpi_cmpi(va, vi);
     switch (diff) {
         case BFDEV_EQ: default:
-            retval = mpi_seti(rem, 0);
+            retval = mpi_seti(quot, 1);
             if (bfdev_unlikely(retval))
                 return retval;
 
-            rem->plus = true;
+            quot->plus = sign;
 
             /* quot can be equal to rem */
-            retval = mpi_seti(quot, 1);
+            if (quot == rem)
+                break;
+
+            retval = mpi_seti(rem, 0);
             if (bfdev_unlikely(retval))
                 return retval;
 
-            quot->plus = sign;
+            rem->plus = true;
             break;
 
         case BFDEV_LT:
-- 
2.43.0


From 25d0a0f9625540573fb196e1ea0ff11f6fced634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:08 +0000
Subject: [PATCH 085/104] fix: name of the constant form of bfdev_isascii

---
 include/bfdev/ctype.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/ctype.h b/include/bfdev/ctype.h
index fb30d45..d663134 100644
--- a/include/bfdev/ctype.h
+++ b/include/bfdev/ctype.h
@@ -111,7 +111,7 @@ int bfdev_isxdigit_const(int c)
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
-int bfdev_ascii_const(int c)
+int bfdev_isascii_const(int c)
 {
     return (unsigned char)c <= 0x7f;
 }
-- 
2.43.0


From 76d2d4126e3dc327fd7841b1834323932eb32f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:26 +0000
Subject: [PATCH 086/104] fix: compare constant character classes unsigned

---
 include/bfdev/ctype.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/bfdev/ctype.h b/include/bfdev/ctype.h
index d663134..5a8ccee 100644
--- a/include/bfdev/ctype.h
+++ b/include/bfdev/ctype.h
@@ -41,13 +41,13 @@ bfdev_ctype_table[256];
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isalpha_const(int c)
 {
-    return (((unsigned char)c | 32) - 'a') < 26;
+    return (((unsigned char)c | 32u) - 'a') < 26;
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isdigit_const(int c)
 {
-    return ((unsigned char)c - '0') < 10;
+    return ((unsigned int)(unsigned char)c - '0') < 10;
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
@@ -65,31 +65,31 @@ int bfdev_iscntrl_const(int c)
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isgraph_const(int c)
 {
-    return ((unsigned char)c - 0x21) < 0x5e;
+    return ((unsigned int)(unsigned char)c - 0x21) < 0x5e;
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_islower_const(int c)
 {
-    return ((unsigned char)c - 'a') < 26;
+    return ((unsigned int)(unsigned char)c - 'a') < 26;
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isprint_const(int c)
 {
-    return ((unsigned char)c - 0x20) < 0x5f;
+    return ((unsigned int)(unsigned char)c - 0x20) < 0x5f;
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isspace_const(int c)
 {
-    return (c == ' ') || ((unsigned char)c - '\t' < 5);
+    return (c == ' ') || ((unsigned int)(unsigned char)c - '\t' < 5);
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isupper_const(int c)
 {
-    return ((unsigned char)c - 'A') < 26;
+    return ((unsigned int)(unsigned char)c - 'A') < 26;
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
@@ -107,7 +107,7 @@ int bfdev_ispunct_const(int c)
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isxdigit_const(int c)
 {
-    return bfdev_isdigit_const(c) || (((unsigned char)c | 32) - 'a' < 6);
+    return bfdev_isdigit_const(c) || (((unsigned char)c | 32u) - 'a' < 6);
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
-- 
2.43.0


From 2741c4cbe129cdbab506c3652ac0d28abcbd2abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:33 +0000
Subject: [PATCH 087/104] fix: the horizontal tab is blank, the vertical one is
 not

---
 src/libc/ctype.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libc/ctype.c b/src/libc/ctype.c
index d97d87f..6812dad 100644
--- a/src/libc/ctype.c
+++ b/src/libc/ctype.c
@@ -19,9 +19,9 @@ bfdev_ctype_table[256] = {
     [BFDEV_ASCII_ACK] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL,
     [BFDEV_ASCII_BEL] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL,
     [BFDEV_ASCII_BS ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL,
-    [BFDEV_ASCII_HT ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE,
+    [BFDEV_ASCII_HT ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE | BFDEV_CTYPE_BLANK,
     [BFDEV_ASCII_LF ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE,
-    [BFDEV_ASCII_VT ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE | BFDEV_CTYPE_BLANK,
+    [BFDEV_ASCII_VT ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE,
     [BFDEV_ASCII_FF ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE,
     [BFDEV_ASCII_CR ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE,
     [BFDEV_ASCII_SO ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL,
-- 
2.43.0


From f058fc5736d4cb089d59946c1275196e7cb9047a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:47 +0000
Subject: [PATCH 088/104] fix: zero is a hexadecimal digit

---
 src/libc/ctype.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libc/ctype.c b/src/libc/ctype.c
index 6812dad..ab47ec7 100644
--- a/src/libc/ctype.c
+++ b/src/libc/ctype.c
@@ -60,7 +60,7 @@ bfdev_ctype_table[256] = {
     ['.' ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_PUNCT,
     ['/' ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_PUNCT,
 
-    ['0'] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_DIGIT,
+    ['0'] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_DIGIT | BFDEV_CTYPE_HEXDG,
     ['1'] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_DIGIT | BFDEV_CTYPE_HEXDG,
     ['2'] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_DIGIT | BFDEV_CTYPE_HEXDG,
     ['3'] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_DIGIT | BFDEV_CTYPE_HEXDG,
-- 
2.43.0


From 7aff3461b297cae274d3c34758efb9b09bffbee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:55 +0000
Subject: [PATCH 089/104] fix: length and terminator of bfdev_strndup

---
 src/libc/strdup.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libc/strdup.c b/src/libc/strdup.c
index 93859dd..9401d83 100644
--- a/src/libc/strdup.c
+++ b/src/libc/strdup.c
@@ -39,8 +39,10 @@ bfdev_strndup(const bfdev_alloc_t *alloc,
     length = bfport_strnlen(string, len);
     dump = bfdev_malloc(alloc, length + 1);
 
-    if (bfdev_likely(dump))
-        bfport_strncpy(dump, string, len);
+    if (bfdev_likely(dump)) {
+        bfport_memcpy(dump, string, length);
+        dump[length] = '\0';
+    }
 
     return dump;
 }
-- 
2.43.0


From cc7f37d08b98e46fa0a32b266c17d48a6aa87f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:00 +0000
Subject: [PATCH 090/104] fix: unsigned 32 bit arithmetic in bfdev_pjwhash

---
 src/stringhash.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/stringhash.c b/src/stringhash.c
index 63b7d87..7ccb882 100644
--- a/src/stringhash.c
+++ b/src/stringhash.c
@@ -4,19 +4,20 @@
  */
 
 #include <bfdev/stringhash.h>
+#include <bfdev/types.h>
 #include <export.h>
 
 export unsigned long
 bfdev_pjwhash(const char *str)
 {
-    unsigned long value, hash;
+    uint32_t value, hash;
 
     hash = 0;
     while (*str) {
         hash <<= 4;
-        hash += *str++;
+        hash += (unsigned char)*str++;
 
-        value = hash & (0xfUL << (BFDEV_PJWHASH_BITS - 4));
+        value = hash & ((uint32_t)0xf << (BFDEV_PJWHASH_BITS - 4));
         if (value) {
             hash ^= value >> (BFDEV_PJWHASH_BITS - 8);
             hash ^= value;
-- 
2.43.0


From f8b8894394a33f6c57fe4ef27966007820c3b89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:35 +0000
Subject: [PATCH 091/104] fix: refuse arrays larger than the address space

---
 include/bfdev/allocator.h | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/allocator.h b/include/bfdev/allocator.h
index 9121aba..893ce2f 100644
--- a/include/bfdev/allocator.h
+++ b/include/bfdev/allocator.h
@@ -10,6 +10,7 @@
 #include <bfdev/config.h>
 #include <bfdev/types.h>
 #include <bfdev/stddef.h>
+#include <bfdev/overflow.h>
 
 BFDEV_BEGIN_DECLS
 
@@ -96,7 +97,12 @@ static __bfdev_always_inline __bfdev_malloc void *
 bfdev_malloc_array(const bfdev_alloc_t *alloc,
                    size_t nr, size_t size)
 {
-    return bfdev_malloc(alloc, size * nr);
+    size_t total;
+
+    if (bfdev_overflow_check_mul(nr, size, &total))
+        return NULL;
+
+    return bfdev_malloc(alloc, total);
 }
 
 /**
@@ -108,7 +114,12 @@ static __bfdev_always_inline __bfdev_malloc void *
 bfdev_zalloc_array(const bfdev_alloc_t *alloc,
                    size_t nr, size_t size)
 {
-    return bfdev_zalloc(alloc, size * nr);
+    size_t total;
+
+    if (bfdev_overflow_check_mul(nr, size, &total))
+        return NULL;
+
+    return bfdev_zalloc(alloc, total);
 }
 
 /**
@@ -121,7 +132,12 @@ static __bfdev_always_inline __bfdev_malloc void *
 bfdev_realloc_array(const bfdev_alloc_t *alloc,
                     void *block, size_t nr, size_t size)
 {
-    return bfdev_realloc(alloc, block, size * nr);
+    size_t total;
+
+    if (bfdev_overflow_check_mul(nr, size, &total))
+        return NULL;
+
+    return bfdev_realloc(alloc, block, total);
 }
 
 BFDEV_END_DECLS
-- 
2.43.0


From a586034abd971e6d8ff80af35a43da4de36223ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:51 +0000
Subject: [PATCH 092/104] fix: no negation of the least number in
 bfdev_errname_find

---
 src/errname.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/errname.c b/src/errname.c
index 79a8bce..a8eff9e 100644
--- a/src/errname.c
+++ b/src/errname.c
@@ -149,6 +149,9 @@ bfdev_errname_find(int error)
 {
     bfdev_errname_t *entry;
 
+    if (error < -BFDEV_ERRNO_MAX)
+        return NULL;
+
     if (error < 0)
         error = -error;
 
-- 
2.43.0


From ec68401a3c4969edea12a4384656cdf51420da47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:37 +0000
Subject: [PATCH 093/104] fix: values of any width in BFDEV_FIELD_FIT

---
 include/bfdev/bitfield.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/bitfield.h b/include/bfdev/bitfield.h
index 6dcd94e..4f1b8a6 100644
--- a/include/bfdev/bitfield.h
+++ b/include/bfdev/bitfield.h
@@ -38,7 +38,7 @@ BFDEV_BEGIN_DECLS
  */
 #define BFDEV_FIELD_FIT(mask, val) ({ \
     typeof(mask) _mask = (mask); \
-    !((((typeof(mask))(val)) << bfdev_ffsuf(_mask)) & ~(_mask)); \
+    !((val) & ~(uint64_t)((_mask) >> bfdev_ffsuf(_mask))); \
 })
 
 /**
-- 
2.43.0


From cd30d345e46e5a9bd692fb71605172239b0f6716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:52 +0000
Subject: [PATCH 094/104] fix: BFDEV_SZ_*GiB constants a quarter of their size

---
 include/bfdev/size.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/bfdev/size.h b/include/bfdev/size.h
index f32496d..a3f262c 100644
--- a/include/bfdev/size.h
+++ b/include/bfdev/size.h
@@ -44,16 +44,16 @@ BFDEV_BEGIN_DECLS
 #define BFDEV_SZ_256MiB     0x10000000
 #define BFDEV_SZ_512MiB     0x20000000
 
-#define BFDEV_SZ_1GiB       BFDEV_AC(0x0010000000, ULL)
-#define BFDEV_SZ_2GiB       BFDEV_AC(0x0020000000, ULL)
-#define BFDEV_SZ_4GiB       BFDEV_AC(0x0040000000, ULL)
-#define BFDEV_SZ_8GiB       BFDEV_AC(0x0080000000, ULL)
-#define BFDEV_SZ_16GiB      BFDEV_AC(0x0100000000, ULL)
-#define BFDEV_SZ_32GiB      BFDEV_AC(0x0200000000, ULL)
-#define BFDEV_SZ_64GiB      BFDEV_AC(0x0400000000, ULL)
-#define BFDEV_SZ_128GiB     BFDEV_AC(0x0800000000, ULL)
-#define BFDEV_SZ_256GiB     BFDEV_AC(0x1000000000, ULL)
-#define BFDEV_SZ_512GiB     BFDEV_AC(0x2000000000, ULL)
+#define BFDEV_SZ_1GiB       BFDEV_AC(0x0040000000, ULL)
+#define BFDEV_SZ_2GiB       BFDEV_AC(0x0080000000, ULL)
+#define BFDEV_SZ_4GiB       BFDEV_AC(0x0100000000, ULL)
+#define BFDEV_SZ_8GiB       BFDEV_AC(0x0200000000, ULL)
+#define BFDEV_SZ_16GiB      BFDEV_AC(0x0400000000, ULL)
+#define BFDEV_SZ_32GiB      BFDEV_AC(0x0800000000, ULL)
+#define BFDEV_SZ_64GiB      BFDEV_AC(0x1000000000, ULL)
+#define BFDEV_SZ_128GiB     BFDEV_AC(0x2000000000, ULL)
+#define BFDEV_SZ_256GiB     BFDEV_AC(0x4000000000, ULL)
+#define BFDEV_SZ_512GiB     BFDEV_AC(0x8000000000, ULL)
 
 BFDEV_END_DECLS
 
-- 
2.43.0


From 7f15d103cd7b832487591ee1f6f428d3a8eebf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:03 +0000
Subject: [PATCH 095/104] fix: keep the record length of a fifo of odd sized
 elements inside the fifo

---
 src/fifo.c | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/fifo.c b/src/fifo.c
index ea1873c..c791942 100644
--- a/src/fifo.c
+++ b/src/fifo.c
@@ -58,16 +58,10 @@ fifo_record_peek(bfdev_fifo_t *fifo, unsigned long recsize)
     data = fifo->data;
     length = 0;
 
-    if (fifo->esize != 1) {
-        offset *= fifo->esize;
-        mask *= fifo->esize;
-        mask += fifo->esize - 1;
-    }
-
     while (recsize--) {
         length <<= BFDEV_BITS_PER_U8;
-        length |= data[offset & mask];
-        offset += fifo->esize;
+        length |= data[(offset & mask) * fifo->esize];
+        offset++;
     }
 
     return length;
@@ -83,15 +77,9 @@ fifo_record_poke(bfdev_fifo_t *fifo, unsigned long len, unsigned long recsize)
     offset = fifo->in;
     data = fifo->data;
 
-    if (fifo->esize != 1) {
-        offset *= fifo->esize;
-        mask *= fifo->esize;
-        mask += fifo->esize - 1;
-    }
-
     while (recsize--) {
-        data[offset & mask] = (uint8_t)(len >> (recsize * BFDEV_BITS_PER_U8));
-        offset += fifo->esize;
+        data[(offset & mask) * fifo->esize] = (uint8_t)(len >> (recsize * BFDEV_BITS_PER_U8));
+        offset++;
     }
 }
 
-- 
2.43.0


From 1233602c458592a5ca297a467cf3da776ac4f9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:46 +0000
Subject: [PATCH 096/104] fix: let the B-tree tell a key of all zeros from its
 unused slots

---
 src/btree.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/btree.c b/src/btree.c
index a9ef412..f76af5e 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -187,6 +187,10 @@ bnode_key_index(bfdev_btree_root_t *root, bfdev_btree_node_t *node,
 
     layout = root->layout;
     for (index = 0; index < layout->keynum; ++index) {
+        /* unused slots hold a zero key */
+        if (!bnode_get_value(root, node, index))
+            break;
+
         retval = bnode_cmp_key(root, node, index, key);
         if (retval < 0)
             break;
@@ -512,6 +516,9 @@ remove_level(bfdev_btree_root_t *root, unsigned int level, uintptr_t *key)
             return NULL;
 
         value = bnode_get_value(root, node, index);
+        if (!value)
+            return NULL;
+
         if (ops->remove) {
             clash = ops->remove(root, value);
             if (clash)
@@ -672,9 +679,6 @@ bfdev_btree_prev(bfdev_btree_root_t *root, uintptr_t *key)
     if (bfdev_unlikely(!height))
         return NULL;
 
-    if (btree_empty_key(root, key))
-        return NULL;
-
     for (depth = 1; depth <= height; ++depth) {
         node = bnode_find_parent(root, key, depth);
         index = bnode_find_index(root, node, key);
-- 
2.43.0


From b57a14eaee943f77ce49799354b635064ff18d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:05 +0000
Subject: [PATCH 097/104] fix: keep the record length of a ring buffer of odd
 sized elements inside it

---
 src/ringbuf.c | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/ringbuf.c b/src/ringbuf.c
index 8d36564..8825b7b 100644
--- a/src/ringbuf.c
+++ b/src/ringbuf.c
@@ -58,16 +58,10 @@ ringbuf_record_peek(bfdev_ringbuf_t *ringbuf, unsigned long recsize)
     data = ringbuf->data;
     length = 0;
 
-    if (ringbuf->esize != 1) {
-        offset *= ringbuf->esize;
-        mask *= ringbuf->esize;
-        mask += ringbuf->esize - 1;
-    }
-
     while (recsize--) {
         length <<= BFDEV_BITS_PER_U8;
-        length |= data[offset & mask];
-        offset += ringbuf->esize;
+        length |= data[(offset & mask) * ringbuf->esize];
+        offset++;
     }
 
     return length;
@@ -83,15 +77,9 @@ ringbuf_record_poke(bfdev_ringbuf_t *ringbuf, unsigned long len,
     mask = ringbuf->mask;
     data = ringbuf->data;
 
-    if (ringbuf->esize != 1) {
-        offset *= ringbuf->esize;
-        mask *= ringbuf->esize;
-        mask += ringbuf->esize - 1;
-    }
-
     while (recsize--) {
-        data[offset & mask] = (uint8_t)(len >> (recsize * BFDEV_BITS_PER_U8));
-        offset += ringbuf->esize;
+        data[(offset & mask) * ringbuf->esize] = (uint8_t)(len >> (recsize * BFDEV_BITS_PER_U8));
+        offset++;
     }
 }
 
-- 
2.43.0


From 9d07aea7a3cae61c4d50c2e243d9519a24d44fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:02 +0000
Subject: [PATCH 098/104] fix: a released number is positive again

---
 src/mpi.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mpi.c b/src/mpi.c
index 19b73eb..11e9cb6 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -1762,4 +1762,5 @@ export void
 bfdev_mpi_release(bfdev_mpi_t *var)
 {
     bfdev_array_release(&var->value);
+    var->plus = true;
 }
-- 
2.43.0


From 1c719ca99360eff8c34579b1e74874d4425b5c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:44 +0000
Subject: [PATCH 099/104] fix: a hash map of the smallest size is not rebuilt
 by every removal

---
 src/hashmap.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hashmap.c b/src/hashmap.c
index 748147a..ea06075 100644
--- a/src/hashmap.c
+++ b/src/hashmap.c
@@ -177,6 +177,10 @@ hashmap_shrink(bfdev_hashmap_t *hashmap)
     if (nbits < BFDEV_HASHMAP_MIN_BITS)
         nbits = BFDEV_HASHMAP_MIN_BITS;
 
+    /* Already at the minimum, do not disturb the chains */
+    if (nbits >= hashmap->bits)
+        return -BFDEV_ENOERR;
+
     return hashmap_rehash(hashmap, nbits);
 }
 
-- 
2.43.0


From e71273a90d9384e3696294c51277ec6bd17e9456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:52 +0000
Subject: [PATCH 100/104] fix: a matrix of 2^32 cells and more is refused, not
 cut short

---
 src/matrix.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/matrix.c b/src/matrix.c
index 98a00a3..09f8bdd 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -8,14 +8,14 @@
 #include <export.h>
 
 static inline void
-matrix_zero(BFDEV_MATRIX_TYPE *var, unsigned int size)
+matrix_zero(BFDEV_MATRIX_TYPE *var, unsigned long size)
 {
     bfport_memset(var, 0, size * BFDEV_MATRIX_SIZE);
 }
 
 static inline void
 matrix_copy(BFDEV_MATRIX_TYPE *dest, const BFDEV_MATRIX_TYPE *src,
-            unsigned int size)
+            unsigned long size)
 {
     bfport_memcpy(dest, src, size * BFDEV_MATRIX_SIZE);
 }
@@ -27,7 +27,7 @@ bfdev_matrix_##name(bfdev_matrix_t *dest,               \
                     const bfdev_matrix_t *vb)           \
 {                                                       \
     unsigned int row, col;                              \
-    unsigned int size, count;                           \
+    unsigned long size, count;                          \
     int retval;                                         \
                                                         \
     row = va->row;                                      \
@@ -36,7 +36,7 @@ bfdev_matrix_##name(bfdev_matrix_t *dest,               \
     if (row != vb->row || col != vb->col)               \
         return -BFDEV_EINVAL;                           \
                                                         \
-    size = row * col;                                   \
+    size = (unsigned long)row * col;                    \
     retval = bfdev_array_resize(&dest->value, size);    \
     if (bfdev_unlikely(retval))                         \
         return retval;                                  \
@@ -67,8 +67,8 @@ bfdev_matrix_mul(bfdev_matrix_t *dest,
 {
     BFDEV_DEFINE_MATRIX(buffer, dest->alloc);
     bfdev_matrix_t *rename;
-    unsigned int row, col;
-    unsigned int size, count;
+    unsigned int row, col, count;
+    unsigned long size;
     long value;
     int retval;
 
@@ -81,7 +81,7 @@ bfdev_matrix_mul(bfdev_matrix_t *dest,
         dest = &buffer;
     }
 
-    size = va->row * vb->col;
+    size = (unsigned long)va->row * vb->col;
     retval = bfdev_array_resize(&dest->value, size);
     if (bfdev_unlikely(retval))
         return retval;
@@ -119,13 +119,13 @@ export int
 bfdev_matrix_trans(bfdev_matrix_t *dest, const bfdev_matrix_t *src)
 {
     unsigned int row, col;
-    unsigned int size;
+    unsigned long size;
     int retval;
 
     col = src->row;
     row = src->col;
 
-    size = row * col;
+    size = (unsigned long)row * col;
     retval = bfdev_array_resize(&dest->value, size);
     if (bfdev_unlikely(retval))
         return retval;
@@ -151,14 +151,14 @@ export int
 bfdev_matrix_set(bfdev_matrix_t *dest, const bfdev_matrix_t *src)
 {
     unsigned int row, col;
-    unsigned int size;
+    unsigned long size;
     void *dbuf, *sbuf;
     int retval;
 
     row = src->row;
     col = src->col;
 
-    size = row * col;
+    size = (unsigned long)row * col;
     retval = bfdev_array_resize(&dest->value, size);
     if (bfdev_unlikely(retval))
         return retval;
@@ -177,11 +177,11 @@ export int
 bfdev_matrix_import(bfdev_matrix_t *var, const BFDEV_MATRIX_TYPE *buffer,
                     unsigned int row, unsigned int col)
 {
-    unsigned int size;
+    unsigned long size;
     void *dbuf;
     int retval;
 
-    size = row * col;
+    size = (unsigned long)row * col;
     retval = bfdev_array_resize(&var->value, size);
     if (bfdev_unlikely(retval))
         return retval;
@@ -200,12 +200,12 @@ bfdev_matrix_data(const bfdev_matrix_t *var,
                   unsigned int row, unsigned int col)
 {
     BFDEV_MATRIX_TYPE *data;
-    unsigned int offset;
+    unsigned long offset;
 
     if (row >= var->row || col >= var->col)
         return NULL;
 
-    offset = row * var->col + col;
+    offset = (unsigned long)row * var->col + col;
     data = bfdev_array_data(&var->value, offset);
 
     return data;
-- 
2.43.0


From b03c6a3b914f4997f046979035bce36f6d24e7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:15 +0000
Subject: [PATCH 101/104] fix: the pointers to half a billion words get their
 memory

---
 src/argv.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/argv.c b/src/argv.c
index e22fb53..779a235 100644
--- a/src/argv.c
+++ b/src/argv.c
@@ -38,15 +38,16 @@ bfdev_argv_split(const bfdev_alloc_t *alloc, const char *args,
 {
     unsigned int count, argc;
     char *block, **argv;
+    size_t size;
 
     argc = bfdev_argv_count(args);
-    count = (argc + 1) * sizeof(*argv);
+    size = ((size_t)argc + 1) * sizeof(*argv);
 
-    argv = bfdev_malloc(alloc, count + bfport_strlen(args) + 1);
+    argv = bfdev_malloc(alloc, size + bfport_strlen(args) + 1);
     if (bfdev_unlikely(!argv))
         return NULL;
 
-    block = (void *)argv + count;
+    block = (void *)argv + size;
     bfport_strcpy(block, args);
 
     for (count = 0; count < argc; ++count) {
-- 
2.43.0


From ee270c0b73bbe976cb4bcfc5e30cf5eb17c4abed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:37 +0000
Subject: [PATCH 102/104] fix: tables for patterns of a gigabyte get their
 memory

---
 src/textsearch/bm.c  | 2 +-
 src/textsearch/kmp.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/textsearch/bm.c b/src/textsearch/bm.c
index 908a5a9..b1e40b1 100644
--- a/src/textsearch/bm.c
+++ b/src/textsearch/bm.c
@@ -131,7 +131,7 @@ bm_prepare(const bfdev_alloc_t *alloc, const void *pattern,
            size_t len, unsigned long flags)
 {
     struct bm_context *bctx;
-    unsigned int gsize, index;
+    size_t gsize, index;
 
     gsize = sizeof(unsigned int) * len;
     bctx = bfdev_malloc(alloc, sizeof(*bctx) + gsize + len);
diff --git a/src/textsearch/kmp.c b/src/textsearch/kmp.c
index ec1590f..bc47209 100644
--- a/src/textsearch/kmp.c
+++ b/src/textsearch/kmp.c
@@ -95,7 +95,7 @@ kmp_prepare(const bfdev_alloc_t *alloc, const void *pattern,
             size_t len, unsigned long flags)
 {
     struct kmp_context *kctx;
-    unsigned int prefix_size, index;
+    size_t prefix_size, index;
 
     prefix_size = sizeof(unsigned int) * len;
     kctx = bfdev_zalloc(alloc, sizeof(*kctx) + prefix_size + len);
-- 
2.43.0


From cc2bb3d1fb1c0071181a788992e4d9d4f49bc216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:32 +0000
Subject: [PATCH 103/104] fix: bitmaps of almost 2^32 bits get their last words

---
 include/bfdev/bitmap.h | 6 +++---
 src/bitmap.c           | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/bfdev/bitmap.h b/include/bfdev/bitmap.h
index d398b3d..5545192 100644
--- a/include/bfdev/bitmap.h
+++ b/include/bfdev/bitmap.h
@@ -236,7 +236,7 @@ bfdev_bitmap_zero(unsigned long *bitmap, unsigned int bits)
         return;
     }
 
-    length = BFDEV_BITS_TO_U8(bits);
+    length = BFDEV_BITS_TO_U8((unsigned long)bits);
     bfport_memset(bitmap, 0, length);
 }
 
@@ -250,7 +250,7 @@ bfdev_bitmap_fill(unsigned long *bitmap, unsigned int bits)
         return;
     }
 
-    length = BFDEV_BITS_TO_U8(bits);
+    length = BFDEV_BITS_TO_U8((unsigned long)bits);
     bfport_memset(bitmap, BFDEV_UINT8_MAX, length);
 }
 
@@ -264,7 +264,7 @@ bfdev_bitmap_copy(unsigned long *dest, unsigned long *src, unsigned int bits)
         return;
     }
 
-    length = BFDEV_BITS_TO_U8(bits);
+    length = BFDEV_BITS_TO_U8((unsigned long)bits);
     bfport_memcpy(dest, src, length);
 }
 
diff --git a/src/bitmap.c b/src/bitmap.c
index 56b14c4..83ed011 100644
--- a/src/bitmap.c
+++ b/src/bitmap.c
@@ -164,7 +164,7 @@ bfdev_bitmap_comp_shl(unsigned long *dest, const unsigned long *src,
     unsigned int length, offset, rem, index;
     unsigned long value, vlow, vhigh;
 
-    length = BFDEV_BITS_TO_LONG(bits);
+    length = BFDEV_BITS_TO_LONG((unsigned long)bits);
     offset = BFDEV_BITS_DIV_LONG(shift);
 
     if (length <= offset) {
@@ -211,7 +211,7 @@ bfdev_bitmap_comp_shr(unsigned long *dest, const unsigned long *src,
     unsigned int index, length, offset, rem;
     unsigned long value, vlow, vhigh;
 
-    length = BFDEV_BITS_TO_LONG(bits);
+    length = BFDEV_BITS_TO_LONG((unsigned long)bits);
     offset = BFDEV_BITS_DIV_LONG(shift);
 
     if (length <= offset) {
@@ -335,7 +335,7 @@ export unsigned long *
 bfdev_bitmap_alloc(const bfdev_alloc_t *alloc, unsigned int bits)
 {
     return bfdev_malloc_array(
-        alloc, BFDEV_BITS_TO_LONG(bits), sizeof(unsigned long)
+        alloc, BFDEV_BITS_TO_LONG((unsigned long)bits), sizeof(unsigned long)
     );
 }
 
@@ -343,7 +343,7 @@ export unsigned long *
 bfdev_bitmap_zalloc(const bfdev_alloc_t *alloc, unsigned int bits)
 {
     return bfdev_zalloc_array(
-        alloc, BFDEV_BITS_TO_LONG(bits), sizeof(unsigned long)
+        alloc, BFDEV_BITS_TO_LONG((unsigned long)bits), sizeof(unsigned long)
     );
 }
 
-- 
2.43.0


From a59f1ba2f5afe1d8aa9538f8167ef79f3e9ac2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:40 +0000
Subject: [PATCH 104/104] fix: bit searches end with maps of almost 2^32 bits

---
 src/bitwalk.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/bitwalk.c b/src/bitwalk.c
index 78466e1..4e33a1a 100644
--- a/src/bitwalk.c
+++ b/src/bitwalk.c
@@ -13,7 +13,7 @@ bfdev_comp_find_first_bit(const unsigned long *block, unsigned int bits,
                           unsigned long invert, bool swap)
 {
     unsigned long value;
-    unsigned int base, offset;
+    unsigned long base, offset;
 
     for (base = 0; base < bits; base += BFDEV_BITS_PER_LONG) {
         if (swap)
@@ -94,10 +94,11 @@ bfdev_comp_find_next_bit(const unsigned long *addr1, const unsigned long *addr2,
     start = bfdev_round_down(start, BFDEV_BITS_PER_LONG);
 
     while (!value) {
-        start += BFDEV_BITS_PER_LONG;
-        if (start >= bits)
+        if (bits - start <= BFDEV_BITS_PER_LONG)
             return bits;
 
+        start += BFDEV_BITS_PER_LONG;
+
         value = addr1[BFDEV_BITS_DIV_LONG(start)];
         if (addr2)
             value &= addr2[BFDEV_BITS_DIV_LONG(start)];
@@ -133,10 +134,11 @@ bfdev_comp_find_prev_bit(const unsigned long *addr1, const unsigned long *addr2,
     start = bfdev_round_down(start, BFDEV_BITS_PER_LONG);
 
     while (!value) {
-        start -= BFDEV_BITS_PER_LONG;
-        if (start >= bits)
+        if (start < BFDEV_BITS_PER_LONG)
             return bits;
 
+        start -= BFDEV_BITS_PER_LONG;
+
         value = addr1[BFDEV_BITS_DIV_LONG(start)];
         if (addr2)
             value &= addr2[BFDEV_BITS_DIV_LONG(start)];
-- 
2.43.0

