From 5fbdf98dd1dbefb1dd5c22dd8bc3be5ff35def89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:24 +0000
Subject: [PATCH 01/48] fix: compare event ids without narrowing or signed
 wrap-around

---
 monotone/engine/io/comparator.h | 6 +++---
 monotone/engine/io/memtable.c   | 2 +-
 monotone/runtime/lib/rbtree.h   | 2 +-
 monotone/runtime/runtime/misc.h | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/monotone/engine/io/comparator.h b/monotone/engine/io/comparator.h
index 53a83b0..e002203 100644
--- a/monotone/engine/io/comparator.h
+++ b/monotone/engine/io/comparator.h
@@ -26,12 +26,12 @@ comparator_init(Comparator* self)
 	self->unused = 0;
 }
 
-hot static inline int64_t
+hot static inline int
 compare(Comparator* self, Event* a, Event* b)
 {
 	unused(self);
 	// compare by [id, key]
-	int64_t diff = a->id - b->id;
+	int diff = compare_u64(a->id, b->id);
 	if (likely(diff != 0))
 		return diff;
 	if (a->key_size == 0 && b->key_size == 0)
@@ -43,6 +43,6 @@ compare(Comparator* self, Event* a, Event* b)
 		size = b->key_size;
 	int rc = memcmp(a->data, b->data, size);
 	if (rc == 0)
-		return (int64_t)a->key_size - (int64_t)b->key_size;
+		return (int)a->key_size - (int)b->key_size;
 	return rc;
 }
diff --git a/monotone/engine/io/memtable.c b/monotone/engine/io/memtable.c
index f904dbe..7e51bec 100644
--- a/monotone/engine/io/memtable.c
+++ b/monotone/engine/io/memtable.c
@@ -103,7 +103,7 @@ memtable_search_page(Memtable* self, Event* key)
 	RbtreeNode* part_ptr = NULL;
 	int rc = memtable_find(&self->tree, self, key, &part_ptr);
 	assert(part_ptr != NULL);
-	if (rc == 1)
+	if (rc > 0)
 	{
 		auto prev = rbtree_prev(&self->tree, part_ptr);
 		if (prev)
diff --git a/monotone/runtime/lib/rbtree.h b/monotone/runtime/lib/rbtree.h
index 2ddfc44..366cf33 100644
--- a/monotone/runtime/lib/rbtree.h
+++ b/monotone/runtime/lib/rbtree.h
@@ -48,7 +48,7 @@ name(Rbtree*      self, \
 	unused(key); \
 	RbtreeNode *n = self->root; \
 	*match = NULL; \
-	int64_t rc = 0; \
+	int rc = 0; \
 	while (n) \
 	{ \
 		*match = n; \
diff --git a/monotone/runtime/runtime/misc.h b/monotone/runtime/runtime/misc.h
index 3b747eb..a6419f8 100644
--- a/monotone/runtime/runtime/misc.h
+++ b/monotone/runtime/runtime/misc.h
@@ -13,8 +13,8 @@
 // Monotone Commercial License.
 //
 
-always_inline static inline int64_t
+always_inline static inline int
 compare_u64(uint64_t a, uint64_t b)
 {
-	return (int64_t)a - (int64_t)b;
+	return (a > b) - (a < b);
 }
-- 
2.43.0


From c6a8c6349a45fa2a93ca9dd5b024c250af344900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:47 +0000
Subject: [PATCH 02/48] fix: keep the right subtree when a memtable page is
 split

---
 monotone/engine/io/memtable.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/monotone/engine/io/memtable.c b/monotone/engine/io/memtable.c
index 7e51bec..52a68cf 100644
--- a/monotone/engine/io/memtable.c
+++ b/monotone/engine/io/memtable.c
@@ -274,7 +274,9 @@ memtable_set(Memtable* self, Event* event)
 	if (page_split)
 	{
 		// update split page
-		rbtree_set(&self->tree, &page->node, -1, &page_split->node);
+		RbtreeNode* node = NULL;
+		int rc = memtable_find(&self->tree, self, page_split->events[0], &node);
+		rbtree_set(&self->tree, node, rc, &page_split->node);
 		self->count_pages++;
 	}
 	return prev;
-- 
2.43.0


From 0ad5652f032a742dc4e5361b2bea5cc13ccdbf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:02 +0000
Subject: [PATCH 03/48] fix: cursor continues past the last event of a memtable
 page or region

---
 monotone/engine/io/memtable_iterator.h |  7 ++++++-
 monotone/engine/io/part_iterator.h     | 11 ++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/monotone/engine/io/memtable_iterator.h b/monotone/engine/io/memtable_iterator.h
index 64a9581..a6d0d15 100644
--- a/monotone/engine/io/memtable_iterator.h
+++ b/monotone/engine/io/memtable_iterator.h
@@ -40,9 +40,14 @@ memtable_iterator_open(MemtableIterator* self,
 	bool match = memtable_seek(memtable, key, &self->page, &self->page_pos);
 	if (self->page_pos >= self->page->events_count)
 	{
+		// key is greater than any event of the page, continue
+		// from the next page
+		auto next = rbtree_next(&memtable->tree, &self->page->node);
 		self->page     = NULL;
 		self->page_pos = 0;
-		return false;
+		if (next == NULL)
+			return false;
+		self->page = container_of(next, MemtablePage, node);
 	}
 	self->current = self->page->events[self->page_pos];
 
diff --git a/monotone/engine/io/part_iterator.h b/monotone/engine/io/part_iterator.h
index 3bc134e..e8ad363 100644
--- a/monotone/engine/io/part_iterator.h
+++ b/monotone/engine/io/part_iterator.h
@@ -38,6 +38,9 @@ part_iterator_open_region(PartIterator* self, Event* event)
 	                             event);
 }
 
+hot static inline void
+part_iterator_next(PartIterator*);
+
 hot static inline bool
 part_iterator_open(PartIterator* self, Part* part, Event* event)
 {
@@ -53,7 +56,13 @@ part_iterator_open(PartIterator* self, Part* part, Event* event)
 		return false;
 
 	reader_open(&self->reader, part);
-	return part_iterator_open_region(self, event);
+	bool match = part_iterator_open_region(self, event);
+
+	// key is greater than any event of the region, continue
+	// from the next region
+	if (! region_iterator_has(&self->region_iterator))
+		part_iterator_next(self);
+	return match;
 }
 
 hot static inline bool
-- 
2.43.0


From 5ddf2fd5e7209c823046ddccf438f90439777418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:02 +0000
Subject: [PATCH 04/48] fix: cursor stops after the partition that ends at the
 maximum id

---
 monotone/engine/engine/engine_cursor.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/monotone/engine/engine/engine_cursor.h b/monotone/engine/engine/engine_cursor.h
index 8907440..6dc06fb 100644
--- a/monotone/engine/engine/engine_cursor.h
+++ b/monotone/engine/engine/engine_cursor.h
@@ -98,13 +98,19 @@ engine_cursor_next(EngineCursor* self)
 	if (likely(part_cursor_has(&self->cursor)))
 		return;
 
-	uint64_t next_interval = self->ref->slice.max + 1;
+	uint64_t max = self->ref->slice.max;
 
 	// close previous partition
 	part_cursor_close(&self->cursor);
 	engine_unlock(self->engine, self->ref, LOCK_ACCESS);
 	self->ref = NULL;
 
+	// no more partitions
+	if (unlikely(max == UINT64_MAX))
+		return;
+
+	uint64_t next_interval = max + 1;
+
 	// open next partition
 	engine_cursor_open_part(self, next_interval, NULL);
 }
-- 
2.43.0


From 083dfc2ca37452d3cb3376539a1b56410df85aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:36 +0000
Subject: [PATCH 05/48] fix: partition ranges that end at the maximum id do not
 wrap around

---
 monotone/engine/engine/op.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 2d3e9ab..449503e 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -101,13 +101,14 @@ engine_fill_nolock(Engine* self, uint64_t min, uint64_t max)
 				else
 					gap.max = slice->min - 1;
 				buf_write(&gaps, &gap, sizeof(gap));
+			}
 
+			// nothing left after the last possible partition
+			if (unlikely(slice->max == UINT64_MAX))
+				break;
+
+			if (min <= slice->max)
 				min = slice->max + 1;
-			} else
-			if (slice_in(slice, min))
-			{
-				min = slice->max + 1;
-			}
 
 			slice = mapping_next(&self->mapping, slice);
 			continue;
@@ -155,7 +156,9 @@ engine_foreach(Engine* self, uint64_t* min, uint64_t* min_next, uint64_t max)
 	if (ref_min >= *min && ref_max <= max)
 	{
 		*min = ref_min;
-		*min_next = ref_max + 1;
+		*min_next = ref_max;
+		if (likely(ref_max != UINT64_MAX))
+			*min_next = ref_max + 1;
 		return true;
 	}
 	return false;
-- 
2.43.0


From fd171b49dd4a5123b0b307ff16f3af0e10c59a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:36 +0000
Subject: [PATCH 06/48] fix: count the first acquisition of a partition lock

---
 monotone/engine/engine/lockage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monotone/engine/engine/lockage.h b/monotone/engine/engine/lockage.h
index 65a56d1..1466c7f 100644
--- a/monotone/engine/engine/lockage.h
+++ b/monotone/engine/engine/lockage.h
@@ -79,7 +79,7 @@ lockage_lock(Lockage* self, LockType type)
 		if (lock->locker == 0)
 		{
 			lock->locker = pthread_id;
-			lock->locker_refs = 0;
+			lock->locker_refs = 1;
 			break;
 		}
 		lock->pending++;
-- 
2.43.0


From 04c6987b4e688456ba9edb8c8bea6a44234bae4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:02 +0000
Subject: [PATCH 07/48] fix: return lz4 contexts to the lz4 cache

---
 monotone/runtime/lib/compression_mgr.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/monotone/runtime/lib/compression_mgr.c b/monotone/runtime/lib/compression_mgr.c
index 395d88f..c04765a 100644
--- a/monotone/runtime/lib/compression_mgr.c
+++ b/monotone/runtime/lib/compression_mgr.c
@@ -33,6 +33,11 @@ compression_mgr_free(CompressionMgr* self)
 	cache_reset(&self->cache_zstd);
 	cache_free(&self->cache_zstd);
 
+	list_foreach_safe(&self->cache_lz4.list)
+	{
+		auto ref = list_at(Compression, link);
+		compression_free(ref);
+	}
 	cache_reset(&self->cache_lz4);
 	cache_free(&self->cache_lz4);
 }
@@ -67,7 +72,7 @@ compression_mgr_push(CompressionMgr* self, Compression* compression)
 	}
 	if (compression->iface->id == COMPRESSION_LZ4)
 	{
-		cache_push(&self->cache_zstd, &compression->link);
+		cache_push(&self->cache_lz4, &compression->link);
 		return;
 	}
 	abort();
-- 
2.43.0


From 274966e4a99f7de9159e2854d9cec672bb88f870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:36 +0000
Subject: [PATCH 08/48] fix: reserve the worst-case size for zstd output

---
 monotone/runtime/lib/compression_zstd.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/monotone/runtime/lib/compression_zstd.c b/monotone/runtime/lib/compression_zstd.c
index 9c799a5..b0163cc 100644
--- a/monotone/runtime/lib/compression_zstd.c
+++ b/monotone/runtime/lib/compression_zstd.c
@@ -61,7 +61,7 @@ compression_zstd_compress(Compression* ptr, Buf* buf, int level,
 	size_t size = 0;
 	for (int i = 0; i < argc; i++)
 		size += buf_size(argv[i]);
-	buf_reserve(buf, size);
+	buf_reserve(buf, ZSTD_compressBound(size));
 
 	ZSTD_outBuffer out;
 	out.dst  = buf->position;
@@ -77,8 +77,8 @@ compression_zstd_compress(Compression* ptr, Buf* buf, int level,
 
 		ssize_t rc;
 		rc = ZSTD_compressStream2(self->ctx, &out, &in, ZSTD_e_continue);
-		assert(rc == 0);
-		unused(rc);
+		if (unlikely(rc != 0))
+			error("zstd: compression failed");
 	}
 
 	ZSTD_inBuffer in;
@@ -87,8 +87,8 @@ compression_zstd_compress(Compression* ptr, Buf* buf, int level,
 	in.pos   = 0;
 	ssize_t rc;
 	rc = ZSTD_compressStream2(self->ctx, &out, &in, ZSTD_e_end);
-	assert(rc == 0);
-	unused(rc);
+	if (unlikely(rc != 0))
+		error("zstd: compression failed");
 
 	buf_advance(buf, out.pos);
 }
-- 
2.43.0


From 677eaf8e7e1b8e2b6bb589871f8632885577cd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:44 +0000
Subject: [PATCH 09/48] fix: report a decompressed size mismatch as an error

---
 monotone/runtime/lib/compression_lz4.c  | 5 ++++-
 monotone/runtime/lib/compression_zstd.c | 3 +--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/monotone/runtime/lib/compression_lz4.c b/monotone/runtime/lib/compression_lz4.c
index 196af80..0f29354 100644
--- a/monotone/runtime/lib/compression_lz4.c
+++ b/monotone/runtime/lib/compression_lz4.c
@@ -134,10 +134,13 @@ compression_lz4_decompress(Compression* ptr,
 		                     NULL);
 		if (unlikely(LZ4F_isError(rc)))
 			compression_lz4_error(rc);
+		if (unlikely(dst_size == 0 && src_size == 0))
+			break;
 		buf_advance(buf, dst_size);
 		pos += src_size;
 	}
-	assert(buf_size(buf) == data_size_uncompressed);
+	if (unlikely(buf_size(buf) != data_size_uncompressed))
+		error("lz4: decompression failed");
 }
 
 CompressionIf compression_lz4 =
diff --git a/monotone/runtime/lib/compression_zstd.c b/monotone/runtime/lib/compression_zstd.c
index b0163cc..5c3a276 100644
--- a/monotone/runtime/lib/compression_zstd.c
+++ b/monotone/runtime/lib/compression_zstd.c
@@ -104,9 +104,8 @@ compression_zstd_decompress(Compression* ptr,
 	buf_reserve(buf, data_size_uncompressed);
 	ssize_t rc;
 	rc = ZSTD_decompress(buf->start, data_size_uncompressed, data, data_size);
-	if (unlikely(ZSTD_isError(rc)))
+	if (unlikely(ZSTD_isError(rc) || rc != data_size_uncompressed))
 		error("zstd: decompression failed");
-	assert(rc == data_size_uncompressed);
 	buf_advance(buf, data_size_uncompressed);
 }
 
-- 
2.43.0


From 6786e9ebf6ed0b6f61a1afd9863b3fb0c0be1ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:04 +0000
Subject: [PATCH 10/48] fix: count the event key once in the event size

---
 monotone/engine/io/event.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monotone/engine/io/event.h b/monotone/engine/io/event.h
index 9f3435a..8fbcb48 100644
--- a/monotone/engine/io/event.h
+++ b/monotone/engine/io/event.h
@@ -49,7 +49,7 @@ event_is_delete(Event* self)
 always_inline hot static inline int
 event_size(Event* self)
 {
-	return sizeof(Event) + self->key_size + self->data_size;
+	return sizeof(Event) + self->data_size;
 }
 
 always_inline hot static inline uint8_t*
-- 
2.43.0


From 177e86e2520bb1ebaceb17dc2117f985064b3e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:04 +0000
Subject: [PATCH 11/48] fix: verify the region crc on read

---
 monotone/engine/io/reader.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/monotone/engine/io/reader.h b/monotone/engine/io/reader.h
index 5be2947..72447c4 100644
--- a/monotone/engine/io/reader.h
+++ b/monotone/engine/io/reader.h
@@ -107,6 +107,14 @@ reader_execute(Reader* self, IndexRegion* index_region)
 	}
 	Buf* origin = &self->buf;
 
+	// check region crc
+	if (index_region->crc != 0)
+	{
+		uint32_t crc = crc32(0, origin->start, buf_size(origin));
+		if (crc != index_region->crc)
+			error("read: region crc mismatch");
+	}
+
 	// decrypt region
 	if (self->encryption)
 	{
-- 
2.43.0


From 820154b1f043770019ebe7ea984ac38833953211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:04 +0000
Subject: [PATCH 12/48] fix: check the minimal size of encrypted data

---
 monotone/runtime/lib/encryption_aes.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monotone/runtime/lib/encryption_aes.c b/monotone/runtime/lib/encryption_aes.c
index 1129514..1f5dfb9 100644
--- a/monotone/runtime/lib/encryption_aes.c
+++ b/monotone/runtime/lib/encryption_aes.c
@@ -118,6 +118,9 @@ encryption_aes_decrypt(Encryption* ptr,
 	if (unlikely(str_size(key) != 32))
 		error("aes: encryption key must be 256bit");
 
+	if (unlikely(data_size < 32))
+		error("aes: encrypted data is too small");
+
 	buf_reserve(buf, data_size);
 
 	// [iv, tag, encrypted data]
-- 
2.43.0


From 459e55b0bb19a69589de82f7a0e2585285db7a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:35 +0000
Subject: [PATCH 13/48] fix: log a partition drop before the partition is
 removed

---
 monotone/engine/engine/op.c | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 449503e..0e26e2e 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -244,14 +244,12 @@ engine_drop_reference(Engine* self, uint64_t min)
 {
 	// take exclusive control lock
 	control_lock_exclusive();
+	guard(control_unlock_guard, NULL);
 
 	// find partition = min
 	auto slice = mapping_match(&self->mapping, min);
 	if (! slice)
-	{
-		control_unlock();
 		return true;
-	}
 	auto ref = ref_of(slice);
 	auto part = ref->part;
 
@@ -259,23 +257,10 @@ engine_drop_reference(Engine* self, uint64_t min)
 	if (part->state != ID_NONE)
 	{
 		// retry truncate
-		control_unlock();
 		return false;
 	}
 
-	// remove partition from mapping
-	mapping_remove(&self->mapping, slice);
-
-	// remove partition from storage
-	auto storage = storage_mgr_find(&self->storage_mgr, &part->source->name);
-	storage_remove(storage, part);
-
-	control_unlock();
-
-	// free
-	ref_free(ref);
-
-	// wal write
+	// wal write (before the partition can be created again)
 	if (var_int_of(&config()->wal))
 	{
 		LogDrop drop;
@@ -287,6 +272,15 @@ engine_drop_reference(Engine* self, uint64_t min)
 			service_rotate(self->service);
 	}
 
+	// remove partition from mapping
+	mapping_remove(&self->mapping, slice);
+
+	// remove partition from storage
+	auto storage = storage_mgr_find(&self->storage_mgr, &part->source->name);
+	storage_remove(storage, part);
+
+	// free
+	ref_free(ref);
 	return true;
 }
 
-- 
2.43.0


From aafba050fd3ed96c9de6cc985a210840db22b784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:56 +0000
Subject: [PATCH 14/48] fix: replay a partition drop without logging it again

---
 monotone/engine/engine/op.c | 28 +++++++++++++++++++++++++---
 monotone/engine/engine/op.h |  1 +
 monotone/main/main/main.c   |  5 +----
 3 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 0e26e2e..dc7dd2d 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -240,7 +240,7 @@ engine_drop_file(Engine* self, uint64_t min, bool if_exists,
 }
 
 static bool
-engine_drop_reference(Engine* self, uint64_t min)
+engine_drop_reference(Engine* self, uint64_t min, bool wal)
 {
 	// take exclusive control lock
 	control_lock_exclusive();
@@ -261,7 +261,7 @@ engine_drop_reference(Engine* self, uint64_t min)
 	}
 
 	// wal write (before the partition can be created again)
-	if (var_int_of(&config()->wal))
+	if (wal && var_int_of(&config()->wal))
 	{
 		LogDrop drop;
 		log_drop_init(&drop, min);
@@ -300,7 +300,7 @@ engine_drop(Engine* self, uint64_t min, bool if_exists, int mask)
 
 			// try to drop partition mapping, or retry drop if
 			// partition still has files
-			if (engine_drop_reference(self, min))
+			if (engine_drop_reference(self, min, true))
 				break;
 		}
 
@@ -311,6 +311,28 @@ engine_drop(Engine* self, uint64_t min, bool if_exists, int mask)
 	engine_drop_file(self, min, if_exists, false, mask);
 }
 
+void
+engine_drop_replay(Engine* self, LogDrop* drop)
+{
+	auto lsn = drop->write.lsn;
+	auto ref = engine_lock(self, drop->id, LOCK_ACCESS, false, false);
+	if (ref)
+	{
+		// skip if partition is a newer then drop lsn
+		auto part = ref->part;
+		auto skip = part->state != ID_NONE && part->index.lsn >= lsn;
+		engine_unlock(self, ref, LOCK_ACCESS);
+
+		// drop partition without logging it again
+		if (! skip)
+		{
+			engine_drop_file(self, drop->id, true, false, ID|ID_CLOUD);
+			engine_drop_reference(self, drop->id, false);
+		}
+	}
+	config_lsn_follow(lsn);
+}
+
 void
 engine_drop_range(Engine* self, uint64_t min, uint64_t max, int mask)
 {
diff --git a/monotone/engine/engine/op.h b/monotone/engine/engine/op.h
index a4ab3db..fc12b90 100644
--- a/monotone/engine/engine/op.h
+++ b/monotone/engine/engine/op.h
@@ -17,6 +17,7 @@
 void engine_fill_nolock(Engine*, uint64_t, uint64_t);
 void engine_fill(Engine*, uint64_t, uint64_t);
 void engine_drop(Engine*, uint64_t, bool, int);
+void engine_drop_replay(Engine*, LogDrop*);
 void engine_drop_range(Engine*, uint64_t, uint64_t, int);
 
 // cloud
diff --git a/monotone/main/main/main.c b/monotone/main/main/main.c
index 617b022..925b179 100644
--- a/monotone/main/main/main.c
+++ b/monotone/main/main/main.c
@@ -191,11 +191,8 @@ main_replay(Main* self)
 			engine_write_replay(&self->engine, write);
 			break;
 		case LOG_DROP:
-		{
-			auto drop = (LogDrop*)write;
-			engine_drop(&self->engine, drop->id, true, ID|ID_CLOUD);
+			engine_drop_replay(&self->engine, (LogDrop*)write);
 			break;
-		}
 		default:
 			error("wal: unrecognized operation: %d (lsn: %" PRIu64 ")",
 			      write->type, write->lsn);
-- 
2.43.0


From c096489af0e361d0305e6f4718259c187818be38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:58 +0000
Subject: [PATCH 15/48] fix: remove an incomplete record at the end of the wal
 after replay

---
 monotone/engine/wal/wal.c | 12 ++++++++++++
 monotone/engine/wal/wal.h |  1 +
 monotone/main/main/main.c |  5 +++++
 3 files changed, 18 insertions(+)

diff --git a/monotone/engine/wal/wal.c b/monotone/engine/wal/wal.c
index 80a32bf..918e2d1 100644
--- a/monotone/engine/wal/wal.c
+++ b/monotone/engine/wal/wal.c
@@ -124,6 +124,18 @@ wal_gc(Wal* self, uint64_t snapshot)
 	}
 }
 
+void
+wal_truncate(Wal* self, uint64_t id, uint64_t offset)
+{
+	mutex_lock(&self->lock);
+	guard(mutex_unlock, &self->lock);
+
+	// remove incomplete record at the end of the current file
+	auto current = self->current;
+	if (current->id == id && current->file.size > offset)
+		file_truncate(&current->file, offset);
+}
+
 static inline int64_t
 wal_file_id_of(const char* path)
 {
diff --git a/monotone/engine/wal/wal.h b/monotone/engine/wal/wal.h
index 2a7e249..f3b1534 100644
--- a/monotone/engine/wal/wal.h
+++ b/monotone/engine/wal/wal.h
@@ -27,6 +27,7 @@ void wal_free(Wal*);
 void wal_open(Wal*);
 void wal_rotate(Wal*, uint64_t);
 void wal_gc(Wal*, uint64_t);
+void wal_truncate(Wal*, uint64_t, uint64_t);
 bool wal_write(Wal*, Log*);
 bool wal_write_op(Wal*, LogWrite*);
 void wal_show(Wal*, Buf*);
diff --git a/monotone/main/main/main.c b/monotone/main/main/main.c
index 925b179..bc5dffc 100644
--- a/monotone/main/main/main.c
+++ b/monotone/main/main/main.c
@@ -201,6 +201,11 @@ main_replay(Main* self)
 
 		total += write->count;
 	}
+
+	// remove incomplete record left by a crash
+	if (cursor.file)
+		wal_truncate(&self->wal, cursor.file->id, cursor.file_offset);
+
 	log("wal: %.1f million records processed",
 	    total / 1000000.0);
 }
-- 
2.43.0


From e5678ef7426978a2f30989c24c627af9738b3290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:58 +0000
Subject: [PATCH 16/48] fix: validate wal record size and offset without
 narrowing

---
 monotone/engine/wal/wal_file.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/monotone/engine/wal/wal_file.h b/monotone/engine/wal/wal_file.h
index f34ad1f..98457d0 100644
--- a/monotone/engine/wal/wal_file.h
+++ b/monotone/engine/wal/wal_file.h
@@ -79,7 +79,7 @@ wal_file_writev(WalFile* self, struct iovec* iov, int iovc)
 }
 
 static inline bool
-wal_file_eof(WalFile* self, uint32_t offset, uint32_t size)
+wal_file_eof(WalFile* self, uint64_t offset, uint64_t size)
 {
 	return (offset + size) > self->file.size;
 }
@@ -99,6 +99,11 @@ wal_file_pread(WalFile* self, uint64_t offset, Buf* buf)
 	file_pread_buf(&self->file, buf, size_header, offset);
 	uint32_t size = ((LogWrite*)(buf->start + start))->size;
 
+	// check for invalid size
+	if (unlikely(size < size_header))
+		error("wal: file '%s' is corrupted at offset %" PRIu64,
+		      str_of(&self->file.path), offset);
+
 	// check for eof
 	if (wal_file_eof(self, offset, size))
 		return false;
-- 
2.43.0


From 0630b347f747afa93a808f32427d3f47d129670a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:12 +0000
Subject: [PATCH 17/48] fix: remove a partially written wal record when the
 write fails

---
 monotone/engine/wal/wal.c | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/monotone/engine/wal/wal.c b/monotone/engine/wal/wal.c
index 918e2d1..82dbee4 100644
--- a/monotone/engine/wal/wal.c
+++ b/monotone/engine/wal/wal.c
@@ -207,6 +207,18 @@ wal_open(Wal* self)
 	}
 }
 
+static inline void
+wal_rollback(Wal* self, uint64_t size)
+{
+	// remove partially written record, the following records
+	// must not be placed after it
+	Exception e;
+	if (enter(&e))
+		file_truncate(&self->current->file, size);
+	if (leave(&e))
+	{ }
+}
+
 hot bool
 wal_write(Wal* self, Log* log)
 {
@@ -218,8 +230,16 @@ wal_write(Wal* self, Log* log)
 	log_write_seal(&log->write);
 
 	// write wal file
-	wal_file_writev(self->current, iov_pointer(&log->iov),
-	                log->iov.iov_count);
+	auto size = self->current->file.size;
+	Exception e;
+	if (enter(&e))
+		wal_file_writev(self->current, iov_pointer(&log->iov),
+		                log->iov.iov_count);
+	if (leave(&e))
+	{
+		wal_rollback(self, size);
+		rethrow();
+	}
 
 	// set lsn
 	config_lsn_set(log->write.lsn);
@@ -240,7 +260,15 @@ wal_write_op(Wal* self, LogWrite* write)
 	log_write_seal(write);
 
 	// write wal file
-	wal_file_write(self->current, write, write->size);
+	auto size = self->current->file.size;
+	Exception e;
+	if (enter(&e))
+		wal_file_write(self->current, write, write->size);
+	if (leave(&e))
+	{
+		wal_rollback(self, size);
+		rethrow();
+	}
 
 	// set lsn
 	config_lsn_set(write->lsn);
-- 
2.43.0


From 93b265e8b01614274e32e2e3d425baba9648805e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:45 +0000
Subject: [PATCH 18/48] fix: quote strings in exported json and unquote them on
 parse

---
 monotone/runtime/lib/json.c | 38 ++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/monotone/runtime/lib/json.c b/monotone/runtime/lib/json.c
index a1660f3..58050a3 100644
--- a/monotone/runtime/lib/json.c
+++ b/monotone/runtime/lib/json.c
@@ -53,6 +53,29 @@ json_next(Json* self, int n)
 	return self->json[self->pos];
 }
 
+static inline void
+json_read_escaped(Json* self, const char* pos, int size)
+{
+	Buf buf;
+	buf_init(&buf);
+	guard(buf_free, &buf);
+	for (int i = 0; i < size; i++)
+	{
+		char symbol = pos[i];
+		if (symbol == '\\' && i + 1 < size)
+		{
+			switch (pos[i + 1]) {
+			case '\\':
+			case '"':
+				symbol = pos[++i];
+				break;
+			}
+		}
+		buf_write(&buf, &symbol, 1);
+	}
+	encode_raw(&self->buf, buf_cstr(&buf), buf_size(&buf));
+}
+
 hot static inline int
 json_read(Json* self, int skip)
 {
@@ -159,11 +182,13 @@ json_read(Json* self, int skip)
 	{
 		offset = ++self->pos;
 		int slash = 0;
+		bool escaped = false;
 		for (; self->pos < self->json_size; self->pos++)
 		{
 			if (likely(!slash) ){
 				if (self->json[self->pos] == '\\') {
 					slash = 1;
+					escaped = true;
 					continue;
 				}
 				if (self->json[self->pos] == '"')
@@ -176,7 +201,10 @@ json_read(Json* self, int skip)
 		if (unlikely(self->pos > self->json_size))
 			return -1;
 		int size = self->pos - offset - 1;
-		encode_raw(data, self->json + offset, size);
+		if (likely(! escaped))
+			encode_raw(data, self->json + offset, size);
+		else
+			json_read_escaped(self, self->json + offset, size);
 		return token;
 	}
 	case 'n':
@@ -311,12 +339,16 @@ json_export_as(Buf* data, bool pretty, int deep, uint8_t** pos)
 	}
 	case MN_STRINGV0 ... MN_STRING32:
 	{
-		// todo: quouting
 		char* value;
 		int   size;
 		data_read_raw(pos, &value, &size);
 		buf_write(data, "\"", 1);
-		buf_write(data, value, size);
+		for (int i = 0; i < size; i++)
+		{
+			if (value[i] == '"' || value[i] == '\\')
+				buf_write(data, "\\", 1);
+			buf_write(data, &value[i], 1);
+		}
 		buf_write(data, "\"", 1);
 		break;
 	}
-- 
2.43.0


From 057181c18719cbb1bd5e5454c0fb25de1d1ec87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:21 +0000
Subject: [PATCH 19/48] fix: keep 64-bit storage options when they are copied
 and compared

---
 monotone/cloud/cloud/source.h | 6 +++---
 monotone/engine/io/part.h     | 2 +-
 monotone/engine/io/writer.c   | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/monotone/cloud/cloud/source.h b/monotone/cloud/cloud/source.h
index 6178ddf..cca4928 100644
--- a/monotone/cloud/cloud/source.h
+++ b/monotone/cloud/cloud/source.h
@@ -127,13 +127,13 @@ source_set_crc(Source* self, bool value)
 }
 
 static inline void
-source_set_refresh_wm(Source* self, int value)
+source_set_refresh_wm(Source* self, int64_t value)
 {
 	self->refresh_wm = value;
 }
 
 static inline void
-source_set_region_size(Source* self, int value)
+source_set_region_size(Source* self, int64_t value)
 {
 	self->region_size = value;
 }
@@ -146,7 +146,7 @@ source_set_compression(Source* self, Str* value)
 }
 
 static inline void
-source_set_compression_level(Source* self, int value)
+source_set_compression_level(Source* self, int64_t value)
 {
 	self->compression_level = value;
 }
diff --git a/monotone/engine/io/part.h b/monotone/engine/io/part.h
index 1908e1e..a983fdf 100644
--- a/monotone/engine/io/part.h
+++ b/monotone/engine/io/part.h
@@ -111,5 +111,5 @@ part_refresh_ready(Part* self)
 		return false;
 	if (! self->source->refresh_wm)
 		return false;
-	return heap_used(&self->memtable->heap) > (uint32_t)self->source->refresh_wm;
+	return heap_used(&self->memtable->heap) > (uint64_t)self->source->refresh_wm;
 }
diff --git a/monotone/engine/io/writer.c b/monotone/engine/io/writer.c
index 824bdd0..544b293 100644
--- a/monotone/engine/io/writer.c
+++ b/monotone/engine/io/writer.c
@@ -63,7 +63,7 @@ writer_is_region_limit(Writer* self)
 {
 	if (unlikely(! region_writer_started(&self->region_writer)))
 		return true;
-	return region_writer_size(&self->region_writer) >= (uint32_t)self->source->region_size;
+	return region_writer_size(&self->region_writer) >= (uint64_t)self->source->region_size;
 }
 
 static inline void
-- 
2.43.0


From 54e44aff2d2ca37701d409ad6696a4da05e46bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:44 +0000
Subject: [PATCH 20/48] fix: restore the serial number from the last partition
 which has events

---
 monotone/engine/engine/engine.c | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/monotone/engine/engine/engine.c b/monotone/engine/engine/engine.c
index e459767..3c212ef 100644
--- a/monotone/engine/engine/engine.c
+++ b/monotone/engine/engine/engine.c
@@ -78,25 +78,28 @@ engine_close(Engine* self)
 void
 engine_set_serial(Engine* self)
 {
-	auto slice = mapping_max(&self->mapping);
-	if (! slice)
-		return;
-	auto ref  = ref_of(slice);
-	auto part = ref->part;
-
 	bool     serial_set = false;
 	uint64_t serial = 0;
-	if (part->state != ID_NONE && part->index.regions > 0)
-	{
-		serial = index_max(&part->index, &part->index_data);
-		serial_set = true;
-	}
 
-	auto max = memtable_max(part->memtable);
-	if (max && max->id >= serial)
+	// find last partition which has events
+	auto slice = mapping_max(&self->mapping);
+	for (; slice && !serial_set; slice = mapping_prev(&self->mapping, slice))
 	{
-		serial = max->id;
-		serial_set = true;
+		auto ref  = ref_of(slice);
+		auto part = ref->part;
+
+		if (part->state != ID_NONE && part->index.regions > 0)
+		{
+			serial = index_max(&part->index, &part->index_data);
+			serial_set = true;
+		}
+
+		auto max = memtable_max(part->memtable);
+		if (max && max->id >= serial)
+		{
+			serial = max->id;
+			serial_set = true;
+		}
 	}
 
 	if (serial_set)
-- 
2.43.0


From 71d93cede49064b1dcebd60d274ce2308ed630ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:10 +0000
Subject: [PATCH 21/48] fix: report an error when an event does not fit into a
 memory page

---
 monotone/engine/engine/write.c | 1 +
 monotone/engine/io/memtable.c  | 3 ++-
 monotone/runtime/lib/heap.h    | 8 ++++----
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/monotone/engine/engine/write.c b/monotone/engine/engine/write.c
index dad5893..ebf63e3 100644
--- a/monotone/engine/engine/write.c
+++ b/monotone/engine/engine/write.c
@@ -34,6 +34,7 @@ engine_rollback(Engine* self, Log* log)
 			if (pos->prev)
 				memtable_set(ref->part->memtable, pos->prev);
 			else
+			if (pos->event)
 				memtable_unset(ref->part->memtable, pos->event);
 			engine_unlock(self, ref, LOCK_ACCESS);
 		}
diff --git a/monotone/engine/io/memtable.c b/monotone/engine/io/memtable.c
index 52a68cf..55bfc59 100644
--- a/monotone/engine/io/memtable.c
+++ b/monotone/engine/io/memtable.c
@@ -285,7 +285,8 @@ memtable_set(Memtable* self, Event* event)
 void
 memtable_unset(Memtable* self, Event* event)
 {
-	assert(self->count_pages > 0);
+	if (unlikely(self->count_pages == 0))
+		return;
 
 	// search page
 	auto page = memtable_search_page(self, event);
diff --git a/monotone/runtime/lib/heap.h b/monotone/runtime/lib/heap.h
index 7f0434c..da9a72b 100644
--- a/monotone/runtime/lib/heap.h
+++ b/monotone/runtime/lib/heap.h
@@ -54,13 +54,13 @@ heap_used(Heap* self)
 }
 
 hot static inline void*
-heap_allocate(Heap* self, int size)
+heap_allocate(Heap* self, size_t size)
 {
-	if (unlikely(size > self->memory_mgr->page_size))
-		return NULL;
+	if (unlikely(size > (size_t)self->memory_mgr->page_size))
+		error("heap: allocation size exceeds the page size limit");
 	Page* page;
 	if (unlikely(self->list == NULL ||
-	             (self->memory_mgr->page_size - self->list_tail->used) < size))
+	             (size_t)(self->memory_mgr->page_size - self->list_tail->used) < size))
 	{
 		page = memory_mgr_pop(self->memory_mgr);
 		if (self->list == NULL)
-- 
2.43.0


From cdba924a8eb185ef77d451a9df482423be042a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:10 +0000
Subject: [PATCH 22/48] fix: wake up writers blocked by the memory limit when
 pages are unmapped

---
 monotone/runtime/lib/memory_mgr.h | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/monotone/runtime/lib/memory_mgr.h b/monotone/runtime/lib/memory_mgr.h
index 89dd37a..6b79a64 100644
--- a/monotone/runtime/lib/memory_mgr.h
+++ b/monotone/runtime/lib/memory_mgr.h
@@ -145,13 +145,21 @@ memory_mgr_pop(MemoryMgr* self)
 				error("mm: memory limit reached");
 			}
 
-			// wait for free page
+			// wait for free page or until some memory is released
 			while (! self->free_list)
+			{
+				used = self->count * (uint64_t)self->page_size;
+				if (used < self->limit_wm)
+					break;
 				cond_var_wait(&self->cond_var, &self->lock);
+			}
 
-			auto page = memory_mgr_pop_cache(self);
-			mutex_unlock(&self->lock);
-			return page;
+			if (self->free_list)
+			{
+				auto page = memory_mgr_pop_cache(self);
+				mutex_unlock(&self->lock);
+				return page;
+			}
 		}
 	}
 
@@ -161,7 +169,13 @@ memory_mgr_pop(MemoryMgr* self)
 	Page* page;
 	page = vfs_mmap(-1, sizeof(Page) + self->page_size);
 	if (unlikely(page == NULL))
+	{
+		mutex_lock(&self->lock);
+		self->count--;
+		cond_var_broadcast(&self->cond_var);
+		mutex_unlock(&self->lock);
 		error_system();
+	}
 	page->used = 0;
 	page->next = NULL;
 	return page;
@@ -181,6 +195,7 @@ memory_mgr_push(MemoryMgr* self, Page* page, Page* page_tail, int count)
 		page = NULL;
 	} else {
 		self->count -= count;
+		cond_var_broadcast(&self->cond_var);
 	}
 	mutex_unlock(&self->lock);
 
-- 
2.43.0


From d290f7cbdeb80b253d04d27b42bf972c4cace58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:47 +0000
Subject: [PATCH 23/48] fix: merge the older memtable first after a failed
 refresh

---
 monotone/engine/io/part.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monotone/engine/io/part.h b/monotone/engine/io/part.h
index a983fdf..fe4f102 100644
--- a/monotone/engine/io/part.h
+++ b/monotone/engine/io/part.h
@@ -100,6 +100,9 @@ part_memtable_rotate(Part* self)
 		current = &self->memtable_b;
 	else
 		current = &self->memtable_a;
+	// previous refresh failed, older memtable must be merged first
+	if (unlikely(current->count_pages > 0))
+		return current;
 	self->memtable = current;
 	return prev;
 }
-- 
2.43.0


From 4c9ee8a17329f532f98656c6bdf7f025300a4854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:47 +0000
Subject: [PATCH 24/48] fix: remove an incomplete partition file left by a
 failed refresh

---
 monotone/engine/io/merger.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monotone/engine/io/merger.c b/monotone/engine/io/merger.c
index a19deda..2e676ff 100644
--- a/monotone/engine/io/merger.c
+++ b/monotone/engine/io/merger.c
@@ -118,6 +118,9 @@ merger_execute(Merger* self, MergerReq* req)
 	// allocate and create incomplete partition file
 	Id id = origin->id;
 	self->part = part_allocate(origin->comparator, req->source, &id);
+
+	// in case previous attempt failed without crash
+	part_delete(self->part, ID_INCOMPLETE);
 	part_create(self->part, ID_INCOMPLETE);
 	part_set(self->part, ID_INCOMPLETE);
 	part_set_time_create(self->part, origin->time_create);
-- 
2.43.0


From 21f5f711ba1c12a765028472e40efd0cc2324949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:07 +0000
Subject: [PATCH 25/48] fix: allow to schedule a partition refresh again after
 a failed one

---
 monotone/engine/engine/refresh.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/monotone/engine/engine/refresh.c b/monotone/engine/engine/refresh.c
index db6e5c0..bc0d989 100644
--- a/monotone/engine/engine/refresh.c
+++ b/monotone/engine/engine/refresh.c
@@ -228,6 +228,14 @@ refresh_run(Refresh* self, uint64_t min, Str* storage, bool if_exists)
 		refresh_end(self);
 	}
 
+	// allow to schedule refresh again after an error
+	if (unlikely(e.triggered))
+	{
+		mutex_lock(&self->engine->lock);
+		self->ref->part->refresh = false;
+		mutex_unlock(&self->engine->lock);
+	}
+
 	// complete
 	engine_unlock(self->engine, self->ref, LOCK_SERVICE);
 	self->ref = NULL;
-- 
2.43.0


From 588ab662e211d1c59b80653e0bb3dc247966be27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:20 +0000
Subject: [PATCH 26/48] fix: keep wal files of events which are not yet in a
 completed partition file

---
 monotone/engine/engine/op.c      |  3 ++-
 monotone/engine/engine/refresh.c | 11 +++++++++++
 monotone/engine/engine/write.c   |  3 +++
 monotone/engine/io/memtable.c    |  7 +++++++
 monotone/engine/io/memtable.h    |  1 +
 5 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index dc7dd2d..00cc1cf 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -645,7 +645,8 @@ engine_gc(Engine* self)
 	guard(control_unlock_guard, NULL);
 
 	// get minimum lsn currently used by any memtable
-	uint64_t lsn_min = UINT64_MAX;
+	// (events which are not yet written to the wal will have a greater lsn)
+	uint64_t lsn_min = config_lsn() + 1;
 	mutex_lock(&self->lock);
 
 	auto slice = mapping_min(&self->mapping);
diff --git a/monotone/engine/engine/refresh.c b/monotone/engine/engine/refresh.c
index bc0d989..f9ee48b 100644
--- a/monotone/engine/engine/refresh.c
+++ b/monotone/engine/engine/refresh.c
@@ -154,6 +154,12 @@ refresh_apply(Refresh* self)
 	// use active memtable on the new partition
 	memtable_move(part->memtable, origin->memtable);
 
+	// keep wal files of the merged memtable until the new partition
+	// file replaces the origin
+	Memtable* memtable_prev;
+	part_memtable(part, &memtable_prev);
+	memtable_follow_min(memtable_prev, self->memtable->lsn_min);
+
 	// this should be ID_INCOMPLETE until sync
 	// completed, but made this way in order to be
 	// available for access during the
@@ -190,6 +196,11 @@ refresh_end(Refresh* self)
 	part_free(origin);
 	self->origin = NULL;
 
+	// allow to remove wal files of the merged memtable
+	Memtable* memtable_prev;
+	part_memtable(part, &memtable_prev);
+	atomic_u64_set(&memtable_prev->lsn_min, UINT64_MAX);
+
 	// crash case 3
 	error_injection(error_refresh_3);
 
diff --git a/monotone/engine/engine/write.c b/monotone/engine/engine/write.c
index ebf63e3..f3c383b 100644
--- a/monotone/engine/engine/write.c
+++ b/monotone/engine/engine/write.c
@@ -107,6 +107,9 @@ engine_write(Engine* self, EventArg* events, int count)
 
 			// update memtable and save previous version
 			op->prev = memtable_set(memtable, event);
+
+			// keep wal files which are going to have this event
+			memtable_follow_min(memtable, config_lsn() + 1);
 		}
 
 		// wal write
diff --git a/monotone/engine/io/memtable.c b/monotone/engine/io/memtable.c
index 55bfc59..b4382f4 100644
--- a/monotone/engine/io/memtable.c
+++ b/monotone/engine/io/memtable.c
@@ -348,6 +348,13 @@ memtable_seek(Memtable* self, Event* key, MemtablePage** page, int* pos)
 	return match;
 }
 
+void
+memtable_follow_min(Memtable* self, uint64_t lsn)
+{
+	if (lsn < atomic_u64_of(&self->lsn_min))
+		atomic_u64_set(&self->lsn_min, lsn);
+}
+
 void
 memtable_follow(Memtable* self, uint64_t lsn)
 {
diff --git a/monotone/engine/io/memtable.h b/monotone/engine/io/memtable.h
index 1a66d06..2c8755a 100644
--- a/monotone/engine/io/memtable.h
+++ b/monotone/engine/io/memtable.h
@@ -45,4 +45,5 @@ Event* memtable_set(Memtable*, Event*);
 void   memtable_unset(Memtable*, Event*);
 Event* memtable_max(Memtable*);
 bool   memtable_seek(Memtable*, Event*, MemtablePage**, int*);
+void   memtable_follow_min(Memtable*, uint64_t);
 void   memtable_follow(Memtable*, uint64_t);
-- 
2.43.0


From a98ac8399ad6f9257c8146f436074e8212fe945f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:10 +0000
Subject: [PATCH 27/48] fix: do not read past the end of a truncated formatted
 string

---
 monotone/runtime/lib/json.c       | 2 +-
 monotone/runtime/runtime/buf.h    | 2 ++
 monotone/runtime/runtime/error.h  | 2 ++
 monotone/runtime/runtime/logger.c | 4 +++-
 4 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/monotone/runtime/lib/json.c b/monotone/runtime/lib/json.c
index 58050a3..e80c705 100644
--- a/monotone/runtime/lib/json.c
+++ b/monotone/runtime/lib/json.c
@@ -302,7 +302,7 @@ json_parse(Json* self, Str* string)
 static void
 json_export_as(Buf* data, bool pretty, int deep, uint8_t** pos)
 {
-	char buf[32];
+	char buf[512];
 	int  buf_len;
 	switch (**pos) {
 	case MN_NULL:
diff --git a/monotone/runtime/runtime/buf.h b/monotone/runtime/runtime/buf.h
index 8939b85..1104ece 100644
--- a/monotone/runtime/runtime/buf.h
+++ b/monotone/runtime/runtime/buf.h
@@ -146,6 +146,8 @@ buf_vprintf(Buf* self, const char* fmt, va_list args)
 	char tmp[1024];
 	int  tmp_len;
 	tmp_len = vsnprintf(tmp, sizeof(tmp), fmt, args);
+	if (unlikely(tmp_len >= (int)sizeof(tmp)))
+		tmp_len = sizeof(tmp) - 1;
 	buf_write(self, tmp, tmp_len);
 }
 
diff --git a/monotone/runtime/runtime/error.h b/monotone/runtime/runtime/error.h
index 7f8ba1b..59243d9 100644
--- a/monotone/runtime/runtime/error.h
+++ b/monotone/runtime/runtime/error.h
@@ -69,6 +69,8 @@ error_throw_as(Error*        self,
 	self->function = function;
 	self->line     = line;
 	self->text_len = vsnprintf(self->text, sizeof(self->text), fmt, args);
+	if (self->text_len >= (int)sizeof(self->text))
+		self->text_len = sizeof(self->text) - 1;
 	va_end(args);
 	exception_mgr_throw(mgr);
 }
diff --git a/monotone/runtime/runtime/logger.c b/monotone/runtime/runtime/logger.c
index a888041..c9d6826 100644
--- a/monotone/runtime/runtime/logger.c
+++ b/monotone/runtime/runtime/logger.c
@@ -84,8 +84,10 @@ logger_write(Logger*     self,
 	if (prefix)
 		len += snprintf(buffer + len, sizeof(buffer) - len, "%s", prefix);
 
-	// message
+	// message (reserve space for the new line)
 	len += vsnprintf(buffer + len, sizeof(buffer) - len, fmt, args);
+	if (unlikely(len > (int)sizeof(buffer) - 2))
+		len = sizeof(buffer) - 2;
 	len += snprintf(buffer + len, sizeof(buffer) - len, "\n");
 
 	// write
-- 
2.43.0


From a3d4e113634e6d725825b6926033767bfa1fd53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:10 +0000
Subject: [PATCH 28/48] fix: reserve space for the terminating zero of the s3
 signature

---
 monotone/cloud/s3/s3_request.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monotone/cloud/s3/s3_request.c b/monotone/cloud/s3/s3_request.c
index e9da4e8..14efd21 100644
--- a/monotone/cloud/s3/s3_request.c
+++ b/monotone/cloud/s3/s3_request.c
@@ -25,7 +25,7 @@
 
 static void
 s3_request_encode_base64(uint8_t digest_raw[20],
-                         uint8_t digest[28])
+                         uint8_t digest[29])
 {
 	static const char* const chars =
 	"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
@@ -117,7 +117,7 @@ s3_request_prepare(S3Request* self)
 	      digest, NULL);
 
 	// encode MAC using base64
-	uint8_t digest_base64[28];
+	uint8_t digest_base64[29];
 	s3_request_encode_base64(digest, digest_base64);
 
 	// prepare authorization header field
-- 
2.43.0


From b7cb56e7a23aeeb4bd3fc6ee3fdf44f107fa94b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:10 +0000
Subject: [PATCH 29/48] fix: match s3 message formats and arguments

---
 monotone/cloud/s3/s3_request.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monotone/cloud/s3/s3_request.c b/monotone/cloud/s3/s3_request.c
index 14efd21..9e96bf8 100644
--- a/monotone/cloud/s3/s3_request.c
+++ b/monotone/cloud/s3/s3_request.c
@@ -161,7 +161,7 @@ s3_request_debug_cb(CURL*         handle,
 	    str_size(&config->name),
 	    str_of(&config->name),
 	    prefix,
-	    data_size, data);
+	    (int)data_size, data);
 	return 0;
 }
 
@@ -255,7 +255,7 @@ error:;
 	{
 		long http_code = 0;
 		curl_easy_getinfo(curl, CURLINFO_RESPONSE_CODE, &http_code);
-		error("s3: HTTP %d (%s)",
+		error("s3 %.*s: HTTP %d (%s)",
 		      str_size(&config->name),
 		      str_of(&config->name),
 		      (int)http_code,
-- 
2.43.0


From 95165b2a07d96c4abb8ca277af49fc215ce12fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:10 +0000
Subject: [PATCH 30/48] fix: report an incomplete s3 range read

---
 monotone/cloud/s3/s3_op.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/monotone/cloud/s3/s3_op.c b/monotone/cloud/s3/s3_op.c
index 4573625..00a3d41 100644
--- a/monotone/cloud/s3/s3_op.c
+++ b/monotone/cloud/s3/s3_op.c
@@ -163,7 +163,12 @@ s3_op_read(S3Io*    self,
 		.authorization[0] = 0,
 		.url[0]           = 0
 	};
+	auto start = buf_size(buf);
 	s3_request_execute(&req);
+
+	// ensure that the requested range is complete
+	if (unlikely((uint32_t)(buf_size(buf) - start) != size))
+		error("s3: incomplete read");
 }
 
 void
-- 
2.43.0


From 86902347b5ccb88a281d8d1b336017001df2f58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:10 +0000
Subject: [PATCH 31/48] fix: sync a downloaded file and do not reuse a stale
 one in the mock cloud

---
 monotone/cloud/cloud/mock.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/monotone/cloud/cloud/mock.c b/monotone/cloud/cloud/mock.c
index 2286a67..80010e4 100644
--- a/monotone/cloud/cloud/mock.c
+++ b/monotone/cloud/cloud/mock.c
@@ -103,6 +103,10 @@ mock_download(Cloud* self, Source* source, Id* id)
 	file_create(&file, path_to);
 	file_write_buf(&file, &buf);
 
+	// sync
+	if (source->sync && config_sync())
+		file_sync(&file);
+
 	// crash case 4
 	error_injection(error_download);
 
@@ -135,6 +139,10 @@ mock_upload(Cloud* self, Source* source, Id* id)
 	// crash case 5
 	error_injection(error_upload);
 
+	// in case previous attempt failed without crash
+	if (fs_exists("%s", path_to))
+		fs_unlink("%s", path_to);
+
 	// create mock file
 	File file;
 	file_init(&file);
-- 
2.43.0


From 7df26b2671e684a73c0947a6b8b3f08c7201293d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:23 +0000
Subject: [PATCH 32/48] fix: replace the config file atomically

---
 monotone/runtime/config/config.c | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/monotone/runtime/config/config.c b/monotone/runtime/config/config.c
index 9abde99..6a0d793 100644
--- a/monotone/runtime/config/config.c
+++ b/monotone/runtime/config/config.c
@@ -254,21 +254,17 @@ config_save_to(Config* self, const char* path)
 void
 config_save(Config* self, const char* path)
 {
-	// remove old saved config, if exists
-	Buf buf;
-	buf_init(&buf);
-	guard(buf_free, &buf);
-	if (fs_exists("%s.old", path))
-		fs_unlink("%s.old", path);
+	// remove incomplete config, if exists
+	char path_new[PATH_MAX];
+	snprintf(path_new, sizeof(path_new), "%s.new", path);
+	if (fs_exists("%s", path_new))
+		fs_unlink("%s", path_new);
 
-	// save existing config as a old
-	fs_rename(path,  "%s.old", path);
-
-	// create config file
-	config_save_to(self, path);
+	// create and sync new config file
+	config_save_to(self, path_new);
 
-	// remove old config file
-	fs_unlink("%s.old", path);
+	// replace existing config file
+	fs_rename(path_new, "%s", path);
 }
 
 void
@@ -288,7 +284,7 @@ config_open(Config* self, const char* path)
 	}
 
 	// create config file
-	config_save_to(self, path);
+	config_save(self, path);
 }
 
 void
-- 
2.43.0


From 78ddbc3f888e83cb5fd15d7d41cbf8b0110a25b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:48 +0000
Subject: [PATCH 33/48] fix: keep the position of open cursors when events are
 inserted, split or removed

---
 monotone/engine/io/memtable.c          | 26 +++++++++++++++---
 monotone/engine/io/memtable_iterator.h | 38 ++++++++++++++------------
 2 files changed, 43 insertions(+), 21 deletions(-)

diff --git a/monotone/engine/io/memtable.c b/monotone/engine/io/memtable.c
index b4382f4..0e89580 100644
--- a/monotone/engine/io/memtable.c
+++ b/monotone/engine/io/memtable.c
@@ -183,13 +183,27 @@ range_search(Ref self, RangeTree* tree, Ref key, bool* match)
 #endif
 
 hot static inline void
-memtable_sync(Memtable* self, MemtablePage* page, MemtablePage* split, int pos)
+memtable_sync(Memtable*     self,
+              MemtablePage* page,
+              MemtablePage* split,
+              MemtablePage* insert, int pos)
 {
 	// sync iterators
 	list_foreach(&self->iterators)
 	{
 		auto it = list_at(MemtableIterator, link);
-		memtable_iterator_sync(it, page, split, pos);
+		memtable_iterator_sync(it, page, split, insert, pos);
+	}
+}
+
+static inline void
+memtable_sync_unset(Memtable* self, MemtablePage* page, int pos)
+{
+	// sync iterators
+	list_foreach(&self->iterators)
+	{
+		auto it = list_at(MemtableIterator, link);
+		memtable_iterator_sync_unset(it, page, pos);
 	}
 }
 
@@ -209,7 +223,7 @@ memtable_insert(Memtable*      self,
 
 		// update iterators
 		if (self->iterators_count > 0)
-			memtable_sync(self, page, NULL, pos);
+			memtable_sync(self, page, NULL, NULL, pos);
 
 		return prev;
 	}
@@ -244,7 +258,7 @@ memtable_insert(Memtable*      self,
 
 	// update iterators
 	if (self->iterators_count > 0)
-		memtable_sync(self, l, r, pos);
+		memtable_sync(self, l, r, ref, pos);
 
 	*page_split = r;
 	return NULL;
@@ -312,6 +326,10 @@ memtable_unset(Memtable* self, Event* event)
 		int size = (page->events_count - pos) * sizeof(Event*);
 		if (size > 0)
 			memmove(&page->events[pos], &page->events[pos + 1], size);
+
+		// update iterators
+		if (self->iterators_count > 0)
+			memtable_sync_unset(self, page, pos);
 	}
 }
 
diff --git a/monotone/engine/io/memtable_iterator.h b/monotone/engine/io/memtable_iterator.h
index a6d0d15..0d50064 100644
--- a/monotone/engine/io/memtable_iterator.h
+++ b/monotone/engine/io/memtable_iterator.h
@@ -139,32 +139,36 @@ static inline void
 memtable_iterator_sync(MemtableIterator* self,
                        MemtablePage*     page,
                        MemtablePage*     page_split,
+                       MemtablePage*     page_insert,
                        int               pos)
 {
 	if (self->page != page || !self->current)
 		return;
 
-	// replace
-	if (self->page_pos == pos)
+	// split, current event has been moved to the right page
+	if (page_split && self->page_pos >= self->memtable->size_split)
 	{
-		// update current page event pointer on replace
-		self->current = self->page->events[self->page_pos];
-		return;
-	}
-
-	// insert
-	if (page_split)
-	{
-		if (self->page_pos >= page->events_count)
-		{
-			self->page = page_split;
-			self->page_pos = self->page_pos - page->events_count;
-		}
+		self->page = page_split;
+		self->page_pos -= self->memtable->size_split;
 	}
 
-	// move position, if key was inserted before it
-	if (pos <= self->page_pos)
+	// insert, move position, if key was inserted before it
+	if (self->page == page_insert && pos <= self->page_pos)
 		self->page_pos++;
 
+	// update current page event pointer (replace)
 	self->current = self->page->events[self->page_pos];
 }
+
+static inline void
+memtable_iterator_sync_unset(MemtableIterator* self,
+                             MemtablePage*     page,
+                             int               pos)
+{
+	if (self->page != page || !self->current)
+		return;
+
+	// move position, if key was removed before it
+	if (pos < self->page_pos)
+		self->page_pos--;
+}
-- 
2.43.0


From 2a9e47eb6f5615783c13de68d628b593ae59e75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:00 +0000
Subject: [PATCH 34/48] fix: validate the key size of a cursor

---
 monotone/main/api/monotone.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monotone/main/api/monotone.c b/monotone/main/api/monotone.c
index d4688e4..692c139 100644
--- a/monotone/main/api/monotone.c
+++ b/monotone/main/api/monotone.c
@@ -185,6 +185,10 @@ monotone_cursor(monotone_t* self, const char* options, monotone_event_t* key)
 			engine_cursor_open(&cursor->cursor, &self->main.engine, NULL);
 		} else
 		{
+			// validate key size
+			if (unlikely(key->key_size > UINT8_MAX))
+				error("event key size limit is 255 bytes");
+
 			auto copy = event_malloc((EventArg*)key);
 			guard(event_free, copy);
 			engine_cursor_open(&cursor->cursor, &self->main.engine, copy);
-- 
2.43.0


From 23751c4f6448d46d8b2b3de593b01a15583d3bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:03 +0000
Subject: [PATCH 35/48] fix: do not use the storage of a skipped tier during
 rebalance

---
 monotone/engine/engine/op.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 00cc1cf..d91fafe 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -581,7 +581,12 @@ engine_rebalance_next(Engine* self, uint64_t* min, Str* storage)
 			// mark partition for refresh to avoid concurrent rebalance
 			// calls for the same partition
 			if (part->refresh)
+			{
+				// do not use storage of this tier for the next one
+				str_free(storage);
+				str_init(storage);
 				continue;
+			}
 			part->refresh = true;
 
 			*min = part->id.min;
-- 
2.43.0


From 1076617263fb28d19e9191facd2ca3becd86ce67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:48 +0000
Subject: [PATCH 36/48] fix: create the partition of the last possible ids

---
 monotone/engine/engine/engine.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/monotone/engine/engine/engine.c b/monotone/engine/engine/engine.c
index 3c212ef..e511350 100644
--- a/monotone/engine/engine/engine.c
+++ b/monotone/engine/engine/engine.c
@@ -145,6 +145,11 @@ engine_lock(Engine* self, uint64_t id, LockType lock,
 			// interval is inclusive
 			auto min = config_interval_of(id);
 			auto max = (min + config_interval()) - 1;
+
+			// last possible partition
+			if (unlikely(max < min))
+				max = UINT64_MAX;
+
 			engine_fill_nolock(self, min, max);
 
 			// retry search
-- 
2.43.0


From 65f6dcf8d27b62e2a3eeb6e46af51d2ab9c03b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:36 +0000
Subject: [PATCH 37/48] fix: SHOW of the saved clouds or storages printed
 passwords and keys

---
 monotone/runtime/config/config.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monotone/runtime/config/config.c b/monotone/runtime/config/config.c
index 6a0d793..4fd0cbe 100644
--- a/monotone/runtime/config/config.c
+++ b/monotone/runtime/config/config.c
@@ -112,8 +112,8 @@ config_prepare(Config* self)
 		{ "ssn",                     VAR_INT,    VAR_E|VAR_R,          &self->ssn,                     NULL,        0                },
 		{ "lsn",                     VAR_INT,    VAR_E,                &self->lsn,                     NULL,        0                },
 		// persistent state
-		{ "clouds",                  VAR_DATA,   VAR_C|VAR_H,          &self->clouds,                  NULL,        0                },
-		{ "storages",                VAR_DATA,   VAR_C|VAR_H,          &self->storages,                NULL,        0                },
+		{ "clouds",                  VAR_DATA,   VAR_C|VAR_H|VAR_S,    &self->clouds,                  NULL,        0                },
+		{ "storages",                VAR_DATA,   VAR_C|VAR_H|VAR_S,    &self->storages,                NULL,        0                },
 		{ "pipeline",                VAR_DATA,   VAR_C|VAR_H,          &self->pipeline,                NULL,        0                },
 		// testing
 		{ "error_refresh_1",         VAR_BOOL,   VAR_H|VAR_R|VAR_E,    &self->error_refresh_1,         NULL,        false            },
-- 
2.43.0


From 09b58e91724f93fceb55fcf7a37e12542544fc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:24 +0000
Subject: [PATCH 38/48] fix: an upload whose file cannot be read must fail, not
 end early

---
 monotone/cloud/s3/s3_op.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/monotone/cloud/s3/s3_op.c b/monotone/cloud/s3/s3_op.c
index 00a3d41..3308071 100644
--- a/monotone/cloud/s3/s3_op.c
+++ b/monotone/cloud/s3/s3_op.c
@@ -65,9 +65,13 @@ s3_op_upload_cb(void* ptr, size_t len, size_t nmemb, void* arg)
 	else
 		size = size_limit;
 
+	// end of file
+	if (size == 0)
+		return 0;
+
 	int rc = vfs_read(upload->file->fd, ptr, size);
 	if (rc == -1)
-		return 0;
+		return CURL_READFUNC_ABORT;
 
 	upload->file_offset += size;
 	return size;
-- 
2.43.0


From 04cd277d52c440b8fecdd6aad6b25b1b5198914c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:02 +0000
Subject: [PATCH 39/48] fix: altering the cloud of a storage to one which does
 not exist broke the saved configuration

---
 monotone/engine/storage/storage_mgr.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/monotone/engine/storage/storage_mgr.c b/monotone/engine/storage/storage_mgr.c
index 4dd6773..9a64cc5 100644
--- a/monotone/engine/storage/storage_mgr.c
+++ b/monotone/engine/storage/storage_mgr.c
@@ -295,6 +295,15 @@ storage_mgr_alter(StorageMgr* self, Source* source, int mask, bool if_exists)
 				      str_of(&source->name));
 		}
 
+		// ensure the new cloud exists before anything is changed
+		if (! str_empty(&source->cloud) &&
+		    ! cloud_mgr_find(self->cloud_mgr, &source->cloud))
+			error("storage '%.*s': cloud '%.*s' not exists",
+			      str_size(&source->name),
+			      str_of(&source->name),
+			      str_size(&source->cloud),
+			      str_of(&source->cloud));
+
 		if (storage->cloud)
 			cloud_detach(storage->cloud, storage->source);
 	}
-- 
2.43.0


From 595cfa11b361a227c6160b196aa9708f56c8d160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:51 +0000
Subject: [PATCH 40/48] fix: renaming a storage used by several tiers left the
 saved pipeline unusable

---
 monotone/engine/storage/pipeline.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/monotone/engine/storage/pipeline.c b/monotone/engine/storage/pipeline.c
index 7c89b76..b8f4a86 100644
--- a/monotone/engine/storage/pipeline.c
+++ b/monotone/engine/storage/pipeline.c
@@ -165,16 +165,14 @@ pipeline_alter(Pipeline* self, List* configs)
 void
 pipeline_rename(Pipeline* self, Str* storage, Str* storage_new)
 {
+	// storage can be used by more than one tier
 	list_foreach_safe(&self->list)
 	{
 		auto tier = list_at(Tier, link);
 		if (str_compare(&tier->config->name, storage))
-		{
 			tier_config_set_name(tier->config, storage_new);
-			pipeline_save(self);
-			break;
-		}
 	}
+	pipeline_save(self);
 }
 
 void
-- 
2.43.0


From 249152702454d3b611886343830b4cec819f77e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:37 +0000
Subject: [PATCH 41/48] fix: altering a cloud to settings it cannot be created
 with broke the saved configuration

---
 monotone/cloud/cloud/cloud_mgr.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/monotone/cloud/cloud/cloud_mgr.c b/monotone/cloud/cloud/cloud_mgr.c
index 0b9b22c..a6c1cac 100644
--- a/monotone/cloud/cloud/cloud_mgr.c
+++ b/monotone/cloud/cloud/cloud_mgr.c
@@ -159,6 +159,12 @@ cloud_mgr_alter(CloudMgr* self, CloudConfig* config, int mask, bool if_exists)
 		return;
 	}
 
+	// ensure cloud can be created again using the new config
+	auto config_new = cloud_config_copy(cloud->config);
+	guard(cloud_config_free, config_new);
+	cloud_config_alter(config_new, config, mask);
+	cloud_free(cloud_allocate(cloud->iface, config_new));
+
 	// update and save cloud config
 	cloud_config_alter(cloud->config, config, mask);
 	cloud_mgr_save(self);
-- 
2.43.0


From cde299c8329c1ca0828d73e6024b7c291fea9887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:01 +0000
Subject: [PATCH 42/48] fix: months and years were counted as weeks of months

---
 monotone/main/command/lex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monotone/main/command/lex.c b/monotone/main/command/lex.c
index 9f66620..e4d9de6 100644
--- a/monotone/main/command/lex.c
+++ b/monotone/main/command/lex.c
@@ -161,10 +161,10 @@ lex_integer_mod(Lex* self, Token* value)
 		value->integer *= 7ULL * 24 * 60 * 60 * 1000 * 1000;
 		break;
 	case KMONTH:
-		value->integer *= 30ULL * 7 * 24 * 60 * 60 * 1000 * 1000;
+		value->integer *= 30ULL * 24 * 60 * 60 * 1000 * 1000;
 		break;
 	case KYEAR:
-		value->integer *= 12ULL * 30 * 7 * 24 * 60 * 60 * 1000 * 1000;
+		value->integer *= 12ULL * 30 * 24 * 60 * 60 * 1000 * 1000;
 		break;
 	// units
 	case KKB:
-- 
2.43.0


From 68f74d1ae95c6d5b32359a6b65743907bf298b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:33 +0000
Subject: [PATCH 43/48] fix: the unit min was never recognized

---
 monotone/main/command/lex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monotone/main/command/lex.c b/monotone/main/command/lex.c
index e4d9de6..aec43e7 100644
--- a/monotone/main/command/lex.c
+++ b/monotone/main/command/lex.c
@@ -44,7 +44,7 @@ static Keyword keywords[] =
 	{ KSEC,        "sec",          3},
 	{ KSEC,        "second",       6},
 	{ KSEC,        "seconds",      7},
-	{ KMIN,        "min",          2},
+	{ KMIN,        "min",          3},
 	{ KMIN,        "minute",       6},
 	{ KMIN,        "minutes",      7},
 	{ KHOUR,       "hr",           2},
-- 
2.43.0


From 7fd812c2a741d98aff6629c52f319443fbce8c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:00 +0000
Subject: [PATCH 44/48] fix: keep the only copy of a partition during
 concurrent refresh

Refresh downloads the partition from cloud and then drops its cloud copy,
the two steps take the service lock separately. A concurrent refresh could
drop the local file in between, since it is uploaded and the storage has
cloud_drop_local set, and then the cloud copy was removed as well.

Drop the cloud copy only if the local file exists under the same lock,
otherwise repeat the download.
---
 monotone/engine/engine/op.c | 53 +++++++++++++++++++++++++++++++------
 1 file changed, 45 insertions(+), 8 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index d91fafe..8f000cd 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -164,6 +164,9 @@ engine_foreach(Engine* self, uint64_t* min, uint64_t* min_next, uint64_t max)
 	return false;
 }
 
+static void
+engine_drop_ref(Engine* self, Ref* ref, int mask);
+
 static bool
 engine_drop_file(Engine* self, uint64_t min, bool if_exists,
                  bool    cloud_drop_local,
@@ -190,6 +193,16 @@ engine_drop_file(Engine* self, uint64_t min, bool if_exists,
 		}
 	}
 
+	// delete partition file and unlock
+	engine_drop_ref(self, ref, mask);
+	return true;
+}
+
+static void
+engine_drop_ref(Engine* self, Ref* ref, int mask)
+{
+	auto part = ref->part;
+
 	// get access lock
 	mutex_lock(&self->lock);
 	ref_lock(ref, LOCK_ACCESS);
@@ -235,8 +248,6 @@ engine_drop_file(Engine* self, uint64_t min, bool if_exists,
 
 	if (leave(&e))
 		rethrow();
-
-	return true;
 }
 
 static bool
@@ -410,6 +421,34 @@ engine_download_range(Engine* self, uint64_t min, uint64_t max, bool if_cloud)
 		engine_download(self, min, true, if_cloud);
 }
 
+static void
+engine_offload(Engine* self, uint64_t min, bool if_exists)
+{
+	for (;;)
+	{
+		// download partition from cloud, if necessary
+		engine_download(self, min, if_exists, true);
+
+		// find the original partition
+		auto ref = engine_lock(self, min, LOCK_SERVICE, false, false);
+		if (unlikely(! ref))
+			break;
+		auto part = ref->part;
+
+		// local file can be dropped by a concurrent operation after the
+		// download, retry since the cloud has the only copy of the file
+		if (part->cloud && part_has(part, ID_CLOUD) && !part_has(part, ID))
+		{
+			engine_unlock(self, ref, LOCK_SERVICE);
+			continue;
+		}
+
+		// drop partition file from cloud and unlock
+		engine_drop_ref(self, ref, ID_CLOUD);
+		break;
+	}
+}
+
 void
 engine_upload(Engine* self, uint64_t min,
               bool    if_exists,
@@ -484,11 +523,8 @@ void
 engine_refresh(Engine* self, Refresh* refresh, uint64_t min, Str* storage,
                bool if_exists)
 {
-	// download partition from cloud, if necessary
-	engine_download(self, min, if_exists, true);
-
-	// drop partition from cloud
-	engine_drop(self, min, if_exists, ID_CLOUD);
+	// download partition from cloud, if necessary, and drop it there
+	engine_offload(self, min, if_exists);
 
 	// refresh partition
 	refresh_reset(refresh);
@@ -720,7 +756,8 @@ engine_service(Engine* self, Refresh* refresh, ServiceFilter filter, bool wait)
 				engine_drop_file(self, req->id, true, true, ID);
 				break;
 			case ACTION_DROP_ON_CLOUD:
-				engine_drop(self, req->id, true, ID_CLOUD);
+				// only if the file exists locally
+				engine_offload(self, req->id, true);
 				break;
 			case ACTION_REFRESH:
 				refresh_reset(refresh);
-- 
2.43.0


From 4eb7b32b11644266fc9f7e894324da04c32aaba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:58 +0000
Subject: [PATCH 45/48] fix: subtract the metrics of a dropped partition from
 its storage

The metrics are removed after the state of the partition is cleared, and
storage_remove_metrics() ignores partitions without files. Size and events
of the storage were never decreased by a drop, and later rebalance moved
or removed partitions which are within the limits of the pipeline.

Also update the metrics under the engine lock.
---
 monotone/engine/engine/op.c       | 2 ++
 monotone/engine/storage/storage.h | 3 +--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 8f000cd..d128a06 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -234,7 +234,9 @@ engine_drop_ref(Engine* self, Ref* ref, int mask)
 		{
 			// unset storage metrics before droping the reference
 			auto storage = storage_mgr_find(&self->storage_mgr, &part->source->name);
+			mutex_lock(&self->lock);
 			storage_remove_metrics(storage, part);
+			mutex_unlock(&self->lock);
 			index_init(&part->index);
 			buf_reset(&part->index_data);
 		}
diff --git a/monotone/engine/storage/storage.h b/monotone/engine/storage/storage.h
index 91256eb..bcfde51 100644
--- a/monotone/engine/storage/storage.h
+++ b/monotone/engine/storage/storage.h
@@ -78,8 +78,7 @@ storage_add_metrics(Storage* self, Part* part)
 static inline void
 storage_remove_metrics(Storage* self, Part* part)
 {
-	if (part->state == ID_NONE)
-		return;
+	// index of a partition without a file is empty
 	self->size   -= part->index.size_regions;
 	self->events -= part->index.events;
 }
-- 
2.43.0


From 31345fb033038f5cc85147a38e181e5e3e4bc66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:39 +0000
Subject: [PATCH 46/48] fix: keep the new wal file in memory across the
 protected block

---
 monotone/engine/wal/wal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monotone/engine/wal/wal.c b/monotone/engine/wal/wal.c
index 82dbee4..d5c3a28 100644
--- a/monotone/engine/wal/wal.c
+++ b/monotone/engine/wal/wal.c
@@ -61,7 +61,7 @@ wal_rotate(Wal* self, uint64_t wm)
 	uint64_t next_lsn = config_lsn() + 1;
 
 	// create new wal file
-	WalFile* file = NULL;
+	WalFile* volatile file = NULL;
 	Exception e;
 	if (enter(&e))
 	{
-- 
2.43.0


From 53e7b825ea481d428ff47bf5d4ff9c2a3575969b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:18 +0000
Subject: [PATCH 47/48] fix: files left by a failed upload or refresh kept the
 database from opening

---
 monotone/engine/engine/engine_recover.c | 72 ++++++++++++++-----------
 1 file changed, 42 insertions(+), 30 deletions(-)

diff --git a/monotone/engine/engine/engine_recover.c b/monotone/engine/engine/engine_recover.c
index 5a6f1b4..adab8cd 100644
--- a/monotone/engine/engine/engine_recover.c
+++ b/monotone/engine/engine/engine_recover.c
@@ -112,6 +112,41 @@ engine_recover_storage(Engine* self, Storage* storage)
 	}
 }
 
+static void
+engine_recover_incomplete(Storage* storage)
+{
+	// remove incomplete files, they can be left by a crash or by a failed
+	// operation next to any other file of the partition
+	list_foreach_safe(&storage->list)
+	{
+		auto part = list_at(Part, link);
+
+		// crash case 1 (refresh), case 4 (download)
+		//
+		// there is no complete state for download, cloud file not
+		// removed after download (only prior to refresh)
+		if (part_has(part, ID_INCOMPLETE))
+		{
+			part_delete(part, ID_INCOMPLETE);
+			part_unset(part, ID_INCOMPLETE);
+		}
+
+		// crash case 5 (upload)
+		if (part_has(part, ID_CLOUD_INCOMPLETE))
+		{
+			part_delete(part, ID_CLOUD_INCOMPLETE);
+			part_unset(part, ID_CLOUD_INCOMPLETE);
+		}
+
+		// nothing left (case 1 without parent)
+		if (part->state == ID_NONE)
+		{
+			storage_remove(storage, part);
+			part_free(part);
+		}
+	}
+}
+
 static void
 engine_recover_validate(Engine* self, Storage* storage)
 {
@@ -128,19 +163,6 @@ engine_recover_validate(Engine* self, Storage* storage)
 
 		// crash recovery cases (see refresh)
 
-		// crash case 1 (without parent)
-		case ID_INCOMPLETE:
-			storage_remove(storage, part);
-			part_delete(part, ID_INCOMPLETE);
-			part_free(part);
-			break;
-
-		// crash case 1 (with parent)
-		case ID | ID_INCOMPLETE:
-			part_delete(part, ID_INCOMPLETE);
-			part_unset(part, ID_INCOMPLETE);
-			break;
-
 		// crash case 2
 		case ID | ID_COMPLETE:
 			part_delete(part, ID_COMPLETE);
@@ -174,23 +196,6 @@ engine_recover_validate(Engine* self, Storage* storage)
 			break;
 		}
 
-		// crash case 4
-		case ID_CLOUD | ID_INCOMPLETE:
-			// crash during download
-			//
-			// there is no complete state for download, cloud file not
-			// removed after download (only prior to refresh)
-			part_delete(part, ID_INCOMPLETE);
-			part_unset(part, ID_INCOMPLETE);
-			break;
-
-		// crash case 5
-		case ID | ID_CLOUD_INCOMPLETE:
-			// crash during upload
-			part_delete(part, ID_CLOUD_INCOMPLETE);
-			part_unset(part, ID_CLOUD_INCOMPLETE);
-			break;
-
 		default:
 			error("partition '%" PRIu64"' has unexpected state: %d",
 			      part->id.min, part->state);
@@ -211,6 +216,13 @@ engine_recover(Engine* self)
 		engine_recover_storage(self, storage);
 	}
 
+	// remove incomplete files
+	list_foreach(&storage_mgr->list)
+	{
+		auto storage = list_at(Storage, link);
+		engine_recover_incomplete(storage);
+	}
+
 	// validate partitions per storage
 	list_foreach(&storage_mgr->list)
 	{
-- 
2.43.0


From 186fd9e6ed9b441fc4778a7d1a165787996206e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:54:32 +0000
Subject: [PATCH 48/48] fix: a range that begins inside a partition continues
 with the next one

---
 monotone/engine/engine/op.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index d128a06..55467fd 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -153,6 +153,14 @@ engine_foreach(Engine* self, uint64_t* min, uint64_t* min_next, uint64_t max)
 	uint64_t ref_min = ref->slice.min;
 	uint64_t ref_max = ref->slice.max;
 	engine_unlock(self, ref, LOCK_ACCESS);
+
+	// partition begins before the range, continue with the next one
+	if (ref_min < *min && ref_max < max)
+	{
+		*min = ref_max + 1;
+		return engine_foreach(self, min, min_next, max);
+	}
+
 	if (ref_min >= *min && ref_max <= max)
 	{
 		*min = ref_min;
-- 
2.43.0

