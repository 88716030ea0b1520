From 55b8f1aba9f25b8aeebb40df2cd1f3dbc00e274e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 1/4] fix: account the segment header in the allocator to not
 overrun the segment

---
 tommyds/tommyalloc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tommyds/tommyalloc.c b/tommyds/tommyalloc.c
index 0da604c..bae7348 100644
--- a/tommyds/tommyalloc.c
+++ b/tommyds/tommyalloc.c
@@ -103,6 +103,7 @@ void* tommy_allocator_alloc(tommy_allocator* alloc)
 		segment->next = alloc->used_segment;
 		alloc->used_segment = segment;
 		data += sizeof(tommy_allocator_entry);
+		size -= sizeof(tommy_allocator_entry);
 
 		/* align if not aligned */
 		off = (tommy_uintptr_t)data;
-- 
2.43.0


From eac834ed6ad5eb1e1fb9c5e294873a3af3e03b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 2/4] fix: start tree leaves with height 1 to keep the tree
 balanced

---
 tommyds/tommytree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tommyds/tommytree.c b/tommyds/tommytree.c
index 8ef8478..f9202c4 100644
--- a/tommyds/tommytree.c
+++ b/tommyds/tommytree.c
@@ -145,7 +145,7 @@ void* tommy_tree_insert(tommy_tree* tree, tommy_tree_node* node, void* data)
 	insert->data = data;
 	insert->prev = 0;
 	insert->next = 0;
-	insert->index = 0;
+	insert->index = 1;
 
 	tree->root = tommy_tree_insert_node(tree->cmp, tree->root, &insert);
 
-- 
2.43.0


From 3da2884fe3c64b3e37cfa1146c8cee6d837f82e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 3/4] fix: do not read after the string terminator in
 tommy_strhash_u32()

---
 tommyds/tommyhash.c | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/tommyds/tommyhash.c b/tommyds/tommyhash.c
index 71c4ef3..d7dded0 100644
--- a/tommyds/tommyhash.c
+++ b/tommyds/tommyhash.c
@@ -165,6 +165,26 @@ tommy_uint64_t tommy_hash_u64(tommy_uint64_t init_val, const void* void_key, tom
 	return c + ((tommy_uint64_t)b << 32);
 }
 
+/**
+ * Reads up to 4 bytes of a 0 terminated string in little-endian order.
+ * Nothing is read after the terminator, and the missing bytes are 0.
+ */
+tommy_inline tommy_uint32_t tommy_le_uint32_strread(const unsigned char* str)
+{
+	tommy_uint32_t v = str[0];
+
+	if (str[0] != 0) {
+		v |= (tommy_uint32_t)str[1] << 8;
+		if (str[1] != 0) {
+			v |= (tommy_uint32_t)str[2] << 16;
+			if (str[2] != 0)
+				v |= (tommy_uint32_t)str[3] << 24;
+		}
+	}
+
+	return v;
+}
+
 tommy_uint32_t tommy_strhash_u32(tommy_uint64_t init_val, const void* void_key)
 {
 	const unsigned char* key = tommy_cast(const unsigned char*, void_key);
@@ -175,7 +195,7 @@ tommy_uint32_t tommy_strhash_u32(tommy_uint64_t init_val, const void* void_key)
 	/* this is different than original lookup3 and the result won't match */
 
 	while (1) {
-		tommy_uint32_t v = tommy_le_uint32_read(key);
+		tommy_uint32_t v = tommy_le_uint32_strread(key);
 
 		if (tommy_haszero_u32(v)) {
 			if (v & m[0]) {
@@ -192,7 +212,7 @@ tommy_uint32_t tommy_strhash_u32(tommy_uint64_t init_val, const void* void_key)
 
 		a += v;
 
-		v = tommy_le_uint32_read(key + 4);
+		v = tommy_le_uint32_strread(key + 4);
 
 		if (tommy_haszero_u32(v)) {
 			if (v & m[0]) {
@@ -209,7 +229,7 @@ tommy_uint32_t tommy_strhash_u32(tommy_uint64_t init_val, const void* void_key)
 
 		b += v;
 
-		v = tommy_le_uint32_read(key + 8);
+		v = tommy_le_uint32_strread(key + 8);
 
 		if (tommy_haszero_u32(v)) {
 			if (v & m[0]) {
-- 
2.43.0


From 19ae40f77400f801c25625111d022bb11ee37639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:02 +0000
Subject: [PATCH 4/4] fix: start growing a shrinking linear hash table before
 its buckets are overloaded

While a shrink was in progress, the growth started only when the count went
over half of the full vector, and then all the buckets already merged had to
be split again in that single insertion: a number proportional to the table.
---
 tommyds/tommyhashlin.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tommyds/tommyhashlin.c b/tommyds/tommyhashlin.c
index fe138f7..d77af2d 100644
--- a/tommyds/tommyhashlin.c
+++ b/tommyds/tommyhashlin.c
@@ -88,9 +88,11 @@ void tommy_hashlin_done(tommy_hashlin* hashlin)
  */
 tommy_inline void hashlin_grow_step(tommy_hashlin* hashlin)
 {
-	/* grow if more than 50% full */
+	/* grow if the buckets in use are more than 50% full */
+	/* in shrink state they are less than bucket_max, and waiting for it */
+	/* to be 50% full would require to split all the missing ones at once */
 	if (hashlin->state != TOMMY_HASHLIN_STATE_GROW
-		&& hashlin->count > hashlin->bucket_max / 2
+		&& hashlin->count > (hashlin->low_max + hashlin->split) / 2
 	) {
 		/* if we are stable, setup a new grow state */
 		/* otherwise continue with the already setup shrink one */
-- 
2.43.0

