From 1acc653ba69d6aa2fa3529743112ce8ab6a6f471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 01/68] fix: store with a failed entry allocation dereferenced
 a null entry

---
 src/pogocache.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index bcf350f..f152151 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1640,7 +1640,9 @@ static int storeop(const void *key, size_t keylen, const void *val,
         return POGOCACHE_INSERTED;
     }
 nomem:
-    entry_free(entry, ctx);
+    if (entry) {
+        entry_free(entry, ctx);
+    }
     return POGOCACHE_NOMEM;
 }
 
-- 
2.43.0


From cb08acadac5c423162264f3564714aecc5747fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 02/68] fix: clear zeroed the wrong memory when its allocation
 failed

---
 src/pogocache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index f152151..dcac897 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -2004,7 +2004,7 @@ static int clearop(struct shard *shard, int shardidx, int64_t now,
                 }
             }
         }
-        memset(&shard->map.buckets, 0, 
+        memset(shard->map.buckets, 0, 
             sizeof(struct bucket)*shard->map.nbuckets);
         shard->map.count = 0;
         shard->map.entsize = 0;
-- 
2.43.0


From 2d03551eedf794de3b993ba391c4006430e42834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 03/68] fix: entry memory size drifted on expiration, iteration
 deletes, sweeps and updates

---
 src/pogocache.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index dcac897..386c441 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1415,7 +1415,7 @@ static int loadop(const void *key, size_t keylen,
     entry_extract(entry, 0, 0, 0, &val, &vallen, &expires, &flags, &cas, ctx);
     if (!entry_alive_exp(expires, now)) {
         // Entry is no longer alive. Delete from map and notify the user.
-        delbkt(&shard->map, bidx);
+        delentry_at_bkt(&shard->map, bidx);
         notify(shardidx, NOTIFY_EXPIRED, 0, entry, now, ctx);
         entry_free(entry, ctx);
         return POGOCACHE_NOTFOUND;
@@ -1437,6 +1437,8 @@ static int loadop(const void *key, size_t keylen,
                 return POGOCACHE_NOMEM;
             }
             entry_settime(entry2, now);
+            shard->map.entsize += entry_memsize(entry2);
+            shard->map.entsize -= entry_memsize(entry);
             set_entry(bkt, entry2);
             notify(shardidx, NOTIFY_REPLACED, entry2, entry, now, ctx);
             entry_free(entry, ctx);
@@ -1687,7 +1689,7 @@ static int iterop(struct shard *shard, int shardidx, int64_t now,
         struct entry *entry = get_entry(bkt);
         if (!entry_alive(entry, now)) {
             // Entry has expired
-            delbkt(&shard->map, i);
+            delentry_at_bkt(&shard->map, i);
             notify(shardidx, NOTIFY_EXPIRED, 0, entry, now, ctx);
             entry_free(entry, ctx);
             i--;
@@ -1709,7 +1711,7 @@ static int iterop(struct shard *shard, int shardidx, int64_t now,
         if (action != POGOCACHE_ITER_CONTINUE) {
             if (action&POGOCACHE_ITER_DELETE) {
                 // Delete entry at bucket
-                delbkt(&shard->map, i);
+                delentry_at_bkt(&shard->map, i);
                 notify(shardidx, NOTIFY_DELETED, 0, entry, now, ctx);
                 entry_free(entry, ctx);
                 i--;
@@ -1769,7 +1771,7 @@ static struct pogocache_entry *entryiter(struct shard *shard, int64_t now,
         struct entry *entry = get_entry(bkt);
         if (!entry_alive(entry, now)) {
             // Entry has expired
-            delbkt(&shard->map, i);
+            delentry_at_bkt(&shard->map, i);
             notify(shardidx, NOTIFY_EXPIRED, 0, entry, now, ctx);
             entry_free(entry, ctx);
             i--;
@@ -1925,7 +1927,7 @@ static int sweepop(struct shard *shard, int shardidx, int64_t now,
             continue;
         }
         // entry is no longer alive.
-        delbkt(&shard->map, i);
+        delentry_at_bkt(&shard->map, i);
         notify(shardidx, NOTIFY_EXPIRED, 0, entry, now, ctx);
         entry_free(entry, ctx);
         (*swept)++;
-- 
2.43.0


From 2f6af776f20398096f7bf7052f3ebdd633458091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 04/68] fix: total counted stores that did not take effect and
 canceled deletes

---
 src/pogocache.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pogocache.c b/src/pogocache.c
index 386c441..8d06658 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1500,6 +1500,8 @@ static int deleteop(const void *key, size_t keylen,
             bool ok = map_insert(&shard->map, entry, hash, &old, ctx);
             assert(ok);
             assert(!old);
+            // The entry was not stored again.
+            shard->map.total--;
             return POGOCACHE_CANCELED;
         }
     }
@@ -1559,6 +1561,7 @@ static int storeop(const void *key, size_t keylen, const void *val,
     }
     // Insert new entry into map
     struct entry *old;
+    uint64_t total = shard->map.total;
     if (!map_insert(&shard->map, entry, hash, &old, ctx)) {
         goto nomem;
     }
@@ -1607,6 +1610,7 @@ static int storeop(const void *key, size_t keylen, const void *val,
         struct entry *e = map_delete(&shard->map, key, keylen, hash, ctx);
         assert(e == entry);
         entry_free(entry, ctx);
+        shard->map.total = total;
         return POGOCACHE_NOTFOUND;
     }
     if (old && opts->entry) {
-- 
2.43.0


From ac147c9edc94a713e8bc99bc5249d2360a28b01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 05/68] fix: entry iteration accepted an out of range shard in
 the cursor

---
 src/pogocache.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index 8d06658..91ab797 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1794,8 +1794,9 @@ struct pogocache_entry *pogocache_entry_iter(struct pogocache *cache,
 {
     assert(cursor);
     int64_t now = time > 0 ? time : getnow();
+    int nshards = pogocache_nshards(cache);
     int shardidx = (*cursor)>>32;
-    if (shardidx < 0 || shardidx > cache->ctx.nshards) {
+    if (shardidx < 0 || shardidx >= nshards) {
         goto notfound;
     }
     int iter = (*cursor)&0xFFFFFFFF;
@@ -1813,7 +1814,7 @@ struct pogocache_entry *pogocache_entry_iter(struct pogocache *cache,
         }
         shardidx++;
         iter = 0;
-        if (shardidx == cache->ctx.nshards) {
+        if (shardidx == nshards) {
             goto notfound;
         }
     }
-- 
2.43.0


From 3f7aab7533a459ef4153035928260878519ebfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 06/68] fix: whole cache operations on a batch lost the batch
 after the first shard

---
 src/pogocache.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index 91ab797..ed2da8c 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1383,6 +1383,7 @@ static bool acquire_for_key(const char *key, size_t keylen, uint32_t *hash_out,
 // Acquire a lock on the shard at index and execute the provided operation.
 #define ACQUIRE_FOR_SCAN_AND_EXECUTE(rettype, shardidx, op) ({ \
     struct shard *shard; \
+    struct pogocache *orgcache = cache; \
     bool usebatch = acquire_for_scan((shardidx), &shard, &cache); \
     struct pgctx *ctx = &cache->ctx; \
     (void)ctx; \
@@ -1390,6 +1391,7 @@ static bool acquire_for_key(const char *key, size_t keylen, uint32_t *hash_out,
     if (!usebatch) { \
         atomic_store_explicit(&shard->lock, 0, __ATOMIC_RELEASE); \
     } \
+    cache = orgcache; \
     status; \
 })
 
@@ -2035,7 +2037,7 @@ static int clearop(struct shard *shard, int shardidx, int64_t now,
 static void aquireclearop(struct pogocache *cache, int shardidx, int64_t now, 
     bool deferfree)
 {
-    struct pgctx *ctx = &cache->ctx;
+    struct pgctx *ctx = &rootcache(cache)->ctx;
     int nbuckets = 0;
     struct bucket *buckets = 0;
     ACQUIRE_FOR_SCAN_AND_EXECUTE(int, shardidx,
@@ -2047,7 +2049,7 @@ static void aquireclearop(struct pogocache *cache, int shardidx, int64_t now,
                 entry_free(get_entry(&buckets[i]), ctx);
             }
         }
-        cache->ctx.free(buckets);
+        ctx->free(buckets);
     }
 }
 
@@ -2065,7 +2067,7 @@ void pogocache_clear(struct pogocache *cache, struct pogocache_clear_opts *opts)
         aquireclearop(cache, opts->oneshardidx, now, opts->deferfree);
         return;
     }
-    for (int i = 0; i < cache->ctx.nshards; i++) {
+    for (int i = 0; i < nshards; i++) {
         aquireclearop(cache, i, now, opts->deferfree);
     }
 }
-- 
2.43.0


From a2b10e7e7e9bface4985144be4b1d2ad2914d100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 07/68] fix: cleanup after a failed shard allocation walked
 uninitialized shards

---
 src/pogocache.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pogocache.c b/src/pogocache.c
index ed2da8c..d5594ce 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1233,6 +1233,7 @@ struct pogocache *pogocache_new(struct pogocache_opts *opts) {
     for (int i = 0; i < ctx->nshards; i++) {
         if (!shard_init(&cache->shards[i], ctx)) {
             // nomem
+            ctx->nshards = i;
             pogocache_free(cache);
             return 0;
         }
-- 
2.43.0


From 0d0253fe959417396f90896df54bc6ae5f5de0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 08/68] fix: iterating with deletions could visit an entry
 twice when a cluster wraps

---
 src/pogocache.c | 42 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 5 deletions(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index d5594ce..4537744 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1683,12 +1683,37 @@ int pogocache_nshards(struct pogocache *cache) {
     return cache->ctx.nshards;
 }
 
+// Returns the index of the first empty bucket. There always is one.
+// Walking the buckets in order, starting right after an empty one, allows for
+// deleting entries on the way. A delete only moves the entries that are to the
+// right of it and in the same cluster, and no cluster wraps the starting point.
+static int map_empty_bucket(struct map *map) {
+    int i = 0;
+    while (get_dib(&map->buckets[i])) {
+        i++;
+    }
+    return i;
+}
+
+// Returns true if deleting the entry at bucket i would move entries from the
+// front of the map over to the back.
+static bool delbkt_wraps(struct map *map, int i) {
+    for (i++; i < map->nbuckets; i++) {
+        if (get_dib(&map->buckets[i]) <= 1) {
+            return false;
+        }
+    }
+    return get_dib(&map->buckets[0]) > 1;
+}
+
 static int iterop(struct shard *shard, int shardidx, int64_t now,
     struct pogocache_iter_opts *opts, struct pgctx *ctx)
 {
     char buf[128];
     int status = POGOCACHE_FINISHED;
-    for (int i = 0; i < shard->map.nbuckets; i++) {
+    int start = map_empty_bucket(&shard->map);
+    for (int j = 1; j < shard->map.nbuckets; j++) {
+        int i = (start+j)&shard->map.mask;
         struct bucket *bkt = &shard->map.buckets[i];
         if (get_dib(bkt) == 0) {
             continue;
@@ -1699,7 +1724,7 @@ static int iterop(struct shard *shard, int shardidx, int64_t now,
             delentry_at_bkt(&shard->map, i);
             notify(shardidx, NOTIFY_EXPIRED, 0, entry, now, ctx);
             entry_free(entry, ctx);
-            i--;
+            j--;
             continue;
         }
         int action = POGOCACHE_ITER_CONTINUE;
@@ -1721,7 +1746,7 @@ static int iterop(struct shard *shard, int shardidx, int64_t now,
                 delentry_at_bkt(&shard->map, i);
                 notify(shardidx, NOTIFY_DELETED, 0, entry, now, ctx);
                 entry_free(entry, ctx);
-                i--;
+                j--;
             }
             if (action&POGOCACHE_ITER_STOP) {
                 status = POGOCACHE_CANCELED;
@@ -1778,6 +1803,11 @@ static struct pogocache_entry *entryiter(struct shard *shard, int64_t now,
         struct entry *entry = get_entry(bkt);
         if (!entry_alive(entry, now)) {
             // Entry has expired
+            if (delbkt_wraps(&shard->map, i)) {
+                // Leave this one. Deleting it would move entries that have
+                // already been returned in front of the iterator.
+                continue;
+            }
             delentry_at_bkt(&shard->map, i);
             notify(shardidx, NOTIFY_EXPIRED, 0, entry, now, ctx);
             entry_free(entry, ctx);
@@ -1922,7 +1952,9 @@ size_t pogocache_size(struct pogocache *cache,
 static int sweepop(struct shard *shard, int shardidx, int64_t now,
     size_t *swept, size_t *kept, struct pgctx *ctx)
 {
-    for (int i = 0; i < shard->map.nbuckets; i++) {
+    int start = map_empty_bucket(&shard->map);
+    for (int j = 1; j < shard->map.nbuckets; j++) {
+        int i = (start+j)&shard->map.mask;
         struct bucket *bkt = &shard->map.buckets[i];
         if (get_dib(bkt) == 0) {
             continue;
@@ -1942,7 +1974,7 @@ static int sweepop(struct shard *shard, int shardidx, int64_t now,
         // Entry was deleted from bucket, which may move entries to the right
         // over one bucket to the left. So we need to check the same bucket
         // again.
-        i--;
+        j--;
     }
     tryshrink(&shard->map, ctx);
     return 0;
-- 
2.43.0


From 7f9b98b172518093439a3a1f38df66cd086c3ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 09/68] fix: bucket distance overflowed when many keys share a
 bucket

---
 src/pogocache.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index 4537744..9b8deb4 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -813,6 +813,11 @@ static void set_dib(struct bucket *bucket, uint8_t dib) {
     bucket->dib = dib;
 }
 
+// Returns the next distance. The distance saturates at its maximum.
+static uint8_t inc_dib(uint8_t dib) {
+    return dib < UINT8_MAX ? dib+1 : dib;
+}
+
 static bool map_init(struct map *map, size_t cap, struct pgctx *ctx) {
     memset(map, 0, sizeof(struct map));
     map->cap = cap;
@@ -852,7 +857,7 @@ static bool resize(struct map *map, size_t new_cap, struct pgctx *ctx) {
                     ebkt = tmp;
                 }
                 j = (j + 1) & map2.mask;
-                set_dib(&ebkt, get_dib(&ebkt)+1);
+                set_dib(&ebkt, inc_dib(get_dib(&ebkt)));
             }
         }
     }
@@ -910,7 +915,7 @@ static bool map_insert(struct map *map, struct entry *entry, uint32_t hash,
             ebkt = tmp;
         }
         i = (i + 1) & map->mask;
-        set_dib(&ebkt, get_dib(&ebkt)+1);
+        set_dib(&ebkt, inc_dib(get_dib(&ebkt)));
     }
 }
 
@@ -957,7 +962,14 @@ static void delbkt(struct map *map, size_t i) {
             break;
         }
         map->buckets[h] = map->buckets[i];
-        set_dib(&map->buckets[h], get_dib(&map->buckets[h])-1);
+        if (get_dib(&map->buckets[h]) == UINT8_MAX) {
+            // The distance was saturated. Calculate it from the hash.
+            size_t home = get_hash(&map->buckets[h]) & map->mask;
+            size_t dist = ((h - home) & map->mask) + 1;
+            set_dib(&map->buckets[h], dist < UINT8_MAX ? dist : UINT8_MAX);
+        } else {
+            set_dib(&map->buckets[h], get_dib(&map->buckets[h])-1);
+        }
     }
     map->count--;
 }
-- 
2.43.0


From 6b005f47ff5f3f752d4640527767877702705aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 10/68] fix: entry accessors used the batch instead of its
 cache

---
 src/pogocache.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index 9b8deb4..4fe0a4e 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -2171,7 +2171,7 @@ void pogocache_entry_release(struct pogocache *cache,
     struct pogocache_entry *entry)
 {
     if (entry) {
-        entry_free((struct entry*)entry, &cache->ctx);
+        entry_free((struct entry*)entry, &rootcache(cache)->ctx);
     }
 }
 
@@ -2182,7 +2182,8 @@ const void *pogocache_entry_key(struct pogocache *cache,
     const void *key = 0;
     size_t keylen0 = 0;
     if (entry) {
-        key = entry_key((struct entry*)entry, &keylen0, buf, &cache->ctx);
+        key = entry_key((struct entry*)entry, &keylen0, buf,
+            &rootcache(cache)->ctx);
     }
     if (keylen) {
         *keylen = keylen0;
@@ -2196,7 +2197,8 @@ const void *pogocache_entry_value(struct pogocache *cache,
     const void *value = 0;
     size_t valuelen0 = 0;
     if (entry) {
-        value = entry_value((struct entry*)entry, &valuelen0, &cache->ctx);
+        value = entry_value((struct entry*)entry, &valuelen0,
+            &rootcache(cache)->ctx);
     }
     if (valuelen) {
         *valuelen = valuelen0;
-- 
2.43.0


From 21ea59c3121603b48265a61694e02168fc64d3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:28 +0000
Subject: [PATCH 11/68] fix: memcache storage commands with a wrong argument
 count read out of bounds

---
 src/memcache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memcache.c b/src/memcache.c
index 7fd2333..789d2e3 100644
--- a/src/memcache.c
+++ b/src/memcache.c
@@ -206,7 +206,7 @@ ssize_t parse_memcache(const char *data, size_t len, struct args *args,
     if (is_mc_store_cmd(cmd)) {
         // Store commands include 'set', 'add', 'replace', 'append', 'prepend',
         // and 'cas'.
-        if ((cmd == MC_CAS && args->len != 6) && 
+        if ((cmd == MC_CAS && args->len != 6) || 
             (cmd != MC_CAS && args->len != 5))
         {
             parse_seterror("ERROR");
-- 
2.43.0


From 423564579eb9e74f2754bacae530c02b885dc748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:28 +0000
Subject: [PATCH 12/68] fix: memcache cas with a long zero padded number hit an
 assert

---
 src/memcache.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/memcache.c b/src/memcache.c
index 789d2e3..2fbeffb 100644
--- a/src/memcache.c
+++ b/src/memcache.c
@@ -241,9 +241,7 @@ ssize_t parse_memcache(const char *data, size_t len, struct args *args,
                 parse_seterror(CLIENT_ERROR_BAD_FORMAT);
                 return -1;
             }
-            assert(args->bufs[5].len < sizeof(cas));
-            memcpy(cas, args->bufs[5].data, args->bufs[5].len);
-            cas[args->bufs[5].len] = '\0';
+            u64toa(y, (uint8_t*)cas);
             buf_clear(&args->bufs[5]);
             args->len--;
         }
-- 
2.43.0


From acad15cb41cc2edc09339c7f3d4702444787b223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:28 +0000
Subject: [PATCH 13/68] fix: memcache verbosity without a level read out of
 bounds

---
 src/memcache.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/memcache.c b/src/memcache.c
index 2fbeffb..14b8a7d 100644
--- a/src/memcache.c
+++ b/src/memcache.c
@@ -459,11 +459,11 @@ ssize_t parse_memcache(const char *data, size_t len, struct args *args,
         args_append(&args2, "version", 7, true);
         *noreply = false;
     } else if (cmd == MC_VERBOSITY) {
-        if (args->len > 2) {
+        if (args->len != 2) {
             parse_seterror("ERROR");
             return -1;
         }
-        args_append(&args2, "verbosity", 7, true);
+        args_append(&args2, "verbosity", 9, true);
         take_and_append_arg(1);
     } else {
         return -1;
-- 
2.43.0


From 7b02b841d9839a5b16bf639a4a4135556d07393d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:28 +0000
Subject: [PATCH 14/68] fix: memcache NOT_FOUND reply of a failed store had a
 stray zero byte

---
 src/cmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmds.c b/src/cmds.c
index 8d83c2c..337f547 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -125,7 +125,7 @@ static void execSET(struct conn *conn, const char *cmdname,
             if (status == POGOCACHE_FOUND) {
                 conn_write_raw(conn, "EXISTS\r\n", 8);
             } else {
-                conn_write_raw(conn, "NOT_FOUND\r\n", 12);
+                conn_write_raw(conn, "NOT_FOUND\r\n", 11);
             }
         } else {
             conn_write_raw(conn, "STORED\r\n", 8);
-- 
2.43.0


From 7e5c098de11ad9b9793bccd9bc81c78b5a9248ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:28 +0000
Subject: [PATCH 15/68] fix: control bytes in an error reply could break the
 reply framing

---
 src/conn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conn.c b/src/conn.c
index 4e15a82..9d79666 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -238,7 +238,7 @@ static void writeln(struct conn *conn, char ch, const void *data, ssize_t len) {
     net_conn_out_write_byte_nocheck(conn->conn5, '\r');
     net_conn_out_write_byte_nocheck(conn->conn5, '\n');
     uint8_t *out = (uint8_t*)net_conn_out(conn->conn5);
-    for (ssize_t i = mark; i < len; i++) {
+    for (size_t i = mark; i < mark+len; i++) {
         if (out[i] < ' ') {
             out[i] = ' ';
         }
-- 
2.43.0


From ea664b23da3a9edcd951ee00c8c22eb8b00984a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:28 +0000
Subject: [PATCH 16/68] fix: first line split over packets was rejected as an
 unknown protocol

---
 src/parse.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index 7b928c3..e96926d 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -63,6 +63,11 @@ static bool sniff_proto(const char *data, size_t len, int *proto) {
         *proto = PROTO_HTTP;
         return true;
     }
+    if (n == 0) {
+        // Not enough data to determine the protocol yet.
+        *proto = 0;
+        return true;
+    }
     // Trim the prefix, Resp+Telnet and Memcache both allow for spaces between
     // arguments.
     while (*data == ' ') {
-- 
2.43.0


From a6a5fd1a01f29b1c7ab58049797e6183c4c1df2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:28 +0000
Subject: [PATCH 17/68] fix: connection map grew forever because deletes were
 not counted

---
 src/net.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/net.c b/src/net.c
index e822fbf..8c81734 100644
--- a/src/net.c
+++ b/src/net.c
@@ -427,6 +427,7 @@ static void cmap_delete(struct cmap *cmap, struct net_conn *conn) {
     } else {
         cmap->buckets[i] = iter->next;
     }
+    cmap->len--;
 }
 
 static atomic_size_t nconns = 0;
-- 
2.43.0


From 997a8700ceda812b16af3d3c257cb07ef7647a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:28 +0000
Subject: [PATCH 18/68] fix: empty or padded RESP lengths were read past the
 end of the input

---
 src/resp.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/resp.c b/src/resp.c
index e9ad484..16e4ee0 100644
--- a/src/resp.c
+++ b/src/resp.c
@@ -136,10 +136,9 @@ fail_argsz:
 static int64_t read_num(const char *data, size_t len, int64_t min, int64_t max,
     bool *ok)
 {
-    errno = 0;
-    char *end;
-    int64_t x = strtoll(data, &end, 10);
-    *ok = errno == 0 && (size_t)(end-data) == len && x >= min && x <= max;
+    int64_t x = 0;
+    *ok = len > 0 && !isspace((unsigned char)data[0]) && 
+        parse_i64(data, len, &x) && x >= min && x <= max;
     return x;
 }
 
@@ -156,6 +155,7 @@ static int64_t read_num(const char *data, size_t len, int64_t min, int64_t max,
         return 0; \
     } \
     if (*(p+1) != '\n') { \
+        parse_seterror("ERR Protocol error: " errmsg); \
         return -1; \
     } \
     bool ok; \
-- 
2.43.0


From 7110ee0b2d8431d94503540e23482d9b46c62cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:28 +0000
Subject: [PATCH 19/68] fix: an empty string was accepted as the number zero

---
 src/util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.c b/src/util.c
index 9e01e39..b56abd9 100644
--- a/src/util.c
+++ b/src/util.c
@@ -310,7 +310,7 @@ uint32_t fnv1a_case(const char* buf, size_t len) {
 
 bool parse_i64(const char *data, size_t len, int64_t *x) {
     char buf[24];
-    if (len > 21) {
+    if (len == 0 || len > 21) {
         return false;
     }
     memcpy(buf, data, len);
@@ -323,7 +323,7 @@ bool parse_i64(const char *data, size_t len, int64_t *x) {
 
 bool parse_u64(const char *data, size_t len, uint64_t *x) {
     char buf[24];
-    if (len > 21) {
+    if (len == 0 || len > 21) {
         return false;
     }
     memcpy(buf, data, len);
-- 
2.43.0


From 2549aedb249eb6636847911fb1f6032bf6f46d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:35 +0000
Subject: [PATCH 20/68] fix: http request without headers hung, and a split or
 malformed header block was misread

---
 src/http.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/http.c b/src/http.c
index 7b786af..4b5e5a4 100644
--- a/src/http.c
+++ b/src/http.c
@@ -111,9 +111,17 @@ ssize_t parse_http(const char *data, size_t len, struct args *args,
     goto badreq;
 readhdrs:
     // Parse the headers, pulling the pairs along the way.
+    if (p < e && *p == '\r') {
+        // There are no headers.
+        goto endhdrs;
+    }
     while (p < e) {
         hdrname = p;
         while (p < e) {
+            if (*p == '\n') {
+                // header line without a colon
+                goto badreq;
+            }
             if (*p == ':') {
                 hdrnamelen = p-hdrname;
                 p++;
@@ -159,8 +167,13 @@ readhdrs:
                         }
                         p++;
                         if (p < e && *p == '\r') {
+                        endhdrs:
                             p++;
-                            if (p < e && *p == '\n') {
+                            if (p == e) {
+                                // Not enough data provided yet.
+                                return 0;
+                            }
+                            if (*p == '\n') {
                                 p++;
                             } else {
                                 goto badreq;
-- 
2.43.0


From 64a954908f38cf4da12b351a910bef223b72dd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:35 +0000
Subject: [PATCH 21/68] fix: http 405 reply was replaced by a 400

---
 src/http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http.c b/src/http.c
index 4b5e5a4..3cbe5a3 100644
--- a/src/http.c
+++ b/src/http.c
@@ -331,7 +331,7 @@ readbody:
         args_append(args, uri, urilen, true);
     } else {
         parse_seterror("Method Not Allowed");
-        goto badreq;
+        return -1;
     }
 
     // Check authorization
-- 
2.43.0


From 0ab32e80031d986081901772bbff7b09b8a16171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:35 +0000
Subject: [PATCH 22/68] fix: last http query option was ignored when followed
 by an ampersand

---
 src/http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http.c b/src/http.c
index 3cbe5a3..0bfdd01 100644
--- a/src/http.c
+++ b/src/http.c
@@ -266,7 +266,7 @@ readbody:
             } else if (query[i] == '&' || i == querylen-1) {
                 qval = 0;
                 qvallen = 0;
-                if (i == querylen-1) {
+                if (query[i] != '&') {
                     i++;
                 }
                 k = i;
-- 
2.43.0


From f300fb69cf68baf20dc3c630391e2872d1b009a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:35 +0000
Subject: [PATCH 23/68] fix: monitor line contained stray bytes after an
 escaped byte

---
 src/monitor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/monitor.c b/src/monitor.c
index b80cefd..d2705e7 100644
--- a/src/monitor.c
+++ b/src/monitor.c
@@ -86,7 +86,7 @@ void monitor_cmd(int64_t now, int db, const char *addr, struct args *args) {
                 if (ch < 32 || ch >= 127) {
                     char hex[8];
                     snprintf(hex, 8, "\\x%02X", ch);
-                    buf_append(&buf, hex, 8);
+                    buf_append(&buf, hex, 4);
                 } else {
                     buf_append_byte(&buf, ch);
                 }
-- 
2.43.0


From dfaf61dba5d6c8849e76c785efa4385b10ebee2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 24/68] fix: postgres message length below the minimum was read
 out of bounds

---
 src/postgres.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/postgres.c b/src/postgres.c
index c24de1c..21efc08 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -1069,7 +1069,12 @@ static ssize_t parse_message(const char *data, size_t len, struct args *args,
         return 0;
     }
     int msgbyte = data[0];
-    size_t msglen = read_i32(data+1);
+    int32_t slen = read_i32(data+1);
+    if (slen < 4) {
+        parse_errorf("invalid message");
+        return -1;
+    }
+    size_t msglen = slen;
     if (len < msglen+1) {
         return 0;
     }
-- 
2.43.0


From 8abdd5a7050e62bedd618b699daa5fe6d4092c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 25/68] fix: postgres quoted string with a doubled quote became
 empty

---
 src/postgres.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/postgres.c b/src/postgres.c
index 21efc08..d765f64 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -150,7 +150,7 @@ static void arg_append_unescape_simplestr(struct args *args, const char *str,
 {
     size_t str2len = 0;
     char *str2 = xmalloc(slen+1);
-    for (size_t i = 0; i < str2len; i++) {
+    for (size_t i = 0; i < slen; i++) {
         if (str[i] == '\'' && str[i+1] == '\'') {
             i++;
         }
-- 
2.43.0


From e31f924756c290b3746d58264e4c8864984501b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 26/68] fix: postgres escape string dropped escaped single
 quotes

---
 src/postgres.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/postgres.c b/src/postgres.c
index d765f64..24466ab 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -395,6 +395,7 @@ static inline int encode_codepoint(uint8_t dst[], uint32_t cp) {
         case 'r' : ch = '\r'; break; \
         case 't' : ch = '\t'; break; \
         case '"' : ch = '"';  break; \
+        case '\'': ch = '\''; break; \
         case 'u' : \
             if (ii+5 > nn) { nn = 0; continue; }; \
             uint32_t cp = decode_hex((jstr)+ii+1); \
-- 
2.43.0


From 6f87276229309872d0fdbd010f463f73f81b08ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 27/68] fix: postgres query using a parameter twice was
 rejected

---
 src/postgres.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/postgres.c b/src/postgres.c
index 24466ab..30b4038 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -481,8 +481,13 @@ static void pmap_grow(struct pmap *map) {
     map->nbuckets = nbuckets2;
 }
 
+static bool pmap_exists(struct pmap *map, uint16_t param);
+
 static void pmap_insert(struct pmap *map, uint16_t param) {
     assert(param != 0);
+    if (pmap_exists(map, param)) {
+        return;
+    }
     if (map->count == (map->nbuckets>>1)+(map->nbuckets>>2)) {
         pmap_grow(map);
     }
-- 
2.43.0


From 943df39339401f530333c468bd0779287e0b2ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 28/68] fix: postgres password was requested again after
 authentication

---
 src/postgres.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/postgres.c b/src/postgres.c
index 30b4038..9ad3b16 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -1482,6 +1482,7 @@ bool pg_respond(struct conn *conn, struct pg *pg) {
         conn_setauth(conn, true);
         write_auth_ok(conn, pg);
         pg->auth = 0;
+        pg->startup = 0;
         return true;
     }
     if (pg->startup == 1) {
-- 
2.43.0


From cde3ae12f67107c1aa36c378b669adcf3b4a7dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 29/68] fix: repeated postgres startup message leaked memory

---
 src/postgres.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/postgres.c b/src/postgres.c
index 9ad3b16..7ce031f 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -1170,6 +1170,9 @@ static ssize_t parse_magic_proto3(const char *data, size_t len, struct pg *pg) {
             client_encoding);
         return -1;
     }
+    xfree(pg->user);
+    xfree(pg->database);
+    xfree(pg->application_name);
     pg->user = xmalloc(strlen(user)+1);
     strcpy((char*)pg->user, user);
     pg->database = xmalloc(strlen(database)+1);
-- 
2.43.0


From 62d7922a2101670101c2b7f48c6937ec4fdc8b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 30/68] fix: removing the first argument left a stale duplicate
 that was freed twice

---
 src/args.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/args.c b/src/args.c
index c3c2060..95238a1 100644
--- a/src/args.c
+++ b/src/args.c
@@ -105,5 +105,6 @@ void args_remove_first(struct args *args) {
             args->bufs[i-1] = args->bufs[i];
         }
         args->len--;
+        memset(&args->bufs[args->len], 0, sizeof(struct buf));
     }
 }
-- 
2.43.0


From 03f83bc39b4633c34689b2ef35a93a19b56cf573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 31/68] fix: error in a postgres extended query desynchronized
 the connection

---
 src/postgres.c | 13 +++++++++++++
 src/postgres.h |  1 +
 2 files changed, 14 insertions(+)

diff --git a/src/postgres.c b/src/postgres.c
index 7ce031f..08ed73b 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -1084,6 +1084,11 @@ static ssize_t parse_message(const char *data, size_t len, struct args *args,
     if (len < msglen+1) {
         return 0;
     }
+    if (pg->skip && msgbyte != 'S' && msgbyte != 'X') {
+        // There was an error in the extended query. All messages are discarded
+        // until the sync, which will send the ReadyForQuery.
+        return msglen+1;
+    }
     msglen -= 4;
     data += 5;
     ssize_t ret;
@@ -1120,6 +1125,10 @@ static ssize_t parse_message(const char *data, size_t len, struct args *args,
     if (ret == -1 || (size_t)ret != msglen) {
         return -1;
     }
+    if (pg->error && msgbyte != 'Q') {
+        // Error in extended query. No ReadyForQuery until the sync.
+        pg->execute = 1;
+    }
     return msglen+5;
 }
 
@@ -1460,6 +1469,7 @@ bool pg_respond(struct conn *conn, struct pg *pg) {
     if (pg->sync) {
         dprintf("====== pg_respond(pg->sync) =====\n");
         pg->execute = 0;
+        pg->skip = 0;
         pg_write_ready(conn, 'I');
         pg->sync = 0;
         return true;
@@ -1501,6 +1511,9 @@ bool pg_respond(struct conn *conn, struct pg *pg) {
 }
 
 void pg_write_error(struct conn *conn, const char *msg) {
+    if (pg_execute(conn)) {
+        conn_pg(conn)->skip = 1;
+    }
     size_t msglen = strlen(msg);
     size_t size = 1+4;
     size += 1+5+1;      // 'S' "ERROR" \0
diff --git a/src/postgres.h b/src/postgres.h
index e505699..a8674d8 100644
--- a/src/postgres.h
+++ b/src/postgres.h
@@ -41,6 +41,7 @@ struct pg {
     bool close;
     bool sync;
     bool empty_query;
+    bool skip;     // discard messages until sync, following an error
 
     char *desc;   // describe response
     int desclen;  // describe response len
-- 
2.43.0


From 49764c7f74b145aa8b485ca6f2ae9cb8364855a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 32/68] fix: SWEEP ASYNC FAST was rejected

---
 src/cmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmds.c b/src/cmds.c
index 337f547..a8b5437 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -1194,7 +1194,7 @@ static void *thsweep0(void *arg) {
 
 // SWEEP [ASYNC] [FAST]
 static void cmdSWEEP(struct conn *conn, struct args *args) {
-    if (args->len > 2) {
+    if (args->len > 3) {
         conn_write_error(conn, ERR_WRONG_NUM_ARGS);
         return;
     }
-- 
2.43.0


From 2be8bd0ddb59a76b50e7424d6c6a97bcb757dbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 33/68] fix: SET EXAT and PXAT used the unix time as a time
 since boot

---
 src/cmds.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cmds.c b/src/cmds.c
index a8b5437..c2d06aa 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -167,6 +167,13 @@ static int64_t expiry_seconds_time(struct conn *conn, int64_t now,
     return int64_add_clamp(now, expiry);
 }
 
+// Convert a unix time to an expiration for the cache clock.
+static int64_t unix_expiry_time(int64_t now, int64_t unixtime) {
+    int64_t expires = int64_add_clamp(now, unixtime-sys_unixnow());
+    // zero is reserved for "never expires"
+    return expires > 0 ? expires : 1;
+}
+
 // SET key value [NX | XX] [GET] [EX seconds | PX milliseconds |
 //   EXAT unix-time-seconds | PXAT unix-time-milliseconds | KEEPTTL] 
 //   [FLAGS flags] [CAS cas] 
@@ -245,9 +252,11 @@ static void cmdSET(struct conn *conn, struct args *args) {
                 break;
             case 3:
                 expires = int64_mul_clamp(expires, SECOND);
+                expires = unix_expiry_time(now, expires);
                 break;
             case 4:
                 expires = int64_mul_clamp(expires, MILLISECOND);
+                expires = unix_expiry_time(now, expires);
                 break;
             }
         skip_exkind:
-- 
2.43.0


From 413e162ed13409e6c63db8998ef5d75604ee5c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 34/68] fix: EXPIRE far in the past made a key persistent, and
 memcache touch ignored its exptime rules

---
 src/cmds.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/cmds.c b/src/cmds.c
index c2d06aa..9f5d649 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -1037,8 +1037,16 @@ static void cmdEXPIRE(struct conn *conn, struct args *args) {
         conn_write_error(conn, ERR_INVALID_INTEGER);
         return;
     }
-    expires = int64_mul_clamp(expires, POGOCACHE_SECOND);
-    expires = int64_add_clamp(now, expires);
+    if (conn_proto(conn) == PROTO_MEMCACHE && expires == 0) {
+        // memcache uses zero for "never expires"
+    } else {
+        expires = int64_mul_clamp(expires, POGOCACHE_SECOND);
+        expires = expiry_seconds_time(conn, now, expires);
+        if (expires <= 0) {
+            // zero is reserved for "never expires"
+            expires = 1;
+        }
+    }
     struct pogocache_update ctx = { .expires = expires };
     struct pogocache_load_opts lopts = { 
         .time = now,
-- 
2.43.0


From 73c89714c127bb221f41d25269d9743382f602c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 35/68] fix: memcache decr below zero wrapped around

---
 src/cmds.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cmds.c b/src/cmds.c
index 9f5d649..e65df52 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -1707,6 +1707,10 @@ static void execINCRDECR(struct conn *conn, const char *key, size_t keylen,
     if (isunsigned) {
         if (decr) {
             overflow = __builtin_sub_overflow(ctx.uval, delta.u, &ctx.uval);
+            if (overflow && conn_proto(conn) == PROTO_MEMCACHE) {
+                // memcache decrements are clamped to zero
+                ctx.uval = 0;
+            }
         } else {
             overflow = __builtin_add_overflow(ctx.uval, delta.u, &ctx.uval);
         }
-- 
2.43.0


From d38ca6b77b39626b902ce12323326bbec3298e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 36/68] fix: DEBUG POPULATE crashed on an empty expiration
 range or an oversized value

---
 src/cmds.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cmds.c b/src/cmds.c
index e65df52..219141c 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -1366,7 +1366,7 @@ static void cmdDEBUG_populate(struct conn *conn, struct args *args) {
     size_t prefixlen = args->bufs[2].len;
     char *prefix = args->bufs[2].data;
     int64_t vallen;
-    if (!argi64(args, 3, &vallen) || vallen < 0) {
+    if (!argi64(args, 3, &vallen) || vallen < 0 || vallen > MAXARGSZ) {
         conn_write_error(conn, ERR_SYNTAX_ERROR);
         return;
     }
@@ -1385,6 +1385,10 @@ static void cmdDEBUG_populate(struct conn *conn, struct args *args) {
             randex = true;
         }
         xfree(ex);
+        if (randex && (randmin < 0 || randmax <= randmin)) {
+            conn_write_error(conn, ERR_SYNTAX_ERROR);
+            return;
+        }
     }
 
     char *val = xmalloc(vallen);
-- 
2.43.0


From b5e21a6790919c3fd474fff0d97037ae9a36a511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:28 +0000
Subject: [PATCH 37/68] fix: evict and sixpack flags were not given to the
 cache, and autosweep=no was rejected

---
 src/main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index b3dbbbf..95f8048 100644
--- a/src/main.c
+++ b/src/main.c
@@ -644,7 +644,7 @@ int main(int argc, char *argv[]) {
 
     if (strcmp(autosweep, "yes") == 0) {
         useautosweep = true;
-    } else if (strcmp(usecas, "no") == 0) {
+    } else if (strcmp(autosweep, "no") == 0) {
         useautosweep = false;
     } else {
         INVALID_FLAG("autosweep", autosweep);
@@ -754,6 +754,8 @@ int main(int argc, char *argv[]) {
         .nshards = nshards,
         .loadfactor = loadfactor,
         .usecas = usecasflag,
+        .nosixpack = !usesixpack,
+        .noevict = !useevict,
         .allowshrink = true,
         .usethreadbatch = true,
     };
-- 
2.43.0


From 5cb8c5767fb5e13dca85ffa01d5f1201f2364f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:28 +0000
Subject: [PATCH 38/68] fix: memcache noreply was not honored

---
 src/conn.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/conn.c b/src/conn.c
index 9d79666..76617c4 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -76,6 +76,15 @@ void evclosed(struct net_conn *conn5, void *udata) {
     xfree(conn);
 }
 
+// Discards the output of a memcache command which has the noreply option.
+static void discard_noreply(struct conn *conn, size_t mark) {
+    if (conn->proto == PROTO_MEMCACHE && conn->noreply && 
+        net_conn_out_len(conn->conn5) > mark)
+    {
+        net_conn_out_setlen(conn->conn5, mark);
+    }
+}
+
 // network data handler
 // The evlen may be zero when returning from a bgwork routine, while having
 // existing data in the connection packet.
@@ -155,7 +164,11 @@ void evdata(struct net_conn *conn5, const void *evdata, size_t evlen,
         } else if (conn->proto != PROTO_POSTGRES || 
             pg_precommand(conn, &conn->args, conn->pg))
         {
+            size_t mark = net_conn_out_len(conn->conn5);
             evcommand(conn, &conn->args);
+            if (!net_conn_bgworking(conn->conn5)) {
+                discard_noreply(conn, mark);
+            }
         }
         len -= n;
         data += n;
@@ -205,7 +218,9 @@ static void work5(void *udata) {
 static void done5(struct net_conn *conn, void *udata) {
     (void)conn;
     struct bgworkctx *ctx = udata;
+    size_t mark = net_conn_out_len(ctx->conn->conn5);
     ctx->done(ctx->conn, ctx->udata);
+    discard_noreply(ctx->conn, mark);
     xfree(ctx);
 }
 
-- 
2.43.0


From 4828769e6c72c1f8b186131fa887005297d03621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 39/68] fix: a client that does not read its replies stalled
 every connection of its thread

---
 src/net.c | 119 ++++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 98 insertions(+), 21 deletions(-)

diff --git a/src/net.c b/src/net.c
index 8c81734..ecff56c 100644
--- a/src/net.c
+++ b/src/net.c
@@ -26,6 +26,7 @@
 #include <netdb.h>
 #include <netinet/tcp.h>
 #include <fcntl.h>
+#include <poll.h>
 #include <errno.h>
 #include <arpa/inet.h>
 #include <inttypes.h>
@@ -256,6 +257,8 @@ struct net_conn {
     char *addr;
     struct bgworkctx *bgctx;
     struct qthreadctx *ctx;
+    bool writewait; // waiting for the socket to be writable
+    size_t outpos;  // position of the unwritten output, when waiting
     unsigned stat_cmd_get;
     unsigned stat_cmd_set;
     unsigned stat_get_hits;
@@ -494,14 +497,16 @@ struct qthreadctx {
     struct net_conn **qreads;
     struct net_conn **qins;
     struct net_conn **qattachs;
+    struct net_conn **qresumes;
     struct net_conn **qouts;
     struct net_conn **qcloses;
-    char **qinpkts;
+    const char **qinpkts;
     int *qinpktlens;    
     int nqreads;
     int nqins;
     int nqcloses;
     int nqattachs;
+    int nqresumes;
     int nqouts;
     int nthreads;
     
@@ -571,6 +576,7 @@ static void qreset(struct qthreadctx *ctx) {
     ctx->nqcloses = 0;
     ctx->nqouts = 0;
     ctx->nqattachs = 0;
+    ctx->nqresumes = 0;
 }
 
 inline
@@ -647,7 +653,8 @@ static void qaccept(struct qthreadctx *ctx) {
             // needs to be attached and restated.
             ctx->qattachs[ctx->nqattachs++] = conn;
         } else if (conn->outlen > 0) {
-            ctx->qouts[ctx->nqouts++] = conn;
+            // The socket is writable again.
+            ctx->qresumes[ctx->nqresumes++] = conn;
         } else if (conn->closed) {
             ctx->qcloses[ctx->nqcloses++] = conn;
         } else {
@@ -680,8 +687,12 @@ static void handle_read(ssize_t n, char *pkt, struct net_conn *conn,
     ctx->nqins++;
 }
 
+// Write the pending output. When the socket is not able to take all of it then
+// the rest is kept, and is written once the event loop says that the socket is
+// writable. There will be no reading from the socket until then.
 inline 
 static void flush_conn(struct net_conn *conn, size_t written) {
+    written += conn->outpos;
     while (written < conn->outlen) {
         ssize_t n;
         if (conn->tls) {
@@ -692,7 +703,19 @@ static void flush_conn(struct net_conn *conn, size_t written) {
         }
         if (n == -1) {
             if (errno == EAGAIN) {
-                continue;
+                if (conn->tls) {
+                    // A TLS write must be retried as is.
+                    continue;
+                }
+                conn->outpos = written;
+                if (!conn->writewait) {
+                    int ret = delread(conn->ctx->qfd, conn->fd);
+                    assert(ret == 0); (void)ret;
+                    ret = addwrite(conn->ctx->qfd, conn->fd);
+                    assert(ret == 0); (void)ret;
+                    conn->writewait = true;
+                }
+                return;
             }
             conn->closed = true;
             break;
@@ -701,6 +724,39 @@ static void flush_conn(struct net_conn *conn, size_t written) {
     }
     // either everything was written or the socket is closed
     conn->outlen = 0;
+    conn->outpos = 0;
+    if (conn->writewait) {
+        int ret = delwrite(conn->ctx->qfd, conn->fd);
+        assert(ret == 0); (void)ret;
+        ret = addread(conn->ctx->qfd, conn->fd);
+        assert(ret == 0); (void)ret;
+        conn->writewait = false;
+    }
+}
+
+// Flush a connection that stopped in the middle of its input, and continue with
+// the input that it already has, if any.
+inline
+static void resume_conn(struct qthreadctx *ctx, struct net_conn *conn) {
+    flush_conn(conn, 0);
+    if (conn->outlen > 0) {
+        return;
+    }
+    if (conn->closed) {
+        ctx->qcloses[ctx->nqcloses++] = conn;
+    } else {
+        ctx->qins[ctx->nqins] = conn;
+        ctx->qinpkts[ctx->nqins] = "";
+        ctx->qinpktlens[ctx->nqins] = 0;
+        ctx->nqins++;
+    }
+}
+
+inline
+static void qresume(struct qthreadctx *ctx) {
+    for (int i = 0; i < ctx->nqresumes; i++) {
+        resume_conn(ctx, ctx->qresumes[i]);
+    }
 }
 
 inline
@@ -719,12 +775,7 @@ static void qattach(struct qthreadctx *ctx) {
         assert(ret == 0); (void)ret;
         ret = addread(conn->ctx->qfd, conn->fd);
         assert(ret == 0); (void)ret;
-        flush_conn(conn, 0);
-        if (conn->closed) {
-            ctx->qcloses[ctx->nqcloses++] = conn;
-        } else {
-            ctx->qreads[ctx->nqreads++] = conn;
-        }
+        resume_conn(ctx, conn);
     }
 }
 
@@ -788,7 +839,7 @@ static void qprocess(struct qthreadctx *ctx) {
     // process all new incoming data
     for (int i = 0; i < ctx->nqins; i++) {
         struct net_conn *conn = ctx->qins[i];
-        char *p = ctx->qinpkts[i];
+        const char *p = ctx->qinpkts[i];
         int n = ctx->qinpktlens[i];
         ctx->data(conn, p, n, ctx->udata);
         sumstats(conn, ctx);
@@ -846,9 +897,10 @@ static void qwrite(struct qthreadctx *ctx) {
                 // Any extra data must be flushed using syscall write.
                 flush_conn(conn, n);
             }
-            // Either everything was written or the socket is closed
-            conn->outlen = 0;
-            if (conn->closed) {
+            if (n < 0) {
+                conn->outlen = 0;
+            }
+            if (conn->closed && conn->outlen == 0) {
                 ctx->qcloses[ctx->nqcloses++] = conn;
             }
             io_uring_cqe_seen(&ctx->ring, cqe);
@@ -859,7 +911,7 @@ static void qwrite(struct qthreadctx *ctx) {
         for (int i = 0; i < ctx->nqouts; i++) {
             struct net_conn *conn = ctx->qouts[i];
             flush_conn(conn, 0);
-            if (conn->closed) {
+            if (conn->closed && conn->outlen == 0) {
                 ctx->qcloses[ctx->nqcloses++] = conn;
             }
         }
@@ -913,6 +965,7 @@ static void *qthread(void *arg) {
     ctx->qcloses = xmalloc(sizeof(struct net_conn*)*ctx->queuesize);
     ctx->qouts = xmalloc(sizeof(struct net_conn*)*ctx->queuesize);
     ctx->qattachs = xmalloc(sizeof(struct net_conn*)*ctx->queuesize);
+    ctx->qresumes = xmalloc(sizeof(struct net_conn*)*ctx->queuesize);
 
     while (1) {
         sumstats_global(ctx);
@@ -924,10 +977,11 @@ static void *qthread(void *arg) {
             }
             continue;
         }
-        // reset, accept, attach, read, process, prewrite, write, close
+        // reset, accept, attach, resume, read, process, prewrite, write, close
         qreset(ctx);    // reset the step queues
         qaccept(ctx);   // accept incoming connections
         qattach(ctx);   // attach bg workers. uncommon
+        qresume(ctx);   // resume connections that waited on a write. uncommon
         qread(ctx);     // read from sockets
         qprocess(ctx);  // process new socket data
         qprewrite(ctx); // perform any prewrite operations, such as fsync
@@ -1242,8 +1296,37 @@ void net_main(struct net_opts *opts) {
     }
 }
 
+// Write all pending output, waiting on the client as needed.
+// Only use when the connection is detached from the event loop.
+static void flush_conn_wait(struct net_conn *conn) {
+    size_t written = 0;
+    while (written < conn->outlen) {
+        ssize_t n;
+        if (conn->tls) {
+            n = tls_write(conn->tls, conn->fd, conn->out+written, 
+                conn->outlen-written);
+        } else {
+            n = write(conn->fd, conn->out+written, conn->outlen-written);
+        }
+        if (n == -1) {
+            if (errno == EAGAIN) {
+                struct pollfd pfd = { .fd = conn->fd, .events = POLLOUT };
+                poll(&pfd, 1, -1);
+                continue;
+            }
+            // The failure is found again by the event loop.
+            break;
+        }
+        written += n;
+    }
+    conn->outlen = 0;
+}
+
 static void *bgwork(void *arg) {
     struct bgworkctx *bgctx = arg;
+    // The replies which precede this work must come first, and the client may
+    // be slow to read them.
+    flush_conn_wait(bgctx->conn);
     bgctx->work(bgctx->udata);
     // We are not in the same thread context as the event loop that owns this
     // connection. Adding the writer to the queue will allow for the loop
@@ -1269,12 +1352,6 @@ bool net_conn_bgwork(struct net_conn *conn, void (*work)(void *udata),
     if (conn->bgctx || conn->closed) {
         return false;
     }
-    if (!conn->closed) {
-        flush_conn(conn, 0);
-    }
-    if (conn->closed) {
-        return false;
-    }
     struct qthreadctx *ctx = conn->ctx;
     int ret = delread(ctx->qfd, conn->fd);    
     assert(ret == 0); (void)ret;
-- 
2.43.0


From 553bfb11f687a402341dadc3021344ba7370275a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:45 +0000
Subject: [PATCH 40/68] fix: saturated bucket distances broke the order of the
 hash table

---
 src/pogocache.c | 46 +++++++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index 4fe0a4e..0bf4f5b 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -813,9 +813,19 @@ static void set_dib(struct bucket *bucket, uint8_t dib) {
     bucket->dib = dib;
 }
 
-// Returns the next distance. The distance saturates at its maximum.
-static uint8_t inc_dib(uint8_t dib) {
-    return dib < UINT8_MAX ? dib+1 : dib;
+// The stored distance saturates at its maximum.
+static uint8_t clip_dib(size_t dist) {
+    return dist < UINT8_MAX ? dist : UINT8_MAX;
+}
+
+// Returns the distance of an occupied bucket, calculated from the hash when
+// the stored distance is saturated.
+static size_t bucket_dist(struct bucket *buckets, size_t mask, size_t i) {
+    size_t dist = get_dib(&buckets[i]);
+    if (dist == UINT8_MAX) {
+        dist = ((i - get_hash(&buckets[i])) & mask) + 1;
+    }
+    return dist;
 }
 
 static bool map_init(struct map *map, size_t cap, struct pgctx *ctx) {
@@ -844,20 +854,24 @@ static bool resize(struct map *map, size_t new_cap, struct pgctx *ctx) {
     for (int i = 0; i < map->nbuckets; i++) {
         struct bucket ebkt = map->buckets[i];
         if (get_dib(&ebkt)) {
-            set_dib(&ebkt, 1);
+            size_t dist = 1;
+            set_dib(&ebkt, dist);
             size_t j = get_hash(&ebkt) & map2.mask;
             while (1) {
                 if (get_dib(&map2.buckets[j]) == 0) {
                     map2.buckets[j] = ebkt;
                     break;
                 }
-                if (get_dib(&map2.buckets[j]) < get_dib(&ebkt)) {
+                size_t dist2 = bucket_dist(map2.buckets, map2.mask, j);
+                if (dist2 < dist) {
                     struct bucket tmp = map2.buckets[j];
                     map2.buckets[j] = ebkt;
                     ebkt = tmp;
+                    dist = dist2;
                 }
                 j = (j + 1) & map2.mask;
-                set_dib(&ebkt, inc_dib(get_dib(&ebkt)));
+                dist++;
+                set_dib(&ebkt, clip_dib(dist));
             }
         }
     }
@@ -888,7 +902,8 @@ static bool map_insert(struct map *map, struct entry *entry, uint32_t hash,
     struct bucket ebkt;
     set_entry(&ebkt, entry);
     set_hash(&ebkt, hash);
-    set_dib(&ebkt, 1);
+    size_t dist = 1;
+    set_dib(&ebkt, dist);
     size_t i = hash & map->mask;
     while (1) {
         if (get_dib(&map->buckets[i]) == 0) {
@@ -909,13 +924,16 @@ static bool map_insert(struct map *map, struct entry *entry, uint32_t hash,
             set_entry(&map->buckets[i], get_entry(&ebkt));
             return true;
         }
-        if (get_dib(&map->buckets[i]) < get_dib(&ebkt)) {
+        size_t dist2 = bucket_dist(map->buckets, map->mask, i);
+        if (dist2 < dist) {
             struct bucket tmp = map->buckets[i];
             map->buckets[i] = ebkt;
             ebkt = tmp;
+            dist = dist2;
         }
         i = (i + 1) & map->mask;
-        set_dib(&ebkt, inc_dib(get_dib(&ebkt)));
+        dist++;
+        set_dib(&ebkt, clip_dib(dist));
     }
 }
 
@@ -961,15 +979,9 @@ static void delbkt(struct map *map, size_t i) {
             set_dib(&map->buckets[h], 0);
             break;
         }
+        size_t dist = bucket_dist(map->buckets, map->mask, i);
         map->buckets[h] = map->buckets[i];
-        if (get_dib(&map->buckets[h]) == UINT8_MAX) {
-            // The distance was saturated. Calculate it from the hash.
-            size_t home = get_hash(&map->buckets[h]) & map->mask;
-            size_t dist = ((h - home) & map->mask) + 1;
-            set_dib(&map->buckets[h], dist < UINT8_MAX ? dist : UINT8_MAX);
-        } else {
-            set_dib(&map->buckets[h], get_dib(&map->buckets[h])-1);
-        }
+        set_dib(&map->buckets[h], clip_dib(dist-1));
     }
     map->count--;
 }
-- 
2.43.0


From 12a3112cacc7c2c6796883eed3a1a4ca3d31cfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:28 +0000
Subject: [PATCH 41/68] fix: failures to create a thread were not detected

---
 src/cmds.c | 12 ++++++------
 src/main.c |  6 +++---
 src/net.c  |  6 +++---
 src/save.c |  4 ++--
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/cmds.c b/src/cmds.c
index 219141c..e6cff0d 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -716,7 +716,7 @@ static void flushfast(void) {
         if (i == nprocs-1) {
             ctx->count = nshards-ctx->start;
         }
-        if (pthread_create(&ctx->th, 0, thflush, ctx) == -1) {
+        if (pthread_create(&ctx->th, 0, thflush, ctx) != 0) {
             ctx->th = 0;
         }
         start += ctx->count;
@@ -829,7 +829,7 @@ static void cmdFLUSHALL(struct conn *conn, struct args *args) {
     if (async) {
         pthread_t th;
         int ret = pthread_create(&th, 0, thflush0, ctx);
-        if (ret == -1) {
+        if (ret != 0) {
             xfree(ctx);
             conn_write_error(conn, "ERR failed to do work");
             return;
@@ -1146,7 +1146,7 @@ static void sweepfast(size_t *swept, size_t *kept) {
         if (i == nprocs-1) {
             ctx->count = nshards-ctx->start;
         }
-        if (pthread_create(&ctx->th, 0, thsweep, ctx) == -1) {
+        if (pthread_create(&ctx->th, 0, thsweep, ctx) != 0) {
             ctx->th = 0;
         }
         start += ctx->count;
@@ -1233,7 +1233,7 @@ static void cmdSWEEP(struct conn *conn, struct args *args) {
     if (async) {
         pthread_t th;
         int ret = pthread_create(&th, 0, thsweep0, ctx);
-        if (ret == -1) {
+        if (ret != 0) {
             xfree(ctx);
             conn_write_error(conn, "ERR failed to do work");
             return;
@@ -1296,7 +1296,7 @@ static void cmdPURGE(struct conn *conn, struct args *args) {
     if (async) {
         pthread_t th;
         int ret = pthread_create(&th, 0, thpurge, 0);
-        if (ret == -1) {
+        if (ret != 0) {
             conn_write_error(conn, "ERR failed to do work");
             return;
         }
@@ -1416,7 +1416,7 @@ static void cmdDEBUG_populate(struct conn *conn, struct args *args) {
         ctx->randex = randex;
         ctx->randmin = randmin;
         ctx->randmax = randmax;
-        if (pthread_create(&ctx->th, 0, populate_entry, ctx) == -1) {
+        if (pthread_create(&ctx->th, 0, populate_entry, ctx) != 0) {
             ctx->th = 0;
         }
         start += group;
diff --git a/src/main.c b/src/main.c
index 95f8048..5d27fea 100644
--- a/src/main.c
+++ b/src/main.c
@@ -394,7 +394,7 @@ static void *autosweepticker(void *arg) {
 static void start_sigtermticker(void) {
     pthread_t th;
     int ret = pthread_create(&th, 0, sigtermticker, 0);
-    if (ret == -1) {
+    if (ret != 0) {
         perror("# pthread_create(sigtermticker)");
         exit(1);
     }
@@ -403,7 +403,7 @@ static void start_sigtermticker(void) {
 static void start_memticker(void) {
     pthread_t th;
     int ret = pthread_create(&th, 0, memticker, 0);
-    if (ret == -1) {
+    if (ret != 0) {
         perror("# pthread_create(memticker)");
         exit(1);
     }
@@ -412,7 +412,7 @@ static void start_memticker(void) {
 static void start_autosweepticker(void) {
     pthread_t th;
     int ret = pthread_create(&th, 0, autosweepticker, 0);
-    if (ret == -1) {
+    if (ret != 0) {
         perror("# pthread_create(autosweepticker)");
         exit(1);
     }
diff --git a/src/net.c b/src/net.c
index ecff56c..8d877d8 100644
--- a/src/net.c
+++ b/src/net.c
@@ -1278,7 +1278,7 @@ void net_main(struct net_opts *opts) {
     if (!opts->nowarmup) {
         pthread_t th;
         int ret = pthread_create(&th, 0, thwarmup, opts);
-        if (ret != -1) {
+        if (ret == 0) {
             pthread_detach(th);
         }
     }
@@ -1288,7 +1288,7 @@ void net_main(struct net_opts *opts) {
             qthread(ctx);
         } else {
             int ret = pthread_create(&ctx->th, 0, qthread, ctx);
-            if (ret == -1) {
+            if (ret != 0) {
                 perror("# pthread_create");
                 abort();
             }
@@ -1362,7 +1362,7 @@ bool net_conn_bgwork(struct net_conn *conn, void (*work)(void *udata),
     conn->bgctx->work = work;
     conn->bgctx->udata = udata;
     pthread_t th;
-    if (pthread_create(&th, 0, bgwork, conn->bgctx) == -1) {
+    if (pthread_create(&th, 0, bgwork, conn->bgctx) != 0) {
         // Failed to create thread. Revert and return false.
         ret = addread(ctx->qfd, conn->fd);
         assert(ret == 0);
diff --git a/src/save.c b/src/save.c
index 39fbe9b..c3b0d40 100644
--- a/src/save.c
+++ b/src/save.c
@@ -183,7 +183,7 @@ int save(const char *path, bool fast) {
             ctx->count = nshards-ctx->start;
         }
         if (nprocs > 1) {
-            if (pthread_create(&ctx->th, 0, thsave, ctx) == -1) {
+            if (pthread_create(&ctx->th, 0, thsave, ctx) != 0) {
                 ctx->th = 0;
             }
         }
@@ -444,7 +444,7 @@ int load(const char *path, bool fast, struct load_stats *stats) {
         ctx->failure = &failure;
         ctx->blocks = blocks;
         atomic_init(&ctx->ok, true);
-        if (pthread_create(&ctx->th, 0, thload, ctx) == -1) {
+        if (pthread_create(&ctx->th, 0, thload, ctx) != 0) {
             ctx->th = 0;
             ok = false;
             if (therrnum == 0) {
-- 
2.43.0


From 56e62df85f47e449b592c37168095ffee122570b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:28 +0000
Subject: [PATCH 42/68] fix: entry expiring at the moment of its load became
 persistent

---
 src/save.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index c3b0d40..62a59ba 100644
--- a/src/save.c
+++ b/src/save.c
@@ -344,7 +344,7 @@ static bool load_block(struct cblock *block, struct loadctx *ctx) {
         p += n;
         if (ttl > 0) {
             int64_t unixexpires = int64_add_clamp(unixtime, ttl);
-            if (unixexpires < unixnow) {
+            if (unixexpires <= unixnow) {
                 // already expired, skip this entry
                 ctx->nexpired++;
                 continue;
-- 
2.43.0


From faf17e9237ac76aae07a762368dec75f42d9af8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:28 +0000
Subject: [PATCH 43/68] fix: concurrent saves wrote into the same work file

---
 src/save.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index 62a59ba..5837a72 100644
--- a/src/save.c
+++ b/src/save.c
@@ -146,7 +146,7 @@ done:
     return 0;
 }
 
-int save(const char *path, bool fast) {
+static int save0(const char *path, bool fast) {
     uint64_t seed = sys_seed();
     size_t psize = strlen(path)+32;
     char *workpath = xmalloc(psize);
@@ -224,6 +224,17 @@ done:
     return ok ? 0 : -1;
 }
 
+// Save cache to path. One at a time, because saves share a work file.
+int save(const char *path, bool fast) {
+    static pthread_mutex_t savelock = PTHREAD_MUTEX_INITIALIZER;
+    pthread_mutex_lock(&savelock);
+    int ret = save0(path, fast);
+    int errnum = errno;
+    pthread_mutex_unlock(&savelock);
+    errno = errnum;
+    return ret;
+}
+
 // compressed block
 struct cblock {
     struct buf cdata;   // compressed data
-- 
2.43.0


From 93e1ac7de2b32d61ba213b42e0b0a3259cd1b8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:25 +0000
Subject: [PATCH 44/68] fix: shard larger than two gigabytes was saved as an
 unloadable block

---
 src/save.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index 5837a72..54bbdbd 100644
--- a/src/save.c
+++ b/src/save.c
@@ -32,6 +32,7 @@
 
 #define BLOCKSIZE 1048576
 #define COMPRESS
+#define MAXBLOCKSIZE 1073741824 // a block must be less than 2 GB
 
 extern struct pogocache *cache;
 extern const int verb;
@@ -48,6 +49,7 @@ struct savectx {
     int errnum;            // final errno status
     struct buf dst;        // compressed buffer space
     size_t nentries;       // number of entried in block buffer
+    int64_t unixtime;      // unix timestamp of the current shard
 };
 
 static int flush(struct savectx *ctx) {
@@ -99,6 +101,13 @@ static int save_entry(int shard, int64_t time, const void *key, size_t keylen,
 {
     (void)shard;
     struct savectx *ctx = udata;
+    if (ctx->buf.len >= MAXBLOCKSIZE) {
+        // Continue the shard in another block.
+        if (flush(ctx) == -1) {
+            return POGOCACHE_ITER_STOP;
+        }
+        buf_append_uvarint(&ctx->buf, ctx->unixtime);
+    }
     buf_append_byte(&ctx->buf, 0); // entry type. zero=k/v string pair;
     buf_append_uvarint(&ctx->buf, keylen);
     buf_append(&ctx->buf, key, keylen);
@@ -129,7 +138,8 @@ static void *thsave(void *arg) {
             .udata = ctx,
         };
         // write the unix timestamp before entries
-        buf_append_uvarint(&ctx->buf, sys_unixnow());
+        ctx->unixtime = sys_unixnow();
+        buf_append_uvarint(&ctx->buf, ctx->unixtime);
         int status = pogocache_iter(cache, &opts);
         if (status == POGOCACHE_CANCELED) {
             goto done;
-- 
2.43.0


From 8a557e473b0ca6949ce7beac3afa8447b850d8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:41 +0000
Subject: [PATCH 45/68] fix: glob match took exponential time and treated an
 escaped question mark as a wildcard

---
 src/util.c | 46 +++++++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/util.c b/src/util.c
index b56abd9..d16b80a 100644
--- a/src/util.c
+++ b/src/util.c
@@ -405,30 +405,38 @@ void binprint(const void *bin, size_t len) {
 bool match(const char *pat, size_t plen, const char *str, size_t slen,
     int depth)
 {
-    while (plen > 0) {
-        if (pat[0] == '\\') {
-            if (plen == 1) return false;
-            pat++; plen--; 
-        } else if (pat[0] == '*') {
-            if (plen == 1) return true;
-            if (pat[1] == '*') {
+    (void)depth;
+    const char *star = 0;  // pattern following the last star
+    size_t starplen = 0;
+    const char *mark = 0;  // where the last star stopped matching
+    size_t markslen = 0;
+    while (1) {
+        if (plen > 0 && pat[0] == '*') {
+            pat++; plen--;
+            star = pat; starplen = plen;
+            mark = str; markslen = slen;
+            continue;
+        }
+        if (plen == 0 && slen == 0) return true;
+        if (plen > 0 && slen > 0) {
+            if (pat[0] == '\\') {
+                if (plen > 1 && pat[1] == str[0]) {
+                    pat += 2; plen -= 2;
+                    str++; slen--;
+                    continue;
+                }
+            } else if (pat[0] == '?' || pat[0] == str[0]) {
                 pat++; plen--;
+                str++; slen--;
                 continue;
             }
-            if (depth == 127) {
-                return false;
-            }
-            if (match(pat+1, plen-1, str, slen, depth+1)) return true;
-            if (slen == 0) return false;
-            str++; slen--;
-            continue;
         }
-        if (slen == 0) return false;
-        if (pat[0] != '?' && str[0] != pat[0]) return false;
-        pat++; plen--;
-        str++; slen--;
+        // Does not match. Try again with the last star taking one more byte.
+        if (!star || markslen == 0) return false;
+        mark++; markslen--;
+        pat = star; plen = starplen;
+        str = mark; slen = markslen;
     }
-    return slen == 0 && plen == 0;
 }
 
 // Convert an arg to a c-string. 
-- 
2.43.0


From 30cb024498ed4c90f73f72224007dbc51094cd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 46/68] fix: a monitor that does not read its stream stalled
 every client

---
 src/cmds.c    |   9 +++--
 src/conn.c    |   4 ++
 src/monitor.c | 108 +++++++++++++++++++++++++++++++++++++++++++++++---
 src/monitor.h |   2 +
 src/net.c     |   4 ++
 src/net.h     |   1 +
 6 files changed, 119 insertions(+), 9 deletions(-)

diff --git a/src/cmds.c b/src/cmds.c
index e6cff0d..83e9303 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -1521,11 +1521,13 @@ static void monitor_work(void *udata) {
     struct monitor_ctx *ctx = udata;
     struct conn *conn = ctx->conn;
     char pkt[4096];
-    conn_setnonblock(conn, false);
     monitor_start(conn);
     struct args args = { 0 };
-    while (1) {
+    while (monitor_wait(conn)) {
         ssize_t n = conn_read(conn, pkt, sizeof(pkt));
+        if (n == -1 && errno == EAGAIN) {
+            continue;
+        }
         if (n <= 0) {
             break;
         }
@@ -1542,14 +1544,13 @@ static void monitor_work(void *udata) {
         if (args.len == 0) {
             continue;
         } else if (args_eq(&args, 0, "ping")) {
-            conn_write(conn, "+PONG\r\n", 7);
+            monitor_write(conn, "+PONG\r\n", 7);
         } else {
             break;
         }
     }
     args_free(&args);
     monitor_stop(conn);
-    conn_setnonblock(conn, false);
 }
 
 static void monitor_done(struct conn *conn, void *udata) {
diff --git a/src/conn.c b/src/conn.c
index 76617c4..9ea2816 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -456,6 +456,10 @@ struct pg *conn_pg(struct conn *conn) {
     return conn->pg;
 }
 
+int conn_fd(struct conn *conn) {
+    return net_conn_fd(conn->conn5);
+}
+
 int conn_setnonblock(struct conn *conn, bool set) {
     return net_conn_setnonblock(conn->conn5, set);
 }
diff --git a/src/monitor.c b/src/monitor.c
index d2705e7..6f4762c 100644
--- a/src/monitor.c
+++ b/src/monitor.c
@@ -10,7 +10,10 @@
 //
 // Unit monitor.c provides functions for the MONITOR command.
 #include <stdatomic.h>
+#include <errno.h>
+#include <string.h>
 #include <pthread.h>
+#include <poll.h>
 #include "monitor.h"
 #include "util.h"
 #include "sys.h"
@@ -18,17 +21,111 @@
 
 static atomic_int monitoring = 0;
 static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
-static struct conn **conns = 0;
+static struct monitor *conns = 0;
 static int conns_len = 0;
 static int conns_cap = 0;
 
+// The output that a monitor has not read yet. It's kept here when the socket
+// does not take it, so that a slow monitor cannot hold up the other clients.
+// A monitor that falls behind by more than this is closed.
+#define MAXPENDING (64*1024*1024)
+
+struct monitor {
+    struct conn *conn;
+    struct buf out;
+    size_t outpos; // how much of out is already written
+    bool closed;
+};
+
+static void monitor_flush(struct monitor *mon) {
+    while (!mon->closed && mon->outpos < mon->out.len) {
+        ssize_t n = conn_write(mon->conn, mon->out.data+mon->outpos, 
+            mon->out.len-mon->outpos);
+        if (n == -1) {
+            if (errno != EAGAIN) {
+                mon->closed = true;
+            }
+            break;
+        }
+        mon->outpos += n;
+    }
+    if (mon->outpos < mon->out.len) {
+        if (mon->outpos > mon->out.len/2) {
+            mon->out.len -= mon->outpos;
+            memmove(mon->out.data, mon->out.data+mon->outpos, mon->out.len);
+            mon->outpos = 0;
+        }
+        return;
+    }
+    buf_clear(&mon->out);
+    mon->outpos = 0;
+}
+
+static void monitor_append(struct monitor *mon, const char *data, size_t len) {
+    if (mon->closed) {
+        return;
+    }
+    if (mon->out.len > 0 && mon->out.len-mon->outpos+len > MAXPENDING) {
+        mon->closed = true;
+        return;
+    }
+    // The output which is already pending is flushed by monitor_wait.
+    bool pending = mon->out.len > 0;
+    buf_append(&mon->out, data, len);
+    if (!pending) {
+        monitor_flush(mon);
+    }
+}
+
+static struct monitor *monitor_find(struct conn *conn) {
+    for (int i = 0; i < conns_len; i++) {
+        if (conns[i].conn == conn) {
+            return &conns[i];
+        }
+    }
+    return 0;
+}
+
+// Send data to one monitor.
+void monitor_write(struct conn *conn, const char *data, size_t len) {
+    pthread_mutex_lock(&mu);
+    struct monitor *mon = monitor_find(conn);
+    if (mon) {
+        monitor_append(mon, data, len);
+    }
+    pthread_mutex_unlock(&mu);
+}
+
+// Wait for the monitor's client to send something, while writing the pending
+// output. Returns false if the monitor must be closed.
+bool monitor_wait(struct conn *conn) {
+    while (1) {
+        pthread_mutex_lock(&mu);
+        struct monitor *mon = monitor_find(conn);
+        if (mon) {
+            monitor_flush(mon);
+        }
+        bool closed = !mon || mon->closed;
+        bool pending = mon && mon->out.len > 0;
+        pthread_mutex_unlock(&mu);
+        if (closed) {
+            return false;
+        }
+        struct pollfd pfd = { .fd = conn_fd(conn), 
+            .events = POLLIN | (pending ? POLLOUT : 0) };
+        if (poll(&pfd, 1, 50) > 0 && (pfd.revents & ~POLLOUT)) {
+            return true;
+        }
+    }
+}
+
 void monitor_start(struct conn *conn) {
     pthread_mutex_lock(&mu);
     if (conns_len == conns_cap) {
         conns_cap = conns_cap == 0 ? 1 : conns_cap * 2;
-        conns = xrealloc(conns, conns_cap*sizeof(struct conn*));
+        conns = xrealloc(conns, conns_cap*sizeof(struct monitor));
     }
-    conns[conns_len++] = conn;
+    conns[conns_len++] = (struct monitor){ .conn = conn };
     atomic_fetch_add(&monitoring, 1);
     pthread_mutex_unlock(&mu);
 }
@@ -36,7 +133,8 @@ void monitor_start(struct conn *conn) {
 void monitor_stop(struct conn *conn) {
     pthread_mutex_lock(&mu);
     for (int i = 0; i < conns_len; i++) {
-        if (conns[i] == conn) {
+        if (conns[i].conn == conn) {
+            buf_clear(&conns[i].out);
             conns[i] = conns[conns_len-1];
             conns_len--;
             break;
@@ -98,7 +196,7 @@ void monitor_cmd(int64_t now, int db, const char *addr, struct args *args) {
 
     pthread_mutex_lock(&mu);
     for (int i = 0; i < conns_len; i++) {
-        conn_write(conns[i], buf.data, buf.len);
+        monitor_append(&conns[i], buf.data, buf.len);
     }
     
     pthread_mutex_unlock(&mu);
diff --git a/src/monitor.h b/src/monitor.h
index c0b86e7..e419110 100644
--- a/src/monitor.h
+++ b/src/monitor.h
@@ -15,6 +15,8 @@
 
 void monitor_start(struct conn *conn);
 void monitor_stop(struct conn *conn);
+bool monitor_wait(struct conn *conn);
+void monitor_write(struct conn *conn, const char *data, size_t len);
 void monitor_cmd(int64_t now, int db, const char *addr, struct args *args);
 
 #endif
diff --git a/src/net.c b/src/net.c
index 8d877d8..a17f443 100644
--- a/src/net.c
+++ b/src/net.c
@@ -1399,6 +1399,10 @@ bool net_conn_istls(struct net_conn *conn) {
     return conn->tls != 0;
 }
 
+int net_conn_fd(struct net_conn *conn) {
+    return conn->fd;
+}
+
 int net_conn_setnonblock(struct net_conn *conn, bool set) {
     return setnonblock(conn->fd, set);
 }
diff --git a/src/net.h b/src/net.h
index 50d375d..3d4708d 100644
--- a/src/net.h
+++ b/src/net.h
@@ -87,6 +87,7 @@ uint64_t stat_get_hits(void);
 uint64_t stat_get_misses(void);
 
 // only use these from bgwork threads
+int net_conn_fd(struct net_conn *conn);
 int net_conn_setnonblock(struct net_conn *conn, bool set);
 ssize_t net_conn_read(struct net_conn *conn, char *bytes, size_t nbytes);
 ssize_t net_conn_write(struct net_conn *conn, const char *bytes, size_t nbytes);
-- 
2.43.0


From 83b1e32720ca30fee9bfdf04cdfabc2f4e6f64aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:01 +0000
Subject: [PATCH 47/68] fix: counters and appends ignored the memory limit

---
 src/cmds.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cmds.c b/src/cmds.c
index 83e9303..057a66a 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -1742,6 +1742,7 @@ static void execINCRDECR(struct conn *conn, const char *key, size_t keylen,
         .expires = ctx.expires, 
         .flags = ctx.flags, 
         .cas = ctx.cas,
+        .lowmem = atomic_load_explicit(&lowmem, __ATOMIC_ACQUIRE),
         .udata = &ctx,
     };
     status = pogocache_store(batch, key, keylen, val, vallen, &sopts);
@@ -1924,6 +1925,7 @@ static void cmdAPPEND(struct conn *conn, struct args *args) {
         len = vallen;
         struct pogocache_store_opts sopts = {
             .time = now,
+            .lowmem = atomic_load_explicit(&lowmem, __ATOMIC_ACQUIRE),
         };
         status = pogocache_store(batch, key, keylen, val, vallen, &sopts);
     } else {
@@ -1938,12 +1940,14 @@ static void cmdAPPEND(struct conn *conn, struct args *args) {
             .time = now,
             .expires = ctx.expires,
             .flags = ctx.flags,
+            .lowmem = atomic_load_explicit(&lowmem, __ATOMIC_ACQUIRE),
         };
         status = pogocache_store(batch, key, keylen, ctx.outval, ctx.outvallen, 
             &sopts);
         xfree(ctx.outval);
     }
     if (status == POGOCACHE_NOMEM) {
+        stat_store_no_memory_incr(conn);
         conn_write_error(conn, ERR_OUT_OF_MEMORY);
         goto done;
     }
-- 
2.43.0


From 0dde6fea14ef9cbafb723e65bedcbf8d0a6c554b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:29 +0000
Subject: [PATCH 48/68] fix: documented option --keysixpack was rejected

---
 src/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.c b/src/main.c
index 5d27fea..ba01d89 100644
--- a/src/main.c
+++ b/src/main.c
@@ -525,6 +525,7 @@ int main(int argc, char *argv[]) {
             AFLAG("maxconns", maxconns = atoi(flag))
             AFLAG("loadfactor", loadfactor = atoi(flag))
             AFLAG("sixpack", keysixpack = flag)
+            AFLAG("keysixpack", keysixpack = flag)
             AFLAG("seed", seed = strtoull(flag, 0, 10))
             AFLAG("auth", auth = flag)
             AFLAG("persist", persist = flag)
-- 
2.43.0


From db8c8a09a7af7327e854f3ee0c25268733cb3ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:40 +0000
Subject: [PATCH 49/68] fix: escaped surrogate pairs decoded to the wrong
 character

---
 src/postgres.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/postgres.c b/src/postgres.c
index 08ed73b..9f5ea9b 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -337,12 +337,12 @@ static uint32_t decode_hex(const uint8_t *str) {
 }
 
 static bool is_surrogate(uint32_t cp) {
-    return cp > 55296 && cp < 57344;
+    return cp >= 55296 && cp < 57344;
 }
 
 static uint32_t decode_codepoint(uint32_t cp1, uint32_t cp2) {
-    return cp1 > 55296  && cp1 < 56320 && cp2 > 56320 && cp2 < 57344 ?
-        ((cp1 - 55296) << 10) | ((cp2 - 56320) + 65536) :
+    return cp1 >= 55296 && cp1 < 56320 && cp2 >= 56320 && cp2 < 57344 ?
+        ((cp1 - 55296) << 10) + (cp2 - 56320) + 65536 :
         65533;
 }
 
-- 
2.43.0


From 90e151ad4ff1489c9c13db6e19bddb214f821f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:02 +0000
Subject: [PATCH 50/68] fix: hash of a postgres statement name executed
 undefined behavior

---
 src/hashmap.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/hashmap.c b/src/hashmap.c
index 86df8f4..b69bdf2 100644
--- a/src/hashmap.c
+++ b/src/hashmap.c
@@ -574,12 +574,15 @@ static uint64_t MM86128(const void *key, const int len, uint32_t seed) {
     uint32_t c2 = 0xab0e9789;
     uint32_t c3 = 0x38b34ae5; 
     uint32_t c4 = 0xa1e38b93;
-    const uint32_t * blocks = (const uint32_t *)(data + nblocks*16);
+    const uint8_t * end = data + nblocks*16;
     for (int i = -nblocks; i; i++) {
-        uint32_t k1 = blocks[i*4+0];
-        uint32_t k2 = blocks[i*4+1];
-        uint32_t k3 = blocks[i*4+2];
-        uint32_t k4 = blocks[i*4+3];
+        // The data may be unaligned.
+        uint32_t blocks[4];
+        memcpy(blocks, end+i*16, 16);
+        uint32_t k1 = blocks[0];
+        uint32_t k2 = blocks[1];
+        uint32_t k3 = blocks[2];
+        uint32_t k4 = blocks[3];
         k1 *= c1; k1  = ROTL32(k1,15); k1 *= c2; h1 ^= k1;
         h1 = ROTL32(h1,19); h1 += h2; h1 = h1*5+0x561ccd1b;
         k2 *= c2; k2  = ROTL32(k2,16); k2 *= c3; h2 ^= k2;
@@ -600,19 +603,19 @@ static uint64_t MM86128(const void *key, const int len, uint32_t seed) {
     case 13: k4 ^= tail[12] << 0;
              k4 *= c4; k4  = ROTL32(k4,18); k4 *= c1; h4 ^= k4;
              /* fall through */
-    case 12: k3 ^= tail[11] << 24; /* fall through */
+    case 12: k3 ^= (uint32_t)tail[11] << 24; /* fall through */
     case 11: k3 ^= tail[10] << 16; /* fall through */
     case 10: k3 ^= tail[ 9] << 8; /* fall through */
     case  9: k3 ^= tail[ 8] << 0;
              k3 *= c3; k3  = ROTL32(k3,17); k3 *= c4; h3 ^= k3;
              /* fall through */
-    case  8: k2 ^= tail[ 7] << 24; /* fall through */
+    case  8: k2 ^= (uint32_t)tail[7] << 24; /* fall through */
     case  7: k2 ^= tail[ 6] << 16; /* fall through */
     case  6: k2 ^= tail[ 5] << 8; /* fall through */
     case  5: k2 ^= tail[ 4] << 0;
              k2 *= c2; k2  = ROTL32(k2,16); k2 *= c3; h2 ^= k2;
              /* fall through */
-    case  4: k1 ^= tail[ 3] << 24; /* fall through */
+    case  4: k1 ^= (uint32_t)tail[3] << 24; /* fall through */
     case  3: k1 ^= tail[ 2] << 16; /* fall through */
     case  2: k1 ^= tail[ 1] << 8; /* fall through */
     case  1: k1 ^= tail[ 0] << 0;
-- 
2.43.0


From 5c61a2e51b3c6793fe5de17e00dddda6addde5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:39 +0000
Subject: [PATCH 51/68] fix: data block of a refused memcache command was
 executed as commands

A storage command that is refused because of its key, flags, exptime or
options was answered with an error while its data block was taken for the
next commands.
---
 src/conn.c     |  4 ++++
 src/memcache.c | 30 +++++++++++++++++++++++++++++-
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/conn.c b/src/conn.c
index 9ea2816..3f6a4dc 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -134,6 +134,10 @@ void evdata(struct net_conn *conn5, const void *evdata, size_t evlen,
                 // character position to continue and revert back to it so
                 // we can attempt to continue to the next command.
                 n = parse_lastmc_n();
+                if (n == 0) {
+                    conn_close(conn);
+                    break;
+                }
             } else {
                 // Close on protocol error
                 conn_close(conn);
diff --git a/src/memcache.c b/src/memcache.c
index 14b8a7d..5588d6b 100644
--- a/src/memcache.c
+++ b/src/memcache.c
@@ -20,6 +20,8 @@
 
 static __thread size_t mc_n = 0;
 
+// Returns the number of bytes to skip following a protocol error, or zero when
+// it's not possible to continue with the next command.
 size_t parse_lastmc_n(void) {
     return mc_n;
 }
@@ -91,6 +93,26 @@ static ssize_t parse_memcache_telnet(const char *data, size_t len,
     return 0;
 }
 
+// Storage commands are followed by a data block. Returns false when the block
+// is not completely available yet, otherwise a command that is found to be
+// invalid is skipped together with its data block. There's no skipping over a
+// block that is too large, see parse_lastmc_n.
+static bool mc_has_block(struct args *args, size_t len, size_t n) {
+    int64_t x;
+    if (!argi64(args, 4, &x) || x < 0) {
+        return true;
+    }
+    if (x > MAXARGSZ) {
+        mc_n = 0;
+        return true;
+    }
+    if (len-n < (size_t)x+2) {
+        return false;
+    }
+    mc_n = n+x+2;
+    return true;
+}
+
 ssize_t parse_memcache(const char *data, size_t len, struct args *args, 
     bool *noreply)
 {
@@ -119,6 +141,10 @@ ssize_t parse_memcache(const char *data, size_t len, struct args *args,
     // Check for common set-5 (allows for expiry)
     if (args->len == 5 && arg_const_eq(args, 0, "set")) {
         if (args->bufs[2].len == 1 && args->bufs[2].data[0] == '0') {
+            int64_t x;
+            if (!mc_has_block(args, len, n)) {
+                return 0;
+            }
             if (!mc_valid_key(args, 1)) {
                 if (args->bufs[1].len == 0) {
                     return -1;
@@ -127,7 +153,6 @@ ssize_t parse_memcache(const char *data, size_t len, struct args *args,
                 return -1;
             }
             bool expset = false;
-            int64_t x;
             if (!(args->bufs[3].len == 1 && args->bufs[3].data[0] == '0')) {
                 if (!argi64(args, 3, &x)) {
                     parse_seterror(CLIENT_ERROR_BAD_FORMAT);
@@ -213,6 +238,9 @@ ssize_t parse_memcache(const char *data, size_t len, struct args *args,
             return -1;
         }
     set_plus:
+        if (!mc_has_block(args, len, n)) {
+            return 0;
+        }
         // check all values before continuing
         if (!mc_valid_key(args, 1)) {
             parse_seterror(CLIENT_ERROR_BAD_FORMAT);
-- 
2.43.0


From efae201c1bdd2bddc8d0b90ce1f32e2ab68555ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 52/68] fix: work path leaked when a save could not create its
 file

---
 src/save.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/save.c b/src/save.c
index 54bbdbd..83208b6 100644
--- a/src/save.c
+++ b/src/save.c
@@ -167,6 +167,9 @@ static int save0(const char *path, bool fast) {
     }
     int fd = open(workpath, O_RDWR|O_CREAT, S_IRUSR|S_IRGRP|S_IROTH);
     if (fd == -1) {
+        int errnum = errno;
+        xfree(workpath);
+        errno = errnum;
         return -1;
     }
     int nshards = pogocache_nshards(cache);
-- 
2.43.0


From 39308ee51ed31f932068923f9925f3e05286ae0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 53/68] fix: commands sent right after the MONITOR reply were
 not shown

---
 src/cmds.c    | 1 -
 src/monitor.c | 2 ++
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cmds.c b/src/cmds.c
index 057a66a..c08384f 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -1569,7 +1569,6 @@ static void cmdMONITOR(struct conn *conn, struct args *args) {
         conn_write_error(conn, ERR_WRONG_NUM_ARGS);
         return;
     }
-    conn_write_string(conn, "OK");
     struct monitor_ctx *ctx = xmalloc(sizeof(struct monitor_ctx));
     memset(ctx, 0, sizeof(struct monitor_ctx));
     ctx->conn = conn;
diff --git a/src/monitor.c b/src/monitor.c
index 6f4762c..727426f 100644
--- a/src/monitor.c
+++ b/src/monitor.c
@@ -127,6 +127,8 @@ void monitor_start(struct conn *conn) {
     }
     conns[conns_len++] = (struct monitor){ .conn = conn };
     atomic_fetch_add(&monitoring, 1);
+    // The commands which follow this reply are all shown.
+    monitor_append(&conns[conns_len-1], "+OK\r\n", 5);
     pthread_mutex_unlock(&mu);
 }
 
-- 
2.43.0


From 182f42110aba02d5796b2de58d087f8e1ca623cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:48 +0000
Subject: [PATCH 54/68] fix: a monitor was closed when its pings arrived split
 or together

---
 src/cmds.c | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/cmds.c b/src/cmds.c
index c08384f..3187e0f 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -1523,7 +1523,9 @@ static void monitor_work(void *udata) {
     char pkt[4096];
     monitor_start(conn);
     struct args args = { 0 };
-    while (monitor_wait(conn)) {
+    struct buf in = { 0 }; // a command may arrive in pieces
+    bool ok = true;
+    while (ok && monitor_wait(conn)) {
         ssize_t n = conn_read(conn, pkt, sizeof(pkt));
         if (n == -1 && errno == EAGAIN) {
             continue;
@@ -1531,24 +1533,30 @@ static void monitor_work(void *udata) {
         if (n <= 0) {
             break;
         }
-        args_clear(&args);
-        ssize_t nn;
-        if (pkt[0] == '*') {
-            nn = parse_resp(pkt, n, &args);
-        } else {
-            nn = parse_resp_telnet(pkt, n, &args);
-        }
-        if (nn != n) {
-            break;
-        }
-        if (args.len == 0) {
-            continue;
-        } else if (args_eq(&args, 0, "ping")) {
-            monitor_write(conn, "+PONG\r\n", 7);
-        } else {
-            break;
+        buf_append(&in, pkt, n);
+        size_t i = 0;
+        while (ok && i < in.len) {
+            args_clear(&args);
+            ssize_t nn;
+            if (in.data[i] == '*') {
+                nn = parse_resp(in.data+i, in.len-i, &args);
+            } else {
+                nn = parse_resp_telnet(in.data+i, in.len-i, &args);
+            }
+            if (nn == 0) {
+                break;
+            }
+            if (nn < 0 || (args.len > 0 && !args_eq(&args, 0, "ping"))) {
+                ok = false;
+            } else if (args.len > 0) {
+                monitor_write(conn, "+PONG\r\n", 7);
+            }
+            i += nn < 0 ? 0 : nn;
         }
+        in.len -= i;
+        memmove(in.data, in.data+i, in.len);
     }
+    buf_clear(&in);
     args_free(&args);
     monitor_stop(conn);
 }
-- 
2.43.0


From 26353992dc5820c899b840ba41de98edddd1e5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:04 +0000
Subject: [PATCH 55/68] fix: a doubled quote ended an escape string of a
 Postgres statement

E'it''s' was read as two strings, it and s, which were passed as two
arguments of a simple query and lost the quote in a prepared statement.
---
 src/postgres.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/postgres.c b/src/postgres.c
index 9f5ea9b..b5c7df9 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -381,6 +381,7 @@ static inline int encode_codepoint(uint8_t dst[], uint32_t cp) {
     for (size_t ii = 0; ii < nn; ii++) { \
         if ((jstr)[ii] != '\\') { \
             ch = (jstr)[ii]; \
+            ii += ch == '\''; /* doubled quote */ \
             if (1) f \
             continue; \
         }; \
@@ -599,7 +600,11 @@ static bool parse_query_args(const char *query, struct args *args,
                             x++;
                         }
                         if ((x%2)==0) {
-                            break;
+                            if (*(p+1) != '\'') {
+                                break;
+                            }
+                            esc = true;
+                            p++;
                         }
                     }
                     p++;
-- 
2.43.0


From 5e0f02ed15e993b6642e5400451c904871d30dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:04 +0000
Subject: [PATCH 56/68] fix: a Postgres portal executed a statement parsed
 after its bind

The portal held only the name of its statement. When the statement (such
as the unnamed one) was parsed anew before the Execute, the new text ran
with the parameters bound to the old one. A bind to a statement that does
not exist is now refused right away.
---
 src/postgres.c | 23 ++++++++++++++++-------
 src/postgres.h |  2 +-
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/postgres.c b/src/postgres.c
index b5c7df9..686a536 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -167,6 +167,7 @@ static void pg_statement_free(struct pg_statement *statement) {
 
 
 static void pg_portal_free(struct pg_portal *portal) {
+    pg_statement_free(&portal->stmt);
     args_free(&portal->params);
 }
 
@@ -931,9 +932,22 @@ static size_t parseB(const char *data, size_t len, struct args *args,
         pg->error = 1;
         return len;
     }
+    struct pg_statement stmt;
+    if (!statement_get(pg, stmt_name, &stmt)) {
+        parse_seterror("statement not found");
+        pg->error = 1;
+        return len;
+    }
     struct pg_portal portal = { 0 };
     strcpy(portal.name, portal_name);
-    strcpy(portal.stmt, stmt_name);
+    // The portal keeps the statement as it is now. Another Parse may replace
+    // it before the portal is executed.
+    portal.stmt.nparams = stmt.nparams;
+    for (size_t i = 0; i < stmt.args.len; i++) {
+        args_append(&portal.stmt.args, stmt.args.bufs[i].data,
+            stmt.args.bufs[i].len, false);
+    }
+    buf_append(&portal.stmt.argtypes, stmt.argtypes.data, stmt.argtypes.len);
     memcpy(&portal.params, &pg->targs, sizeof(struct args));
     memset(&pg->targs, 0, sizeof(struct args));
     portal_insert(pg, &portal);
@@ -969,12 +983,7 @@ static size_t parseE(const char *data, size_t len, struct args *args,
         pg->error = 1;
         return len;
     }
-    struct pg_statement stmt;
-    if (!statement_get(pg, portal.stmt, &stmt)) {
-        parse_seterror("statement not found");
-        pg->error = 1;
-        return len;
-    }
+    struct pg_statement stmt = portal.stmt;
     if ((size_t)stmt.nparams != portal.params.len) {
         parse_seterror("portal params mismatch");
         pg->error = 1;
diff --git a/src/postgres.h b/src/postgres.h
index a8674d8..32c5374 100644
--- a/src/postgres.h
+++ b/src/postgres.h
@@ -24,7 +24,7 @@ struct pg_statement {
 
 struct pg_portal {
     char name[PGNAMEDATALEN];
-    char stmt[PGNAMEDATALEN];
+    struct pg_statement stmt; // the statement at the time of the bind
     struct args params;
 };
 
-- 
2.43.0


From f444aad20e1fc503e8a54a1dd998eb96eb36b0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:04 +0000
Subject: [PATCH 57/68] fix: executing an empty Postgres statement got no reply

The Execute of an empty statement is answered by EmptyQueryResponse, like
an empty simple query.
---
 src/postgres.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/postgres.c b/src/postgres.c
index 686a536..48b6bc5 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -1046,6 +1046,7 @@ static size_t parseE(const char *data, size_t len, struct args *args,
 #endif
 
     pg->execute = 1;
+    pg->empty_query = args->len == 0;
     return len;
 internal_error:
     parse_seterror("portal params internal error");
@@ -1454,7 +1455,7 @@ bool pg_respond(struct conn *conn, struct pg *pg) {
     if (pg->empty_query) {
         dprintf("====== pg_respond(pg->empty_query) =====\n");
         conn_write_raw(conn, "I\0\0\0\4", 5);
-        conn_write_raw(conn, "Z\0\0\0\5I", 6);
+        pg_write_ready(conn, 'I');
         pg->empty_query = 0;
         return true;
     }
-- 
2.43.0


From 499173ba2c2c2adcd2f6b12d3275d275c1e097f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:04 +0000
Subject: [PATCH 58/68] fix: no ReadyForQuery for a simple Postgres query after
 an Execute

A simple query that came after Execute without a Sync in between was
never answered by ReadyForQuery, the client waited forever.
---
 src/postgres.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/postgres.c b/src/postgres.c
index 48b6bc5..41a5031 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -707,6 +707,8 @@ static size_t parseQ(const char *data, size_t len, struct args *args,
     parse_begin();
     const char *query = parse_cstr();
     parse_end();
+    // A simple query is always followed by ReadyForQuery.
+    pg->execute = 0;
     int nparams = 0;
     bool pok = parse_cache_query_args(query, args, &nparams, 0);
     if (!pok) {
-- 
2.43.0


From b942e8f7dbfc6b518d92e177242065cd5853ba4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 59/68] fix: --quickack set the priority of the sockets instead
 of quickack

TCP_QUICKACK was passed at the level SOL_SOCKET, where its number means
SO_PRIORITY. Without the option the setting of the system is left alone.
---
 src/net.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/net.c b/src/net.c
index a17f443..c794332 100644
--- a/src/net.c
+++ b/src/net.c
@@ -76,8 +76,11 @@ static int settcpnodelay(int fd, bool nodelay) {
 
 static int setquickack(int fd, bool quickack) {
 #if defined(__linux__)
+    if (!quickack) {
+        return 0;
+    }
     int val = quickack;
-    return setsockopt(fd, SOL_SOCKET, TCP_QUICKACK, &val, sizeof(val));
+    return setsockopt(fd, IPPROTO_TCP, TCP_QUICKACK, &val, sizeof(val));
 #else
     (void)fd, (void)quickack;
     return 0;
-- 
2.43.0


From 8986c839fddc524edb44b8b403dc3bd8bafba4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 60/68] fix: crash at start with a host that has no IPv4
 address

---
 src/net.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/net.c b/src/net.c
index c794332..11b289f 100644
--- a/src/net.c
+++ b/src/net.c
@@ -1014,10 +1014,13 @@ static int listen_tcp(const char *host, const char *port, bool reuseport,
         exit(1);
     }
     struct addrinfo *ainfo = addrs;
-    while (ainfo->ai_family != PF_INET) {
+    while (ainfo && ainfo->ai_family != PF_INET) {
         ainfo = ainfo->ai_next;
     }
-    assert(ainfo);
+    if (!ainfo) {
+        fprintf(stderr, "# no ipv4 address: %s:%s\n", host, port);
+        exit(1);
+    }
     int fd = socket(ainfo->ai_family, ainfo->ai_socktype, ainfo->ai_protocol);
     if (fd == -1) {
         perror("# socket(tcp)");
-- 
2.43.0


From 6ea12fd6ddff1a45a0ba725ba8a0dbdd6bc0aba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 61/68] fix: a long unix socket path was cut off and another
 file was bound

---
 src/net.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/net.c b/src/net.c
index 11b289f..4abd7fe 100644
--- a/src/net.c
+++ b/src/net.c
@@ -1065,6 +1065,10 @@ static int listen_unixsock(const char *unixsock, int backlog) {
         return 0;
     }
     struct sockaddr_un unaddr;
+    if (strlen(unixsock) >= sizeof(unaddr.sun_path)) {
+        fprintf(stderr, "# unix socket path too long: %s\n", unixsock);
+        exit(1);
+    }
     int fd = socket(AF_UNIX, SOCK_STREAM, 0);
     if (fd == -1) {
         perror("# socket(unix)");
-- 
2.43.0


From 59515c35ef43db188a69ea44638501a5f51542ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:45 +0000
Subject: [PATCH 62/68] fix: a memory limit beyond the range of size_t became
 no memory at all

---
 src/main.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/main.c b/src/main.c
index ba01d89..8a9ef8a 100644
--- a/src/main.c
+++ b/src/main.c
@@ -186,6 +186,11 @@ static void showversion(FILE *file) {
 #endif
 }
 
+// A limit that cannot be represented is no limit.
+static size_t clamp_memlimit(double mem) {
+    return mem < (double)SIZE_MAX ? (size_t)mem : SIZE_MAX;
+}
+
 static size_t calc_memlimit(char *maxmemory) {
     if (strcmp(maxmemory, "unlimited") == 0) {
         return SIZE_MAX;
@@ -207,17 +212,17 @@ static size_t calc_memlimit(char *maxmemory) {
         (tolower(end[0])==c&& (!end[1]||(tolower(end[1])=='b'&&!end[2])))
 
     if (strcmp(end, "") == 0) {
-        return mem;
+        return clamp_memlimit(mem);
     } else if (strcmp(end, "%") == 0) {
-        return (((double)mem)/100.0) * sysmem;
+        return clamp_memlimit((((double)mem)/100.0) * sysmem);
     } else if (exteq('k')) {
-        return mem*1024.0;
+        return clamp_memlimit(mem*1024.0);
     } else if (exteq('m')) {
-        return mem*1024.0*1024.0;
+        return clamp_memlimit(mem*1024.0*1024.0);
     } else if (exteq('g')) {
-        return mem*1024.0*1024.0*1024.0;
+        return clamp_memlimit(mem*1024.0*1024.0*1024.0);
     } else if (exteq('t')) {
-        return mem*1024.0*1024.0*1024.0*1024.0;
+        return clamp_memlimit(mem*1024.0*1024.0*1024.0*1024.0);
     }
 fail:
     fprintf(stderr, "# Invalid maxmemory '%s'\n", oval);
-- 
2.43.0


From 2e1cc22c2e777d87fb208dc308b76340434c6c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:18 +0000
Subject: [PATCH 63/68] fix: repeated ASYNC commands filled the process with
 threads

---
 src/cmds.c | 89 ++++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 76 insertions(+), 13 deletions(-)

diff --git a/src/cmds.c b/src/cmds.c
index 3187e0f..6d8a2a1 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -679,6 +679,53 @@ static void cmdDBSIZE(struct conn *conn, struct args *args) {
     }
 }
 
+// Commands of one kind that work in the background and are not waited for.
+// There is one at a time, and a command that arrives while another is yet to
+// start is done by that one. Otherwise a client that repeats such a command
+// faster than it is done fills the process with threads.
+struct asyncwork {
+    pthread_mutex_t lock;    // held while working
+    pthread_mutex_t order;   // protects pending
+    bool pending;            // ordered, but not started
+};
+
+#define ASYNCWORK_INITIALIZER \
+    { .lock = PTHREAD_MUTEX_INITIALIZER, .order = PTHREAD_MUTEX_INITIALIZER }
+
+static struct asyncwork asyncflush = ASYNCWORK_INITIALIZER;
+static struct asyncwork asyncsweep = ASYNCWORK_INITIALIZER;
+static struct asyncwork asyncpurge = ASYNCWORK_INITIALIZER;
+
+// Starts a thread for the work. The thread then owns arg.
+// Returns 1 if started, 0 if not needed, or -1 if failed.
+static int async_start(struct asyncwork *work, void *(*fn)(void *), void *arg) {
+    int ret = 0;
+    pthread_mutex_lock(&work->order);
+    if (!work->pending) {
+        pthread_t th;
+        if (pthread_create(&th, 0, fn, arg) == 0) {
+            pthread_detach(th);
+            work->pending = true;
+            ret = 1;
+        } else {
+            ret = -1;
+        }
+    }
+    pthread_mutex_unlock(&work->order);
+    return ret;
+}
+
+static void async_begin(struct asyncwork *work) {
+    pthread_mutex_lock(&work->lock);
+    pthread_mutex_lock(&work->order);
+    work->pending = false;
+    pthread_mutex_unlock(&work->order);
+}
+
+static void async_end(struct asyncwork *work) {
+    pthread_mutex_unlock(&work->lock);
+}
+
 struct flushctx { 
     int64_t delay;
     bool fast;
@@ -776,8 +823,12 @@ static void *thflush0(void *arg) {
     if (ctx->delay > 0) {
         printf(". flush scheduled in %lld seconds\n", (long long)ctx->delay);
         sleep(ctx->delay);
+        flush_work(ctx);
+    } else {
+        async_begin(&asyncflush);
+        flush_work(ctx);
+        async_end(&asyncflush);
     }
-    flush_work(ctx);
     xfree(ctx);
     return 0;
 }
@@ -827,14 +878,25 @@ static void cmdFLUSHALL(struct conn *conn, struct args *args) {
     ctx->fast = fast;
     ctx->delay = delay;
     if (async) {
-        pthread_t th;
-        int ret = pthread_create(&th, 0, thflush0, ctx);
-        if (ret != 0) {
+        int ret;
+        if (delay > 0) {
+            pthread_t th;
+            ret = pthread_create(&th, 0, thflush0, ctx) == 0 ? 1 : -1;
+            if (ret == 1) {
+                pthread_detach(th);
+            }
+        } else {
+            ret = async_start(&asyncflush, thflush0, ctx);
+        }
+        if (ret == -1) {
             xfree(ctx);
             conn_write_error(conn, "ERR failed to do work");
             return;
         }
-        pthread_detach(th);
+        if (ret == 0) {
+            stat_cmd_flush_incr(0);
+            xfree(ctx);
+        }
         if (conn_proto(conn) == PROTO_POSTGRES) {
             pg_write_completef(conn, "%s ASYNC", cmdname);
             pg_write_ready(conn, 'I');
@@ -1204,7 +1266,9 @@ static void sweep_done(struct conn *conn, void *udata) {
 
 static void *thsweep0(void *arg) {
     struct sweepctx *ctx = arg;
+    async_begin(&asyncsweep);
     sweep_work(ctx);
+    async_end(&asyncsweep);
     xfree(ctx);
     return 0;
 }
@@ -1231,14 +1295,14 @@ static void cmdSWEEP(struct conn *conn, struct args *args) {
     memset(ctx, 0, sizeof(struct sweepctx));
     ctx->fast = fast;
     if (async) {
-        pthread_t th;
-        int ret = pthread_create(&th, 0, thsweep0, ctx);
-        if (ret != 0) {
+        int ret = async_start(&asyncsweep, thsweep0, ctx);
+        if (ret != 1) {
             xfree(ctx);
+        }
+        if (ret == -1) {
             conn_write_error(conn, "ERR failed to do work");
             return;
         }
-        pthread_detach(th);
         if (conn_proto(conn) == PROTO_POSTGRES) {
             pg_write_completef(conn, "SWEEP ASYNC");
             pg_write_ready(conn, 'I');
@@ -1274,7 +1338,9 @@ static void purge_done(struct conn *conn, void *udata) {
 
 static void *thpurge(void *arg) {
     (void)arg;
+    async_begin(&asyncpurge);
     purge_work(0);
+    async_end(&asyncpurge);
     return 0;
 }
 
@@ -1294,13 +1360,10 @@ static void cmdPURGE(struct conn *conn, struct args *args) {
         }
     }
     if (async) {
-        pthread_t th;
-        int ret = pthread_create(&th, 0, thpurge, 0);
-        if (ret != 0) {
+        if (async_start(&asyncpurge, thpurge, 0) == -1) {
             conn_write_error(conn, "ERR failed to do work");
             return;
         }
-        pthread_detach(th);
         if (conn_proto(conn) == PROTO_POSTGRES) {
             pg_write_completef(conn, "PURGE ASYNC");
             pg_write_ready(conn, 'I');
-- 
2.43.0


From 81bce137f29b18681d1079ed6eee62ebcfc24ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:18 +0000
Subject: [PATCH 64/68] fix: the process aborted when it ran out of file
 descriptors

---
 src/sys.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/sys.c b/src/sys.c
index 0b9fa74..bccd795 100644
--- a/src/sys.c
+++ b/src/sys.c
@@ -200,18 +200,26 @@ void sys_getmeminfo(struct sys_meminfo *info) {
 }
 #elif __linux__
 void sys_getmeminfo(struct sys_meminfo *info) {
+    // The most recent values are used when there are no more file descriptors.
+    static atomic_ulong last_vm_pages, last_rss_pages;
+    unsigned long vm_pages, rss_pages;
     FILE *f = fopen("/proc/self/statm", "r");
-    if (!f) {
+    if (f) {
+        long x = fscanf(f, "%lu %lu", &vm_pages, &rss_pages);
+        fclose(f);
+        if (x != 2) {
+            perror("# read /proc/self/statm");
+            abort();
+        }
+        atomic_store(&last_vm_pages, vm_pages);
+        atomic_store(&last_rss_pages, rss_pages);
+    } else if (errno == EMFILE || errno == ENFILE) {
+        vm_pages = atomic_load(&last_vm_pages);
+        rss_pages = atomic_load(&last_rss_pages);
+    } else {
         perror("# open /proc/self/statm");
         abort();
     }
-    unsigned long vm_pages, rss_pages;
-    long x = fscanf(f, "%lu %lu", &vm_pages, &rss_pages);
-    fclose(f);
-    if (x != 2) {
-        perror("# read /proc/self/statm");
-        abort();
-    }
 
     // Get the system page size (in bytes)
     size_t page_size = sysconf(_SC_PAGESIZE);
-- 
2.43.0


From cd736db413c17832ed2ce4cdd2c7daa0f4ca79cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:30 +0000
Subject: [PATCH 65/68] fix: the process ended when a save ran out of file
 descriptors

---
 src/sys.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/sys.c b/src/sys.c
index bccd795..b3d54c1 100644
--- a/src/sys.c
+++ b/src/sys.c
@@ -129,6 +129,13 @@ uint64_t sys_seed(void) {
     if (nseeds == 0) {
         // Generate a group of new seeds
         FILE *f = fopen("/dev/urandom", "rb");
+        if (!f && (errno == EMFILE || errno == ENFILE)) {
+            // Out of file descriptors
+            static atomic_uint_fast64_t next = 0;
+            uint64_t seed = (uint64_t)sys_unixnow() + atomic_fetch_add(&next, 1);
+            seed *= UINT64_C(0x9E3779B97F4A7C15);
+            return seed ^ (seed >> 32);
+        }
         if (!f) {
             perror("# /dev/urandom");
             exit(1);
-- 
2.43.0


From da3eb38a15b63f2b1fd3d769f61f3b8e4ea922d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:39 +0000
Subject: [PATCH 66/68] fix: negative number behind white space was accepted as
 an unsigned number

---
 src/util.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util.c b/src/util.c
index d16b80a..49a0f73 100644
--- a/src/util.c
+++ b/src/util.c
@@ -328,7 +328,8 @@ bool parse_u64(const char *data, size_t len, uint64_t *x) {
     }
     memcpy(buf, data, len);
     buf[len] = '\0';
-    if (buf[0] == '-') {
+    if (memchr(buf, '-', len)) {
+        // also when there's white space in front of it
         return false;
     }
     errno = 0;
-- 
2.43.0


From a417c72cce93c1e66070e127f7a4c5d6c2b5ef9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:58 +0000
Subject: [PATCH 67/68] fix: a flush with SYNC after DELAY ran without the
 delay

---
 src/cmds.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/cmds.c b/src/cmds.c
index 6d8a2a1..deca26c 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -862,16 +862,15 @@ static void cmdFLUSHALL(struct conn *conn, struct args *args) {
                 conn_write_error(conn, "ERR invalid delay argument");
                 return;
             }
-            if (delay > 0) {
-                async = true;
-            } else {
-                delay = 0;
-            }
         } else {
             conn_write_error(conn, ERR_SYNTAX_ERROR);
             return;
         }
     }
+    if (delay > 0) {
+        // A delayed flush always runs in the background.
+        async = true;
+    }
     struct flushctx *ctx = xmalloc(sizeof(struct flushctx));
     memset(ctx, 0, sizeof(struct flushctx));
     ctx->cmdname = cmdname;
-- 
2.43.0


From 5bcabe41d194e6449b77a97b38fc2a2b685a8b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:22 +0000
Subject: [PATCH 68/68] fix: the comment of the save lock gave the wrong reason
 for it

---
 src/save.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index 83208b6..45dbb77 100644
--- a/src/save.c
+++ b/src/save.c
@@ -237,7 +237,8 @@ done:
     return ok ? 0 : -1;
 }
 
-// Save cache to path. One at a time, because saves share a work file.
+// Save cache to path. One at a time, otherwise a slow save would replace the
+// newer file of a save that began after it and ended before it.
 int save(const char *path, bool fast) {
     static pthread_mutex_t savelock = PTHREAD_MUTEX_INITIALIZER;
     pthread_mutex_lock(&savelock);
-- 
2.43.0

