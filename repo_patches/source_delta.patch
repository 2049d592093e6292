From 44d2f295ce449252303ebcc9c5ad1985a5453222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 01/32] fix: SearchDoc and SearchID panic on a counting request

---
 engine.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/engine.go b/engine.go
index 5a83df7..fcf416e 100755
--- a/engine.go
+++ b/engine.go
@@ -739,9 +739,11 @@ func (engine *Engine) Ranks(request types.SearchReq, rankOpts types.RankOpts,
 // This function is thread safe, return not IDonly
 func (engine *Engine) SearchDoc(request types.SearchReq) (output types.SearchDoc) {
 	resp := engine.Search(request)
+	// Docs is nil when only counting
+	docs, _ := resp.Docs.(types.ScoredDocs)
 	return types.SearchDoc{
 		BaseResp: resp.BaseResp,
-		Docs:     resp.Docs.(types.ScoredDocs),
+		Docs:     docs,
 	}
 }
 
@@ -750,9 +752,11 @@ func (engine *Engine) SearchDoc(request types.SearchReq) (output types.SearchDoc
 func (engine *Engine) SearchID(request types.SearchReq) (output types.SearchID) {
 	// return types.SearchID(engine.Search(request))
 	resp := engine.Search(request)
+	// Docs is nil when only counting
+	docs, _ := resp.Docs.(types.ScoredIDs)
 	return types.SearchID{
 		BaseResp: resp.BaseResp,
-		Docs:     resp.Docs.(types.ScoredIDs),
+		Docs:     docs,
 	}
 }
 
-- 
2.43.0


From 0eafc81625db4eb754d0b638ace853b18aa542a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 02/32] fix: a search by labels only panics on a LocsIndex
 index

---
 core/indexer.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/core/indexer.go b/core/indexer.go
index ac9fc56..c2cc5b6 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -506,17 +506,20 @@ func (indexer *Indexer) internalLookup(
 					continue
 				}
 
-				// 计算搜索键在文档中的紧邻距离
-				tokenProximity, TokenLocs := computeTokenProximity(
-					table[:len(tokens)], indexPointers, tokens)
-
-				indexedDoc.TokenProximity = int32(tokenProximity)
-				indexedDoc.TokenSnippetLocs = TokenLocs
-
-				// 添加 TokenLocs
-				indexedDoc.TokenLocs = make([][]int, len(tokens))
-				for i, t := range table[:len(tokens)] {
-					indexedDoc.TokenLocs[i] = t.locations[indexPointers[i]]
+				// 仅有标签时没有紧邻距离
+				if len(tokens) > 0 {
+					// 计算搜索键在文档中的紧邻距离
+					tokenProximity, TokenLocs := computeTokenProximity(
+						table[:len(tokens)], indexPointers, tokens)
+
+					indexedDoc.TokenProximity = int32(tokenProximity)
+					indexedDoc.TokenSnippetLocs = TokenLocs
+
+					// 添加 TokenLocs
+					indexedDoc.TokenLocs = make([][]int, len(tokens))
+					for i, t := range table[:len(tokens)] {
+						indexedDoc.TokenLocs[i] = t.locations[indexPointers[i]]
+					}
 				}
 			}
 
-- 
2.43.0


From 114426d962eb7f801baed270525598505b685109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 03/32] fix: concurrent and overflowing index updates lose,
 resurrect or corrupt documents

AddDocToCache and RemoveDocToCache share caches and document states across
several critical sections; running them at the same time lets one see the
other half way, and the swap that partitions the add cache loses the order in
which one document was added twice. Run the whole update under one lock, keep
the order, hand out copies of the caches, and remove first when the add cache
is full of documents waiting for their removal.
---
 core/indexer.go | 47 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/core/indexer.go b/core/indexer.go
index c2cc5b6..97b71fe 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -31,6 +31,10 @@ import (
 
 // Indexer 索引器
 type Indexer struct {
+	// 串行化 ADDCACHE/REMOVECACHE 到反向索引表的整个更新过程，
+	// 否则并发的更新会互相看到对方处理到一半的缓存和文档状态
+	updateLock sync.Mutex
+
 	// 从搜索键到文档列表的反向索引
 	// 加了读写锁以保证读写安全
 	tableLock struct {
@@ -118,6 +122,9 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 		log.Fatal("The Indexer has not been initialized.")
 	}
 
+	indexer.updateLock.Lock()
+	defer indexer.updateLock.Unlock()
+
 	indexer.addCacheLock.Lock()
 	if doc != nil {
 		indexer.addCacheLock.addCache[indexer.addCacheLock.addCachePointer] = doc
@@ -126,9 +133,12 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 
 	docSize := indexer.addCacheLock.addCachePointer >= indexer.initOptions.DocCacheSize
 	if docSize || forceUpdate {
+		// waiting: 需等旧文档删除后才可加入的文档，ready: 可直接加入的文档
+		// 两者都保持加入的先后顺序，同一文档以最后一次加入的为准
+		var waiting, ready types.DocsIndex
+
 		indexer.tableLock.Lock()
 
-		position := 0
 		for i := 0; i < indexer.addCacheLock.addCachePointer; i++ {
 			docIndex := indexer.addCacheLock.addCache[i]
 
@@ -136,11 +146,6 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 			if ok && docState <= 1 {
 				// ok && docState == 0 表示存在于索引中，需先删除再添加
 				// ok && docState == 1 表示不一定存在于索引中，等待删除，需先删除再添加
-				if position != i {
-					indexer.addCacheLock.addCache[position], indexer.addCacheLock.addCache[i] =
-						indexer.addCacheLock.addCache[i], indexer.addCacheLock.addCache[position]
-				}
-
 				if docState == 0 {
 					// delete docs
 					indexer.removeCacheLock.Lock()
@@ -152,23 +157,30 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 					indexer.tableLock.docsState[docIndex.DocId] = 1
 					indexer.numDocs--
 				}
-				position++
-			} else if !ok {
-				indexer.tableLock.docsState[docIndex.DocId] = 2
+				waiting = append(waiting, docIndex)
+			} else {
+				if !ok {
+					indexer.tableLock.docsState[docIndex.DocId] = 2
+				}
+				ready = append(ready, docIndex)
 			}
 		}
 
 		indexer.tableLock.Unlock()
-		if indexer.RemoveDocToCache("0", forceUpdate) {
+
+		addCachedDocs := ready
+		// ADDCACHE 已被等待的文档占满时也必须先删除，否则无处存放后续文档
+		cacheFull := len(waiting) >= indexer.initOptions.DocCacheSize
+		if indexer.removeDocToCache("0", forceUpdate || cacheFull) {
 			// 只有当存在于索引表中的文档已被删除，其才可以重新加入到索引表中
-			position = 0
+			addCachedDocs = append(waiting, ready...)
+			waiting = nil
 		}
 
-		addCachedDocs := indexer.addCacheLock.addCache[position:indexer.addCacheLock.addCachePointer]
-		indexer.addCacheLock.addCachePointer = position
+		indexer.addCacheLock.addCachePointer = copy(indexer.addCacheLock.addCache, waiting)
 
 		indexer.addCacheLock.Unlock()
-		sort.Sort(addCachedDocs)
+		sort.Stable(addCachedDocs)
 		indexer.AddDocs(&addCachedDocs)
 	} else {
 		indexer.addCacheLock.Unlock()
@@ -262,6 +274,13 @@ func (indexer *Indexer) RemoveDocToCache(docId string, forceUpdate bool) bool {
 		log.Fatal("The Indexer has not been initialized.")
 	}
 
+	indexer.updateLock.Lock()
+	defer indexer.updateLock.Unlock()
+	return indexer.removeDocToCache(docId, forceUpdate)
+}
+
+// removeDocToCache 同 RemoveDocToCache，调用者须持有 updateLock
+func (indexer *Indexer) removeDocToCache(docId string, forceUpdate bool) bool {
 	indexer.removeCacheLock.Lock()
 	if docId != "0" {
 		indexer.tableLock.Lock()
-- 
2.43.0


From 6dcc8e8e4e6ff54dda3dc9db8ebe38d42d04b2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 04/32] fix: HasDoc reads the index without its lock and grows
 the engine's indexers

Every call appended NumShards indexers to the engine, copying them (and their
locks) while the workers use them, and read docsState without the lock.
---
 core/indexer.go | 3 +++
 riot.go         | 3 ---
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/indexer.go b/core/indexer.go
index 97b71fe..ee7d3f5 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -103,6 +103,9 @@ func (indexer *Indexer) getDocId(ti *KeywordIndices, i int) string {
 
 // HasDoc doc is exist return true
 func (indexer *Indexer) HasDoc(docId string) bool {
+	indexer.tableLock.RLock()
+	defer indexer.tableLock.RUnlock()
+
 	docState, ok := indexer.tableLock.docsState[docId]
 	if ok && docState == 0 {
 		return true
diff --git a/riot.go b/riot.go
index ffc121b..be398b0 100644
--- a/riot.go
+++ b/riot.go
@@ -23,7 +23,6 @@ import (
 	"encoding/gob"
 
 	"github.com/go-ego/murmur"
-	"github.com/go-ego/riot/core"
 	"github.com/go-ego/riot/types"
 	toml "github.com/go-vgo/gt/conf"
 )
@@ -105,8 +104,6 @@ func NewEngine(conf ...interface{}) *Engine {
 // HasDoc if the document is exist return true
 func (engine *Engine) HasDoc(docId string) bool {
 	for shard := 0; shard < engine.initOptions.NumShards; shard++ {
-		engine.indexers = append(engine.indexers, core.Indexer{})
-
 		has := engine.indexers[shard].HasDoc(docId)
 
 		if has {
-- 
2.43.0


From 92af95f8ea7d3062bc9f357a9f52b8e4c53c6d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 05/32] fix: Flush returns before the rankers have taken the
 documents

Flush waited for the indexers only: a search right after it found the document
in the index and dropped it because the ranker did not have its fields yet, or
ranked it with the fields of the version it replaced.
---
 engine.go        | 8 +++++++-
 ranker_worker.go | 4 ++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index fcf416e..372802f 100755
--- a/engine.go
+++ b/engine.go
@@ -74,6 +74,8 @@ type Engine struct {
 	numForceUpdatingReqs uint64
 	numTokenIndexAdded   uint64
 	numDocsStored        uint64
+	numDocsRanked        uint64
+	numRankRemoved       uint64
 
 	// 记录初始化参数
 	initOptions types.EngineOpts
@@ -824,7 +826,11 @@ func (engine *Engine) Flush() {
 		nums := engine.numIndexingReqs == atomic.LoadUint64(&engine.numDocsStored)
 		stored := !engine.initOptions.UseStore || nums
 
-		if inxd && rmd && stored {
+		// 排序器同样须处理完全部请求，否则文档会在排序时被丢弃
+		ranked := engine.numIndexingReqs == atomic.LoadUint64(&engine.numDocsRanked) &&
+			numRm == atomic.LoadUint64(&engine.numRankRemoved)
+
+		if inxd && rmd && stored && ranked {
 			// 保证 CHANNEL 中 REQUESTS 全部被执行完
 			break
 		}
diff --git a/ranker_worker.go b/ranker_worker.go
index ef60590..bb352c4 100755
--- a/ranker_worker.go
+++ b/ranker_worker.go
@@ -16,6 +16,8 @@
 package riot
 
 import (
+	"sync/atomic"
+
 	"github.com/go-ego/riot/types"
 )
 
@@ -54,6 +56,7 @@ func (engine *Engine) rankerAddDoc(shard int) {
 			engine.rankers[shard].AddDoc(request.docId, request.fields,
 				request.content, request.attri)
 		}
+		atomic.AddUint64(&engine.numDocsRanked, 1)
 	}
 }
 
@@ -76,5 +79,6 @@ func (engine *Engine) rankerRemoveDoc(shard int) {
 	for {
 		request := <-engine.rankerRemoveDocChans[shard]
 		engine.rankers[shard].RemoveDoc(request.docId)
+		atomic.AddUint64(&engine.numRankRemoved, 1)
 	}
 }
-- 
2.43.0


From caa17505c571c122b4ad7ad69722a7c8fe9e343f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 06/32] fix: a removal reaches the store at an arbitrary later
 time

RemoveDoc deleted from the store in a goroutine nobody waits for: Flush and
Close returned before it ran, so a removed document came back on restart, a
later re-index of the same id could be deleted, and the delete could run on a
closed database.
---
 engine.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index 372802f..e4f21b5 100755
--- a/engine.go
+++ b/engine.go
@@ -460,7 +460,9 @@ func (engine *Engine) RemoveDoc(docId string, forceUpdate ...bool) {
 		// 从数据库中删除
 		hash := murmur.Sum32(docId) % uint32(engine.initOptions.StoreShards)
 
-		go engine.storeRemoveDoc(docId, hash)
+		// 不能另起协程异步删除：Flush 和 Close 无从等待它完成，
+		// 而它可能晚于之后对同一文档的写入，或在数据库关闭之后才执行
+		engine.storeRemoveDoc(docId, hash)
 	}
 }
 
-- 
2.43.0


From 4a48d3d0c251c24ff4b3dccfc74db027d3359904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 07/32] fix: the engine's counters are read without atomics

Flush, Init and the NumXxx methods read words that other goroutines add to
atomically: data races, and nothing forces Flush's loop to see them change.
---
 counters.go | 14 ++++++++------
 engine.go   | 14 +++++++-------
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/counters.go b/counters.go
index b625429..6a1d71f 100755
--- a/counters.go
+++ b/counters.go
@@ -15,32 +15,34 @@
 
 package riot
 
+import "sync/atomic"
+
 // NumTokenAdded added token index number
 func (engine *Engine) NumTokenAdded() uint64 {
-	return engine.numTokenIndexAdded
+	return atomic.LoadUint64(&engine.numTokenIndexAdded)
 }
 
 // NumIndexed documents indexed number
 func (engine *Engine) NumIndexed() uint64 {
-	return engine.numDocsIndexed
+	return atomic.LoadUint64(&engine.numDocsIndexed)
 }
 
 // NumRemoved documents removed number
 func (engine *Engine) NumRemoved() uint64 {
-	return engine.numDocsRemoved
+	return atomic.LoadUint64(&engine.numDocsRemoved)
 }
 
 // NumTokenIndexAdded added token index number, deprecated
 func (engine *Engine) NumTokenIndexAdded() uint64 {
-	return engine.numTokenIndexAdded
+	return atomic.LoadUint64(&engine.numTokenIndexAdded)
 }
 
 // NumDocsIndexed documents indexed number, deprecated
 func (engine *Engine) NumDocsIndexed() uint64 {
-	return engine.numDocsIndexed
+	return atomic.LoadUint64(&engine.numDocsIndexed)
 }
 
 // NumDocsRemoved documents removed number, deprecated
 func (engine *Engine) NumDocsRemoved() uint64 {
-	return engine.numDocsRemoved
+	return atomic.LoadUint64(&engine.numDocsRemoved)
 }
diff --git a/engine.go b/engine.go
index e4f21b5..d140930 100755
--- a/engine.go
+++ b/engine.go
@@ -219,7 +219,7 @@ func (engine *Engine) Store() {
 		runtime.Gosched()
 
 		inx := atomic.LoadUint64(&engine.numDocsIndexed)
-		numDoced := engine.numIndexingReqs == inx
+		numDoced := atomic.LoadUint64(&engine.numIndexingReqs) == inx
 
 		if numDoced {
 			break
@@ -354,7 +354,7 @@ func (engine *Engine) Init(options types.EngineOpts) {
 		engine.Store()
 	}
 
-	atomic.AddUint64(&engine.numDocsStored, engine.numIndexingReqs)
+	atomic.AddUint64(&engine.numDocsStored, atomic.LoadUint64(&engine.numIndexingReqs))
 }
 
 // IndexDoc add the document to the index
@@ -821,15 +821,15 @@ func (engine *Engine) Flush() {
 	for {
 		runtime.Gosched()
 
-		inxd := engine.numIndexingReqs == atomic.LoadUint64(&engine.numDocsIndexed)
-		numRm := engine.numRemovingReqs * uint64(engine.initOptions.NumShards)
+		inxd := atomic.LoadUint64(&engine.numIndexingReqs) == atomic.LoadUint64(&engine.numDocsIndexed)
+		numRm := atomic.LoadUint64(&engine.numRemovingReqs) * uint64(engine.initOptions.NumShards)
 		rmd := numRm == atomic.LoadUint64(&engine.numDocsRemoved)
 
-		nums := engine.numIndexingReqs == atomic.LoadUint64(&engine.numDocsStored)
+		nums := atomic.LoadUint64(&engine.numIndexingReqs) == atomic.LoadUint64(&engine.numDocsStored)
 		stored := !engine.initOptions.UseStore || nums
 
 		// 排序器同样须处理完全部请求，否则文档会在排序时被丢弃
-		ranked := engine.numIndexingReqs == atomic.LoadUint64(&engine.numDocsRanked) &&
+		ranked := atomic.LoadUint64(&engine.numIndexingReqs) == atomic.LoadUint64(&engine.numDocsRanked) &&
 			numRm == atomic.LoadUint64(&engine.numRankRemoved)
 
 		if inxd && rmd && stored && ranked {
@@ -843,7 +843,7 @@ func (engine *Engine) Flush() {
 	for {
 		runtime.Gosched()
 
-		numf := engine.numForceUpdatingReqs * uint64(engine.initOptions.NumShards)
+		numf := atomic.LoadUint64(&engine.numForceUpdatingReqs) * uint64(engine.initOptions.NumShards)
 		forced := numf == atomic.LoadUint64(&engine.numDocsForceUpdated)
 
 		if forced {
-- 
2.43.0


From 19324e3cfdf46c38afee7e7dfef584ea750a6421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:52 +0000
Subject: [PATCH 08/32] fix: re-indexing a document with new content leaves its
 old version searchable

The shard was chosen by hashing the id together with the content, so an update
of the content usually went to another shard: the old version stayed in the
index, searches returned the document twice or by words it no longer has, and
HasDoc, counts and BM25 counted both. A document keeps the shard it was first
indexed in.
---
 engine.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/engine.go b/engine.go
index d140930..cdcde89 100755
--- a/engine.go
+++ b/engine.go
@@ -77,6 +77,10 @@ type Engine struct {
 	numDocsRanked        uint64
 	numRankRemoved       uint64
 
+	// 每个文档用来分配 shard 的 hash，删除后也保留，因为删除是异步的
+	docHashLock sync.Mutex
+	docHashes   map[string]uint32
+
 	// 记录初始化参数
 	initOptions types.EngineOpts
 	initialized bool
@@ -413,10 +417,30 @@ func (engine *Engine) internalIndexDoc(docId string, data types.DocData,
 	}
 
 	hash := murmur.Sum32(fmt.Sprintf("%s%s", docId, data.Content))
+	if docId != "0" {
+		hash = engine.keepHash(docId, hash)
+	}
 	engine.segmenterChan <- segmenterReq{
 		docId: docId, hash: hash, data: data, forceUpdate: forceUpdate}
 }
 
+// keepHash 返回决定文档 shard 的 hash
+// 更新已有的文档时必须沿用其原来的 shard，否则旧版本会留在原来的 shard 中
+func (engine *Engine) keepHash(docId string, hash uint32) uint32 {
+	engine.docHashLock.Lock()
+	defer engine.docHashLock.Unlock()
+
+	if old, ok := engine.docHashes[docId]; ok {
+		return old
+	}
+
+	if engine.docHashes == nil {
+		engine.docHashes = make(map[string]uint32)
+	}
+	engine.docHashes[docId] = hash
+	return hash
+}
+
 // RemoveDoc remove the document from the index
 // 将文档从索引中删除
 //
-- 
2.43.0


From 2bf0fde6b0ad2089e8798f3fa05bf9817d409ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:29 +0000
Subject: [PATCH 09/32] fix: a search with a timeout waits without limit for a
 busy indexer

The deadline covered reading the results only; handing the request to a shard
whose lookup queue is full blocked for as long as the searches ahead of it ran.
---
 engine.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index cdcde89..ad63fc9 100755
--- a/engine.go
+++ b/engine.go
@@ -826,8 +826,18 @@ func (engine *Engine) Search(request types.SearchReq) (output types.SearchResp)
 	}
 
 	// 向索引器发送查找请求
+	deadline := time.Now().Add(time.Millisecond * time.Duration(request.Timeout))
 	for shard := 0; shard < engine.initOptions.NumShards; shard++ {
-		engine.indexerLookupChans[shard] <- lookupRequest
+		if request.Timeout <= 0 {
+			engine.indexerLookupChans[shard] <- lookupRequest
+			continue
+		}
+
+		// 索引器繁忙时，超时的搜索也不能一直等待
+		select {
+		case engine.indexerLookupChans[shard] <- lookupRequest:
+		case <-time.After(deadline.Sub(time.Now())):
+		}
 	}
 
 	if engine.initOptions.IDOnly {
-- 
2.43.0


From 591ab55a9d4864b556b999709f1fdaec506d18e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:43 +0000
Subject: [PATCH 10/32] fix: Bolt.Get returns memory of a finished transaction,
 Bolt.Has misses empty values

---
 store/bolt_store.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/store/bolt_store.go b/store/bolt_store.go
index b9988e2..1d9fdc3 100755
--- a/store/bolt_store.go
+++ b/store/bolt_store.go
@@ -65,7 +65,10 @@ func (s *Bolt) Set(k []byte, v []byte) error {
 // Any error that is returned from the function is returned from the View() method.
 func (s *Bolt) Get(k []byte) (b []byte, err error) {
 	err = s.db.View(func(tx *bolt.Tx) error {
-		b = tx.Bucket(gdocs).Get(k)
+		// the value is only valid during the transaction
+		if v := tx.Bucket(gdocs).Get(k); v != nil {
+			b = append([]byte{}, v...)
+		}
 		return nil
 	})
 	return
@@ -82,18 +85,14 @@ func (s *Bolt) Delete(k []byte) error {
 // Has returns true if the DB does contains the given key.
 func (s *Bolt) Has(k []byte) (bool, error) {
 	// return s.db.Exists(k)
-	var b []byte
+	var has bool
 	err := s.db.View(func(tx *bolt.Tx) error {
-		b = tx.Bucket(gdocs).Get(k)
+		// an empty value is a value, and only valid during the transaction
+		has = tx.Bucket(gdocs).Get(k) != nil
 		return nil
 	})
 
-	// b == nil
-	if err != nil || string(b) == "" {
-		return false, err
-	}
-
-	return true, nil
+	return has, err
 }
 
 // ForEach get all key and value
-- 
2.43.0


From 8e91683dcbfa49dcb0aa6c17fd32d46ac8b3a395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:43 +0000
Subject: [PATCH 11/32] fix: Badger.Has reports a missing key as an error

---
 store/badger_store.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/store/badger_store.go b/store/badger_store.go
index faf8d9b..d37492c 100755
--- a/store/badger_store.go
+++ b/store/badger_store.go
@@ -94,12 +94,12 @@ func (s *Badger) Delete(k []byte) error {
 // Has returns true if the DB does contains the given key.
 func (s *Badger) Has(k []byte) (bool, error) {
 	// return s.db.Exists(k)
-	val, err := s.Get(k)
-	if string(val) == "" && err != nil {
-		return false, err
+	_, err := s.Get(k)
+	if err == badger.ErrKeyNotFound {
+		return false, nil
 	}
 
-	return true, err
+	return err == nil, err
 }
 
 // Len returns the size of lsm and value log files in bytes.
-- 
2.43.0


From f0aaac4803b051714e50a4fb730a2da920005f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:43 +0000
Subject: [PATCH 12/32] fix: OpenBadger ends the process instead of returning
 its error

---
 store/badger_store.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/store/badger_store.go b/store/badger_store.go
index d37492c..2bfe28c 100755
--- a/store/badger_store.go
+++ b/store/badger_store.go
@@ -15,8 +15,6 @@
 package store
 
 import (
-	"log"
-
 	"github.com/dgraph-io/badger"
 )
 
@@ -40,10 +38,10 @@ func OpenBadger(dbPath string) (Store, error) {
 	// opt.SyncWrites = true
 	kv, err := badger.Open(opt)
 	if err != nil {
-		log.Fatal("badger NewKV: ", err)
+		return nil, err
 	}
 
-	return &Badger{kv}, err
+	return &Badger{kv}, nil
 }
 
 // WALName is useless for this kv database
-- 
2.43.0


From 0aa92502236fa423cecc06080ed3b5f53b59986a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:43 +0000
Subject: [PATCH 13/32] fix: Leveldb.ForEach leaks its iterator when the
 callback fails

---
 store/ldb_store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/store/ldb_store.go b/store/ldb_store.go
index ee9eba8..357f1d2 100755
--- a/store/ldb_store.go
+++ b/store/ldb_store.go
@@ -87,6 +87,7 @@ func (s *Leveldb) Len() (leveldb.Sizes, error) {
 // ForEach get all key and value
 func (s *Leveldb) ForEach(fn func(k, v []byte) error) error {
 	iter := s.db.NewIterator(nil, nil)
+	defer iter.Release()
 	for iter.Next() {
 		// Remember that the contents of the returned slice should not be modified, and
 		// only valid until the next call to Next.
@@ -96,7 +97,6 @@ func (s *Leveldb) ForEach(fn func(k, v []byte) error) error {
 			return err
 		}
 	}
-	iter.Release()
 	return iter.Error()
 }
 
-- 
2.43.0


From 65085c8fe5d13b70d5e0289b33634137e31adea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:56 +0000
Subject: [PATCH 14/32] fix: a search with a timeout may wait for twice its
 timeout

The time spent on handing the request to busy indexers did not count
towards the timeout of waiting for their answers.
---
 engine.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/engine.go b/engine.go
index ad63fc9..dd5c1f2 100755
--- a/engine.go
+++ b/engine.go
@@ -840,6 +840,14 @@ func (engine *Engine) Search(request types.SearchReq) (output types.SearchResp)
 		}
 	}
 
+	if request.Timeout > 0 {
+		// 等待索引器的时间计入超时，至少留一毫秒
+		request.Timeout = 1
+		if left := deadline.Sub(time.Now()); left > 0 {
+			request.Timeout += int(left / time.Millisecond)
+		}
+	}
+
 	if engine.initOptions.IDOnly {
 		output = engine.RankID(request, rankOpts, tokens, rankerReturnChan)
 		return
-- 
2.43.0


From 0c5089c10dea6d2385bac8d3848582bb95503c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:11 +0000
Subject: [PATCH 15/32] fix: a logic search that asks for Must without keywords
 may panic

With Logic.Must set, no query tokens and no Expr.Must there is no must
table to walk, and LogicLookup indexed an empty slice.
---
 core/indexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/indexer.go b/core/indexer.go
index ee7d3f5..72ed673 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -650,7 +650,7 @@ func (indexer *Indexer) LogicLookup(
 
 	// 开始检索
 	numDocs = 0
-	if logic.Must == true || len(logic.Expr.Must) > 0 {
+	if len(mustTable) > 0 {
 		// 如果存在逻辑与检索
 		for idx := indexer.getIndexLen(mustTable[0]) - 1; idx >= 0; idx-- {
 			baseDocId := indexer.getDocId(mustTable[0], idx)
-- 
2.43.0


From d5da49ff1d50ea29c45fe4d6a4f413a407d26d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:11 +0000
Subject: [PATCH 16/32] fix: a page whose offset and size overflow panics

OutputOffset+MaxOutputs became negative and the results were sliced with
a negative end.
---
 core/ranker.go   | 10 ++++------
 engine.go        | 12 +++++-------
 ranker_worker.go |  6 +++++-
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/core/ranker.go b/core/ranker.go
index 5742568..1f360fe 100755
--- a/core/ranker.go
+++ b/core/ranker.go
@@ -110,14 +110,12 @@ func (ranker *Ranker) RemoveDoc(docId string) {
 
 func maxOutput(options types.RankOpts, docsLen int) (int, int) {
 	var start, end int
-	if options.MaxOutputs != 0 {
-		start = utils.MinInt(options.OutputOffset, docsLen)
-		end = utils.MinInt(options.OutputOffset+options.MaxOutputs, docsLen)
-		return start, end
-	}
-
 	start = utils.MinInt(options.OutputOffset, docsLen)
 	end = docsLen
+	// OutputOffset+MaxOutputs may overflow
+	if options.MaxOutputs != 0 && options.MaxOutputs < docsLen-start {
+		end = start + options.MaxOutputs
+	}
 	return start, end
 }
 
diff --git a/engine.go b/engine.go
index dd5c1f2..3cd6458 100755
--- a/engine.go
+++ b/engine.go
@@ -554,14 +554,12 @@ func (engine *Engine) Tokens(request types.SearchReq) (tokens []string) {
 
 func maxRankOutput(rankOpts types.RankOpts, rankLen int) (int, int) {
 	var start, end int
-	if rankOpts.MaxOutputs == 0 {
-		start = utils.MinInt(rankOpts.OutputOffset, rankLen)
-		end = rankLen
-		return start, end
-	}
-
 	start = utils.MinInt(rankOpts.OutputOffset, rankLen)
-	end = utils.MinInt(start+rankOpts.MaxOutputs, rankLen)
+	end = rankLen
+	// start+MaxOutputs may overflow
+	if rankOpts.MaxOutputs != 0 && rankOpts.MaxOutputs < rankLen-start {
+		end = start + rankOpts.MaxOutputs
+	}
 	return start, end
 }
 
diff --git a/ranker_worker.go b/ranker_worker.go
index bb352c4..25632e7 100755
--- a/ranker_worker.go
+++ b/ranker_worker.go
@@ -63,8 +63,12 @@ func (engine *Engine) rankerAddDoc(shard int) {
 func (engine *Engine) rankerRank(shard int) {
 	for {
 		request := <-engine.rankerRankChans[shard]
-		if request.options.MaxOutputs != 0 {
+		if max := request.options.MaxOutputs; max != 0 {
 			request.options.MaxOutputs += request.options.OutputOffset
+			if max > 0 && request.options.MaxOutputs < 0 {
+				// the sum overflows: no limit
+				request.options.MaxOutputs = 0
+			}
 		}
 		request.options.OutputOffset = 0
 		outputDocs, numDocs := engine.rankers[shard].Rank(request.docs,
-- 
2.43.0


From c372bcf341b7010f60a53cc03bc5b4247bb08781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:11 +0000
Subject: [PATCH 17/32] fix: documents with types.Attri attributes are not
 stored

The store encodes documents with gob, which needs the concrete type of
the Attri interface to be registered. Documents indexed over the network
have types.Attri attributes; encoding them failed, and they were missing
after a restart.
---
 store_worker.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/store_worker.go b/store_worker.go
index 6463dfd..8eb0d6f 100755
--- a/store_worker.go
+++ b/store_worker.go
@@ -24,6 +24,12 @@ import (
 	"github.com/go-ego/riot/types"
 )
 
+func init() {
+	// documents indexed over the network have these attributes, without
+	// registration they cannot be encoded and are not stored
+	gob.Register(types.Attri{})
+}
+
 type storeIndexDocReq struct {
 	docId string
 	data  types.DocData
-- 
2.43.0


From 62e63b6d772d30841e6ba16455947a4b4fa4f75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 18/32] fix: the heartbeat counter is shared without atomics

The monitor and the http handlers read and write it concurrently.
---
 net/heartb/heart.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/net/heartb/heart.go b/net/heartb/heart.go
index 5f18faf..2d3172e 100644
--- a/net/heartb/heart.go
+++ b/net/heartb/heart.go
@@ -23,6 +23,7 @@ import (
 	"net/http"
 	"os/exec"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"google.golang.org/grpc"
@@ -32,6 +33,8 @@ import (
 
 var (
 	// address string = "localhost:50051"
+	// rpc counts the failed heartbeats since the last restart. The monitor
+	// and the http handlers use it concurrently.
 	rpc int32
 )
 
@@ -57,7 +60,7 @@ func Grpcc(addr, dir, bra string) {
 	for {
 		time.Sleep(1 * time.Second)
 		heart(c)
-		if rpc > 3 {
+		if atomic.LoadInt32(&rpc) > 3 {
 			wg.Add(1)
 			go func() {
 				defer wg.Done()
@@ -78,9 +81,8 @@ func heart(c pb.GreeterClient) {
 	})
 
 	if err != nil {
-		rpc++
-		if rpc > 3 {
-			log.Println("rpc...", rpc)
+		if n := atomic.AddInt32(&rpc, 1); n > 3 {
+			log.Println("rpc...", n)
 		}
 
 		log.Printf("could not greet: %v", err)
@@ -91,16 +93,16 @@ func heart(c pb.GreeterClient) {
 	log.Printf("Greeting: %d", r.Result)
 
 	if r.Result != 1 {
-		rpc++
+		n := atomic.AddInt32(&rpc, 1)
 		log.Println("...", r.Result)
-		if rpc > 3 {
-			log.Println("rpc...", rpc)
+		if n > 3 {
+			log.Println("rpc...", n)
 		}
 	}
 }
 
 func restart(dir, bra string) error {
-	rpc = 0
+	atomic.StoreInt32(&rpc, 0)
 	cmd := exec.Command("/bin/sh", "-c", bra)
 	cmd.Dir = dir
 	// cmd.Run()
@@ -137,7 +139,7 @@ func Health(w http.ResponseWriter, req *http.Request) {
 	response, _ := json.Marshal(&Json{
 		Code:      0,
 		Timestamp: timestamp,
-		Health:    rpc})
+		Health:    atomic.LoadInt32(&rpc)})
 
 	w.Header().Set("Content-Type", "application/json;charset=utf-8")
 	io.WriteString(w, string(response))
-- 
2.43.0


From 9914abfc70e2102cb789064c30952bc27791df42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 19/32] fix: a node that hangs stops the heartbeat monitor

The heartbeat had no deadline: when the node accepted it and did not
answer, the monitor waited for ever and never restarted the node.
---
 net/heartb/heart.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/net/heartb/heart.go b/net/heartb/heart.go
index 2d3172e..9f27b59 100644
--- a/net/heartb/heart.go
+++ b/net/heartb/heart.go
@@ -38,6 +38,9 @@ var (
 	rpc int32
 )
 
+// heartTimeout is how long a node may take to answer a heartbeat
+const heartTimeout = 3 * time.Second
+
 // Conf config
 type Conf struct {
 	Addr string
@@ -76,7 +79,10 @@ func Grpcc(addr, dir, bra string) {
 }
 
 func heart(c pb.GreeterClient) {
-	r, err := c.HeartBeat(context.Background(), &pb.HeartReq{
+	ctx, cancel := context.WithTimeout(context.Background(), heartTimeout)
+	defer cancel()
+
+	r, err := c.HeartBeat(ctx, &pb.HeartReq{
 		Msg: 1,
 	})
 
-- 
2.43.0


From 4185d781027d514048e5635a9cdf363640acfddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:33 +0000
Subject: [PATCH 20/32] fix: concurrent distributed http searches mix their
 answers

The answers of the nodes and the WaitGroup were package variables shared
by all requests, appended to without a lock. They belong to a request
now. Answers that are errors or not JSON are left out instead of being
counted, a full page is not one document short, and the configuration is
read before its default page is used.
---
 net/http/dist.go | 57 +++++++++++++++++++++++++++++-------------------
 net/http/http.go | 13 +++++------
 2 files changed, 41 insertions(+), 29 deletions(-)

diff --git a/net/http/dist.go b/net/http/dist.go
index 759cfc6..8288b11 100644
--- a/net/http/dist.go
+++ b/net/http/dist.go
@@ -28,30 +28,32 @@ import (
 	"github.com/go-ego/riot/net/com"
 )
 
-var (
-	wgdata [][]byte
-	wg     sync.WaitGroup
-)
-
-// WgPost post
-func WgPost(url string, param url.Values) {
+// answer is the answer of one node
+type answer struct {
+	data []byte
+	res  JsonResponse
+}
 
+// WgPost post, it returns nil when the node has no usable answer
+func WgPost(url string, param url.Values) *answer {
 	data, err := Post(url, param)
 
 	if string(data) == "" || err != nil {
-		log.Println("data is null ...")
-		defer wg.Done()
-		return
+		log.Println("data is null ...", err)
+		return nil
 	}
 
-	wgdata = append(wgdata, data)
+	ans := &answer{data: data}
+	if err := json.Unmarshal(data, &ans.res); err != nil {
+		log.Println("data is invalid ...", err)
+		return nil
+	}
 
-	defer wg.Done()
+	return ans
 }
 
 // WgDist dist
 func WgDist(w http.ResponseWriter, req *http.Request) {
-	wgdata = nil
 	var distData []byte
 
 	userid := req.URL.Query().Get("userid")
@@ -60,8 +62,9 @@ func WgDist(w http.ResponseWriter, req *http.Request) {
 	maxOutputs := req.URL.Query().Get("maxOutputs")
 	atime := req.URL.Query().Get("time")
 
+	config := com.Conf
 	maxOuts, _ := strconv.Atoi(maxOutputs)
-	if maxOuts == 0 {
+	if maxOuts <= 0 {
 		maxOuts = config.Engine.MaxOutputs
 		outputOffset = strconv.Itoa(config.Engine.OutputOffset)
 		maxOutputs = strconv.Itoa(config.Engine.MaxOutputs)
@@ -74,31 +77,41 @@ func WgDist(w http.ResponseWriter, req *http.Request) {
 	param.Set("maxOutputs", maxOutputs)
 	param.Set("time", atime)
 
-	config = com.Conf
+	// The answers belong to this request alone, each node has its own place
+	var wg sync.WaitGroup
+	answers := make([]*answer, len(config.Url))
 	for i := 0; i < len(config.Url); i++ {
 		wg.Add(1)
 		url := config.Url[i] + "/search"
-		go WgPost(url, param)
+		go func(i int) {
+			defer wg.Done()
+			answers[i] = WgPost(url, param)
+		}(i)
 	}
 
 	wg.Wait()
 
+	var wgdata []*answer
+	for _, ans := range answers {
+		if ans != nil {
+			wgdata = append(wgdata, ans)
+		}
+	}
+
 	if len(wgdata) == 1 {
-		distData = wgdata[0]
+		distData = wgdata[0].data
 	} else {
 		var docs []Text
 		for i := 0; i < len(wgdata); i++ {
-			var jsonRes JsonResponse
-			json.Unmarshal(wgdata[i], &jsonRes)
+			jsonRes := wgdata[i].res
 			for d := 0; d < len(jsonRes.Docs); d++ {
 				docs = append(docs, jsonRes.Docs[d])
 			}
 		}
 		sort.Sort(docsSlice(docs))
 
-		if len(docs) > maxOuts {
-			end := maxOuts - 1
-			docs = docs[0:end]
+		if maxOuts > 0 && len(docs) > maxOuts {
+			docs = docs[0:maxOuts]
 		}
 
 		timestamp := time.Now().Unix()
diff --git a/net/http/http.go b/net/http/http.go
index e192db5..0f3dce5 100644
--- a/net/http/http.go
+++ b/net/http/http.go
@@ -16,6 +16,7 @@ package http
 
 import (
 	"encoding/json"
+	"errors"
 	"io"
 	"io/ioutil"
 	"log"
@@ -29,12 +30,6 @@ import (
 	"github.com/go-ego/riot/types"
 )
 
-var (
-	// config   = com.Conf
-	config   com.Config
-	searcher = com.Searcher
-)
-
 // Post http post, params is url.Values type
 func Post(apiUrl string, params url.Values) (rs []byte, err error) {
 	c := &http.Client{
@@ -47,6 +42,10 @@ func Post(apiUrl string, params url.Values) (rs []byte, err error) {
 	}
 
 	defer resp.Body.Close()
+	if resp.StatusCode != http.StatusOK {
+		return nil, errors.New("http post: " + resp.Status)
+	}
+
 	return ioutil.ReadAll(resp.Body)
 }
 
@@ -81,7 +80,7 @@ func Search(w http.ResponseWriter, req *http.Request) {
 		atime = req.Form["time"][0]
 	}
 
-	config = com.Conf
+	config := com.Conf
 	log.Println("config: ", config, "; com.Conf: ", com.Conf)
 	if maxOutputs == 0 {
 		outputOffset = config.Engine.OutputOffset
-- 
2.43.0


From a825ffd6a10ba071d7b6b1d0d1c6737133f138d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:33 +0000
Subject: [PATCH 21/32] fix: remote http searches panic on negative pages and
 foreign attributes

Negative offsets and page sizes, and documents whose attributes are not
types.Attri, panicked the request. DelIndex ignored a posted docid.
---
 net/http/http.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/net/http/http.go b/net/http/http.go
index 0f3dce5..9a3bb32 100644
--- a/net/http/http.go
+++ b/net/http/http.go
@@ -82,11 +82,15 @@ func Search(w http.ResponseWriter, req *http.Request) {
 
 	config := com.Conf
 	log.Println("config: ", config, "; com.Conf: ", com.Conf)
-	if maxOutputs == 0 {
+	if maxOutputs <= 0 {
 		outputOffset = config.Engine.OutputOffset
 		maxOutputs = config.Engine.MaxOutputs
 	}
 
+	if outputOffset < 0 {
+		outputOffset = 0
+	}
+
 	// searcher.Flush() /// todo
 
 	sea := com.SearchArgs{
@@ -101,18 +105,20 @@ func Search(w http.ResponseWriter, req *http.Request) {
 	scoDocs := docs.Docs.(types.ScoredDocs)
 	var textArr []Text
 	for i := 0; i < len(scoDocs); i++ {
+		// documents indexed locally may have other attributes, or none
+		attri, _ := scoDocs[i].Attri.(types.Attri)
 		text := Text{
 			Id:      scoDocs[i].DocId,
 			Content: scoDocs[i].Content,
 			Score:   scoDocs[i].Scores,
-			Attri:   scoDocs[i].Attri.(types.Attri),
+			Attri:   attri,
 		}
 		textArr = append(textArr, text)
 	}
 
 	sort.Sort(docsSlice(textArr))
 
-	if len(textArr) > maxOutputs {
+	if maxOutputs > 0 && len(textArr) > maxOutputs {
 		textArr = textArr[0:maxOutputs]
 	}
 
-- 
2.43.0


From c6c97f7cace54c69539f173df49cba1998aa9b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:50 +0000
Subject: [PATCH 22/32] fix: concurrent distributed grpc searches mix their
 answers

The replies of the nodes and the WaitGroup were package variables shared
by all requests, appended to without a lock. They belong to a request
now. A full page is not one document short, and a reply without
attributes does not panic the sort.
---
 net/grpc/search.go | 44 ++++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/net/grpc/search.go b/net/grpc/search.go
index 0b1cb54..c1e4ad9 100644
--- a/net/grpc/search.go
+++ b/net/grpc/search.go
@@ -57,11 +57,12 @@ func (s rpcSlice) Less(i, j int) bool {
 	// 	log.Println("strconv.Atoi(jid)...", err)
 	// }
 
-	if s[i].Attri.Ts == s[j].Attri.Ts {
+	// nodes may leave the attributes out
+	if s[i].GetAttri().GetTs() == s[j].GetAttri().GetTs() {
 		// return ival > jval
 		return s[i].Id > s[j].Id
 	}
-	return s[i].Attri.Ts > s[j].Attri.Ts
+	return s[i].GetAttri().GetTs() > s[j].GetAttri().GetTs()
 }
 
 // rpcSearch rpc search fn
@@ -108,28 +109,19 @@ func rpcSearch(sea com.SearchArgs) *pb.SearchReply {
 	return rep
 }
 
-var (
-	rpcdata []*pb.SearchReply
-	rpcwg   sync.WaitGroup
-)
-
-// WgRpc rpc
-func WgRpc(address string, sea com.SearchArgs) {
+// WgRpc rpc, it returns nil when the node has no answer
+func WgRpc(address string, sea com.SearchArgs) *pb.SearchReply {
 	data, err := InitSearchRpc(address, sea)
 
 	if data == nil || err != nil {
-		log.Println("data is null...")
-		defer rpcwg.Done()
-		return
+		log.Println("data is null...", err)
+		return nil
 	}
 
-	rpcdata = append(rpcdata, data)
-
-	defer rpcwg.Done()
+	return data
 }
 
 func wgGrpc(sea com.SearchArgs) *pb.SearchReply {
-	rpcdata = nil
 	var (
 		distData   *pb.SearchReply
 		maxOutputs = sea.MaxOutputs
@@ -140,14 +132,27 @@ func wgGrpc(sea com.SearchArgs) *pb.SearchReply {
 	}
 
 	// config.Grpc.GrpcPort
+	// The replies belong to this request alone, each node has its own place
+	var rpcwg sync.WaitGroup
+	replies := make([]*pb.SearchReply, len(config.Rpc.DistPort))
 	for i := 0; i < len(config.Rpc.DistPort); i++ {
 		rpcwg.Add(1)
 		addr := config.Rpc.DistPort[i]
-		go WgRpc(addr, sea)
+		go func(i int) {
+			defer rpcwg.Done()
+			replies[i] = WgRpc(addr, sea)
+		}(i)
 	}
 
 	rpcwg.Wait()
 
+	var rpcdata []*pb.SearchReply
+	for _, reply := range replies {
+		if reply != nil {
+			rpcdata = append(rpcdata, reply)
+		}
+	}
+
 	if len(rpcdata) == 1 {
 		distData = rpcdata[0]
 	} else {
@@ -159,9 +164,8 @@ func wgGrpc(sea com.SearchArgs) *pb.SearchReply {
 		}
 		sort.Sort(rpcSlice(docs))
 
-		if len(docs) > maxOutputs {
-			end := maxOutputs - 1
-			docs = docs[0:end]
+		if maxOutputs > 0 && len(docs) > maxOutputs {
+			docs = docs[0:maxOutputs]
 		}
 
 		timestamp := time.Now().Unix()
-- 
2.43.0


From 8c156ce4dea8d93ba9bcd990395982c395e3db15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:50 +0000
Subject: [PATCH 23/32] fix: a node that is down ends, and one that hangs
 blocks, a distributed grpc search

InitSearchRpc called log.Fatalf when a node could not be reached, and
waited without limit for its answer.
---
 net/grpc/grpcc.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/net/grpc/grpcc.go b/net/grpc/grpcc.go
index df27c13..5e9abe2 100644
--- a/net/grpc/grpcc.go
+++ b/net/grpc/grpcc.go
@@ -17,7 +17,7 @@ package grpc
 import (
 	"log"
 	// "os"
-	// "time"
+	"time"
 
 	"golang.org/x/net/context"
 	"google.golang.org/grpc"
@@ -66,13 +66,17 @@ func InitGrpcc(address string, doc Doc) int32 {
 	return r.Result
 }
 
+// rpcTimeout is how long a node may take to answer a search
+const rpcTimeout = 1000 * time.Millisecond
+
 // InitSearchRpc init search grpc
 func InitSearchRpc(address string, sea com.SearchArgs) (*pb.SearchReply, error) {
 	// Set up a connection to the server.
 	conn, err := grpc.Dial(address, grpc.WithInsecure())
 	if err != nil {
-		log.Fatalf("did not connect: %v", err)
+		log.Printf("did not connect: %v", err)
 		zlog.Error("did not connect: ", err)
+		return nil, err
 	}
 	defer conn.Close()
 	c := pb.NewGreeterClient(conn)
@@ -90,8 +94,12 @@ func InitSearchRpc(address string, sea com.SearchArgs) (*pb.SearchReply, error)
 		Expr:   logicExp,
 	}
 
+	// A node that does not answer must not hold up the others
+	ctx, cancel := context.WithTimeout(context.Background(), rpcTimeout)
+	defer cancel()
+
 	// Contact the server and print out its response.
-	r, err := c.Search(context.Background(), &pb.SearchReq{
+	r, err := c.Search(ctx, &pb.SearchReq{
 		Id:           sea.Id,
 		Query:        sea.Query,
 		OutputOffset: int32(sea.OutputOffset),
@@ -102,7 +110,7 @@ func InitSearchRpc(address string, sea com.SearchArgs) (*pb.SearchReply, error)
 	})
 
 	if err != nil {
-		log.Fatalf("init searchRpc could not greet: %v", err)
+		log.Printf("init searchRpc could not greet: %v", err)
 		zlog.Error("init searchRpc could not greet: ", err)
 		return nil, err
 	}
-- 
2.43.0


From faf63aa4195fe20a657ae21639acc645433de335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 24/32] fix: grpc client helpers end the process and leave out
 fields

A failed call ended the process through log.Fatalf (or read the result
of a nil reply). It returns a result of its own now. InitGrpcc left out
the identifier, the labels and the forced update of a document.
---
 net/grpc/grpcc.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/net/grpc/grpcc.go b/net/grpc/grpcc.go
index 5e9abe2..52c6b06 100644
--- a/net/grpc/grpcc.go
+++ b/net/grpc/grpcc.go
@@ -17,6 +17,7 @@ package grpc
 import (
 	"log"
 	// "os"
+	"strconv"
 	"time"
 
 	"golang.org/x/net/context"
@@ -45,27 +46,34 @@ func InitGrpcc(address string, doc Doc) int32 {
 	// Set up a connection to the server.
 	conn, err := grpc.Dial(address, grpc.WithInsecure())
 	if err != nil {
-		log.Fatalf("did not connect: %v", err)
+		log.Printf("did not connect: %v", err)
 		zlog.Error("did not connect: ", err)
+		return failed
 	}
 	defer conn.Close()
 	c := pb.NewGreeterClient(conn)
 
 	// Contact the server and print out its response.
 	r, err := c.DocInx(context.Background(), &pb.DocReq{
-		Content: doc.Content,
-		Attri:   doc.Attri,
-		Tokens:  doc.Tokens,
+		DocId:       strconv.FormatUint(doc.DocId, 10),
+		Content:     doc.Content,
+		Attri:       doc.Attri,
+		Tokens:      doc.Tokens,
+		Labels:      doc.Labels,
+		ForceUpdate: doc.ForceUpdate,
 	})
 	if err != nil {
-		log.Fatalf("init docinx grpcc could not greet: %v", err)
+		log.Printf("init docinx grpcc could not greet: %v", err)
 		zlog.Error("init docinx grpcc could not greet: ", err)
-		return r.Result
+		return failed
 	}
 	// log.Printf("Greeting: %s", r.Message)
 	return r.Result
 }
 
+// failed is the result of a call that did not reach the node
+const failed int32 = -1
+
 // rpcTimeout is how long a node may take to answer a search
 const rpcTimeout = 1000 * time.Millisecond
 
@@ -124,8 +132,9 @@ func InitDelGrpcc(address string, docid string) int32 {
 	// Set up a connection to the server.
 	conn, err := grpc.Dial(address, grpc.WithInsecure())
 	if err != nil {
-		log.Fatalf("did not connect: %v", err)
+		log.Printf("did not connect: %v", err)
 		zlog.Error("did not connect: ", err)
+		return failed
 	}
 	defer conn.Close()
 	c := pb.NewGreeterClient(conn)
@@ -136,9 +145,9 @@ func InitDelGrpcc(address string, docid string) int32 {
 	})
 
 	if err != nil {
-		log.Fatalf("could not greet: %v", err)
+		log.Printf("could not greet: %v", err)
 		zlog.Error("could not greet: ", err)
-		return r.Result
+		return failed
 	}
 
 	// log.Printf("Greeting: %d", r.Result)
-- 
2.43.0


From 11379e22c51c90fe36b2908cde48490254fda651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 25/32] fix: grpc requests panic the node and lose fields

A search without logic or expression, a negative page and documents with
attributes that are not types.Attri panicked the node. DelDoc used an
engine that is always nil. Labels, titles and authors were dropped.
---
 net/grpc/etcd.go   | 12 ++++++++----
 net/grpc/grpc.go   | 28 +++++++++++++++++-----------
 net/grpc/search.go | 13 ++++++++-----
 3 files changed, 33 insertions(+), 20 deletions(-)

diff --git a/net/grpc/etcd.go b/net/grpc/etcd.go
index 8ca6d97..46c5b79 100644
--- a/net/grpc/etcd.go
+++ b/net/grpc/etcd.go
@@ -93,17 +93,21 @@ func (s *eserver) Search(ctx context.Context, in *pb.SearchReq) (*pb.SearchReply
 		maxOutputs   = int(in.MaxOutputs)
 	)
 
-	if in.MaxOutputs == 0 {
+	if in.MaxOutputs <= 0 {
 		outputOffset = config.Engine.OutputOffset
 		maxOutputs = config.Engine.MaxOutputs
 	}
 
+	if outputOffset < 0 {
+		outputOffset = 0
+	}
+
 	var logic types.Logic
 	if in.Logic != nil {
 		logicExp := types.Expr{
-			Must:   in.Logic.Expr.Must,
-			Should: in.Logic.Expr.Should,
-			NotIn:  in.Logic.Expr.NotIn,
+			Must:   in.Logic.GetExpr().GetMust(),
+			Should: in.Logic.GetExpr().GetShould(),
+			NotIn:  in.Logic.GetExpr().GetNotIn(),
 		}
 
 		logic = types.Logic{
diff --git a/net/grpc/grpc.go b/net/grpc/grpc.go
index fe86fe3..49c31ea 100644
--- a/net/grpc/grpc.go
+++ b/net/grpc/grpc.go
@@ -56,15 +56,17 @@ func addDoc(in *pb.DocReq) {
 	}
 
 	attri := types.Attri{
-		Time: req.Time,
-		Ts:   req.Ts,
+		Title:  req.Title,
+		Author: req.Author,
+		Time:   req.Time,
+		Ts:     req.Ts,
 	}
 
 	data := types.DocData{
 		Content: in.Content,
 		Attri:   attri,
 		Tokens:  tokens,
-		// Labels: in.Labels,
+		Labels:  in.Labels,
 		// Fields: in.Fields,
 	}
 
@@ -73,7 +75,7 @@ func addDoc(in *pb.DocReq) {
 
 // DelDoc delete doc
 func DelDoc(in *pb.DeleteReq) {
-	searcher.RemoveDoc(in.DocId, false)
+	com.Delete(in.DocId, false)
 }
 
 func (s *server) HeartBeat(ctx context.Context, in *pb.HeartReq) (*pb.Reply, error) {
@@ -97,15 +99,15 @@ func (s *server) Search(ctx context.Context, in *pb.SearchReq) (*pb.SearchReply,
 
 	// time.Sleep(1 * time.Second)
 	logicExp := types.Expr{
-		Must:   in.Logic.Expr.Must,
-		Should: in.Logic.Expr.Should,
-		NotIn:  in.Logic.Expr.NotIn,
+		Must:   in.GetLogic().GetExpr().GetMust(),
+		Should: in.GetLogic().GetExpr().GetShould(),
+		NotIn:  in.GetLogic().GetExpr().GetNotIn(),
 	}
 
 	logic := types.Logic{
-		Must:   in.Logic.Must,
-		Should: in.Logic.Should,
-		NotIn:  in.Logic.NotIn,
+		Must:   in.GetLogic().GetMust(),
+		Should: in.GetLogic().GetShould(),
+		NotIn:  in.GetLogic().GetNotIn(),
 		Expr:   logicExp,
 	}
 
@@ -114,11 +116,15 @@ func (s *server) Search(ctx context.Context, in *pb.SearchReq) (*pb.SearchReply,
 		maxOutputs   = int(in.MaxOutputs)
 	)
 
-	if in.MaxOutputs == 0 {
+	if in.MaxOutputs <= 0 {
 		outputOffset = config.Engine.OutputOffset
 		maxOutputs = config.Engine.MaxOutputs
 	}
 
+	if outputOffset < 0 {
+		outputOffset = 0
+	}
+
 	sea := com.SearchArgs{
 		Id:           in.Id,
 		Query:        in.Query,
diff --git a/net/grpc/search.go b/net/grpc/search.go
index c1e4ad9..3d02a1a 100644
--- a/net/grpc/search.go
+++ b/net/grpc/search.go
@@ -27,8 +27,7 @@ import (
 
 var (
 	// config   = com.Conf
-	config   com.Config
-	searcher = com.Searcher
+	config com.Config
 )
 
 // InitEngine init engine
@@ -81,9 +80,13 @@ func rpcSearch(sea com.SearchArgs) *pb.SearchReply {
 
 	scoDocs := docs.Docs.(types.ScoredDocs)
 	for i := 0; i < len(scoDocs); i++ {
+		// documents indexed locally may have other attributes, or none
+		docAttri, _ := scoDocs[i].Attri.(types.Attri)
 		attri := &pb.Attri{
-			Time: scoDocs[i].Attri.(types.Attri).Time,
-			Ts:   scoDocs[i].Attri.(types.Attri).Ts,
+			Title:  docAttri.Title,
+			Author: docAttri.Author,
+			Time:   docAttri.Time,
+			Ts:     docAttri.Ts,
 		}
 
 		text := &pb.Text{
@@ -96,7 +99,7 @@ func rpcSearch(sea com.SearchArgs) *pb.SearchReply {
 
 	sort.Sort(rpcSlice(textArr))
 
-	if len(textArr) > maxOutputs {
+	if maxOutputs > 0 && len(textArr) > maxOutputs {
 		textArr = textArr[0:maxOutputs]
 	}
 
-- 
2.43.0


From ac108bf9cb3a3dc75a098ab56253a75777a4cb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:18 +0000
Subject: [PATCH 26/32] fix: DelIndex ignores a posted docid

---
 net/http/http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/http/http.go b/net/http/http.go
index 9a3bb32..d95150e 100644
--- a/net/http/http.go
+++ b/net/http/http.go
@@ -171,7 +171,7 @@ func AddIndex(w http.ResponseWriter, req *http.Request) {
 
 // DelIndex remove search engine index
 func DelIndex(w http.ResponseWriter, req *http.Request) {
-	docid := req.URL.Query().Get("docid")
+	docid := req.FormValue("docid")
 
 	// docid := string(indexid)
 	// inxId, _ := strconv.ParseUint(docid, 10, 64)
-- 
2.43.0


From d4f7f9e211254f8304e86dce67644f385bf36670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:19 +0000
Subject: [PATCH 27/32] fix: concurrent PinYin calls race on the phrase
 segmenter

The phrase package keeps its segmenter in a package variable; the segmenter
workers of an engine with UsePhrase set and used it concurrently.
---
 segment.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/segment.go b/segment.go
index dddd2c4..3d19db5 100755
--- a/segment.go
+++ b/segment.go
@@ -19,6 +19,7 @@ import (
 	// "fmt"
 
 	"strings"
+	"sync"
 
 	"github.com/go-ego/gpy"
 	"github.com/go-ego/gpy/phrase"
@@ -313,9 +314,16 @@ func (engine *Engine) segmenterWorker() {
 	}
 }
 
+// phraseLock guards the segmenter of the phrase package, which all engines
+// and their segmenter threads share
+var phraseLock sync.Mutex
+
 // PinYin get the Chinese alphabet and abbreviation
 func (engine *Engine) PinYin(hans string) []string {
 	if engine.initOptions.UsePhrase {
+		phraseLock.Lock()
+		defer phraseLock.Unlock()
+
 		if !engine.initOptions.NotUseGse {
 			phrase.WithGse(engine.segmenter)
 		}
-- 
2.43.0


From c8686b6588b5f2d3b832e7f0a24313ceceab7d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:19 +0000
Subject: [PATCH 28/32] fix: a huge search timeout overflows and times out at
 once

---
 engine.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/engine.go b/engine.go
index 3cd6458..379e9f6 100755
--- a/engine.go
+++ b/engine.go
@@ -22,6 +22,7 @@ package riot
 import (
 	"fmt"
 	"log"
+	"math"
 	"os"
 	"runtime"
 	"sort"
@@ -823,6 +824,12 @@ func (engine *Engine) Search(request types.SearchReq) (output types.SearchResp)
 		logic:            request.Logic,
 	}
 
+	// 过大的超时会使截止时间溢出
+	maxTimeout := int64(math.MaxInt64)/NumNanosecondsInAMillisecond - 1
+	if int64(request.Timeout) > maxTimeout {
+		request.Timeout = int(maxTimeout)
+	}
+
 	// 向索引器发送查找请求
 	deadline := time.Now().Add(time.Millisecond * time.Duration(request.Timeout))
 	for shard := 0; shard < engine.initOptions.NumShards; shard++ {
-- 
2.43.0


From 4864fc093bdce09887381393179d6507ee4978a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:19 +0000
Subject: [PATCH 29/32] fix: a logic search without Must ignores DocIds

---
 core/indexer.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/core/indexer.go b/core/indexer.go
index 72ed673..ed146a7 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -681,7 +681,8 @@ func (indexer *Indexer) LogicLookup(
 	// 不存在逻辑与检索, 则必须存在逻辑或检索
 	// 这时进行求并集操作
 	if logic.Should == true || len(logic.Expr.Should) > 0 {
-		docs, numDocs = indexer.unionTable(shouldTable, notInTable, countDocsOnly)
+		docs, numDocs = indexer.unionTable(
+			docIds, shouldTable, notInTable, countDocsOnly)
 	} else {
 		uintDocIds := make([]string, 0)
 		// 当前直接返回 Not 逻辑数据
@@ -891,13 +892,19 @@ func (indexer *Indexer) findInNotInTable(table []*KeywordIndices, docId string)
 // unionTable 如果不存在与逻辑检索， 则需要对逻辑或反向表求并集
 // 先求差集再求并集， 可以减小内存占用
 // docid 要保序
-func (indexer *Indexer) unionTable(table []*KeywordIndices,
-	notInTable []*KeywordIndices, countDocsOnly bool) (
+func (indexer *Indexer) unionTable(filter map[string]bool,
+	table []*KeywordIndices, notInTable []*KeywordIndices, countDocsOnly bool) (
 	docs []types.IndexedDoc, numDocs int) {
 	docIds := make([]string, 0)
 	// 求并集
 	for i := 0; i < len(table); i++ {
 		for _, docid := range table[i].docIds {
+			if filter != nil {
+				if _, found := filter[docid]; !found {
+					continue
+				}
+			}
+
 			if !indexer.findInNotInTable(notInTable, docid) {
 				found := false
 				for _, v := range docIds {
-- 
2.43.0


From 83f07205ecb099f11ec97ad13eb9ac5fcdca88d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:15 +0000
Subject: [PATCH 30/32] fix: Flush returned early while other clients' requests
 completed between its reads of the counters

Flush compared the number of requests with the number completed, reading the
requests first. A request issued and completed between the two reads made up
for one that was still pending, and Flush returned before the caller's own
document was searchable. Read the completions first.
---
 engine.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/engine.go b/engine.go
index 379e9f6..aa0806a 100755
--- a/engine.go
+++ b/engine.go
@@ -868,16 +868,22 @@ func (engine *Engine) Flush() {
 	for {
 		runtime.Gosched()
 
-		inxd := atomic.LoadUint64(&engine.numIndexingReqs) == atomic.LoadUint64(&engine.numDocsIndexed)
+		// 先读完成数，再读请求数，否则其间别人的请求会被当成已有请求的完成
+		indexed := atomic.LoadUint64(&engine.numDocsIndexed)
+		ranks := atomic.LoadUint64(&engine.numDocsRanked)
+		saved := atomic.LoadUint64(&engine.numDocsStored)
+		removed := atomic.LoadUint64(&engine.numDocsRemoved)
+		rankRm := atomic.LoadUint64(&engine.numRankRemoved)
+
+		numInx := atomic.LoadUint64(&engine.numIndexingReqs)
 		numRm := atomic.LoadUint64(&engine.numRemovingReqs) * uint64(engine.initOptions.NumShards)
-		rmd := numRm == atomic.LoadUint64(&engine.numDocsRemoved)
 
-		nums := atomic.LoadUint64(&engine.numIndexingReqs) == atomic.LoadUint64(&engine.numDocsStored)
-		stored := !engine.initOptions.UseStore || nums
+		inxd := numInx == indexed
+		rmd := numRm == removed
+		stored := !engine.initOptions.UseStore || numInx == saved
 
 		// 排序器同样须处理完全部请求，否则文档会在排序时被丢弃
-		ranked := atomic.LoadUint64(&engine.numIndexingReqs) == atomic.LoadUint64(&engine.numDocsRanked) &&
-			numRm == atomic.LoadUint64(&engine.numRankRemoved)
+		ranked := numInx == ranks && numRm == rankRm
 
 		if inxd && rmd && stored && ranked {
 			// 保证 CHANNEL 中 REQUESTS 全部被执行完
@@ -890,10 +896,10 @@ func (engine *Engine) Flush() {
 	for {
 		runtime.Gosched()
 
+		forced := atomic.LoadUint64(&engine.numDocsForceUpdated)
 		numf := atomic.LoadUint64(&engine.numForceUpdatingReqs) * uint64(engine.initOptions.NumShards)
-		forced := numf == atomic.LoadUint64(&engine.numDocsForceUpdated)
 
-		if forced {
+		if forced == numf {
 			return
 		}
 
-- 
2.43.0


From 90b74c5b8dfaa6a7d5a4a2c38fe52d5984a1dcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:22 +0000
Subject: [PATCH 31/32] fix: a negative page offset or maximum ends the process

A search whose page has a negative offset panics in the caller, and one with
a negative maximum in the ranker's worker, which ends the process. A negative
offset now means the first result and a negative maximum, like zero, no limit.
---
 core/ranker.go   | 5 ++++-
 engine.go        | 5 ++++-
 ranker_worker.go | 4 ++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/core/ranker.go b/core/ranker.go
index 1f360fe..976ff49 100755
--- a/core/ranker.go
+++ b/core/ranker.go
@@ -111,9 +111,12 @@ func (ranker *Ranker) RemoveDoc(docId string) {
 func maxOutput(options types.RankOpts, docsLen int) (int, int) {
 	var start, end int
 	start = utils.MinInt(options.OutputOffset, docsLen)
+	if start < 0 {
+		start = 0
+	}
 	end = docsLen
 	// OutputOffset+MaxOutputs may overflow
-	if options.MaxOutputs != 0 && options.MaxOutputs < docsLen-start {
+	if options.MaxOutputs > 0 && options.MaxOutputs < docsLen-start {
 		end = start + options.MaxOutputs
 	}
 	return start, end
diff --git a/engine.go b/engine.go
index aa0806a..eb5454d 100755
--- a/engine.go
+++ b/engine.go
@@ -556,9 +556,12 @@ func (engine *Engine) Tokens(request types.SearchReq) (tokens []string) {
 func maxRankOutput(rankOpts types.RankOpts, rankLen int) (int, int) {
 	var start, end int
 	start = utils.MinInt(rankOpts.OutputOffset, rankLen)
+	if start < 0 {
+		start = 0
+	}
 	end = rankLen
 	// start+MaxOutputs may overflow
-	if rankOpts.MaxOutputs != 0 && rankOpts.MaxOutputs < rankLen-start {
+	if rankOpts.MaxOutputs > 0 && rankOpts.MaxOutputs < rankLen-start {
 		end = start + rankOpts.MaxOutputs
 	}
 	return start, end
diff --git a/ranker_worker.go b/ranker_worker.go
index 25632e7..70d3216 100755
--- a/ranker_worker.go
+++ b/ranker_worker.go
@@ -63,9 +63,9 @@ func (engine *Engine) rankerAddDoc(shard int) {
 func (engine *Engine) rankerRank(shard int) {
 	for {
 		request := <-engine.rankerRankChans[shard]
-		if max := request.options.MaxOutputs; max != 0 {
+		if request.options.MaxOutputs > 0 && request.options.OutputOffset > 0 {
 			request.options.MaxOutputs += request.options.OutputOffset
-			if max > 0 && request.options.MaxOutputs < 0 {
+			if request.options.MaxOutputs < 0 {
 				// the sum overflows: no limit
 				request.options.MaxOutputs = 0
 			}
-- 
2.43.0


From bc31e5b572e5dbf9f0ca103d9c76db1d4a29b46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:00 +0000
Subject: [PATCH 32/32] fix: a distributed gRPC search drops answers of more
 than four megabytes

The client of the distributed search kept gRPC's default limit for received
messages, so the documents of a node that answered in time with a larger
message were left out of the result.
---
 net/grpc/grpcc.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/net/grpc/grpcc.go b/net/grpc/grpcc.go
index 52c6b06..b750c60 100644
--- a/net/grpc/grpcc.go
+++ b/net/grpc/grpcc.go
@@ -16,6 +16,7 @@ package grpc
 
 import (
 	"log"
+	"math"
 	// "os"
 	"strconv"
 	"time"
@@ -80,7 +81,9 @@ const rpcTimeout = 1000 * time.Millisecond
 // InitSearchRpc init search grpc
 func InitSearchRpc(address string, sea com.SearchArgs) (*pb.SearchReply, error) {
 	// Set up a connection to the server.
-	conn, err := grpc.Dial(address, grpc.WithInsecure())
+	// The answer of a node may be of any size
+	conn, err := grpc.Dial(address, grpc.WithInsecure(),
+		grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(math.MaxInt32)))
 	if err != nil {
 		log.Printf("did not connect: %v", err)
 		zlog.Error("did not connect: ", err)
-- 
2.43.0

