From a7bac5856896dc082ea17383b2230cc8cd2e0428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 01/70] fix: best-first listing of the LFU and float-ranked
 queues read past the end of each rank

---
 SmartCache/sim/cache/queue/genericF.go | 2 +-
 SmartCache/sim/cache/queue/lfu.go      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/SmartCache/sim/cache/queue/genericF.go b/SmartCache/sim/cache/queue/genericF.go
index a63efba..7d75347 100644
--- a/SmartCache/sim/cache/queue/genericF.go
+++ b/SmartCache/sim/cache/queue/genericF.go
@@ -48,7 +48,7 @@ func (q *QueueBaseFloat) getQueue() []*files.Stats {
 
 	for idxOVal := len(q.orderedValues) - 1; idxOVal > -1; idxOVal-- {
 		curQueue := q.queue[q.orderedValues[idxOVal]]
-		for idx := len(curQueue); idx > -1; idx-- {
+		for idx := len(curQueue) - 1; idx > -1; idx-- {
 			filename := curQueue[idx]
 			fileStats, inQueue := q.files[filename]
 
diff --git a/SmartCache/sim/cache/queue/lfu.go b/SmartCache/sim/cache/queue/lfu.go
index b07ae31..f78adfe 100644
--- a/SmartCache/sim/cache/queue/lfu.go
+++ b/SmartCache/sim/cache/queue/lfu.go
@@ -45,7 +45,7 @@ func (q *LFU) getQueue() []*files.Stats {
 
 	for idxOVal := len(q.orderedValues) - 1; idxOVal > -1; idxOVal-- {
 		curQueue := q.queue[q.orderedValues[idxOVal]]
-		for idx := len(curQueue); idx > -1; idx-- {
+		for idx := len(curQueue) - 1; idx > -1; idx-- {
 			filename := curQueue[idx]
 			fileStats, inQueue := q.files[filename]
 
-- 
2.43.0


From 188a355e9a2e2e5cbcb6fdd526af58ef45380f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:06 +0000
Subject: [PATCH 02/70] fix: the dataset verifier replaced its queue with an
 uninitialised one and failed on the first stored file

---
 SmartCache/sim/cache/lruDatasetVerifier.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/SmartCache/sim/cache/lruDatasetVerifier.go b/SmartCache/sim/cache/lruDatasetVerifier.go
index eb19b2c..85e0bd1 100644
--- a/SmartCache/sim/cache/lruDatasetVerifier.go
+++ b/SmartCache/sim/cache/lruDatasetVerifier.go
@@ -26,9 +26,6 @@ func (cache *LRUDatasetVerifier) Init(param InitParameters) interface{} {
 	param.QueueType = queue.LRUQueue
 	cache.SimpleCache.Init(param)
 
-	cache.files = &queue.LRU{}
-	cache.stats.Data = make(map[int64]*files.Stats)
-
 	cache.datasetFileMap = make(map[int64]bool)
 	datasetFilePath := param.Dataset2TestPath
 
-- 
2.43.0


From b892f5568485e943cc61a22e31aa8dd15f3b242b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:00 +0000
Subject: [PATCH 03/70] fix: clearing the files of a weighted cache lost the
 weight sum, a full clear kept counters of the old statistics

---
 SmartCache/sim/cache/files/stats.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/SmartCache/sim/cache/files/stats.go b/SmartCache/sim/cache/files/stats.go
index 2d4f0eb..d7f7900 100644
--- a/SmartCache/sim/cache/files/stats.go
+++ b/SmartCache/sim/cache/files/stats.go
@@ -34,6 +34,10 @@ func (s *Manager) Init(maxNumDayDiff float64, deltaDaysStep float64, calcWeight
 	s.calcWeight = calcWeight
 	s.maxNumDayDiff = maxNumDayDiff
 	s.deltaDaysStep = deltaDaysStep
+	s.deletedFilesMissLastCount = 0
+	s.weightSum = 0.0
+	s.firstUpdateTime = time.Time{}
+	s.lastUpdateTime = time.Time{}
 	s.logger = zap.L()
 }
 
@@ -73,7 +77,6 @@ func (s *Manager) Clear() {
 	for _, fileStats := range s.Data {
 		fileStats.Recency = 0
 	}
-	s.weightSum = 0.0
 }
 
 // Dirty indicates if the stats needs a purge
-- 
2.43.0


From 770496bd6c8247e68b170d249375f5ad5bf640fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:08 +0000
Subject: [PATCH 04/70] fix: clearing an infinite cache kept the capacity grown
 for its old files

---
 SmartCache/sim/cache/infiniteCache.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/SmartCache/sim/cache/infiniteCache.go b/SmartCache/sim/cache/infiniteCache.go
index b07f8f2..4c104e0 100644
--- a/SmartCache/sim/cache/infiniteCache.go
+++ b/SmartCache/sim/cache/infiniteCache.go
@@ -18,6 +18,18 @@ func (cache *InfiniteCache) Init(params InitParameters) interface{} {
 	return cache
 }
 
+// ClearFiles removes the cache files and the space they were given
+func (cache *InfiniteCache) ClearFiles() {
+	cache.MaxSize -= cache.size
+	cache.SimpleCache.ClearFiles()
+}
+
+// Clear the InfiniteCache struct
+func (cache *InfiniteCache) Clear() {
+	cache.MaxSize -= cache.size
+	cache.SimpleCache.Clear()
+}
+
 // BeforeRequest of LRU cache
 func (cache *InfiniteCache) BeforeRequest(request *Request, hit bool) (*files.Stats, bool) {
 	// cache.prevTime = cache.curTime
-- 
2.43.0


From ffd549cc79edaf9e153a928fff7c803be27e6877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:49 +0000
Subject: [PATCH 05/70] fix: keep the position in the request time ring when
 statistics are dumped

---
 SmartCache/sim/cache/files/stats.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SmartCache/sim/cache/files/stats.go b/SmartCache/sim/cache/files/stats.go
index d7f7900..35dea91 100644
--- a/SmartCache/sim/cache/files/stats.go
+++ b/SmartCache/sim/cache/files/stats.go
@@ -202,7 +202,7 @@ type Stats struct {
 	RequestedTimesMean float64     `json:"requestedTimesMean"`
 	RequestedTimes     []time.Time `json:"requestedTimes"`
 	DeltaLastRequest   int64       `json:"deltaLastRequest"`
-	idxLastRequest     int
+	IdxLastRequest     int         `json:"idxLastRequest"`
 }
 
 // DiffLastUpdate returns the number of days from the last update stats
@@ -225,8 +225,8 @@ func (stats *Stats) UpdateStats(hit bool, size float64, userID int64, siteName i
 	if len(stats.RequestedTimes) < NumRequestedTimes {
 		stats.RequestedTimes = append(stats.RequestedTimes, time.Time{})
 	}
-	stats.RequestedTimes[stats.idxLastRequest] = curTime
-	stats.idxLastRequest = (stats.idxLastRequest + 1) % NumRequestedTimes
+	stats.RequestedTimes[stats.IdxLastRequest] = curTime
+	stats.IdxLastRequest = (stats.IdxLastRequest + 1) % NumRequestedTimes
 }
 
 func (stats *Stats) updateWeight(wFun functions.WeightFun, alpha float64, beta float64, gamma float64) float64 {
-- 
2.43.0


From 37670b8178f0642795c11e7edf85923277f9e72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:01 +0000
Subject: [PATCH 06/70] fix: loaded files keep their own statistics and request
 numbering

---
 SmartCache/sim/cache/files/stats.go | 12 ++++++++++++
 SmartCache/sim/cache/simpleCache.go | 14 ++++++++++----
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/SmartCache/sim/cache/files/stats.go b/SmartCache/sim/cache/files/stats.go
index 35dea91..11e6e7c 100644
--- a/SmartCache/sim/cache/files/stats.go
+++ b/SmartCache/sim/cache/files/stats.go
@@ -161,6 +161,18 @@ func (s *Manager) GetOrCreate(filename int64, size float64, reqTime time.Time, c
 	return curStats, !inStats
 }
 
+// Restore adds the statistics of a file read from a dump, if there are none yet
+func (s *Manager) Restore(stats *Stats) bool {
+	if _, inStats := s.Data[stats.Filename]; inStats {
+		return false
+	}
+
+	s.Data[stats.Filename] = stats
+	s.weightSum += stats.Weight
+
+	return true
+}
+
 // UpdateWeight update the weight of a file and also the sum of all weights
 func (s *Manager) UpdateWeight(stats *Stats, newFile bool, wFun functions.WeightFun, alpha float64, beta float64, gamma float64) {
 	if newFile {
diff --git a/SmartCache/sim/cache/simpleCache.go b/SmartCache/sim/cache/simpleCache.go
index dc4b80c..c53c30e 100644
--- a/SmartCache/sim/cache/simpleCache.go
+++ b/SmartCache/sim/cache/simpleCache.go
@@ -182,6 +182,7 @@ func (cache *SimpleCache) ClearFiles() {
 	queue.Init(cache.files)
 	cache.stats.Clear()
 	cache.size = 0.
+	cache.tick = 0 // as the recency of the files
 }
 
 // Clear the LRU struct
@@ -305,20 +306,25 @@ func (cache *SimpleCache) Loads(inputString [][]byte, _ ...interface{}) {
 				panic(unmarshalErr)
 			}
 			cache.size += curFileStats.Size
-			cache.stats.Data[curRecord.Filename] = &curFileStats
+			cache.restoreStats(&curFileStats)
 		case "STATS":
 			var curFileStats files.Stats
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &curFileStats)
 			if unmarshalErr != nil {
 				panic(unmarshalErr)
 			}
-			if _, inStats := cache.stats.Data[curRecord.Filename]; !inStats {
-				cache.stats.Data[curRecord.Filename] = &curFileStats
-			}
+			cache.restoreStats(&curFileStats)
 		}
 	}
 }
 
+// restoreStats puts back the statistics of a file and goes on counting after its last request
+func (cache *SimpleCache) restoreStats(stats *files.Stats) {
+	if cache.stats.Restore(stats) && stats.Recency >= cache.tick {
+		cache.tick = stats.Recency + 1
+	}
+}
+
 // Load the SimpleCache cache
 func (cache *SimpleCache) Load(filename string) [][]byte {
 	cache.logger.Info("Load cache Dump", zap.String("filename", filename))
-- 
2.43.0


From af02b7d141a21b6b46eca958de0ebe5e87f87dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 07/70] fix: dump and load weighted and neural network caches
 like the others

---
 SmartCache/sim/cache/aiNN.go      | 58 -------------------------
 SmartCache/sim/cache/weightFun.go | 71 -------------------------------
 2 files changed, 129 deletions(-)

diff --git a/SmartCache/sim/cache/aiNN.go b/SmartCache/sim/cache/aiNN.go
index e8ad18b..cc5855f 100644
--- a/SmartCache/sim/cache/aiNN.go
+++ b/SmartCache/sim/cache/aiNN.go
@@ -2,13 +2,11 @@ package cache
 
 import (
 	"context"
-	"encoding/json"
 	"time"
 
 	"simulator/v2/cache/ai/featuremap"
 	"simulator/v2/cache/ai/neuralnet"
 	aiPb "simulator/v2/cache/aiService"
-	"simulator/v2/cache/files"
 	"simulator/v2/cache/queue"
 
 	"google.golang.org/grpc"
@@ -73,62 +71,6 @@ func (cache *AINN) Init(params InitParameters) interface{} {
 	return nil
 }
 
-// Dumps the AINN cache
-func (cache *AINN) Dumps(fileAndStats bool) [][]byte {
-	outData := make([][]byte, 0)
-	var newLine = []byte("\n")
-
-	if fileAndStats {
-		// ----- Files -----
-		cache.logger.Info("Dump cache files")
-		for file := range queue.Get(cache.files) {
-			dumpInfo, _ := json.Marshal(DumpInfo{Type: "FILES"})
-			dumpFile, _ := json.Marshal(file)
-			record, _ := json.Marshal(DumpRecord{
-				Info: string(dumpInfo),
-				Data: string(dumpFile),
-			})
-			record = append(record, newLine...)
-			outData = append(outData, record)
-		}
-		// ----- Stats -----
-		cache.logger.Info("Dump cache stats")
-		for _, stats := range cache.stats.Data {
-			dumpInfo, _ := json.Marshal(DumpInfo{Type: "STATS"})
-			dumpStats, _ := json.Marshal(stats)
-			record, _ := json.Marshal(DumpRecord{
-				Info: string(dumpInfo),
-				Data: string(dumpStats),
-			})
-			record = append(record, newLine...)
-			outData = append(outData, record)
-		}
-	}
-
-	return outData
-}
-
-// Loads the AINN cache
-func (cache *AINN) Loads(inputString [][]byte, _ ...interface{}) {
-	var curRecord DumpRecord
-	var curRecordInfo DumpInfo
-
-	for _, record := range inputString {
-		buffer := record[:len(record)-1]
-		json.Unmarshal(buffer, &curRecord)
-		json.Unmarshal([]byte(curRecord.Info), &curRecordInfo)
-		switch curRecordInfo.Type {
-		case "FILES":
-			var curFile files.Stats
-			json.Unmarshal([]byte(curRecord.Data), &curFile)
-			queue.Insert(cache.files, &curFile)
-			cache.size += curFile.Size
-		case "STATS":
-			json.Unmarshal([]byte(curRecord.Data), &cache.stats.Data)
-		}
-	}
-}
-
 // func (cache *AINN) getCategory(catKey string, value interface{}) []float64 {
 // 	var res []float64
 // 	curCategory := cache.aiFeatureMap[catKey]
diff --git a/SmartCache/sim/cache/weightFun.go b/SmartCache/sim/cache/weightFun.go
index d85cba6..ae57ba3 100644
--- a/SmartCache/sim/cache/weightFun.go
+++ b/SmartCache/sim/cache/weightFun.go
@@ -1,7 +1,6 @@
 package cache
 
 import (
-	"encoding/json"
 	"fmt"
 	"os"
 
@@ -49,76 +48,6 @@ func (cache *WeightFun) Init(params InitParameters) interface{} {
 	return cache
 }
 
-// Dumps the WeightFun cache
-func (cache *WeightFun) Dumps(fileAndStats bool) [][]byte {
-	cache.logger.Info("Dump cache into byte string")
-	outData := make([][]byte, 0)
-	var newLine = []byte("\n")
-
-	if fileAndStats {
-		// ----- Files -----
-		cache.logger.Info("Dump cache files")
-		for _, file := range queue.GetFromWorst(cache.files) {
-			dumpInfo, _ := json.Marshal(DumpInfo{Type: "FILES"})
-			dumpFile, _ := json.Marshal(file)
-			record, _ := json.Marshal(DumpRecord{
-				Info: string(dumpInfo),
-				Data: string(dumpFile),
-			})
-			record = append(record, newLine...)
-			outData = append(outData, record)
-		}
-		// ----- Stats -----
-		cache.logger.Info("Dump cache stats")
-		for _, stats := range cache.stats.Data {
-			dumpInfo, _ := json.Marshal(DumpInfo{Type: "STATS"})
-			dumpStats, _ := json.Marshal(stats)
-			record, _ := json.Marshal(DumpRecord{
-				Info: string(dumpInfo),
-				Data: string(dumpStats),
-			})
-			record = append(record, newLine...)
-			outData = append(outData, record)
-		}
-	}
-	return outData
-}
-
-// Loads the WeightFun cache
-func (cache *WeightFun) Loads(inputString [][]byte, _ ...interface{}) {
-	cache.logger.Info("Load cache dump string")
-	var (
-		curRecord     DumpRecord
-		curRecordInfo DumpInfo
-		unmarshalErr  error
-	)
-	for _, record := range inputString {
-		buffer := record[:len(record)-1]
-		json.Unmarshal(buffer, &curRecord)
-		json.Unmarshal([]byte(curRecord.Info), &curRecordInfo)
-		switch curRecordInfo.Type {
-		case "FILES":
-			var curFileStats files.Stats
-			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &curFileStats)
-			if unmarshalErr != nil {
-				panic(unmarshalErr)
-			}
-			queue.Insert(cache.files, &curFileStats)
-			cache.size += curFileStats.Size
-			cache.stats.Data[curRecord.Filename] = &curFileStats
-		case "STATS":
-			var curFileStats files.Stats
-			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &curFileStats)
-			if unmarshalErr != nil {
-				panic(unmarshalErr)
-			}
-			if _, inStats := cache.stats.Data[curRecord.Filename]; !inStats {
-				cache.stats.Data[curRecord.Filename] = &curFileStats
-			}
-		}
-	}
-}
-
 // BeforeRequest of LRU cache
 func (cache *WeightFun) BeforeRequest(request *Request, hit bool) (*files.Stats, bool) {
 	// cache.prevTime = cache.curTime
-- 
2.43.0


From 5ba67a3fb372b08fdac27f51c2f227fbeed647e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:17 +0000
Subject: [PATCH 08/70] fix: the infinite cache makes space for the files it
 loads

---
 SmartCache/sim/cache/infiniteCache.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/SmartCache/sim/cache/infiniteCache.go b/SmartCache/sim/cache/infiniteCache.go
index 4c104e0..064d40a 100644
--- a/SmartCache/sim/cache/infiniteCache.go
+++ b/SmartCache/sim/cache/infiniteCache.go
@@ -30,6 +30,13 @@ func (cache *InfiniteCache) Clear() {
 	cache.SimpleCache.Clear()
 }
 
+// Loads the InfiniteCache cache with the space its files take
+func (cache *InfiniteCache) Loads(inputString [][]byte, vars ...interface{}) {
+	cache.MaxSize -= cache.size
+	cache.SimpleCache.Loads(inputString, vars...)
+	cache.MaxSize += cache.size
+}
+
 // BeforeRequest of LRU cache
 func (cache *InfiniteCache) BeforeRequest(request *Request, hit bool) (*files.Stats, bool) {
 	// cache.prevTime = cache.curTime
-- 
2.43.0


From 494b40c1375a30babe4e02e6a0121b48a65a3693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:48 +0000
Subject: [PATCH 09/70] fix: clearing or freeing a learned cache keeps its file
 categories in step

---
 SmartCache/sim/cache/aiRL.go                | 58 +++++++++++++++------
 SmartCache/sim/cache/aiRLCatStateManager.go | 17 ++++++
 2 files changed, 60 insertions(+), 15 deletions(-)

diff --git a/SmartCache/sim/cache/aiRL.go b/SmartCache/sim/cache/aiRL.go
index a1a1dc0..2b058ae 100644
--- a/SmartCache/sim/cache/aiRL.go
+++ b/SmartCache/sim/cache/aiRL.go
@@ -139,14 +139,7 @@ func (cache *AIRL) Init(params InitParameters) interface{} { //nolint:ignore,fun
 				params.AIRLEvictionEpsilonUnleash,
 				params.RandSeed,
 			)
-			cache.evictionCategoryManager = CategoryManager{}
-			cache.evictionCategoryManager.Init(
-				cache.evictionFeatureManager.Features,
-				cache.evictionFeatureManager.FeatureIdxWeights,
-				cache.evictionFeatureManager.FileFeatures,
-				cache.evictionFeatureManager.FileFeatureIdxWeights,
-				cache.evictionFeatureManager.FileFeatureIdxMap,
-			)
+			cache.resetCategories()
 
 			cache.evictionCheckNextStateMap = make(map[[8]byte]bool)
 			cache.evictionAgentOK = true
@@ -196,9 +189,33 @@ func (cache *AIRL) Init(params InitParameters) interface{} { //nolint:ignore,fun
 	return nil
 }
 
-// ClearStats the cache stats
-func (cache *AIRL) ClearStats() {
-	cache.SimpleCache.ClearStats()
+// resetCategories makes the category manager forget all the files
+func (cache *AIRL) resetCategories() {
+	cache.evictionCategoryManager = CategoryManager{}
+	cache.evictionCategoryManager.Init(
+		cache.evictionFeatureManager.Features,
+		cache.evictionFeatureManager.FeatureIdxWeights,
+		cache.evictionFeatureManager.FileFeatures,
+		cache.evictionFeatureManager.FileFeatureIdxWeights,
+		cache.evictionFeatureManager.FileFeatureIdxMap,
+	)
+}
+
+// ClearFiles remove the cache files
+func (cache *AIRL) ClearFiles() {
+	cache.SimpleCache.ClearFiles()
+	cache.resetCategories()
+}
+
+// Clear the AIRL struct, the agents keep what they learned
+func (cache *AIRL) Clear() {
+	cache.SimpleCache.Clear()
+	cache.resetCategories()
+	cache.clearAgentStats()
+	cache.evictionAgentStep = cache.evictionAgentK
+}
+
+func (cache *AIRL) clearAgentStats() {
 	cache.evictionAgentNumCalls = 0
 	cache.evictionAgentNumForcedCalls = 0
 	cache.actionCounters[qlearn.ActionStore] = 0
@@ -208,11 +225,16 @@ func (cache *AIRL) ClearStats() {
 	cache.actionCounters[qlearn.ActionDeleteQuarter] = 0
 	cache.actionCounters[qlearn.ActionDeleteOne] = 0
 	cache.actionCounters[qlearn.ActionNotDelete] = 0
+	cache.numDailyCategories = cache.numDailyCategories[:0]
+	cache.sumNumDailyCategories = 0
+}
 
-	if cache.evictionAgentOK {
-		cache.numDailyCategories = cache.numDailyCategories[:0]
-		cache.sumNumDailyCategories = 0
+// ClearStats the cache stats
+func (cache *AIRL) ClearStats() {
+	cache.SimpleCache.ClearStats()
+	cache.clearAgentStats()
 
+	if cache.evictionAgentOK {
 		if cache.evictionType == EvictionOnDayEnd {
 			if cache.logFile != nil {
 				cache.toLogBuffer([]string{
@@ -1261,7 +1283,13 @@ func (cache *AIRL) AfterRequest(request *Request, fileStats *files.Stats, hit bo
 
 // Free removes files from the cache
 func (cache *AIRL) Free(amount float64, percentage bool) float64 {
-	return cache.SimpleCache.Free(amount, percentage)
+	totalDeleted := cache.SimpleCache.Free(amount, percentage)
+
+	if cache.evictionAgentOK {
+		cache.evictionCategoryManager.retain(cache.files.Check)
+	}
+
+	return totalDeleted
 }
 
 // CheckWatermark checks the watermark levels and resolve the situation
diff --git a/SmartCache/sim/cache/aiRLCatStateManager.go b/SmartCache/sim/cache/aiRLCatStateManager.go
index 9bc1d45..cd6d9aa 100644
--- a/SmartCache/sim/cache/aiRLCatStateManager.go
+++ b/SmartCache/sim/cache/aiRLCatStateManager.go
@@ -121,6 +121,23 @@ func (catMan *CategoryManager) AddOrUpdateCategoryFile(category int, file *files
 	}
 }
 
+// retain removes the files that are no longer in cache from their categories
+func (catMan *CategoryManager) retain(inCache func(int64) bool) {
+	gone := make([]DelCatFile, 0)
+
+	for category, categoryFiles := range catMan.categoryFileListMap {
+		for _, file := range categoryFiles {
+			if !inCache(file.Filename) {
+				gone = append(gone, DelCatFile{Category: category, File: file})
+			}
+		}
+	}
+
+	for _, curFile := range gone {
+		catMan.deleteFileFromCategory(curFile.Category, curFile.File)
+	}
+}
+
 // GetFileCategory returns the category of a specific file
 func (catMan CategoryManager) GetFileCategory(file *files.Stats) int {
 	catMan.buffer = catMan.buffer[:0]
-- 
2.43.0


From ceeb362796b77d6ff3c8c470a9058e3fe5b27d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:16 +0000
Subject: [PATCH 10/70] fix: loaded learned caches keep file statistics and
 categories

The restored files were counted with loaded statistics but the eviction
agent's categories stayed those of the cache before the load, and the
agents' pending memories cannot be restored from JSON.
---
 SmartCache/sim/cache/ai/qlearn/qlearn.go |  2 +-
 SmartCache/sim/cache/aiRL.go             | 14 ++++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/SmartCache/sim/cache/ai/qlearn/qlearn.go b/SmartCache/sim/cache/ai/qlearn/qlearn.go
index 64254cc..538a37b 100644
--- a/SmartCache/sim/cache/ai/qlearn/qlearn.go
+++ b/SmartCache/sim/cache/ai/qlearn/qlearn.go
@@ -191,7 +191,7 @@ type Choice struct {
 
 // Agent used in Qlearning
 type Agent struct {
-	Memory              map[interface{}][]Choice `json:"memory"`
+	Memory              map[interface{}][]Choice `json:"-"` // not in dumps, JSON does not keep the types of the keys
 	QTable              QTable                   `json:"qtable"`
 	NumStates           int                      `json:"numStates"`
 	NumVars             int                      `json:"numVars"`
diff --git a/SmartCache/sim/cache/aiRL.go b/SmartCache/sim/cache/aiRL.go
index 2b058ae..965c4a2 100644
--- a/SmartCache/sim/cache/aiRL.go
+++ b/SmartCache/sim/cache/aiRL.go
@@ -385,13 +385,11 @@ func (cache *AIRL) Loads(inputString [][]byte, vars ...interface{}) {
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &curFileStats)
 			queue.Insert(cache.files, &curFileStats)
 			cache.size += curFileStats.Size
-			cache.stats.Data[curRecord.Filename] = &curFileStats
+			cache.restoreStats(&curFileStats)
 		case "STATS":
 			var curFileStats files.Stats
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &curFileStats)
-			if _, inStats := cache.stats.Data[curRecord.Filename]; !inStats {
-				cache.stats.Data[curRecord.Filename] = &curFileStats
-			}
+			cache.restoreStats(&curFileStats)
 		case "ADDAGENT":
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &cache.additionAgent)
 			cache.additionAgent.ResetParams(initEpsilon, decayRateEpsilon)
@@ -410,6 +408,14 @@ func (cache *AIRL) Loads(inputString [][]byte, vars ...interface{}) {
 		}
 	}
 
+	if cache.evictionAgentOK {
+		cache.resetCategories()
+
+		for _, file := range queue.GetFromWorst(cache.files) {
+			fileCategory := cache.evictionCategoryManager.GetFileCategory(file)
+			cache.evictionCategoryManager.AddOrUpdateCategoryFile(fileCategory, file)
+		}
+	}
 }
 
 func (cache *AIRL) getState4AdditionAgent(hit bool, curFileStats *files.Stats) int {
-- 
2.43.0


From 32c075513fdad038f31a7a5a7a56d883dd6d331f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:51 +0000
Subject: [PATCH 11/70] fix: a start value below 1 of the exploration rate
 lasted one step only

The first update computed the rate from a maximum of 1, so it jumped up from
any configured start value.
---
 SmartCache/sim/cache/ai/qlearn/qlearn.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/SmartCache/sim/cache/ai/qlearn/qlearn.go b/SmartCache/sim/cache/ai/qlearn/qlearn.go
index 538a37b..96caaf6 100644
--- a/SmartCache/sim/cache/ai/qlearn/qlearn.go
+++ b/SmartCache/sim/cache/ai/qlearn/qlearn.go
@@ -217,7 +217,7 @@ func (agent *Agent) Init(featureManager *featuremap.FeatureManager, role AgentRo
 	agent.DiscountFactor = 0.5
 	agent.DecayRateEpsilon = decayRateEpsilon
 	agent.Epsilon = initEpsilon
-	agent.MaxEpsilon = 1.0
+	agent.MaxEpsilon = initEpsilon
 	agent.MinEpsilon = 0.1
 	agent.Memory = make(map[interface{}][]Choice)
 	agent.allowEpsilonUnleash = allowEpsilonUnleash
@@ -268,7 +268,7 @@ func (agent *Agent) ResetParams(initEpsilon float64, decayRateEpsilon float64) {
 	agent.DiscountFactor = 0.5
 	agent.DecayRateEpsilon = decayRateEpsilon
 	agent.Epsilon = initEpsilon
-	agent.MaxEpsilon = 1.0
+	agent.MaxEpsilon = initEpsilon
 	agent.MinEpsilon = 0.1
 	agent.StepNum = 0
 	agent.QValue = 0.
@@ -289,7 +289,8 @@ func (agent *Agent) ResetTableAction() {
 // UnleashEpsilon set Epsilon to 1.0
 func (agent *Agent) UnleashEpsilon(newEpsilon interface{}) {
 	if agent.allowEpsilonUnleash {
-		agent.Epsilon = 1.0
+		agent.MaxEpsilon = 1.0
+		agent.Epsilon = agent.MaxEpsilon
 		agent.StepNum = 0
 
 		if newEpsilon != nil {
-- 
2.43.0


From eec94c84acce81f6d3ad15dc95a44621869c0b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:40 +0000
Subject: [PATCH 12/70] fix: read all the documented columns of a record

Exit code, start and end time, number of CPUs and the wrapper times were
never read, so the job filter ignored the exit code.
---
 SmartCache/sim/cache/simulation.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/SmartCache/sim/cache/simulation.go b/SmartCache/sim/cache/simulation.go
index cf3909c..ae177d2 100644
--- a/SmartCache/sim/cache/simulation.go
+++ b/SmartCache/sim/cache/simulation.go
@@ -128,6 +128,12 @@ func recordGenerator(csvReader *csv.Reader, curFile *os.File, headerMap []int) c
 			taskMonitorID, _ := strconv.ParseInt(record[headerMap[4]], 10, 64)
 			jobID, _ := strconv.ParseInt(record[headerMap[5]], 10, 64)
 			protocol, _ := strconv.ParseInt(record[headerMap[6]], 10, 64)
+			jobExecExitCode, _ := strconv.ParseInt(record[headerMap[7]], 10, 64)
+			jobStart, _ := strconv.ParseInt(record[headerMap[8]], 10, 64)
+			jobEnd, _ := strconv.ParseInt(record[headerMap[9]], 10, 64)
+			numCPU, _ := strconv.ParseInt(record[headerMap[10]], 10, 64)
+			wrapWC, _ := strconv.ParseFloat(record[headerMap[11]], 64)
+			wrapCPU, _ := strconv.ParseFloat(record[headerMap[12]], 64)
 			size, _ := strconv.ParseFloat(record[headerMap[13]], 64)
 			dataType, _ := strconv.ParseInt(record[headerMap[14]], 10, 64)
 			fileType, _ := strconv.ParseInt(record[headerMap[15]], 10, 64)
@@ -164,6 +170,13 @@ func recordGenerator(csvReader *csv.Reader, curFile *os.File, headerMap []int) c
 				SizeM:         sizeInMegabytes,
 				Campaign:      campaign,
 				Process:       process,
+
+				JobExecExitCode: jobExecExitCode,
+				JobStart:        jobStart,
+				JobEnd:          jobEnd,
+				NumCPU:          numCPU,
+				WrapWC:          wrapWC,
+				WrapCPU:         wrapCPU,
 			}
 
 			// fmt.Println(curRecord)
-- 
2.43.0


From 10bca468a5362aae580d96ecac343f71a5444c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:52 +0000
Subject: [PATCH 13/70] fix: weighted, dataset and infinite caches left stored
 files out of the event log

---
 SmartCache/sim/cache/infiniteCache.go      | 15 +++++++++++++++
 SmartCache/sim/cache/lruDatasetVerifier.go | 15 +++++++++++++++
 SmartCache/sim/cache/weightFun.go          | 13 +++++++++++++
 3 files changed, 43 insertions(+)

diff --git a/SmartCache/sim/cache/infiniteCache.go b/SmartCache/sim/cache/infiniteCache.go
index 064d40a..20a6016 100644
--- a/SmartCache/sim/cache/infiniteCache.go
+++ b/SmartCache/sim/cache/infiniteCache.go
@@ -1,6 +1,8 @@
 package cache
 
 import (
+	"fmt"
+
 	"simulator/v2/cache/files"
 	"simulator/v2/cache/queue"
 )
@@ -60,6 +62,19 @@ func (cache *InfiniteCache) UpdatePolicy(request *Request, fileStats *files.Stat
 
 		cache.size += requestedFileSize
 		cache.MaxSize += requestedFileSize
+
+		if cache.logFile != nil {
+			cache.toLogBuffer([]string{
+				fmt.Sprintf("%d", cache.tick),
+				ChoiceAdd,
+				fmt.Sprintf("%0.2f", cache.size),
+				fmt.Sprintf("%0.2f", cache.Capacity()),
+				fmt.Sprintf("%d", fileStats.Filename),
+				fmt.Sprintf("%0.2f", fileStats.Size),
+				fmt.Sprintf("%d", fileStats.Frequency),
+				fmt.Sprintf("%d", fileStats.DeltaLastRequest),
+			})
+		}
 	}
 
 	return added
diff --git a/SmartCache/sim/cache/lruDatasetVerifier.go b/SmartCache/sim/cache/lruDatasetVerifier.go
index 85e0bd1..b1faf32 100644
--- a/SmartCache/sim/cache/lruDatasetVerifier.go
+++ b/SmartCache/sim/cache/lruDatasetVerifier.go
@@ -3,6 +3,7 @@ package cache
 import (
 	"compress/gzip"
 	"encoding/json"
+	"fmt"
 	"log"
 	"os"
 
@@ -71,6 +72,20 @@ func (cache *LRUDatasetVerifier) UpdatePolicy(request *Request, fileStats *files
 				queue.Insert(cache.files, fileStats)
 
 				cache.size += requestedFileSize
+
+				if cache.logFile != nil {
+					cache.toLogBuffer([]string{
+						fmt.Sprintf("%d", cache.tick),
+						ChoiceAdd,
+						fmt.Sprintf("%0.2f", cache.size),
+						fmt.Sprintf("%0.2f", cache.Capacity()),
+						fmt.Sprintf("%d", fileStats.Filename),
+						fmt.Sprintf("%0.2f", fileStats.Size),
+						fmt.Sprintf("%d", fileStats.Frequency),
+						fmt.Sprintf("%d", fileStats.DeltaLastRequest),
+					})
+				}
+
 				added = true
 			}
 		}
diff --git a/SmartCache/sim/cache/weightFun.go b/SmartCache/sim/cache/weightFun.go
index ae57ba3..a24c1b6 100644
--- a/SmartCache/sim/cache/weightFun.go
+++ b/SmartCache/sim/cache/weightFun.go
@@ -89,6 +89,19 @@ func (cache *WeightFun) UpdatePolicy(request *Request, fileStats *files.Stats, h
 
 			queue.Insert(cache.files, fileStats)
 
+			if cache.logFile != nil {
+				cache.toLogBuffer([]string{
+					fmt.Sprintf("%d", cache.tick),
+					ChoiceAdd,
+					fmt.Sprintf("%0.2f", cache.size),
+					fmt.Sprintf("%0.2f", cache.Capacity()),
+					fmt.Sprintf("%d", fileStats.Filename),
+					fmt.Sprintf("%0.2f", fileStats.Size),
+					fmt.Sprintf("%d", fileStats.Frequency),
+					fmt.Sprintf("%d", fileStats.DeltaLastRequest),
+				})
+			}
+
 			added = true
 		}
 	} else {
-- 
2.43.0


From 4c723d670db92d19370f4788629c48258e8b93ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:26 +0000
Subject: [PATCH 14/70] fix: a day without served requests ended a simulation
 with an eviction agent

---
 SmartCache/sim/cache/aiRL.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/SmartCache/sim/cache/aiRL.go b/SmartCache/sim/cache/aiRL.go
index 965c4a2..7ae9338 100644
--- a/SmartCache/sim/cache/aiRL.go
+++ b/SmartCache/sim/cache/aiRL.go
@@ -1342,12 +1342,20 @@ func writeQTable(outFilename string, data string) {
 }
 
 func (cache *AIRL) meanNumCategories() int {
+	if len(cache.numDailyCategories) == 0 {
+		return 0
+	}
+
 	return cache.sumNumDailyCategories / len(cache.numDailyCategories)
 }
 
 func (cache *AIRL) stdDevNumCategories() float64 {
 	var sum int
 
+	if len(cache.numDailyCategories) == 0 {
+		return 0.
+	}
+
 	mean := cache.meanNumCategories()
 
 	for _, value := range cache.numDailyCategories {
-- 
2.43.0


From 4b3933baf5ce45a732a8c6227a629eb1292a8eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:08 +0000
Subject: [PATCH 15/70] fix: the Python LRU cache failed on a file larger than
 the cache

---
 SmartCache/pySim/cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SmartCache/pySim/cache.py b/SmartCache/pySim/cache.py
index f7b5622..9436e97 100644
--- a/SmartCache/pySim/cache.py
+++ b/SmartCache/pySim/cache.py
@@ -99,7 +99,7 @@ class LRU(object):
                 self._queue.append(filename)
                 self._size += file_stats.size
                 return True
-            else:
+            elif file_stats.size <= self._max_size:
                 while self._size + file_stats.size > self._max_size:
                     to_remove = self._queue.pop(0)
                     file_size = self._files[to_remove].size
-- 
2.43.0


From aa75fd62c7222e7aff9b0b763731ba7a7f15036b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:40 +0000
Subject: [PATCH 16/70] fix: reading a JSON data file failed on Python 3.9 and
 later (json.loads has no encoding argument)

---
 DataManager/collector/datafile/json.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DataManager/collector/datafile/json.py b/DataManager/collector/datafile/json.py
index f5b5bba..85ae895 100644
--- a/DataManager/collector/datafile/json.py
+++ b/DataManager/collector/datafile/json.py
@@ -234,7 +234,7 @@ class JSONDataFileReader(object):
         for idx, (json_obj, _) in enumerate(iter(self.__get_json, (None, -1)), cur_idx):
             if idx == stop - 1:
                 break
-            yield json.loads(json_obj, encoding="utf-8")
+            yield json.loads(json_obj)
 
     def __getitem__(self, idx):
         """Select an item or a group of item from the file.
@@ -259,7 +259,7 @@ class JSONDataFileReader(object):
             for cur_index in range(-idx):
                 obj, pos = self.__get_json_from_end()
                 if -cur_index - 1 == idx:
-                    return json.loads(obj, encoding="utf-8")
+                    return json.loads(obj)
             raise IndexError
 
         if isinstance(idx, slice):
@@ -290,7 +290,7 @@ class JSONDataFileReader(object):
                 self.__last_index = cur_idx
 
                 if cur_idx == target_idx:
-                    results.append(json.loads(last_obj, encoding="utf-8"))
+                    results.append(json.loads(last_obj))
                     break
 
                 cur_idx += 1
@@ -324,7 +324,7 @@ class JSONDataFileReader(object):
         """
         next_json, _ = self.__get_json()
         if next_json is not None:
-            return json.loads(next_json, encoding="utf-8")
+            return json.loads(next_json)
         else:
             raise StopIteration
 
-- 
2.43.0


From eb2e8db29f25c17ba3eed49878885e0bbddc51f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:40 +0000
Subject: [PATCH 17/70] fix: a negative index of a JSON data file gave the last
 record, failed or never ended

---
 DataManager/collector/datafile/json.py | 26 +++-----------------------
 1 file changed, 3 insertions(+), 23 deletions(-)

diff --git a/DataManager/collector/datafile/json.py b/DataManager/collector/datafile/json.py
index 85ae895..eb933ed 100644
--- a/DataManager/collector/datafile/json.py
+++ b/DataManager/collector/datafile/json.py
@@ -175,24 +175,6 @@ class JSONDataFileReader(object):
             self.__len = num_lines
         return self.__len
 
-    def __get_json_from_end(self, step: int = 1024):
-        buffer = b''
-        index = -step - 1
-        cur_chars = b''
-        while cur_chars.rfind(b'\n') == -1:
-            self.__descriptor.seek(index, 2)
-            last_pos = self.__descriptor.tell()
-            cur_chars = self.__descriptor.read(step)
-            buffer = cur_chars + buffer
-            index -= step
-        if len(buffer) >= 2:
-            return (
-                buffer[cur_chars.rfind(b'\n')+1:], last_pos +
-                cur_chars.rfind(b'\n')
-            )
-        else:
-            return (None, -1)
-
     def __get_json(self):
         """Extract a json object string from the file.
 
@@ -256,11 +238,9 @@ class JSONDataFileReader(object):
             idx, (int, slice)), "Index Could be an integer or a slice"
 
         if isinstance(idx, int) and idx < 0:
-            for cur_index in range(-idx):
-                obj, pos = self.__get_json_from_end()
-                if -cur_index - 1 == idx:
-                    return json.loads(obj)
-            raise IndexError
+            idx += len(self)
+            if idx < 0:
+                raise IndexError
 
         if isinstance(idx, slice):
             to_extract = (elm for elm in gen_increasing_slice(idx))
-- 
2.43.0


From db0bb5c19645f4327118829d070025cbd3034a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:40 +0000
Subject: [PATCH 18/70] fix: a compressed JSON data file could not be opened to
 append

---
 DataManager/collector/datafile/json.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/DataManager/collector/datafile/json.py b/DataManager/collector/datafile/json.py
index eb933ed..4aee5cb 100644
--- a/DataManager/collector/datafile/json.py
+++ b/DataManager/collector/datafile/json.py
@@ -34,8 +34,7 @@ class JSONDataFileWriter(object):
             else:
                 self.__descriptor = get_or_create_descriptor(
                     self.__filename, "wb")
-
-        if append:
+        elif append:
             self.__descriptor.seek(0, 2)
 
         if data is not None:
-- 
2.43.0


From c6176479f559289d442cec27c849be7e03931440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:41 +0000
Subject: [PATCH 19/70] fix: the evaluator's LRU cache replaced the most
 recently used file

---
 SmartCache/ai/models/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SmartCache/ai/models/evaluator.py b/SmartCache/ai/models/evaluator.py
index a22f89c..d28c340 100644
--- a/SmartCache/ai/models/evaluator.py
+++ b/SmartCache/ai/models/evaluator.py
@@ -107,7 +107,7 @@ class LRUCache(SimpleCache):
         elif len(self._cache) == self._max_size:
             self._miss += 1
             if insert:
-                idx = np.argmin(self._counters)
+                idx = np.argmax(self._counters)
                 self._cache.pop(idx)
                 self._cache.insert(idx, file_)
                 self._counters[idx] = 0
-- 
2.43.0


From 122731aea6ae3e51c1462352fa058806bb55d93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:41 +0000
Subject: [PATCH 20/70] fix: the evaluator's FIFO cache removed a file on hits
 and on files that are not inserted

---
 SmartCache/ai/models/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SmartCache/ai/models/evaluator.py b/SmartCache/ai/models/evaluator.py
index d28c340..c9ec6d1 100644
--- a/SmartCache/ai/models/evaluator.py
+++ b/SmartCache/ai/models/evaluator.py
@@ -80,7 +80,7 @@ class FIFOCache(SimpleCache):
         self._max_size = max_size
 
     def update(self, file_, insert: bool = True):
-        if len(self._cache) == self._max_size:
+        if insert and not self.check(file_) and len(self._cache) == self._max_size:
             self._cache.pop(0)
         return super(FIFOCache, self).update(file_, insert)
 
-- 
2.43.0


From c3a19e0e4f100014ad77055b72c3c08c3c037b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:56 +0000
Subject: [PATCH 21/70] fix: the evaluator's LRU cache forgot its order when
 its state was passed as Evaluator passes it

---
 SmartCache/ai/models/evaluator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/SmartCache/ai/models/evaluator.py b/SmartCache/ai/models/evaluator.py
index c9ec6d1..0629ad3 100644
--- a/SmartCache/ai/models/evaluator.py
+++ b/SmartCache/ai/models/evaluator.py
@@ -92,9 +92,10 @@ class LRUCache(SimpleCache):
         self._max_size = max_size
         self._counters = np.zeros(self._max_size)
 
-        if 'init_state' in kwargs:
-            self._max_size = kwargs['init_state']['max_size']
-            self._counters = np.array(kwargs['init_state']['counters'])
+        init_state = args[0] if args else kwargs.get('init_state')
+        if init_state:
+            self._max_size = init_state['max_size']
+            self._counters = np.array(init_state['counters'])
 
     def update(self, file_, insert: bool = True):
         self._counters += 1
-- 
2.43.0


From 5a631072aeaad4b6ab9abce5c8689e2b6f84ca7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:44 +0000
Subject: [PATCH 22/70] fix: asking a data file for its length moved its
 position, so that list() of a data file was empty

---
 DataManager/collector/datafile/avro.py | 2 ++
 DataManager/collector/datafile/json.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/DataManager/collector/datafile/avro.py b/DataManager/collector/datafile/avro.py
index 93ba98f..571ce0f 100644
--- a/DataManager/collector/datafile/avro.py
+++ b/DataManager/collector/datafile/avro.py
@@ -123,11 +123,13 @@ class AvroDataFileReader(object):
     def __len__(self):
         if not self.__len:
             counter = 0
+            cur_pos = self.__descriptor.tell()
             self.__descriptor.seek(0, 0)
             print("[Check avro lenght...]")
             for _ in fast_reader(self.__descriptor):
                 counter += 1
             self.__len = counter
+            self.__descriptor.seek(cur_pos, 0)
         return self.__len
 
     @property
diff --git a/DataManager/collector/datafile/json.py b/DataManager/collector/datafile/json.py
index 4aee5cb..e88915d 100644
--- a/DataManager/collector/datafile/json.py
+++ b/DataManager/collector/datafile/json.py
@@ -169,9 +169,11 @@ class JSONDataFileReader(object):
 
     def __len__(self):
         if not self.__len:
+            cur_pos = self.__descriptor.tell()
             self.__descriptor.seek(0, 0)
             num_lines = self.__descriptor.read().decode("utf-8").count('\n')
             self.__len = num_lines
+            self.__descriptor.seek(cur_pos, 0)
         return self.__len
 
     def __get_json(self):
-- 
2.43.0


From 254ad746c14dce197ae061d1a9c30a0243b283e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:44 +0000
Subject: [PATCH 23/70] fix: the days of a window never ended when the step
 does not divide the window

---
 DataManager/collector/dataset/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataManager/collector/dataset/utils.py b/DataManager/collector/dataset/utils.py
index 856a881..4a4fd2e 100644
--- a/DataManager/collector/dataset/utils.py
+++ b/DataManager/collector/dataset/utils.py
@@ -135,7 +135,7 @@ def gen_window_dates(year: int, month: int, day: int, window_size: int, step: in
     else:
         start_date = date(year, month, day) + window_size
     end_date = start_date + window_size
-    while start_date != end_date:
+    while start_date < end_date:
         yield (start_date.year, start_date.month, start_date.day)
         start_date += window_step
 
-- 
2.43.0


From 07bb1b66d0d3fa112ff332e03a5c7a17db657116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:44 +0000
Subject: [PATCH 24/70] fix: appending no records to an avro file failed before
 its first record

---
 DataManager/collector/datafile/avro.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DataManager/collector/datafile/avro.py b/DataManager/collector/datafile/avro.py
index 571ce0f..f1b4bc0 100644
--- a/DataManager/collector/datafile/avro.py
+++ b/DataManager/collector/datafile/avro.py
@@ -51,6 +51,8 @@ class AvroDataFileWriter(object):
 
     def __write(self, data):
         """Write data into the avro file."""
+        if not data:
+            return
         if not self.__schema:
             self.__schema = parse_schema(self.__avro_translator.deduce_scheme(data[0]))
 
-- 
2.43.0


From 3fa4e26032d95fcefd0708aac92e1f4944deafc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:36 +0000
Subject: [PATCH 25/70] fix: the input that waited for a free process of a
 stage was dropped

---
 DataManager/collector/dataset/stage.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/DataManager/collector/dataset/stage.py b/DataManager/collector/dataset/stage.py
index f0348c3..27e43e0 100644
--- a/DataManager/collector/dataset/stage.py
+++ b/DataManager/collector/dataset/stage.py
@@ -116,6 +116,13 @@ class Stage(BaseSpark):
                                 len(tasks),
                                 's' if len(tasks) > 1 else ''
                             )
+
+                    new_process = Process(
+                        target=self.process,
+                        args=(cur_input, output_queue)
+                    )
+                    tasks.append(new_process)
+                    new_process.start()
                 else:
                     while len(tasks) > 0:
                         for task in tasks:
-- 
2.43.0


From 0d7439a7ffdc519d7a7f22062337a9e2702f366c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:36 +0000
Subject: [PATCH 26/70] fix: the agent command line imported a module that does
 not exist

---
 DataManager/agent/cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DataManager/agent/cli.py b/DataManager/agent/cli.py
index 0668736..b9288ac 100644
--- a/DataManager/agent/cli.py
+++ b/DataManager/agent/cli.py
@@ -3,7 +3,7 @@ from datetime import timedelta
 from sys import exit
 from time import time
 
-from ..collector.interface import DataFileInterface
+from ..collector.api import DataFile
 from .api import ElasticSearchHttp
 
 
@@ -49,7 +49,7 @@ def cli_main():
 
     if args.command == "get":
         if args.type == "file":
-            collector = DataFileInterface(args.source)
+            collector = DataFile(args.source)
             try:
                 index = int(args.index)
             except ValueError as err:
@@ -61,7 +61,7 @@ def cli_main():
         BULK_SIZE = args.bulk
 
         if args.source_type == "file":
-            source = DataFileInterface(args.source)
+            source = DataFile(args.source)
         if args.dest_type == "elasticsearchhttp":
             dest = ElasticSearchHttp(args.dest, args.auth)
 
-- 
2.43.0


From ece2566e4205f1d3b96db1a8cabc73069f60854d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:36 +0000
Subject: [PATCH 27/70] fix: bulk upload lost the element that found the bucket
 full

---
 DataManager/agent/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataManager/agent/cli.py b/DataManager/agent/cli.py
index b9288ac..e2f08d8 100644
--- a/DataManager/agent/cli.py
+++ b/DataManager/agent/cli.py
@@ -107,7 +107,7 @@ def cli_main():
                         bucket.append(data)
                     else:
                         tot_elm_done = put_bucket(dest, bucket, tot_elm_done)
-                        bucket = []
+                        bucket = [data]
             else:
                 tot_elm_done += 1
                 print("[COMMAND][PUT][SKIP][index {}]".format(idx), end="\r")
-- 
2.43.0


From 43d61ae8bd17d99606a1d9399e619a435a2c3734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:47 +0000
Subject: [PATCH 28/70] fix: a JSON data file could not be read from a stream
 in memory

---
 DataManager/collector/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataManager/collector/api.py b/DataManager/collector/api.py
index 6cbdd48..1b0ef1d 100644
--- a/DataManager/collector/api.py
+++ b/DataManager/collector/api.py
@@ -43,7 +43,7 @@ class DataFile(object):
             if tmp.find("avro.schema") != -1:
                 return AvroDataFileReader(source)
             else:
-                return JSONDataFileReader(source)
+                return JSONDataFileReader(descriptor=source)
         elif isinstance(source, AvroDataFileWriter):
             tmp = BytesIO(source.raw_data)
             return AvroDataFileReader(tmp)
-- 
2.43.0


From 7a8456e1176e0c789527082d5430de7e7373eb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:47 +0000
Subject: [PATCH 29/70] fix: the featured and record stages gave strings, which
 the output of a stage refuses

---
 DataManager/collector/dataset/stage.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DataManager/collector/dataset/stage.py b/DataManager/collector/dataset/stage.py
index 27e43e0..be7cbf5 100644
--- a/DataManager/collector/dataset/stage.py
+++ b/DataManager/collector/dataset/stage.py
@@ -181,9 +181,9 @@ class CMSRecordTest0Stage(Stage):
 
         if queue:
             for record in tmp.values():
-                queue.put(record.dumps())
+                queue.put(record.to_dict())
         else:
-            return [elm.dumps() for elm in tmp.values()]
+            return [elm.to_dict() for elm in tmp.values()]
 
     def pre_output(self, output):
         tmp = {}
@@ -227,7 +227,7 @@ class CMSFeaturedStage(Stage):
         for record in records:
             new_record = CMSDataPopularity(record['features'])
             if new_record:
-                tmp.append(new_record.dumps())
+                tmp.append(new_record.to_dict())
 
             # Limit processing for test
             # if len(tmp) >= 1000:
-- 
2.43.0


From 545ec689f33155c7c94bd52275a6165d87fe1c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:47 +0000
Subject: [PATCH 30/70] fix: every valid data popularity record failed (its id
 generator does not exist under the mangled name)

---
 DataManager/collector/datafeatures/extractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataManager/collector/datafeatures/extractor.py b/DataManager/collector/datafeatures/extractor.py
index f19f088..38f5999 100644
--- a/DataManager/collector/datafeatures/extractor.py
+++ b/DataManager/collector/datafeatures/extractor.py
@@ -143,7 +143,7 @@ class CMSDataPopularity(FeatureData):
                     [fun(self.feature[name]) for name, fun in self.__filters]
                 )
                 if self.__valid:
-                    self.__gen_id()
+                    self.__id = self.record_id
             except ValueError as err:
                 print(
                     "Cannot extract features from '{}'".format(cur_file))
-- 
2.43.0


From 864c8598e6a125adb212661f91d7d2e79dc896d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:33 +0000
Subject: [PATCH 31/70] fix: only the last file of a day was read from HTTPFS,
 and an empty day repeated the file of the day before

---
 DataManager/collector/dataset/resource.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/DataManager/collector/dataset/resource.py b/DataManager/collector/dataset/resource.py
index 27497ef..dec6ea9 100644
--- a/DataManager/collector/dataset/resource.py
+++ b/DataManager/collector/dataset/resource.py
@@ -126,13 +126,13 @@ class CMSResourceManager(Resource):
                         )
                 ):
                     cur_file = self._httpfs.open(full_path)
-                    collector = DataFile(cur_file)
+                    yield DataFile(cur_file)
             elif self._hdfs_base_path:
                 sc = self.spark_context
                 binary_file = sc.binaryFiles("{}/year={:4d}/month={:d}/day={:d}/part-m-00000.avro".format(
                     self._hdfs_base_path, year, month, day)
                 ).collect()
-                collector = DataFile(binary_file[0])
+                yield DataFile(binary_file[0])
             elif self._local_folder:
                 cur_file_path = path.join(
                     path.abspath(self._local_folder),
@@ -141,10 +141,9 @@ class CMSResourceManager(Resource):
                     "day={}".format(day),
                     "part-m-00000.avro"
                 )
-                collector = DataFile(cur_file_path)
+                yield DataFile(cur_file_path)
             else:
                 raise Exception("No methods to retrieve data...")
-            yield collector
 
     def set(self, data: 'DataFile', stage_name: str = '', out_dir: str = 'cache'):
         out_name = "dataset_y{}-m{}-d{}_ws{}_stage-{}.json.gz".format(
-- 
2.43.0


From 7fc005952fde52b843275c38a463899f4da80b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:33 +0000
Subject: [PATCH 32/70] fix: files of HDFS come as pairs of path and content,
 which cannot be opened as a data file

---
 DataManager/collector/dataset/resource.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataManager/collector/dataset/resource.py b/DataManager/collector/dataset/resource.py
index dec6ea9..702fd82 100644
--- a/DataManager/collector/dataset/resource.py
+++ b/DataManager/collector/dataset/resource.py
@@ -132,7 +132,7 @@ class CMSResourceManager(Resource):
                 binary_file = sc.binaryFiles("{}/year={:4d}/month={:d}/day={:d}/part-m-00000.avro".format(
                     self._hdfs_base_path, year, month, day)
                 ).collect()
-                yield DataFile(binary_file[0])
+                yield DataFile(BytesIO(binary_file[0][1]))
             elif self._local_folder:
                 cur_file_path = path.join(
                     path.abspath(self._local_folder),
-- 
2.43.0


From 59f73603d2d21119ad19f96b97eb766bcd8db849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:56 +0000
Subject: [PATCH 33/70] fix: datasets and stages could not be saved in a local
 folder (bytes written to a text file)

---
 DataManager/collector/dataset/resource.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DataManager/collector/dataset/resource.py b/DataManager/collector/dataset/resource.py
index 702fd82..f14dda4 100644
--- a/DataManager/collector/dataset/resource.py
+++ b/DataManager/collector/dataset/resource.py
@@ -60,7 +60,7 @@ class CMSDatasetResourceManager(Resource):
                 with yaspin(text="[Save Dataset]") as spinner:
                     cur_base_path = out_dir
                     makedirs(cur_base_path, exist_ok=True)
-                    with open(path.join(cur_base_path, out_name), 'w') as out_data:
+                    with open(path.join(cur_base_path, out_name), 'wb') as out_data:
                         out_data.write(tmp_data.raw_data)
 
                     spinner.write("[Dataset saved]")
@@ -166,7 +166,7 @@ class CMSResourceManager(Resource):
                             out_dir
                         )
                         makedirs(cur_base_path, exist_ok=True)
-                        with open(path.join(cur_base_path, out_name), 'w') as out_data:
+                        with open(path.join(cur_base_path, out_name), 'wb') as out_data:
                             out_data.write(tmp_data.raw_data)
 
                     elif self.type == 'httpfs':
-- 
2.43.0


From 586baded1c8f21c82472e0d387b7653d278302dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:56 +0000
Subject: [PATCH 34/70] fix: saved stages were neither compressed as their name
 says nor written out before their upload

---
 DataManager/collector/dataset/resource.py | 50 +++++++++++------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/DataManager/collector/dataset/resource.py b/DataManager/collector/dataset/resource.py
index f14dda4..87f132e 100644
--- a/DataManager/collector/dataset/resource.py
+++ b/DataManager/collector/dataset/resource.py
@@ -154,31 +154,31 @@ class CMSResourceManager(Resource):
             stage_name
         )
 
-        with NamedTemporaryFile() as tmp_file:
-            with JSONDataFileWriter(descriptor=tmp_file) as tmp_data:
+        with NamedTemporaryFile(suffix=".json.gz") as tmp_file:
+            with JSONDataFileWriter(tmp_file.name) as tmp_data:
                 for record in tqdm(data, desc="[Prepare tempfile]"):
                     tmp_data.append(record)
 
-                with yaspin(text="[Save Dataset]") as spinner:
-                    if self.type == 'local':
-                        cur_base_path = path.join(
-                            self._local_folder,
-                            out_dir
-                        )
-                        makedirs(cur_base_path, exist_ok=True)
-                        with open(path.join(cur_base_path, out_name), 'wb') as out_data:
-                            out_data.write(tmp_data.raw_data)
-
-                    elif self.type == 'httpfs':
-                        self._httpfs.create(
-                            "/{}".format(path.join(out_dir, out_name)),
-                            tmp_file.name,
-                            overwrite=True
-                        )
-                    else:
-                        raise Exception(
-                            "Save to '{}' not implemented...".format(
-                                self.type)
-                        )
-
-                    spinner.write("[Dataset saved]")
+            with yaspin(text="[Save Dataset]") as spinner:
+                if self.type == 'local':
+                    cur_base_path = path.join(
+                        self._local_folder,
+                        out_dir
+                    )
+                    makedirs(cur_base_path, exist_ok=True)
+                    with open(path.join(cur_base_path, out_name), 'wb') as out_data:
+                        out_data.write(tmp_file.read())
+
+                elif self.type == 'httpfs':
+                    self._httpfs.create(
+                        "/{}".format(path.join(out_dir, out_name)),
+                        tmp_file.name,
+                        overwrite=True
+                    )
+                else:
+                    raise Exception(
+                        "Save to '{}' not implemented...".format(
+                            self.type)
+                    )
+
+                spinner.write("[Dataset saved]")
-- 
2.43.0


From ed440dd142ed5e2090f52da80f4247b61e590d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:00 +0000
Subject: [PATCH 35/70] fix: conversions kept the indexes from before values
 were added to a support table

---
 DataManager/collector/dataset/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/DataManager/collector/dataset/utils.py b/DataManager/collector/dataset/utils.py
index 4a4fd2e..fb92093 100644
--- a/DataManager/collector/dataset/utils.py
+++ b/DataManager/collector/dataset/utils.py
@@ -354,6 +354,11 @@ class SupportTable(object):
                         )
                     )
                 )
+        # Forget conversions made with the previous indexes
+        self.get_value.cache_clear()
+        self.get_close_value.cache_clear()
+        self.__sorted_keys = {}
+        self.__sizes = {}
         return self
 
     def to_dict(self) -> dict:
-- 
2.43.0


From c1da7dd32baeb3c129ae6ccef95a60573fd86ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:00 +0000
Subject: [PATCH 36/70] fix: train_set ignored one_hot_labels

---
 DataManager/collector/dataset/reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DataManager/collector/dataset/reader.py b/DataManager/collector/dataset/reader.py
index b3a32a8..a37f202 100644
--- a/DataManager/collector/dataset/reader.py
+++ b/DataManager/collector/dataset/reader.py
@@ -348,7 +348,7 @@ class CMSDatasetTest0Reader(object):
             labels = []
             for record in tqdm(self._collector, desc="[Generate train set]"):
                 features, class_ = self.__translate(
-                    record, normalized, one_hot)
+                    record, normalized, one_hot, one_hot_labels)
                 features_list.append(features)
                 labels.append(class_)
             yield (np.array(features_list), np.array(labels), None)
@@ -363,7 +363,7 @@ class CMSDatasetTest0Reader(object):
 
             for record in tqdm(self._collector, desc="[Generate chunks]"):
                 features, class_ = self.__translate(
-                    record, normalized, one_hot)
+                    record, normalized, one_hot, one_hot_labels)
                 tmp_features.append(features)
                 tmp_labels.append(class_)
                 if len(tmp_features) == chunk_size:
-- 
2.43.0


From 37a85889005fd8d5a48fa49c93c8d978e5f1f91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:34 +0000
Subject: [PATCH 37/70] fix: open buckets were given to the first of several
 columns only

---
 DataManager/collector/dataset/reader.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/DataManager/collector/dataset/reader.py b/DataManager/collector/dataset/reader.py
index a37f202..4de446c 100644
--- a/DataManager/collector/dataset/reader.py
+++ b/DataManager/collector/dataset/reader.py
@@ -84,11 +84,12 @@ class SimulatorDatasetReader(object):
                 cur_map['type'] = "bool"
 
             if buckets:
-                if buckets[-1] == "...":
+                cur_buckets = buckets
+                if cur_buckets[-1] == "...":
                     cur_map['buckets'] = True
                     cur_map['bucket_open_right'] = True
-                    buckets = buckets[:-1]
-                cur_map['keys'] = buckets
+                    cur_buckets = cur_buckets[:-1]
+                cur_map['keys'] = cur_buckets
             else:
                 cur_map['keys'] = list(
                     set(self._df[column].astype(map_type).to_list())
-- 
2.43.0


From 4102e0ee52a90ef3ecf0a1db17490843bbb6dd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:34 +0000
Subject: [PATCH 38/70] fix: the last bucket of a column with unknown values
 was outside of its one hot vector

---
 DataManager/collector/dataset/reader.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/DataManager/collector/dataset/reader.py b/DataManager/collector/dataset/reader.py
index 4de446c..11f9583 100644
--- a/DataManager/collector/dataset/reader.py
+++ b/DataManager/collector/dataset/reader.py
@@ -200,10 +200,9 @@ class SimulatorDatasetReader(object):
                 if column in self._converter_map:
                     cur_map = self._converter_map[column]
 
-                    if cur_map['unknown_values'] or cur_map['bucket_open_right']:
-                        num_categories = len(cur_map['keys']) + 1
-                    else:
-                        num_categories = len(cur_map['keys'])
+                    num_categories = len(cur_map['values'])
+                    if cur_map['unknown_values']:
+                        num_categories += 1
 
                     categories = []
                     for value in df[column]:
-- 
2.43.0


From 9d8bff9b6df5128de7ddc6cf19c661a4019ee8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:34 +0000
Subject: [PATCH 39/70] fix: one hot vectors of columns without unknown values
 were shifted by one against their converter map

---
 DataManager/collector/dataset/reader.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/DataManager/collector/dataset/reader.py b/DataManager/collector/dataset/reader.py
index 11f9583..8ed90b2 100644
--- a/DataManager/collector/dataset/reader.py
+++ b/DataManager/collector/dataset/reader.py
@@ -211,8 +211,6 @@ class SimulatorDatasetReader(object):
                             value
                         )
                         tmp = np.zeros(num_categories, dtype='float32')
-                        if not cur_map['unknown_values']:
-                            cur_value -= 1
                         tmp[cur_value] = 1.0
                         categories.append(
                             tmp.tolist()
-- 
2.43.0


From f9803f4bb0a64c32484d4812d1c506743d57e6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:34 +0000
Subject: [PATCH 40/70] fix: the last label of a label column with unknown
 values was outside of its one hot vector

---
 DataManager/collector/dataset/reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DataManager/collector/dataset/reader.py b/DataManager/collector/dataset/reader.py
index 8ed90b2..2f9e327 100644
--- a/DataManager/collector/dataset/reader.py
+++ b/DataManager/collector/dataset/reader.py
@@ -186,7 +186,9 @@ class SimulatorDatasetReader(object):
                 labels = np.zeros(
                     (
                         len(tmp_labels),
-                        len(self._converter_map[label_column]['keys'])
+                        len(self._converter_map[label_column]['values']) + (
+                            1 if self._converter_map[label_column]['unknown_values'] else 0
+                        )
                     ),
                     dtype='int32'
                 )
-- 
2.43.0


From fc6c48a0c619612c98e8c704cb12b4fefa90c614 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:30:40 +0000
Subject: [PATCH 41/70] fix: the size of a round of deletions was the number of
 cells of its table (DataFrame.size) instead of the sum of the sizes

---
 Probe/probe/results/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Probe/probe/results/utils.py b/Probe/probe/results/utils.py
index 7bab61f..929faf8 100644
--- a/Probe/probe/results/utils.py
+++ b/Probe/probe/results/utils.py
@@ -60,7 +60,7 @@ class LogDeleteEvaluator(object):
     @property
     def scatterAfter(self):
         return px.scatter_3d(
-            self.after[self.after.size != -1.0],
+            self.after[self.after["size"] != -1.0],
             x="num req",
             y="size",
             z="filename",
@@ -85,7 +85,7 @@ class LogDeleteEvaluator(object):
         return len(set(self.actions.filename))
 
     def _get_total_size_deleted_files(self):
-        return self.actions.size.sum()
+        return self.actions["size"].sum()
 
     def _get_num_deleted_miss(self):
         files = set(self.after.filename) & set(self.actions.filename)
@@ -106,10 +106,10 @@ class LogDeleteEvaluator(object):
         self.actions.loc[selectRows, "delta t"] = new_max * 2.0
 
         cur_max = self.after["delta t"].max()
-        selectRows = (self.after["delta t"] == cur_max) & (self.after.size != -1.0)
+        selectRows = (self.after["delta t"] == cur_max) & (self.after["size"] != -1.0)
         self.after.loc[selectRows, "delta t"] = -1.0
         new_max = self.after["delta t"].max()
-        selectRows = (self.after["delta t"] == -1.0) & (self.after.size != -1.0)
+        selectRows = (self.after["delta t"] == -1.0) & (self.after["size"] != -1.0)
         self.after.loc[selectRows, "delta t"] = new_max * 2.0
 
 
-- 
2.43.0


From d331007352a39e26511903edaadef51e064a8201 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:30:40 +0000
Subject: [PATCH 42/70] fix: the analysis of a log without deletion events
 failed

---
 Probe/probe/results/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Probe/probe/results/utils.py b/Probe/probe/results/utils.py
index 929faf8..d0e3bda 100644
--- a/Probe/probe/results/utils.py
+++ b/Probe/probe/results/utils.py
@@ -143,8 +143,9 @@ def parse_sim_log(log_df: "pd.DataFrame", target: str = "AFTERDELETE"):
                     state = "AFTERDELETE"
                     curLog.trace(row)
         else:
-            curLog.prepare(["Index"] + list(log_df.columns))
-            yield curLog
+            if curLog is not None:
+                curLog.prepare(["Index"] + list(log_df.columns))
+                yield curLog
 
     elif target == "MISSFREQ":
         deleted_files = {}
-- 
2.43.0


From 6feaa8a29b33a3c9f6a5d0e6ceab60dd5213a2fe Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:32:33 +0000
Subject: [PATCH 43/70] fix: files that a round of deletions kept were counted
 as deleted

---
 Probe/probe/results/utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Probe/probe/results/utils.py b/Probe/probe/results/utils.py
index d0e3bda..9ed717d 100644
--- a/Probe/probe/results/utils.py
+++ b/Probe/probe/results/utils.py
@@ -81,14 +81,17 @@ class LogDeleteEvaluator(object):
     def histActionDeltaT(self):
         return px.histogram(self.actions, x="delta t")
 
+    def _get_deleted_files(self):
+        return self.actions[self.actions["action or event"] == "DELETE"]
+
     def _get_num_deleted_files(self):
-        return len(set(self.actions.filename))
+        return len(set(self._get_deleted_files().filename))
 
     def _get_total_size_deleted_files(self):
-        return self.actions["size"].sum()
+        return self._get_deleted_files()["size"].sum()
 
     def _get_num_deleted_miss(self):
-        files = set(self.after.filename) & set(self.actions.filename)
+        files = set(self.after.filename) & set(self._get_deleted_files().filename)
         tot = 0
         if len(files) > 0:
             counts = self.after.filename[
-- 
2.43.0


From 7b329f3543dd6e20e2dbe856bf497a6505e47877 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:32:33 +0000
Subject: [PATCH 44/70] fix: an event that follows another one in the log did
 not open a round of deletions

---
 Probe/probe/results/utils.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/Probe/probe/results/utils.py b/Probe/probe/results/utils.py
index 9ed717d..8c64dc6 100644
--- a/Probe/probe/results/utils.py
+++ b/Probe/probe/results/utils.py
@@ -129,14 +129,15 @@ def parse_sim_log(log_df: "pd.DataFrame", target: str = "AFTERDELETE"):
         ):
             event = row[2]
 
-            if state == "AFTERDELETE":
-                if event in ["ONFREE", "ONDAYEND", "ONK", "FORCEDCALL", "FREE"]:
-                    if curLog is not None:
-                        curLog.prepare(["Index"] + list(log_df.columns))
-                        yield curLog
-                    curLog = LogDeleteEvaluator(row)
-                    state = "DELETING"
-                elif curLog is not None:
+            if event in ["ONFREE", "ONDAYEND", "ONK", "FORCEDCALL", "FREE"]:
+                if curLog is not None:
+                    curLog.prepare(["Index"] + list(log_df.columns))
+                    yield curLog
+                curLog = LogDeleteEvaluator(row)
+                state = "DELETING"
+
+            elif state == "AFTERDELETE":
+                if curLog is not None:
                     curLog.trace(row)
 
             elif state == "DELETING":
-- 
2.43.0


From 7ac277ec24972e2f77798bc87cd7ab87e5216d52 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:32:33 +0000
Subject: [PATCH 45/70] fix: the only time since the last request of a round
 was redrawn as -2

---
 Probe/probe/results/utils.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/Probe/probe/results/utils.py b/Probe/probe/results/utils.py
index 8c64dc6..2dfff65 100644
--- a/Probe/probe/results/utils.py
+++ b/Probe/probe/results/utils.py
@@ -103,17 +103,16 @@ class LogDeleteEvaluator(object):
     def _fix_delta_t_max(self):
         cur_max = self.actions["delta t"].max()
         selectRows = self.actions["delta t"] == cur_max
-        self.actions.loc[selectRows, "delta t"] = -1.0
-        new_max = self.actions["delta t"].max()
-        selectRows = self.actions["delta t"] == -1.0
-        self.actions.loc[selectRows, "delta t"] = new_max * 2.0
-
-        cur_max = self.after["delta t"].max()
-        selectRows = (self.after["delta t"] == cur_max) & (self.after["size"] != -1.0)
-        self.after.loc[selectRows, "delta t"] = -1.0
-        new_max = self.after["delta t"].max()
-        selectRows = (self.after["delta t"] == -1.0) & (self.after["size"] != -1.0)
-        self.after.loc[selectRows, "delta t"] = new_max * 2.0
+        others = self.actions.loc[~selectRows, "delta t"]
+        if len(others) > 0:
+            self.actions.loc[selectRows, "delta t"] = others.max() * 2.0
+
+        isFile = self.after["size"] != -1.0
+        cur_max = self.after.loc[isFile, "delta t"].max()
+        selectRows = (self.after["delta t"] == cur_max) & isFile
+        others = self.after.loc[~selectRows & isFile, "delta t"]
+        if len(others) > 0:
+            self.after.loc[selectRows, "delta t"] = others.max() * 2.0
 
 
 def parse_sim_log(log_df: "pd.DataFrame", target: str = "AFTERDELETE"):
-- 
2.43.0


From f42eb5b4aa6cf7f93ca2d7ece87dead5f9e68cda Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:32:33 +0000
Subject: [PATCH 46/70] fix: the simulation reports of the dashboard were a
 generator without a result

---
 Probe/probe/results/data.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/Probe/probe/results/data.py b/Probe/probe/results/data.py
index 6dc2069..510c10b 100644
--- a/Probe/probe/results/data.py
+++ b/Probe/probe/results/data.py
@@ -292,24 +292,28 @@ def measure_hit_over_miss(df: "pd.DataFrame") -> "pd.Series":
     return df["read on hit data"] / df["read on miss data"]
 
 
+def _gen_simulation_report(
+    files2plot: list, prefix: str, target: str = "AFTERDELETE"
+) -> tuple:
+    for file_, _, sim_log in tqdm(files2plot, desc="Parse log", position=1):
+        name = file_.replace(prefix, "").replace(f"/{SIM_RESULT_FILENAME}", "")
+
+        for del_evaluator in parse_sim_log(sim_log, target):
+            yield name, del_evaluator
+
+
 def parse_simulation_report(
     files2plot: list, prefix: str, generator: bool = False, target: str = "AFTERDELETE"
 ) -> dict:
+    if generator:
+        return _gen_simulation_report(files2plot, prefix, target)
+
     del_evaluators = {}
 
     for file_, _, sim_log in tqdm(files2plot, desc="Parse log", position=1):
         name = file_.replace(prefix, "").replace(f"/{SIM_RESULT_FILENAME}", "")
 
-        curEvents = []
-
-        for del_evaluator in parse_sim_log(sim_log, target):
-            if generator:
-                yield name, del_evaluator
-            else:
-                curEvents.append(del_evaluator)
-
-        if not generator:
-            del_evaluators[name] = curEvents
+        del_evaluators[name] = list(parse_sim_log(sim_log, target))
 
     return del_evaluators
 
-- 
2.43.0


From 0ff5adcb8cefa85590b128a0c63f4d477b31b4cd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:32:33 +0000
Subject: [PATCH 47/70] fix: the common prefix was removed anywhere in the name
 of a simulation, which mixed simulations up

---
 Probe/probe/results/data.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/Probe/probe/results/data.py b/Probe/probe/results/data.py
index 510c10b..a0932a6 100644
--- a/Probe/probe/results/data.py
+++ b/Probe/probe/results/data.py
@@ -292,11 +292,17 @@ def measure_hit_over_miss(df: "pd.DataFrame") -> "pd.Series":
     return df["read on hit data"] / df["read on miss data"]
 
 
+def _get_sim_name(file_: str, prefix: str) -> str:
+    if file_.startswith(prefix):
+        file_ = file_[len(prefix) :]
+    return file_.replace(f"/{SIM_RESULT_FILENAME}", "")
+
+
 def _gen_simulation_report(
     files2plot: list, prefix: str, target: str = "AFTERDELETE"
 ) -> tuple:
     for file_, _, sim_log in tqdm(files2plot, desc="Parse log", position=1):
-        name = file_.replace(prefix, "").replace(f"/{SIM_RESULT_FILENAME}", "")
+        name = _get_sim_name(file_, prefix)
 
         for del_evaluator in parse_sim_log(sim_log, target):
             yield name, del_evaluator
@@ -311,7 +317,7 @@ def parse_simulation_report(
     del_evaluators = {}
 
     for file_, _, sim_log in tqdm(files2plot, desc="Parse log", position=1):
-        name = file_.replace(prefix, "").replace(f"/{SIM_RESULT_FILENAME}", "")
+        name = _get_sim_name(file_, prefix)
 
         del_evaluators[name] = list(parse_sim_log(sim_log, target))
 
@@ -343,7 +349,7 @@ def make_table(
     table = []
     for file_, df in files2plot:
         values = get_measures(file_, df, extended=extended)
-        values[0] = values[0].replace(prefix, "").replace(f"/{SIM_RESULT_FILENAME}", "")
+        values[0] = _get_sim_name(values[0], prefix)
 
         row_name = []
 
-- 
2.43.0


From 96699a02be4573d2680e9cd99beae62d09a9e000 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:37:35 +0000
Subject: [PATCH 48/70] fix: a file that was kept ended the round of deletions
 whose later misses are counted

---
 Probe/probe/results/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Probe/probe/results/utils.py b/Probe/probe/results/utils.py
index 2dfff65..897cb99 100644
--- a/Probe/probe/results/utils.py
+++ b/Probe/probe/results/utils.py
@@ -195,7 +195,7 @@ def parse_sim_log(log_df: "pd.DataFrame", target: str = "AFTERDELETE"):
                 freq_skip.append(freq)
 
                 name2check = None
-            else:
+            elif event != "KEEP":
                 if state == "DELETING":
                     state = "AFTERDELETE"
 
-- 
2.43.0


From a6c3fdd5bd38801716574342bdcc4ce3baa41e29 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:43:02 +0000
Subject: [PATCH 49/70] fix: the analyzer, the converter and its inspection
 could not be started because str2bool was missing

---
 Probe/probe/converter/inspect.py | 3 +--
 Probe/probe/utils.py             | 5 +++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/Probe/probe/converter/inspect.py b/Probe/probe/converter/inspect.py
index cfa21fe..9abe74b 100644
--- a/Probe/probe/converter/inspect.py
+++ b/Probe/probe/converter/inspect.py
@@ -2,8 +2,7 @@ import argparse
 import pickle
 from os import path
 
-from ..utils import STATUS_ARROW, STATUS_WARNING
-from .utils import str2bool
+from ..utils import STATUS_ARROW, STATUS_WARNING, str2bool
 
 
 def main():
diff --git a/Probe/probe/utils.py b/Probe/probe/utils.py
index 29866ae..bb2da1f 100644
--- a/Probe/probe/utils.py
+++ b/Probe/probe/utils.py
@@ -17,6 +17,11 @@ def STATUS_OK(string):
     return f"{Style.BRIGHT + Fore.GREEN}{string}{Style.RESET_ALL}"
 
 
+def str2bool(string: str) -> bool:
+    """Convert a command line value to a boolean."""
+    return string.lower() in ["yes", "true", "t", "y", "1"]
+
+
 def sort_by_date(df: "pd.DataFrame", column_name: str = "reqDay") -> "pd.DataFrame":
     """Sort the dataframe by date.
 
-- 
2.43.0


From ca7c6b91ece9d4093ca0efc22ca9d9a0fa64bea7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:43:02 +0000
Subject: [PATCH 50/70] fix: the number of the empty value of a category was
 the whole category

---
 Probe/probe/converter/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Probe/probe/converter/utils.py b/Probe/probe/converter/utils.py
index 32ca23c..161afce 100644
--- a/Probe/probe/converter/utils.py
+++ b/Probe/probe/converter/utils.py
@@ -119,7 +119,7 @@ class CategoryContainer:
                     self.__sequences[category] += 1
 
     def get(self, category, value=None):
-        if value:
+        if value is not None:
             return self._data[category][value]
         else:
             return self._data[category]
-- 
2.43.0


From 7d09cc9d598b56f8ccb4881eab0d8804e3d18731 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:43:02 +0000
Subject: [PATCH 51/70] fix: the number of a value with a dot, such as a file
 name, could not be asked for

---
 Probe/probe/converter/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Probe/probe/converter/utils.py b/Probe/probe/converter/utils.py
index 161afce..ad52ca3 100644
--- a/Probe/probe/converter/utils.py
+++ b/Probe/probe/converter/utils.py
@@ -147,7 +147,7 @@ class CategoryContainer:
                 colorful_json = make_colored_json(json_output)
                 return colorful_json
             elif subQuery == "valueOf":
-                category, key = category.split(".")
+                category, key = category.split(".", 1)
                 json_output = json.dumps(
                     {category: {key: self._data[category][key]}},
                     indent=2,
-- 
2.43.0


From 4d3c34b74ccdc42eb4fe099461af99e9a639cc39 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:43:02 +0000
Subject: [PATCH 52/70] fix: ordering a table by its avro source renamed the
 rows instead of moving them

---
 Probe/probe/converter/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Probe/probe/converter/utils.py b/Probe/probe/converter/utils.py
index ad52ca3..1575d05 100644
--- a/Probe/probe/converter/utils.py
+++ b/Probe/probe/converter/utils.py
@@ -63,7 +63,7 @@ def sort_from_avro(df: 'pd.DataFrame', cur_filename: str, order_folder: str) ->
     ord_df = ord_df.set_index("Filename")
     # Reindex
     new_index = df.reindex_like(ord_df, method=None).dropna()
-    df.set_index(new_index.index, inplace=True)
+    df = df.reindex(new_index.index)
     df.reset_index(inplace=True)
     ord_df.reset_index(inplace=True)
     # Remove duplicate counters
-- 
2.43.0


From 4831e38b8d7e64f4e40f50e03e8740c62ae9624d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:43:02 +0000
Subject: [PATCH 53/70] fix: a converter that was stopped after it saved a file
 used its numbers again for other values

---
 Probe/probe/converter/__main__.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/Probe/probe/converter/__main__.py b/Probe/probe/converter/__main__.py
index 46669a6..ae07aaa 100644
--- a/Probe/probe/converter/__main__.py
+++ b/Probe/probe/converter/__main__.py
@@ -1,6 +1,6 @@
 import argparse
 import pickle
-from os import path
+from os import path, replace
 
 from colorama import init
 from tqdm import tqdm
@@ -110,12 +110,15 @@ def main():
 
                 new_df = convert_categories(
                     filepath, df, categories, container)
-                save_numeric_df(filepath, new_df,
-                                output_filename=output_filename)
 
+                # Save the numbers before the files that use them
                 print(f"{STATUS_ARROW}Save database...")
-                with open(f"container_{args.region}_.pickle", "wb") as out_file:
+                with open(f"{container_filename}.tmp", "wb") as out_file:
                     pickle.dump(container, out_file)
+                replace(f"{container_filename}.tmp", container_filename)
+
+                save_numeric_df(filepath, new_df,
+                                output_filename=output_filename)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 18b08330aa3df6502d969c24e5a7e3acdfd556d0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:45:20 +0000
Subject: [PATCH 54/70] fix: loading csv data always gave a generator, without
 the tables unless they were generated

---
 Probe/probe/loaders.py | 56 ++++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 24 deletions(-)

diff --git a/Probe/probe/loaders.py b/Probe/probe/loaders.py
index 705278e..b3b08eb 100644
--- a/Probe/probe/loaders.py
+++ b/Probe/probe/loaders.py
@@ -97,22 +97,14 @@ def gen_csv_data(
         yield input_path, _load_csv_file(input_path, region_filter, file_type_filter)
 
 
-def csv_data(
+def _gen_csv_frames(
     input_path: str,
     region_filter: str = None,
     file_type_filter: str = None,
     month_filter: int = -1,
-    concat: bool = True,
-    generate: bool = False,
 ) -> "pd.DataFrame":
-    """Open csv data folder and files
-
-    :return: The whole dataset
-    :rtype: pandas.DataFrame
-    """
-    assert concat != generate, "You cannot concat and generate data..."
+    """Generate the dataframes of a csv data folder or file."""
     if path.isdir(input_path):
-        data_frames = []
         files = [file_ for file_ in os.listdir(input_path) if file_.find("csv") != -1]
         for filename in tqdm(
             sorted(files), desc=f"{STATUS_ARROW}Load folder {input_path}"
@@ -120,21 +112,37 @@ def csv_data(
             if month_filter != -1:
                 if _get_month(filename) != month_filter:
                     continue
-            cur_dataframe = _load_csv_file(
+            yield _load_csv_file(
                 path.join(input_path, filename), region_filter, file_type_filter
             )
-            if generate:
-                yield cur_dataframe
-            else:
-                data_frames.append(cur_dataframe)
-        else:
-            if data_frames:
-                if concat:
-                    print(f"{STATUS_ARROW}Concat dataframes...")
-                    return pd.concat(data_frames)
-                return data_frames
-            else:
-                pd.DataFrame()
     else:
         print(f"{STATUS_ARROW}Load file {input_path}")
-        return _load_csv_file(input_path, region_filter, file_type_filter)
+        yield _load_csv_file(input_path, region_filter, file_type_filter)
+
+
+def csv_data(
+    input_path: str,
+    region_filter: str = None,
+    file_type_filter: str = None,
+    month_filter: int = -1,
+    concat: bool = True,
+    generate: bool = False,
+) -> "pd.DataFrame":
+    """Open csv data folder and files
+
+    :return: The whole dataset
+    :rtype: pandas.DataFrame
+    """
+    assert not (concat and generate), "You cannot concat and generate data..."
+    data_frames = _gen_csv_frames(
+        input_path, region_filter, file_type_filter, month_filter
+    )
+    if generate:
+        return data_frames
+    data_frames = list(data_frames)
+    if not concat:
+        return data_frames
+    if not data_frames:
+        return pd.DataFrame()
+    print(f"{STATUS_ARROW}Concat dataframes...")
+    return pd.concat(data_frames)
-- 
2.43.0


From ff4ff089833ad3ff0603aa07ba6dd47ab14eaaac Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:48:29 +0000
Subject: [PATCH 55/70] fix: the number of best results was always 10

---
 Probe/probe/results/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Probe/probe/results/data.py b/Probe/probe/results/data.py
index a0932a6..9eec966 100644
--- a/Probe/probe/results/data.py
+++ b/Probe/probe/results/data.py
@@ -431,7 +431,7 @@ def make_table(
 
     df = df.round(6)
     if top_n != 0:
-        df = df.iloc[:10]
+        df = df.iloc[:top_n]
 
     source_files = df.source.to_list()
     del df["source"]
-- 
2.43.0


From 01b7d428dde32f8ccc41fbfcc72719e88b5eea42 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:51:25 +0000
Subject: [PATCH 56/70] fix: the upper limits failed on a day without
 successful requests

---
 Probe/probe/plotter/stats.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Probe/probe/plotter/stats.py b/Probe/probe/plotter/stats.py
index 4714d83..bfa6a31 100644
--- a/Probe/probe/plotter/stats.py
+++ b/Probe/probe/plotter/stats.py
@@ -67,6 +67,10 @@ def plot_global_upper_limits(df: 'pd.DataFrame',
         print(f"{STATUS_ARROW}[{num:03d}] Filter success jobs")
         cur_df = cur_df[cur_df.JobSuccess.astype(bool)]
 
+        if len(cur_df.index) == 0:
+            print(f"{STATUS_ARROW}[{num:03d}] No requests, skipped")
+            continue
+
         print(f"{STATUS_ARROW}[{num:03d}] Calculate limits")
 
         sum_sizes = cur_df.Size.sum()
@@ -84,6 +88,9 @@ def plot_global_upper_limits(df: 'pd.DataFrame',
         max_read_on_hit_list.append(max_read_on_hit)
         cache_optimal_size.append(optimal_size / 1024**4)  # TB
 
+    if len(x) == 0:
+        raise Exception("ERROR: there are no requests to plot...")
+
     avg_hit_rate = sum(max_hit_rate_list) / len(max_hit_rate_list)
     avg_read_on_hit = sum(max_read_on_hit_list) / len(max_read_on_hit_list)
     avg_cache_opt_size = sum(cache_optimal_size) / len(cache_optimal_size)
-- 
2.43.0


From 5ea5ad9a4054d0c109bf311d0a18eed2fa3400b0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:51:25 +0000
Subject: [PATCH 57/70] fix: the first period of the daily statistics was a day
 short

---
 Probe/probe/plotter/stats.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Probe/probe/plotter/stats.py b/Probe/probe/plotter/stats.py
index bfa6a31..bf42259 100644
--- a/Probe/probe/plotter/stats.py
+++ b/Probe/probe/plotter/stats.py
@@ -439,7 +439,12 @@ def plot_daily_stats(df: 'pd.DataFrame',
         if last_day != df_row.reqDay:
             days.append(num_req)
             last_day = df_row.reqDay
-            if reset_stat_days > 0 and len(days) % reset_stat_days == 0:
+            past_days = len(days) - 1
+            if (
+                reset_stat_days > 0
+                and past_days > 0
+                and past_days % reset_stat_days == 0
+            ):
                 resets.append(num_req)
                 stats.append(_files)
                 _files = {}
-- 
2.43.0


From 911cc296e25e8713eb3ff13b271995ef5e66138d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:52:22 +0000
Subject: [PATCH 58/70] fix: files smaller than a megabyte were in no class of
 the size feature

---
 Probe/probe/analyzer/features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Probe/probe/analyzer/features.py b/Probe/probe/analyzer/features.py
index f1dcee6..e8615d8 100644
--- a/Probe/probe/analyzer/features.py
+++ b/Probe/probe/analyzer/features.py
@@ -222,7 +222,7 @@ class Features(object):
             if feature == "numReq":
                 cur_bins = np.unique(cur_bins.astype(int))
 
-        prev_bin = 0.
+        prev_bin = -np.inf
         counts = []
         for bin_idx, cur_bin in enumerate(cur_bins):
             if bin_idx != cur_bins.shape[0] - 1:
@@ -289,7 +289,7 @@ class Features(object):
                 meanline_visible=True,
             )
         )
-        prev_bin = 0.
+        prev_bin = -np.inf
         for bin_idx, cur_bin in enumerate(bins, 1):
             if bin_idx != bins.shape[0]:
                 cur_data = cur_feature_data[
-- 
2.43.0


From b246c9471bed70bd2bb9c1f455178528893cd473 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:19:57 +0000
Subject: [PATCH 59/70] fix: a password with a colon gave three parts of the
 credentials

---
 DataManager/agent/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataManager/agent/api.py b/DataManager/agent/api.py
index b37c912..4735651 100644
--- a/DataManager/agent/api.py
+++ b/DataManager/agent/api.py
@@ -279,7 +279,7 @@ class ElasticSearchHttp(object):
         self.__url = url
         if self.__url[-1] != "/":
             self.__url += "/"
-        self.__auth = tuple(auth.split(":")) if auth != "" else None
+        self.__auth = tuple(auth.split(":", 1)) if auth != "" else None
 
     def __enter__(self):
         return self
-- 
2.43.0


From bffa3ee1cc9c049957afc0e1182dd257670e4d91 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:19:57 +0000
Subject: [PATCH 60/70] fix: values with a comma, a quote or a line were
 several values of the csv row

---
 DataManager/agent/converter/csv.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/DataManager/agent/converter/csv.py b/DataManager/agent/converter/csv.py
index 4cf0188..87dc5c9 100644
--- a/DataManager/agent/converter/csv.py
+++ b/DataManager/agent/converter/csv.py
@@ -1,4 +1,7 @@
 
+import csv
+import io
+
 from .common import DataConverter
 
 __all__ = ['CSVConverter']
@@ -12,7 +15,9 @@ class CSVConverter(DataConverter):
         else:
             features = [str(elm) for elm in data]
         
-        return ",".join(features)
+        row = io.StringIO()
+        csv.writer(row, lineterminator="").writerow(features)
+        return row.getvalue()
 
     def labeled_row(self, data, label='label'):
         return None
-- 
2.43.0


From a69c726bc1fb0965ff22692f008e6e57bbfa252b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:23:08 +0000
Subject: [PATCH 61/70] fix: the table of the first simulator updated the value
 of another action than the one its decisions read

---
 qLearning_smartCache/qtable/qtable.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/qLearning_smartCache/qtable/qtable.go b/qLearning_smartCache/qtable/qtable.go
index 65ffc1f..f175c45 100644
--- a/qLearning_smartCache/qtable/qtable.go
+++ b/qLearning_smartCache/qtable/qtable.go
@@ -160,9 +160,8 @@ func getArgMax(array []float64) int {
 	return maxIdx
 }
 
-// GetAction returns the possible environment action from a state
-func (table QTable) GetAction(stateIdx uint64, action ActionType) float64 {
-	values := table.states[stateIdx]
+// getActionIdx returns the position of an action in the values of a state
+func (table QTable) getActionIdx(action ActionType) int {
 	outIdx := 0
 	for idx := 0; idx < len(table.actions); idx++ {
 		if table.actions[idx] == action {
@@ -170,7 +169,13 @@ func (table QTable) GetAction(stateIdx uint64, action ActionType) float64 {
 			break
 		}
 	}
-	return values[outIdx]
+	return outIdx
+}
+
+// GetAction returns the possible environment action from a state
+func (table QTable) GetAction(stateIdx uint64, action ActionType) float64 {
+	values := table.states[stateIdx]
+	return values[table.getActionIdx(action)]
 }
 
 // GetBestAction returns the action of the best action for the given state
@@ -206,5 +211,5 @@ func (table *QTable) Update(state []float64, action ActionType, reward float64)
 	stateIdx := table.GetStateIdx(state)
 	actionValue := table.GetAction(stateIdx, action)
 	maxValue := getArgMax(table.states[stateIdx])
-	table.states[stateIdx][action] = actionValue + table.learningRate*(reward+table.DecayRate*table.states[stateIdx][maxValue]-actionValue)
+	table.states[stateIdx][table.getActionIdx(action)] = actionValue + table.learningRate*(reward+table.DecayRate*table.states[stateIdx][maxValue]-actionValue)
 }
-- 
2.43.0


From 9a2871f9a38b44ed7eafd0fd0e8505a5774809c7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:02:12 +0000
Subject: [PATCH 62/70] fix: an avro writer of a named file could neither
 append a second time nor give its raw data

---
 DataManager/collector/datafile/avro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataManager/collector/datafile/avro.py b/DataManager/collector/datafile/avro.py
index f1b4bc0..3c0cfd8 100644
--- a/DataManager/collector/datafile/avro.py
+++ b/DataManager/collector/datafile/avro.py
@@ -30,7 +30,7 @@ class AvroDataFileWriter(object):
         """
         self.__descriptor = None
         if isinstance(file_, str):
-            self.__descriptor = open(file_, 'wb')
+            self.__descriptor = open(file_, 'w+b')
         elif isinstance(file_, (BytesIO, IOBase)):
             self.__descriptor = file_
         else:
-- 
2.43.0


From 9fefbbe0a44f7ccf076092b3b9212006bd503ba1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:02:12 +0000
Subject: [PATCH 63/70] fix: the deduced avro scheme lost the precision of
 numbers and refused records with equally typed lists or several nested
 records

---
 DataManager/collector/datafile/utils.py | 27 ++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/DataManager/collector/datafile/utils.py b/DataManager/collector/datafile/utils.py
index 1927b2b..3f612d5 100644
--- a/DataManager/collector/datafile/utils.py
+++ b/DataManager/collector/datafile/utils.py
@@ -66,7 +66,10 @@ def get_or_create_descriptor(filename, open_mode='rb'):
 
 class AvroObjectTranslator(object):
 
-    def deduce_scheme(self, obj, lvl: int = 0):
+    def deduce_scheme(self, obj, lvl: int = 0, record_lvls: list = None):
+
+        if record_lvls is None:
+            record_lvls = []
 
         primitive_type = self.__get_primitive_type(obj)
         if primitive_type != "complex":
@@ -78,15 +81,20 @@ class AvroObjectTranslator(object):
         elif complex_type == 'map':
             return {'type': complex_type, 'values': self.__get_primitive_type(list(obj.values())[0])}
         else:
+            name = "data_lvl_{}".format(lvl)
+            if lvl in record_lvls:  # a name can be defined only once
+                name += "_{}".format(record_lvls.count(lvl))
+            record_lvls.append(lvl)
             schema = {
                 "namespace": "translator.avro",
                 'type': "record",
-                'name': "data_lvl_{}".format(lvl),
+                'name': name,
                 'fields': []
             }
             for key, value in obj.items():
                 schema['fields'].append(
-                    {"name": key, "type": self.deduce_scheme(value, lvl + 1)}
+                    {"name": key, "type": self.deduce_scheme(
+                        value, lvl + 1, record_lvls)}
                 )
             return schema
 
@@ -95,9 +103,9 @@ class AvroObjectTranslator(object):
         if isinstance(value, bool):
             return "boolean"
         elif isinstance(value, int):
-            return "int"
+            return "long"
         elif isinstance(value, float):
-            return "float"
+            return "double"
         elif isinstance(value, str):
             return "string"
         elif isinstance(value, bytes):
@@ -107,11 +115,12 @@ class AvroObjectTranslator(object):
         else:
             return "complex"
 
-    @staticmethod
-    def __get_complex_type(obj):
+    def __get_complex_type(self, obj):
         if isinstance(obj, dict):
-            first_type = type(list(obj.values())[0])
-            if all([type(elm) == first_type for elm in obj.values()]):
+            first = list(obj.values())[0]
+            first_type = type(first)
+            if self.__get_primitive_type(first) != "complex" and all(
+                    [type(elm) == first_type for elm in obj.values()]):
                 return "map"
             else:
                 return "record"
-- 
2.43.0


From e7180c158236c7f7fb3365f54ea06e50ee01eb31 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:12:47 +0000
Subject: [PATCH 64/70] fix: relative paths of the model and of the dataset to
 verify were looked for in the output folder

---
 SmartCache/sim/main.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/SmartCache/sim/main.go b/SmartCache/sim/main.go
index 833bb63..729374c 100644
--- a/SmartCache/sim/main.go
+++ b/SmartCache/sim/main.go
@@ -361,9 +361,21 @@ func simCommand() *cobra.Command { //nolint:ignore,funlen
 			logger.Info("CONF_VAR", zap.String("aiFeatureMap", aiFeatureMap))
 
 			dataset2TestPath = viper.GetString("sim.ai.dataset2TestPath")
+			if dataset2TestPath != "" {
+				dataset2TestPath, errAbs = filepath.Abs(dataset2TestPath)
+				if errAbs != nil {
+					panic(errAbs)
+				}
+			}
 			logger.Info("CONF_VAR", zap.String("dataset2TestPath", dataset2TestPath))
 
 			aiModel = viper.GetString("sim.ai.model")
+			if aiModel != "" {
+				aiModel, errAbs = filepath.Abs(aiModel)
+				if errAbs != nil {
+					panic(errAbs)
+				}
+			}
 			logger.Info("CONF_VAR", zap.String("aiModel", aiModel))
 
 			aiRLType = viper.GetString("sim.ai.rl.type")
-- 
2.43.0


From b9335545a23a0ec0f7f0d6b3ced280f221219048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:39 +0000
Subject: [PATCH 65/70] fix: analysis LRU cache refuses a file larger than
 itself

---
 scripts/DataAnalysis/weight_function.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/DataAnalysis/weight_function.py b/scripts/DataAnalysis/weight_function.py
index b38b43b..2541fc0 100644
--- a/scripts/DataAnalysis/weight_function.py
+++ b/scripts/DataAnalysis/weight_function.py
@@ -515,6 +515,8 @@ class LRUCache(object):
         if hit:
             file_ = self._queue.pop(self._queue.index(filename))
             self._queue.append(file_)
+        elif size > self._max_size:
+            return False
         elif self.size + size > self._max_size:
             while self.size + size > self._max_size:
                 file_ = self._queue.pop(0)
-- 
2.43.0


From edffd7bf5617371460c1babf71c67eb1725ad5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:39 +0000
Subject: [PATCH 66/70] fix: analysis caches can be replayed on a first window
 without requests

---
 scripts/DataAnalysis/weight_function.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/scripts/DataAnalysis/weight_function.py b/scripts/DataAnalysis/weight_function.py
index 2541fc0..7fb9c2e 100644
--- a/scripts/DataAnalysis/weight_function.py
+++ b/scripts/DataAnalysis/weight_function.py
@@ -132,9 +132,9 @@ class WeightedCache(object):
         self._cache_groups = {}
 
     def clear_history(self):
-        self.size_history = [self.size_history[-1]]
-        self.hit_rate_history = [self.hit_rate_history[-1]]
-        self.write_history = [self.write_history[-1]]
+        self.size_history = self.size_history[-1:]
+        self.hit_rate_history = self.hit_rate_history[-1:]
+        self.write_history = self.write_history[-1:]
 
     def reset_history(self):
         self.size_history = []
@@ -417,10 +417,10 @@ class LRUCache(object):
         self._cache = {}
 
     def clear_history(self):
-        self.size_history = [self.size_history[-1]]
-        self.hit_rate_history = [self.hit_rate_history[-1]]
-        self.write_history = [self.write_history[-1]]
-        self.read_on_hit_history = [self.read_on_hit_history[-1]]
+        self.size_history = self.size_history[-1:]
+        self.hit_rate_history = self.hit_rate_history[-1:]
+        self.write_history = self.write_history[-1:]
+        self.read_on_hit_history = self.read_on_hit_history[-1:]
 
     def reset_history(self):
         self.size_history = []
-- 
2.43.0


From dfe748da2d69cd060a565834e410432f144cbf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:39 +0000
Subject: [PATCH 67/70] fix: plot server counts the last bin of sizes and
 windows without hits or misses

---
 scripts/DataAnalysis/plot_server.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scripts/DataAnalysis/plot_server.py b/scripts/DataAnalysis/plot_server.py
index a27f53a..834ca1e 100644
--- a/scripts/DataAnalysis/plot_server.py
+++ b/scripts/DataAnalysis/plot_server.py
@@ -50,7 +50,7 @@ def fill_hit_miss_bins(n_bins: int, edges: list, values: list) -> tuple:
     tot_miss = sum(n_miss for _, _, n_miss in values)
 
     for value, n_hit, n_miss in values:
-        for idx in range(n_bins - 1):
+        for idx in range(n_bins):
             lower = edges[idx]
             higher = edges[idx+1]
             if value >= lower and value <= higher:
@@ -58,8 +58,10 @@ def fill_hit_miss_bins(n_bins: int, edges: list, values: list) -> tuple:
                 hist_miss_bin[idx] += n_miss
                 break
 
-    hist_hit_bin = [value / tot_hits for value in hist_hit_bin]
-    hist_miss_bin = [value / tot_miss for value in hist_miss_bin]
+    if tot_hits:
+        hist_hit_bin = [value / tot_hits for value in hist_hit_bin]
+    if tot_miss:
+        hist_miss_bin = [value / tot_miss for value in hist_miss_bin]
 
     return hist_hit_bin, hist_miss_bin
 
-- 
2.43.0


From 30e7ca3a0fc830416aaab2245080cb5c00185e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:39 +0000
Subject: [PATCH 68/70] fix: plot server deletes its tables

---
 scripts/DataAnalysis/plot_server.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/DataAnalysis/plot_server.py b/scripts/DataAnalysis/plot_server.py
index 834ca1e..c91e5d4 100644
--- a/scripts/DataAnalysis/plot_server.py
+++ b/scripts/DataAnalysis/plot_server.py
@@ -647,10 +647,12 @@ def cache_info_plot(window: int):
 
 
 @app.route('/cache/plot', methods=['DELETE'])
-def delete_plots(window: int):
+def delete_plots():
     global TABLES, WINDOW_INFO, TABLE_COLORS
     TABLES = {
         'hit_rate': {},
+        'weighted_hit_rate': {},
+        'hit_over_miss': {},
         'size': {},
         'written_data': {},
         'read_on_hit': {},
-- 
2.43.0


From 2ab54db5c853b0f9b71849ee9ba71b78c61d0748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:39 +0000
Subject: [PATCH 69/70] fix: plot server compares a cache only with the LRU
 cache of its size

---
 scripts/DataAnalysis/plot_server.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/DataAnalysis/plot_server.py b/scripts/DataAnalysis/plot_server.py
index c91e5d4..761fa4d 100644
--- a/scripts/DataAnalysis/plot_server.py
+++ b/scripts/DataAnalysis/plot_server.py
@@ -387,6 +387,7 @@ def plot_line(table_name: str, filename: str, **kwargs):
 
             if compare:
                 if cache_name.lower().find('lru') != 0:
+                    lru_values = None
                     size = get_size_from_name(cache_name)
                     for cur_name in TABLES[cur_table_name]:
                         cur_size = get_size_from_name(cur_name)
@@ -399,6 +400,8 @@ def plot_line(table_name: str, filename: str, **kwargs):
                                 for value in bucket
                             ]
                             break
+                    if lru_values is None:
+                        continue
                 else:
                     continue
 
-- 
2.43.0


From b80d51ea3300db166dbb76769e909ef21432f525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:39 +0000
Subject: [PATCH 70/70] fix: statistics do not wait for the sizes of files in
 no database

---
 scripts/DataAnalysis/statistics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/DataAnalysis/statistics.py b/scripts/DataAnalysis/statistics.py
index 7e5a9c4..5ab5db9 100644
--- a/scripts/DataAnalysis/statistics.py
+++ b/scripts/DataAnalysis/statistics.py
@@ -348,6 +348,7 @@ class Statistics(object):
                         [
                             set_status.decode("ascii") == "ADDED"
                             for set_status in set_cache
+                            if set_status is not None
                         ]
                     ):
                         set_cache = self.__redis.mget(set_to_add)
-- 
2.43.0

