From ef11fead19c6f1cd517fc9a34001328f72ccea08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:12 +0000
Subject: [PATCH 01/21] fix: do not replace a namespace that was created
 concurrently

---
 pkg/kmeans/rpc/rpc.go    |  6 +++++-
 pkg/kmeans/rpc/server.go | 13 ++++++++-----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/pkg/kmeans/rpc/rpc.go b/pkg/kmeans/rpc/rpc.go
index 179228b..6d53e58 100644
--- a/pkg/kmeans/rpc/rpc.go
+++ b/pkg/kmeans/rpc/rpc.go
@@ -169,7 +169,7 @@ func (t *CManagerTable) Access(namespace string, f func(*CentroidManager)) bool
 
 // AddSlot safely (mutex) adds a CManagerSlot to CManagerTable. Will abort
 // and return false if the CManagerSlot or the contained common.CentroidManger
-// are nil.
+// are nil, or if the namespace is already in use.
 func (t *CManagerTable) AddSlot(namespace string, cms *CManagerSlot) bool {
 	if cms == nil || cms.cManager == nil {
 		return false
@@ -177,6 +177,10 @@ func (t *CManagerTable) AddSlot(namespace string, cms *CManagerSlot) bool {
 
 	t.Lock()
 	defer t.Unlock()
+	// Replacing an existing slot would throw away all data it contains.
+	if _, exists := t.slots[namespace]; exists {
+		return false
+	}
 	t.slots[namespace] = cms
 	return true
 }
diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index 0a045cd..d695621 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -50,17 +50,20 @@ type AddDataPointArgs struct {
 // (pkg kmeans/CentroidManager). Will createa a new CentroidManager instance if
 // the namespace is not currently in use.
 func (s *KMeansServer) AddDataPoint(args AddDataPointArgs, resp *bool) error {
-	lookupOK := s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
+	add := func(cm *CentroidManager) {
 		*resp = cm.AddDataPoint(args.DP)
-	})
+	}
+	lookupOK := s.Table.Access(args.NameSpace, add)
 	// Namespace doesn't exist, create one + add dp there.
 	if !lookupOK {
 		centroidManager := s.CentroidManagerFactoryFunc(args.DP.Vec)
 		centroidManager.AddDataPoint(args.DP)
 		slot := CManagerSlot{cManager: centroidManager}
-		// Returns a false if a slot is the containec CentroidManager is
-		// nil, but it is assumed that it works here.
-		s.Table.AddSlot(args.NameSpace, &slot)
+		// Returns a false if the namespace was created by someone else in
+		// the meantime, in which case the dp belongs in that one.
+		if !s.Table.AddSlot(args.NameSpace, &slot) {
+			s.Table.Access(args.NameSpace, add)
+		}
 	}
 
 	*resp = true
-- 
2.43.0


From c6b5c5071f82bb608e61b45d902bc923b13d6f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:13 +0000
Subject: [PATCH 02/21] fix: acknowledge a datapoint over rpc only if it was
 stored

---
 pkg/kmeans/rpc/server.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index d695621..0e4ec2f 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -57,16 +57,18 @@ func (s *KMeansServer) AddDataPoint(args AddDataPointArgs, resp *bool) error {
 	// Namespace doesn't exist, create one + add dp there.
 	if !lookupOK {
 		centroidManager := s.CentroidManagerFactoryFunc(args.DP.Vec)
-		centroidManager.AddDataPoint(args.DP)
+		if !centroidManager.AddDataPoint(args.DP) {
+			return nil
+		}
 		slot := CManagerSlot{cManager: centroidManager}
 		// Returns a false if the namespace was created by someone else in
 		// the meantime, in which case the dp belongs in that one.
-		if !s.Table.AddSlot(args.NameSpace, &slot) {
-			s.Table.Access(args.NameSpace, add)
+		if s.Table.AddSlot(args.NameSpace, &slot) {
+			*resp = true
+			return nil
 		}
+		s.Table.Access(args.NameSpace, add)
 	}
-
-	*resp = true
 	return nil
 }
 
-- 
2.43.0


From d0de96c5e67f848ff70394e297f9efd6ecb7a187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:14 +0000
Subject: [PATCH 03/21] fix: first datapoint of a manager can be refused by its
 centroid

---
 pkg/kmeans/centroidmanager/cmanager.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index d37fe8b..8528357 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -239,7 +239,9 @@ func (cm *CentroidManager) AddDataPoint(dp common.DataPoint) bool {
 	// Add first centroid.
 	if len(cm.Centroids) == 0 {
 		c := cm.newCentroid(dp.Vec)
-		c.AddDataPoint(dp)
+		if !c.AddDataPoint(dp) {
+			return false
+		}
 		cm.Centroids = append(cm.Centroids, c)
 		cm.vec = c.Vec()
 		return true
-- 
2.43.0


From 4ce9230a2d8e1edbed3fb33ed7cc802b7c44212c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:15 +0000
Subject: [PATCH 04/21] fix: do not drain datapoints when there is nowhere to
 distribute them

---
 pkg/kmeans/rpc/server.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index 0e4ec2f..29a57a3 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -162,7 +162,10 @@ func (s *KMeansServer) DistributeDataPointsFast(args DistribDPArgs, _ *int) erro
 
 	// Not wrapping the code below with this because it locks the CentroidManager.
 	nsErr := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
-		dps = append(dps, cm.DrainOrdered(args.N)...)
+		// Nothing would take care of drained dps without any receivers.
+		if len(args.AddrOptions) != 0 {
+			dps = append(dps, cm.DrainOrdered(args.N)...)
+		}
 	})
 
 	if nsErr != nil || len(dps) == 0 || len(args.AddrOptions) == 0 {
@@ -204,7 +207,10 @@ func (s *KMeansServer) DistributeDataPointsAccurate(args DistribDPArgs, _ *int)
 
 	// Not wrapping the code below with this because it locks the CentroidManager.
 	nsErr := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
-		dps = append(dps, cm.DrainOrdered(args.N)...)
+		// Nothing would take care of drained dps without any receivers.
+		if len(args.AddrOptions) != 0 {
+			dps = append(dps, cm.DrainOrdered(args.N)...)
+		}
 	})
 
 	if nsErr != nil || len(dps) == 0 || len(args.AddrOptions) == 0 {
-- 
2.43.0


From 0e8793f311834887d3b42e5e4807af7cfb5bdc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:16 +0000
Subject: [PATCH 05/21] fix: clamp the meta interval of the event loop

---
 core/eventloop/cfg.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/eventloop/cfg.go b/core/eventloop/cfg.go
index d4f421f..1da55c7 100644
--- a/core/eventloop/cfg.go
+++ b/core/eventloop/cfg.go
@@ -67,6 +67,7 @@ func (cfg *EventLoopTaskSkipConfig) clamp(min, max int) {
 		&cfg.SplitCentroids,
 		&cfg.MergeCentroids,
 		&cfg.LoadBalancing,
+		&cfg.Meta,
 	}
 	for _, v := range items {
 		if *v < min {
-- 
2.43.0


From eb8a3410ef26c5e32903a29bc79baf711a326c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:59 +0000
Subject: [PATCH 06/21] fix: draining the last centroid turned the manager
 vector into NaN

---
 pkg/kmeans/centroidmanager/cmanager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index 8528357..6c59049 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -483,7 +483,7 @@ func (cm *CentroidManager) NearestCentroids(vec []float64, n int, drain bool) (
 		for i := len(indexes) - 1; i > -1; i-- {
 			j := indexes[i] // Abbreviation for actual centroid index.
 			// Auto-adjust internal vec.
-			if len(cm.Centroids) > 0 {
+			if len(cm.Centroids) > 1 { // guard 0 div error.
 				cm.vec = mathutils.VecMulScalar(cm.vec, float64(len(cm.Centroids)))
 				cm.vec, _ = mathutils.VecSub(cm.vec, cm.Centroids[j].Vec())
 				cm.vec = mathutils.VecDivScalar(cm.vec, float64(len(cm.Centroids)-1))
-- 
2.43.0


From 983f5992f13444befe6c419ed7b8b35b225cc64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:00 +0000
Subject: [PATCH 07/21] fix: Centroid.MemTrim left the vector of its last
 datapoint behind

---
 pkg/kmeans/centroid/centroid.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/kmeans/centroid/centroid.go b/pkg/kmeans/centroid/centroid.go
index 98819de..3edc177 100644
--- a/pkg/kmeans/centroid/centroid.go
+++ b/pkg/kmeans/centroid/centroid.go
@@ -191,6 +191,8 @@ func (c *Centroid) MemTrim() {
 		dps = append(dps, c.DrainUnordered(1)...)
 	}
 	c.DataPoints = dps
+	// The drain above left the vec of the last datapoint behind.
+	c.MoveVector()
 }
 
 // MoveVector moves the internal centroid vector to be the mean of all
-- 
2.43.0


From dba3808592fafab156a0439fc54894e317316732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:01 +0000
Subject: [PATCH 08/21] fix: CentroidManager.MemTrim miscalculated its vector
 on centroid removal

---
 pkg/kmeans/centroidmanager/cmanager.go | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index 6c59049..97f56f5 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -218,6 +218,15 @@ func (cm *CentroidManager) prepVecUpdate(v1 []float64) func([]float64) {
 	}
 }
 
+// syncVec sets cm.vec to be the mean of all centroid vecs. It is meant for
+// situations where the amount of centroids change, which is something that
+// cm.prepVecUpdate doesn't support.
+func (cm *CentroidManager) syncVec() {
+	if vec, ok := mathutils.VecMean(cm.centroidVecGenerator()); ok {
+		cm.vec = vec
+	}
+}
+
 // Vec exposes the internal vector of a CentroidManager.
 func (km *CentroidManager) Vec() []float64 { return km.vec }
 
@@ -346,25 +355,15 @@ func (cm *CentroidManager) LenDP() int {
 func (cm *CentroidManager) MemTrim() {
 	centroids := make([]*centroid.Centroid, 0, len(cm.Centroids))
 	for _, centroid := range cm.Centroids {
-		// Prep for internal vec update.
-		updateVec := cm.prepVecUpdate(centroid.Vec())
 		centroid.MemTrim()
-		// Finalize internal vec update.
-		updateVec(centroid.Vec())
 		if centroid.LenDP() != 0 {
 			centroids = append(centroids, centroid)
 		}
-
-		// Will not be included in new centroids slice, so effectively deleted.
-		// In this case, the internal vec must be updated a bit differently
-		// than what cm.prepVecUpdate does. Note bounds check.
-		if centroid.LenDP() == 1 && len(cm.Centroids) > 1 {
-			cm.vec = mathutils.VecMulScalar(cm.vec, float64(len(cm.Centroids)))
-			cm.vec, _ = mathutils.VecSub(cm.vec, centroid.Vec())
-			cm.vec = mathutils.VecDivScalar(cm.vec, float64(len(cm.Centroids)-1))
-		}
 	}
 	cm.Centroids = centroids
+	// Done in bulk here, as opposed to using cm.prepVecUpdate, because that
+	// does not support deleting centroids.
+	cm.syncVec()
 }
 
 // MoveVector sets the internal vector to the average of all internal Centroids.
-- 
2.43.0


From daa9d69f9f6489faa2d6e693d0b99f79a766f932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:02 +0000
Subject: [PATCH 09/21] fix: splitting centroids did not update the manager
 vector

---
 pkg/kmeans/centroidmanager/cmanager.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index 97f56f5..ae67b33 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -277,6 +277,7 @@ func (cm *CentroidManager) AddDataPoint(dp common.DataPoint) bool {
 		newCentroid, splitOK := cm.splitCentroid(indexes[0], cm.centroidDPThreshold/2)
 		if splitOK {
 			cm.Centroids = append(cm.Centroids, newCentroid)
+			cm.syncVec()
 		}
 	}
 	return true
@@ -513,6 +514,7 @@ func (cm *CentroidManager) SplitCentroids(split func(*centroid.Centroid) bool) {
 		}
 	}
 	cm.Centroids = append(cm.Centroids, newCentroids...)
+	cm.syncVec()
 }
 
 // MergeCentroids iterates through all internal Centroids and passes them to
-- 
2.43.0


From 07b85bdc332abd800575d7fc1b868a536f862c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:03 +0000
Subject: [PATCH 10/21] fix: merging centroids miscalculated the manager vector

---
 pkg/kmeans/centroidmanager/cmanager.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index ae67b33..bd43e0c 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -572,17 +572,11 @@ func (cm *CentroidManager) MergeCentroids(merge func(*centroid.Centroid) bool) {
 	// shifting issues.
 	for i := len(cm.Centroids) - 1; i > -1; i-- {
 		if delMarks[i] {
-			// This should always be true, due to how this func works at the
-			// time of writing, but doing a bounds check juuust in case:
-			if len(cm.Centroids) > 0 {
-				// Need this, it changes the internal vector appropriately
-				// when deleting a centroid:
-				cm.vec = mathutils.VecMulScalar(cm.vec, float64(len(cm.Centroids)))
-				cm.vec, _ = mathutils.VecSub(cm.vec, cm.Centroids[i].Vec())
-				cm.vec = mathutils.VecDivScalar(cm.vec, float64(len(cm.Centroids)-1))
-			}
 			// Delete.
 			cm.Centroids = append(cm.Centroids[:i], cm.Centroids[i+1:]...)
 		}
 	}
+	// The vec of a merged centroid changes while it is emptied, so it can't
+	// be subtracted from the internal vector when deleting that centroid.
+	cm.syncVec()
 }
-- 
2.43.0


From 7d5a3ae5f397fe946e6a47c006cf79b63c3b27e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:48 +0000
Subject: [PATCH 11/21] fix: a request for no datapoints drained one anyway

---
 pkg/kmeans/centroidmanager/cmanager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index bd43e0c..015c843 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -127,6 +127,9 @@ func (cm *CentroidManager) newCentroid(vec []float64) *centroid.Centroid {
 // of common.DataPoint contained in each centroid is uncertain.
 func (cm *CentroidManager) centroidDataPointPortions(n int) map[int]int {
 	portions := make(map[int]int)
+	if n <= 0 {
+		return portions
+	}
 	// This is essentially the total sum of all v in portions.
 	assigned := 0
 	for {
-- 
2.43.0


From 2df1ade7b465a4d32bc6dc1de2e22517bd338acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:49 +0000
Subject: [PATCH 12/21] fix: requested amounts are not trusted for sizing
 allocations

---
 core/dps/getdps.go                     |  2 +-
 pkg/kmeans/centroid/centroid.go        |  6 +++---
 pkg/kmeans/centroidmanager/cmanager.go |  8 ++++----
 pkg/kmeans/rpc/client.go               |  2 +-
 pkg/kmeans/rpc/server.go               |  4 ++--
 pkg/searchutils/knn.go                 | 12 +++++++-----
 6 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/core/dps/getdps.go b/core/dps/getdps.go
index 81dd8a4..a10ed7e 100644
--- a/core/dps/getdps.go
+++ b/core/dps/getdps.go
@@ -17,7 +17,7 @@ type getDataPointsArgs struct {
 }
 
 func getDataPoints(args getDataPointsArgs) []DataPoint {
-	res := make([]DataPoint, 0, args.n)
+	res := make([]DataPoint, 0)
 	for _, addr := range args.addrOpts {
 		client := rpc.KMeansClient(addr.ToStr(), args.namespace, nil)
 		dps := client.KNNLookup(args.queryVec, args.n-len(res), args.drain)
diff --git a/pkg/kmeans/centroid/centroid.go b/pkg/kmeans/centroid/centroid.go
index 3edc177..0422964 100644
--- a/pkg/kmeans/centroid/centroid.go
+++ b/pkg/kmeans/centroid/centroid.go
@@ -131,7 +131,7 @@ func (c *Centroid) dataPointVecGenerator() func() ([]float64, bool) {
 // DrainUnordered drains n internal datapoints in a manner that has no particylar.
 // significance, specifically by how they are stored internally -- in no order.
 func (c *Centroid) DrainUnordered(n int) []common.DataPoint {
-	res := make([]common.DataPoint, 0, n)
+	res := make([]common.DataPoint, 0)
 	for len(c.DataPoints) != 0 && len(res) < n {
 		if !c.DataPoints[0].Expired() {
 			res = append(res, c.DataPoints[0])
@@ -148,7 +148,7 @@ func (c *Centroid) DrainUnordered(n int) []common.DataPoint {
 // net-means/searchutils.KNFCos, then drain away data that has lowest cosine
 // similarity to this Centroid.
 func (c *Centroid) DrainOrdered(n int) []common.DataPoint {
-	res := make([]common.DataPoint, 0, n)
+	res := make([]common.DataPoint, 0)
 	// Furthest neigh.
 	indexes := c.kfnSearchFunc(c.vec, c.dataPointVecGenerator(), n)
 	for _, index := range indexes {
@@ -245,7 +245,7 @@ func (c *Centroid) DistributeDataPoints(n int, receivers []common.DataPointRecei
 // crating a new Centroid with 'NewCentroid'. If that field is for instance
 // net-means/searchutils.KNNCos, then best fit equals best cosine similarity.
 func (c *Centroid) KNNLookup(vec []float64, k int, drain bool) []common.DataPoint {
-	res := make([]common.DataPoint, 0, k)
+	res := make([]common.DataPoint, 0)
 
 	indexes := c.knnSearchFunc(vec, c.dataPointVecGenerator(), k)
 	for _, i := range indexes {
diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index 015c843..077c3d0 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -292,7 +292,7 @@ func (cm *CentroidManager) AddDataPoint(dp common.DataPoint) bool {
 // centroids, i.e if n=2 and there are 2 centroids with at least 1 dp each, then
 // both of them will drain 1 dp. Note, will update CentroidManager vector.
 func (cm *CentroidManager) DrainUnordered(n int) []common.DataPoint {
-	res := make([]common.DataPoint, 0, n)
+	res := make([]common.DataPoint, 0)
 	for centroidIndex, portion := range cm.centroidDataPointPortions(n) {
 		centroid := cm.Centroids[centroidIndex]
 		// Prep for internal vec update.
@@ -315,7 +315,7 @@ func (cm *CentroidManager) DrainUnordered(n int) []common.DataPoint {
 // least 1 dp each, then both of them will drain 1 dp. Note, will update
 // CentroidManager vector.
 func (cm *CentroidManager) DrainOrdered(n int) []common.DataPoint {
-	res := make([]common.DataPoint, 0, n)
+	res := make([]common.DataPoint, 0)
 	for centroidIndex, portion := range cm.centroidDataPointPortions(n) {
 		centroid := cm.Centroids[centroidIndex]
 		// Prep for internal vec update.
@@ -427,7 +427,7 @@ func (cm *CentroidManager) DistributeDataPointsInternal(n int) {
 // with the same name (KNNLookup) will be called on those Centroids.
 // Note, will update internal CentroidManager vector.
 func (cm *CentroidManager) KNNLookup(vec []float64, k int, drain bool) []common.DataPoint {
-	res := make([]common.DataPoint, 0, k)
+	res := make([]common.DataPoint, 0)
 
 	gen := cm.centroidVecGenerator() // Brevity.
 	for _, centroidIndex := range cm.knnSearchFunc(vec, gen, k) {
@@ -477,7 +477,7 @@ func (cm *CentroidManager) NearestCentroids(vec []float64, n int, drain bool) (
 	if len(indexes) == 0 {
 		return nil, false
 	}
-	centroids := make([]*centroid.Centroid, 0, n)
+	centroids := make([]*centroid.Centroid, 0, len(indexes))
 	for _, index := range indexes {
 		centroids = append(centroids, cm.Centroids[index])
 	}
diff --git a/pkg/kmeans/rpc/client.go b/pkg/kmeans/rpc/client.go
index b680383..a1b6ffc 100644
--- a/pkg/kmeans/rpc/client.go
+++ b/pkg/kmeans/rpc/client.go
@@ -181,7 +181,7 @@ func (c *kmeansClient) DistributeDataPointsInternal(n int) {
 // (T of pkg/kmeans/centroidmanager, se that method name for more documentation),
 // using the addr and namespace specified while setting up this client.
 func (c *kmeansClient) KNNLookup(vec []float64, k int, drain bool) []DataPoint {
-	resp := make([]DataPoint, 0, k)
+	resp := make([]DataPoint, 0)
 
 	c.client(func(rc *rpc.Client) {
 		args := KNNLookupArgs{NameSpace: c.namespace, Vec: vec, K: k, Drain: drain}
diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index 29a57a3..2eafd8e 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -158,7 +158,7 @@ func distributeDP(dp DataPoint, gen vecGenerator, addrs []string, namespace stri
 // method called, then those dps will be sent to remote nodes that are most
 // similar to those dps (similarity is caluclated by remote CentroidManager.Vec()).
 func (s *KMeansServer) DistributeDataPointsFast(args DistribDPArgs, _ *int) error {
-	dps := make([]DataPoint, 0, args.N)
+	dps := make([]DataPoint, 0)
 
 	// Not wrapping the code below with this because it locks the CentroidManager.
 	nsErr := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
@@ -203,7 +203,7 @@ func (s *KMeansServer) DistributeDataPointsFast(args DistribDPArgs, _ *int) erro
 // This is _a_lot_ slower due to many network calls, but has the benefit of
 // placing distribute dps precisely.
 func (s *KMeansServer) DistributeDataPointsAccurate(args DistribDPArgs, _ *int) error {
-	dps := make([]DataPoint, 0, args.N)
+	dps := make([]DataPoint, 0)
 
 	// Not wrapping the code below with this because it locks the CentroidManager.
 	nsErr := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
diff --git a/pkg/searchutils/knn.go b/pkg/searchutils/knn.go
index be9bc50..b3b66f0 100644
--- a/pkg/searchutils/knn.go
+++ b/pkg/searchutils/knn.go
@@ -86,7 +86,9 @@ type KNNBruteArgs struct {
 // (or furthest) neighs of a vector, and then returning their index.
 // See KNNBruteArgs (accepted argument) for more info.
 func KNNBrute(args KNNBruteArgs) []int {
-	res := make([]resultItem, args.K)
+	// Grows up to args.K, which is not trusted for sizing it up front (could
+	// be negative or much higher than the amount of vectors).
+	res := make([]resultItem, 0)
 	// This represents the lowest/highest score found so far.
 	// Defining a cap of highest/lowest number representing similarity
 	// is done here by simply using the (near) min/max allowed float.
@@ -94,10 +96,6 @@ func KNNBrute(args KNNBruteArgs) []int {
 	if !args.Ascending {
 		similarity *= -1
 	}
-	// Apply worst score to all resultItems.
-	for i := 0; i < args.K; i++ {
-		res[i].score = similarity
-	}
 	i := 0
 	for {
 		// Next vector.
@@ -113,6 +111,10 @@ func KNNBrute(args KNNBruteArgs) []int {
 		}
 		// Evaluate inclusion of current vector.
 		newSlot := &resultItem{i, score, true}
+		if len(res) < args.K {
+			// Unused slot with the worst score.
+			res = append(res, resultItem{score: similarity})
+		}
 		if args.Ascending && score < similarity {
 			bubble(newSlot, res, true)
 		}
-- 
2.43.0


From b8f48e629308c644e0255240077f4aecf3ca09cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:50 +0000
Subject: [PATCH 13/21] fix: adjacent empty centroids slipped through the
 client filter

---
 pkg/kmeans/rpc/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/kmeans/rpc/client.go b/pkg/kmeans/rpc/client.go
index a1b6ffc..e82fc32 100644
--- a/pkg/kmeans/rpc/client.go
+++ b/pkg/kmeans/rpc/client.go
@@ -215,7 +215,7 @@ func (c *kmeansClient) NearestCentroids(vec []float64, n int, drain bool) (
 	}
 
 	// Remove nil/empty(no dps) centroids.
-	for i := 0; i < len(resp); i++ {
+	for i := len(resp) - 1; i >= 0; i-- { // Backwards for removal safety.
 		if resp[i] == nil || resp[i].LenDP() == 0 {
 			resp = append(resp[:i], resp[i+1:]...)
 		}
-- 
2.43.0


From e1d07fdc53319a22a40be0219f9fbfaebc890cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:51 +0000
Subject: [PATCH 14/21] fix: cosine similarity with one zero vector was NaN

---
 pkg/mathutils/distance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/mathutils/distance.go b/pkg/mathutils/distance.go
index f618267..75ed629 100644
--- a/pkg/mathutils/distance.go
+++ b/pkg/mathutils/distance.go
@@ -40,7 +40,7 @@ func CosineSimilarity(vec1, vec2 []float64) (float64, error) {
 		return 0, errors.New("similarity measurement attempt failed: vectors are of different lengths")
 	}
 	norm1, norm2 := norm(vec1), norm(vec2)
-	if norm1 == 0 && norm2 == 0 {
+	if norm1 == 0 || norm2 == 0 {
 		return 0, nil
 	}
 	var dot float64
-- 
2.43.0


From 490c4404c26ee7a3554f0b9f0c755db18237f8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:52 +0000
Subject: [PATCH 15/21] fix: EuclideanDistance computed the manhattan distance

---
 pkg/mathutils/distance.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/mathutils/distance.go b/pkg/mathutils/distance.go
index 75ed629..82a903b 100644
--- a/pkg/mathutils/distance.go
+++ b/pkg/mathutils/distance.go
@@ -19,9 +19,9 @@ func EuclideanDistance(v1, v2 []float64) (float64, error) {
 	}
 	var r float64
 	for i := 0; i < len(v1); i++ {
-		r += math.Sqrt((v1[i] - v2[i]) * (v1[i] - v2[i]))
+		r += (v1[i] - v2[i]) * (v1[i] - v2[i])
 	}
-	return r, nil
+	return math.Sqrt(r), nil
 }
 
 // norm computes the norm (math) of a vec.
-- 
2.43.0


From 9ef8fc9c6c38709c0055ed45c31c6e12b69163c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:52 +0000
Subject: [PATCH 16/21] fix: lookups gave up after k centroids even if those
 had too few datapoints

---
 pkg/kmeans/centroidmanager/cmanager.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index 077c3d0..9605820 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -430,7 +430,8 @@ func (cm *CentroidManager) KNNLookup(vec []float64, k int, drain bool) []common.
 	res := make([]common.DataPoint, 0)
 
 	gen := cm.centroidVecGenerator() // Brevity.
-	for _, centroidIndex := range cm.knnSearchFunc(vec, gen, k) {
+	// All centroids are candidates, as the nearest ones can have too few dps.
+	for _, centroidIndex := range cm.knnSearchFunc(vec, gen, len(cm.Centroids)) {
 		if len(res) >= k {
 			break
 		}
-- 
2.43.0


From acb6f6294747769eac407ff84f8a812e939e1379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:50 +0000
Subject: [PATCH 17/21] fix: centroids of a lookup were encoded while in use by
 other requests

---
 pkg/kmeans/rpc/server.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index 2eafd8e..eb3d8e3 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -282,7 +282,18 @@ type NearestCentroidArgs struct {
 // lead to an instance.
 func (s *KMeansServer) NearestCentroids(args NearestCentroidArgs, r *[]*Centroid) error {
 	return s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
-		*r, _ = cm.NearestCentroids(args.Vec, args.N, args.Drain)
+		centroids, _ := cm.NearestCentroids(args.Vec, args.N, args.Drain)
+		if args.Drain {
+			*r = centroids
+			return
+		}
+		// Not drained, so they're still used by cm; the response is encoded
+		// without holding the lock and has to be a copy.
+		for _, c := range centroids {
+			dps := make([]DataPoint, len(c.DataPoints))
+			copy(dps, c.DataPoints)
+			*r = append(*r, &Centroid{DataPoints: dps})
+		}
 	})
 }
 
-- 
2.43.0


From cd0a7df871b3dbcd61ae44e5552f2dfc5af743e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:51 +0000
Subject: [PATCH 18/21] fix: stopping a server raced with accepting and missed
 connections

---
 pkg/kmeans/rpc/rpc.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/pkg/kmeans/rpc/rpc.go b/pkg/kmeans/rpc/rpc.go
index 6d53e58..e300815 100644
--- a/pkg/kmeans/rpc/rpc.go
+++ b/pkg/kmeans/rpc/rpc.go
@@ -225,22 +225,44 @@ func StartListen(s *KMeansServer) (stop func(), err error) {
 		return nil, err
 	}
 
-	var conn net.Conn
+	var mu sync.Mutex // Guards the two vars below.
+	conns := make(map[net.Conn]bool)
+	stopped := false
 	stop = func() {
 		ln.Close()
-		if conn != nil {
+		mu.Lock()
+		defer mu.Unlock()
+		stopped = true
+		for conn := range conns {
 			conn.Close()
 		}
 	}
 
+	serve := func(cxn net.Conn) {
+		defer cxn.Close()
+
+		mu.Lock()
+		if stopped {
+			mu.Unlock()
+			return
+		}
+		conns[cxn] = true
+		mu.Unlock()
+
+		handler.ServeConn(cxn)
+
+		mu.Lock()
+		delete(conns, cxn)
+		mu.Unlock()
+	}
+
 	go func() {
 		for {
 			cxn, err := ln.Accept()
-			conn = cxn
 			if err != nil {
 				break
 			}
-			go handler.ServeConn(cxn)
+			go serve(cxn)
 		}
 	}()
 	return stop, nil
-- 
2.43.0


From 27c6f1ebe36b90f930d9f5eb115a3f2385e32f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:52 +0000
Subject: [PATCH 19/21] fix: data race on the stop flag of the event loop

---
 core/eventloop/cfg.go | 11 +++++++++--
 core/eventloop/el.go  |  9 +++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/core/eventloop/cfg.go b/core/eventloop/cfg.go
index 1da55c7..be22c07 100644
--- a/core/eventloop/cfg.go
+++ b/core/eventloop/cfg.go
@@ -1,6 +1,9 @@
 package eventloop
 
-import "time"
+import (
+	"sync/atomic"
+	"time"
+)
 
 // Each task in the event loop will be skippable such that not everything has
 // to run in each loop iteration. This is useful when some tasks are recource
@@ -80,10 +83,14 @@ func (cfg *EventLoopTaskSkipConfig) clamp(min, max int) {
 }
 
 type eventLoopInternal struct {
-	stopped bool
+	stopped int32 // Atomic, as the stop func is called from elsewhere.
 	iter    int
 }
 
+func (i *eventLoopInternal) isStopped() bool {
+	return atomic.LoadInt32(&i.stopped) != 0
+}
+
 // EventLoopConfig is a config type for the event loop in this pkg.
 type EventLoopConfig struct {
 	LocalAddr Addr
diff --git a/core/eventloop/el.go b/core/eventloop/el.go
index 6ea71e5..da6e6f3 100644
--- a/core/eventloop/el.go
+++ b/core/eventloop/el.go
@@ -1,6 +1,7 @@
 package eventloop
 
 import (
+	"sync/atomic"
 	"time"
 	"trypo/pkg/arbiter"
 )
@@ -10,13 +11,13 @@ type Addr = arbiter.Addr
 // Intended to be used for each event loop task in the event loop.
 func elStep(cfg *EventLoopConfig, task func(*EventLoopConfig)) {
 	// For quickly aborting all steps in eventloop.
-	if cfg.internal.stopped {
+	if cfg.internal.isStopped() {
 		return
 	}
 	time.Sleep(cfg.TimeoutStep)
 
 	// Neat in case timeout is long.
-	if cfg.internal.stopped {
+	if cfg.internal.isStopped() {
 		return
 	}
 	task(cfg)
@@ -27,7 +28,7 @@ func EventLoop(cfg *EventLoopConfig) func() {
 
 	go func() {
 		// Note: tasks are _not_ arbitrarily ordered.
-		for cfg.internal.stopped == false {
+		for !cfg.internal.isStopped() {
 			time.Sleep(cfg.TimeoutLoop)
 
 			elStep(cfg, eltMeta)
@@ -53,6 +54,6 @@ func EventLoop(cfg *EventLoopConfig) func() {
 	}()
 
 	return func() {
-		cfg.internal.stopped = true
+		atomic.StoreInt32(&cfg.internal.stopped, 1)
 	}
 }
-- 
2.43.0


From e84fc146382df73d3a4073fb9a01881ebcc025ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:52 +0000
Subject: [PATCH 20/21] fix: load balancing counted unreachable nodes as empty
 ones

---
 core/eventloop/eltask.go      | 4 ++++
 core/eventloop/eltaskutils.go | 8 +++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/core/eventloop/eltask.go b/core/eventloop/eltask.go
index db3712f..2c927e7 100644
--- a/core/eventloop/eltask.go
+++ b/core/eventloop/eltask.go
@@ -160,6 +160,10 @@ func eltLoadBalancing(cfg *EventLoopConfig) {
 				addrs := table.addrsWithNamespace(ns)
 				addrsLens := fetchRemoteLenDPs(addrs, ns)
 
+				if len(addrsLens) == 0 { // guard 0 div error.
+					continue
+				}
+
 				local := cfg.LocalAddr // Abbreviation.
 
 				dpTotal := 0
diff --git a/core/eventloop/eltaskutils.go b/core/eventloop/eltaskutils.go
index ff93af2..990e86b 100644
--- a/core/eventloop/eltaskutils.go
+++ b/core/eventloop/eltaskutils.go
@@ -1,6 +1,7 @@
 package eventloop
 
 import (
+	netrpc "net/rpc"
 	"trypo/pkg/kmeans/rpc"
 )
 
@@ -60,9 +61,10 @@ func fetchRemoteLenDPs(addrs []Addr, namespace string) map[Addr]int {
 			var err error
 			client := rpc.KMeansClient(addr.ToStr(), namespace, &err)
 			lenDP := client.LenDP()
-			// NamespaceErr can be interpreted as dp len = 0.
-			_, castOK := err.(rpc.NamespaceErr)
-			ok := err == nil || (err != nil && !castOK)
+			// NamespaceErr can be interpreted as dp len = 0. The type of
+			// errors returned by a remote method is lost in net/rpc.
+			_, castOK := err.(netrpc.ServerError)
+			ok := err == nil || castOK
 			ch <- nodeDPLen{addr, lenDP, ok}
 		}(addr)
 	}
-- 
2.43.0


From 43b936ae6e77277635cb7b672d21ea753ace09ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:53 +0000
Subject: [PATCH 21/21] fix: event loop tasks with intervals over 1000 were ran

---
 core/eventloop/cfg.go    | 2 +-
 core/eventloop/eltask.go | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/eventloop/cfg.go b/core/eventloop/cfg.go
index be22c07..d452d5e 100644
--- a/core/eventloop/cfg.go
+++ b/core/eventloop/cfg.go
@@ -172,5 +172,5 @@ func (cfg *EventLoopConfig) validate() {
 		}
 	}
 
-	cfg.TaskSkip.clamp(1, 1000)
+	cfg.TaskSkip.clamp(1, 1001)
 }
diff --git a/core/eventloop/eltask.go b/core/eventloop/eltask.go
index 2c927e7..bf9b3d1 100644
--- a/core/eventloop/eltask.go
+++ b/core/eventloop/eltask.go
@@ -7,7 +7,8 @@ import (
 
 // Wrapper for handing event-loop-task skipping.
 func withSkip(cfg *EventLoopConfig, interval int, task func()) {
-	if cfg.internal.iter%interval == 0 {
+	// Intervals over 1000 are never ran.
+	if interval <= 1000 && cfg.internal.iter%interval == 0 {
 		task()
 	}
 }
-- 
2.43.0

