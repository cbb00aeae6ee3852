From a17764663837d53cce45109236c847a138468587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:37 +0000
Subject: [PATCH 01/28] fix: return the copy from the slice copy helpers so
 that copy-on-write clones are independent

---
 node/node.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node/node.go b/node/node.go
index 71cc12f..7db936c 100644
--- a/node/node.go
+++ b/node/node.go
@@ -521,13 +521,13 @@ func (t *NodeTrain) clone(cowId int) *NodeTrain {
 func copyIntSlice(s []int) []int {
 	newS := make([]int, len(s))
 	copy(newS, s)
-	return s
+	return newS
 }
 
 func copyFloat64Slice(s []float64) []float64 {
 	newS := make([]float64, len(s))
 	copy(newS, s)
-	return s
+	return newS
 }
 
 func intSliceContains(slice []int, value int) bool {
-- 
2.43.0


From 82fcb0e11df0acf1cc7fa40ccfb1ea09a607cafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:38 +0000
Subject: [PATCH 02/28] fix: give SGD mirror weights their own storage so that
 a batch sees unmodified weights

---
 node/node.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/node/node.go b/node/node.go
index 7db936c..a2aa684 100644
--- a/node/node.go
+++ b/node/node.go
@@ -84,6 +84,9 @@ func NewNode(
 		newNode.base.adamAvgMom = adamAvgMom
 		newNode.base.adamAvgVel = adamAvgVel
 		newNode.base.t = make([]float64, adamTDim)
+	} else {
+		// Pending updates must not be visible before the end of the batch
+		newNode.base.mirrorWeights = copyFloat64Slice(weights)
 	}
 
 	train := make([]*NodeTrain, batchsize)
@@ -220,6 +223,9 @@ func (nd *Node) Update(
 		n.base.adamAvgMom = adamAvgMom
 		n.base.adamAvgVel = adamAvgVel
 		n.base.t = make([]float64, adamTDim)
+	} else {
+		// Pending updates must not be visible before the end of the batch
+		n.base.mirrorWeights = copyFloat64Slice(weights)
 	}
 
 	n.train = trainBlob
-- 
2.43.0


From f9d0a9f485d85308ed840fd8ba0b34333c2c0d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:39 +0000
Subject: [PATCH 03/28] fix: divide the whole softmax error of a label node by
 the batch size

---
 node/node.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node/node.go b/node/node.go
index a2aa684..e6239f8 100644
--- a/node/node.go
+++ b/node/node.go
@@ -321,8 +321,8 @@ func (nd *Node) ComputeExtaStatsForSoftMax(
 	//TODO:check gradient
 
 	if intSliceContains(labels, n.base.idInLayer) {
-		train[inputId].lastDeltaforBPs = 1.0/float64(len(labels)) -
-			train[inputId].lastActivations/float64(n.base.currentBatchsize)
+		train[inputId].lastDeltaforBPs = (1.0/float64(len(labels)) -
+			train[inputId].lastActivations) / float64(n.base.currentBatchsize)
 	} else {
 		train[inputId].lastDeltaforBPs = -train[inputId].lastActivations /
 			float64(n.base.currentBatchsize)
-- 
2.43.0


From 878bb7c4bf52a4b2156d1280a230afe5923a866f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:39 +0000
Subject: [PATCH 04/28] fix: scale the first-layer SGD bias update by the
 learning rate

---
 node/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/node.go b/node/node.go
index e6239f8..634601e 100644
--- a/node/node.go
+++ b/node/node.go
@@ -412,7 +412,7 @@ func (nd *Node) BackPropagateFirstLayer(
 		// TODO: ?? biasgradTsq = biasgradT * biasgradT
 		n.base.tBias += biasgradT
 	} else {
-		n.base.mirrorBias += learningRate + train[inputId].lastDeltaforBPs
+		n.base.mirrorBias += learningRate * train[inputId].lastDeltaforBPs
 	}
 
 	train[inputId].activeinputIds = 0 // deactivate inputIDs
-- 
2.43.0


From 7f04211c68f5004f6686e4c9e68bbf1187d2da6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:40 +0000
Subject: [PATCH 05/28] fix: shift softmax logits by their true maximum, also
 when all are negative

---
 layer/layer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layer/layer.go b/layer/layer.go
index 9397dcb..315018f 100644
--- a/layer/layer.go
+++ b/layer/layer.go
@@ -531,7 +531,7 @@ func (la *Layer) QueryActiveNodeAndComputeActivations(
 				cowId, currentLayerActiveNodes, inputId,
 			)
 		nextLayerActiveNodes[i].Value = value
-		if l.nodeType == node.Softmax && value > maxValue {
+		if l.nodeType == node.Softmax && (i == 0 || value > maxValue) {
 			maxValue = value
 		}
 	}
-- 
2.43.0


From 3ead3e391749c3621cd7cf5c82e537b334455277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:41 +0000
Subject: [PATCH 06/28] fix: do not predict class 0 when no output node is
 active

---
 network/network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/network/network.go b/network/network.go
index 9d9e8cc..4b1d312 100644
--- a/network/network.go
+++ b/network/network.go
@@ -130,7 +130,7 @@ func (ne *Network) PredictClass(
 
 		//compute softmax
 		var maxAct float64
-		var predictClass int
+		predictClass := -1 // no prediction without active nodes
 		for pairIndex, pair := range activeNodesPerLayer[n.numberOfLayers] {
 			act := lastHiddenLayer.GetNodeById(pair.Index).GetLastActivation(i)
 			if maxAct < act || pairIndex == 0 {
-- 
2.43.0


From bf5f9d621900f01f147ba2af59f316d124de95c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:29 +0000
Subject: [PATCH 07/28] fix: keep only the requested number of top-scoring
 nodes in layer mode 3

---
 layer/layer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layer/layer.go b/layer/layer.go
index 315018f..0232099 100644
--- a/layer/layer.go
+++ b/layer/layer.go
@@ -406,7 +406,7 @@ func (la *Layer) QueryActiveNodeAndComputeActivations(
 
 				sort.Sort(indexValuePairByValue(sortW))
 
-				for i, sw := range sortW {
+				for i, sw := range sortW[:length] {
 					activeNodesPerLayer[layerIndex+1][i].Index = sw.Index
 					if intSliceContains(label, sw.Index) {
 						in = 1
-- 
2.43.0


From 626a2e9dcd2327d4492d645c400ef738af20206c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:30 +0000
Subject: [PATCH 08/28] fix: rank label nodes before any score in layer mode 3

---
 layer/layer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layer/layer.go b/layer/layer.go
index 0232099..548c7b7 100644
--- a/layer/layer.go
+++ b/layer/layer.go
@@ -393,7 +393,7 @@ func (la *Layer) QueryActiveNodeAndComputeActivations(
 					if intSliceContains(label, s) {
 						sortW = append(sortW, index_value.Pair{
 							Index: s,
-							Value: -1000000000, // TODO: maybe min int?
+							Value: math.Inf(-1),
 						})
 						what++
 					} else {
-- 
2.43.0


From 510790bf9ebd338cb79d74a85da6b1f6fe46bb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:30 +0000
Subject: [PATCH 09/28] fix: make room for all distinct labels in layer modes 2
 and 3

---
 layer/layer.go | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/layer/layer.go b/layer/layer.go
index 548c7b7..4f9467d 100644
--- a/layer/layer.go
+++ b/layer/layer.go
@@ -357,17 +357,21 @@ func (la *Layer) QueryActiveNodeAndComputeActivations(
 			in = length
 		case configuration.LayerMode2:
 			if l.nodeType == node.Softmax {
-				length = int(math.Floor(float64(len(l.nodes)) * sparsity))
+				length = maxInt(
+					int(math.Floor(float64(len(l.nodes))*sparsity)),
+					countDistinct(label))
 				activeNodesPerLayer[layerIndex+1] = make([]index_value.Pair, length)
 
 				bs := make([]bool, mapLen) // bitset
 				tmpSize := 0
 				if l.nodeType == node.Softmax && len(label) > 0 {
-					for i, labelValue := range label {
-						activeNodesPerLayer[layerIndex+1][i].Index = labelValue
-						bs[labelValue] = true
+					for _, labelValue := range label {
+						if !bs[labelValue] {
+							activeNodesPerLayer[layerIndex+1][tmpSize].Index = labelValue
+							bs[labelValue] = true
+							tmpSize++
+						}
 					}
-					tmpSize = len(label)
 				}
 				for tmpSize < length {
 					v := rand.Intn(len(l.nodes))
@@ -380,7 +384,9 @@ func (la *Layer) QueryActiveNodeAndComputeActivations(
 			}
 		case configuration.LayerMode3:
 			if l.nodeType == node.Softmax {
-				length = int(math.Floor(float64(len(l.nodes)) * sparsity))
+				length = maxInt(
+					int(math.Floor(float64(len(l.nodes))*sparsity)),
+					countDistinct(label))
 				activeNodesPerLayer[layerIndex+1] = make([]index_value.Pair, length)
 
 				sortW := make([]index_value.Pair, 0)
@@ -652,3 +658,20 @@ func intSliceContains(slice []int, value int) bool {
 	}
 	return false
 }
+
+func countDistinct(slice []int) int {
+	count := 0
+	for i, v := range slice {
+		if !intSliceContains(slice[:i], v) {
+			count++
+		}
+	}
+	return count
+}
+
+func maxInt(a, b int) int {
+	if a > b {
+		return a
+	}
+	return b
+}
-- 
2.43.0


From 8155b7ae7758b2e3bdecafbbd83f1639b32ec672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:31 +0000
Subject: [PATCH 10/28] fix: size the layer mode 2 bitset by the layer instead
 of a fixed maximum

---
 layer/layer.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/layer/layer.go b/layer/layer.go
index 4f9467d..57da711 100644
--- a/layer/layer.go
+++ b/layer/layer.go
@@ -26,7 +26,6 @@ const topK = 30
 const normalDistributionStdDev = 0.01
 const normalDistributionMean = 0.0
 const threshold = 2
-const mapLen = 325_056
 
 type Layer struct {
 	cowId                   int // "thread" ID for copy on write
@@ -362,7 +361,7 @@ func (la *Layer) QueryActiveNodeAndComputeActivations(
 					countDistinct(label))
 				activeNodesPerLayer[layerIndex+1] = make([]index_value.Pair, length)
 
-				bs := make([]bool, mapLen) // bitset
+				bs := make([]bool, len(l.nodes)) // bitset
 				tmpSize := 0
 				if l.nodeType == node.Softmax && len(label) > 0 {
 					for _, labelValue := range label {
-- 
2.43.0


From a6340d600a45d546c8ce6a967355eff6c605e13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:32 +0000
Subject: [PATCH 11/28] fix: count repeated labels once in layer mode 4

---
 layer/layer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/layer/layer.go b/layer/layer.go
index 57da711..aa810c9 100644
--- a/layer/layer.go
+++ b/layer/layer.go
@@ -458,9 +458,11 @@ func (la *Layer) QueryActiveNodeAndComputeActivations(
 			// Make sure that the true label node is in candidates
 			if l.nodeType == node.Softmax && len(label) > 0 {
 				for _, labelValue := range label {
+					if counts[labelValue] == -1 {
+						countsSize++
+					}
 					counts[labelValue] = l.l
 				}
-				countsSize = len(label)
 			}
 
 			for _, iVal := range actives {
-- 
2.43.0


From f3ae1740a0a0cc3bf96e663d5f0fcd7c00f66861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:33 +0000
Subject: [PATCH 12/28] fix: keep label nodes above the layer mode 1 threshold
 with few hash tables

---
 layer/layer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layer/layer.go b/layer/layer.go
index aa810c9..abccfd0 100644
--- a/layer/layer.go
+++ b/layer/layer.go
@@ -332,7 +332,7 @@ func (la *Layer) QueryActiveNodeAndComputeActivations(
 			// Make sure that the true label node is in candidates
 			if l.nodeType == node.Softmax && len(label) > 0 {
 				for _, labelValue := range label {
-					counts[labelValue] = l.l
+					counts[labelValue] = l.l + threshold
 				}
 			}
 
-- 
2.43.0


From 2d6a899d02ce339f6b15fc6a213e9f7a54c12fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:33 +0000
Subject: [PATCH 13/28] fix: refill the hash tables whenever the hash functions
 are rebuilt

---
 network/network.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/network/network.go b/network/network.go
index 4b1d312..8fe2f54 100644
--- a/network/network.go
+++ b/network/network.go
@@ -246,7 +246,8 @@ func (ne *Network) ProcessInput(
 
 	for layerIndex, layer := range hiddenLayers {
 		curLayerSparsity := n.sparsity[layerIndex]
-		tmpRehash := rehash && curLayerSparsity < 1.0
+		// New hash functions make the old table entries meaningless
+		tmpRehash := (rehash || rebuild) && curLayerSparsity < 1.0
 		tmpRebuild := rebuild && curLayerSparsity < 1.0
 
 		if tmpRehash {
-- 
2.43.0


From fd411fa36b4885dfaa160fc031e9815b1aeaf3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:34 +0000
Subject: [PATCH 14/28] fix: place sparse values by feature index in densified
 WTA hashing

---
 densified_wta_hash/densified_wta_hash.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/densified_wta_hash/densified_wta_hash.go b/densified_wta_hash/densified_wta_hash.go
index 1dd3794..a943472 100644
--- a/densified_wta_hash/densified_wta_hash.go
+++ b/densified_wta_hash/densified_wta_hash.go
@@ -84,8 +84,8 @@ func (dw *DensifiedWtaHash) GetHash(data []index_value.Pair) []int {
 
 	for p := 0; p < dw.permute; p++ {
 		binIndex := p * dw.rangePow
-		for i, pair := range data {
-			innerIndex := binIndex + i
+		for _, pair := range data {
+			innerIndex := binIndex + pair.Index
 			binId := dw.indices[innerIndex]
 			if binId < dw.numHashes &&
 				(!items[binId].init || items[binId].value < pair.Value) {
-- 
2.43.0


From 42c2151fc8de857e2884272b5ec4e98e381b86dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:35 +0000
Subject: [PATCH 15/28] fix: compute densification probes with 32-bit
 arithmetic so that they are bin numbers

---
 densified_minhash/densified_minhash.go   | 3 ++-
 densified_wta_hash/densified_wta_hash.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/densified_minhash/densified_minhash.go b/densified_minhash/densified_minhash.go
index 85addf4..0ba736a 100644
--- a/densified_minhash/densified_minhash.go
+++ b/densified_minhash/densified_minhash.go
@@ -195,7 +195,8 @@ func (dm *DensifiedMinhash) GetHashEasyDense(
 
 func (dm *DensifiedMinhash) GetRandDoubleHash(binId, count int) int {
 	toHash := ((uint(binId) + 1) << 6) + uint(count)
-	return int((uint(dm.randHash[0]) * toHash << 3) >> (32 - dm.logNumHash)) // logNumHash needs to be ceiled.
+	// The algorithm relies on 32-bit arithmetic
+	return int((uint32(dm.randHash[0]) * uint32(toHash) << 3) >> (32 - dm.logNumHash)) // logNumHash needs to be ceiled.
 }
 
 func (dm *DensifiedMinhash) GetMap(n int) []int {
diff --git a/densified_wta_hash/densified_wta_hash.go b/densified_wta_hash/densified_wta_hash.go
index a943472..dfee98c 100644
--- a/densified_wta_hash/densified_wta_hash.go
+++ b/densified_wta_hash/densified_wta_hash.go
@@ -164,7 +164,8 @@ func (dw *DensifiedWtaHash) GetHashEasy(data []float64, topK int) []int {
 
 func (dw *DensifiedWtaHash) GetRandDoubleHash(binId, count int) int {
 	toHash := ((uint(binId) + 1) << 6) + uint(count)
-	return int((uint(dw.randHash[0]) * toHash << 3) >> (32 - dw.logNumHash)) // logNumHash needs to be ceiled.
+	// The algorithm relies on 32-bit arithmetic
+	return int((uint32(dw.randHash[0]) * uint32(toHash) << 3) >> (32 - dw.logNumHash)) // logNumHash needs to be ceiled.
 }
 
 func positiveOddRandomInt() int {
-- 
2.43.0


From 7d7a9a60665b9e47a2c61246a4b1febec26b2d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:35 +0000
Subject: [PATCH 16/28] fix: place sparse values by feature index in WTA
 hashing

---
 wta_hash/wta_hash.go | 27 ++++-----------------------
 1 file changed, 4 insertions(+), 23 deletions(-)

diff --git a/wta_hash/wta_hash.go b/wta_hash/wta_hash.go
index a8dc16e..100aa36 100644
--- a/wta_hash/wta_hash.go
+++ b/wta_hash/wta_hash.go
@@ -60,32 +60,13 @@ func New(numHashes, numOfBitsToHash int) *WtaHash {
 }
 
 func (wh *WtaHash) GetHash(data []index_value.Pair) []int {
-	hashes := make([]int, wh.numHashes)
-	values := make([]float64, wh.numHashes)
-
-	for i := 0; i < wh.numHashes; i++ {
-		hashes[i] = math.MinInt64
-		values[i] = math.MinInt64
+	dense := make([]float64, wh.rangePow)
+	for _, pair := range data {
+		dense[pair.Index] = pair.Value
 	}
-
-	for i := 0; i < wh.numHashes; i++ {
-		iOffset := i * binSize
-
-		for j := 0; j < binSize; j++ {
-			jOffset := iOffset + j
-
-			curIndex := wh.indices[jOffset]
-			if value := data[curIndex].Value; values[i] < value {
-				hashes[i] = curIndex
-				values[i] = value
-			}
-		}
-	}
-
-	return hashes
+	return wh.GetHashDense(dense)
 }
 
-// TODO: avoid code duplication
 func (wh *WtaHash) GetHashDense(data []float64) []int {
 	hashes := make([]int, wh.numHashes)
 	values := make([]float64, wh.numHashes)
-- 
2.43.0


From 88146a6aa276257d99352ac8ef975dc8c94a8c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:36 +0000
Subject: [PATCH 17/28] fix: keep the highest instead of the lowest values in
 densified minhash

---
 densified_minhash/index_value_pairs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/densified_minhash/index_value_pairs.go b/densified_minhash/index_value_pairs.go
index 57f0c80..ff0c966 100644
--- a/densified_minhash/index_value_pairs.go
+++ b/densified_minhash/index_value_pairs.go
@@ -20,8 +20,8 @@ func (p indexValuePriorityQueue) Len() int {
 }
 
 func (p indexValuePriorityQueue) Less(i, j int) bool {
-	// lower is better
-	return p[i].value > p[j].value // TODO: check if correct
+	// the lowest value is popped first, so that the highest are kept
+	return p[i].value < p[j].value
 }
 
 func (p indexValuePriorityQueue) Swap(i, j int) {
-- 
2.43.0


From 46cf78d5fa2f1c521788454887cb21abcbe2aa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:37 +0000
Subject: [PATCH 18/28] fix: accept vectors shorter than topK in densified
 minhash

---
 densified_minhash/densified_minhash.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/densified_minhash/densified_minhash.go b/densified_minhash/densified_minhash.go
index 0ba736a..ffef286 100644
--- a/densified_minhash/densified_minhash.go
+++ b/densified_minhash/densified_minhash.go
@@ -86,6 +86,7 @@ func (dm *DensifiedMinhash) GetHashEasy(
 	// Read the data and add it to priority queue O(dlogk approx 7d)
 	// with index as key and values as priority value, get topk index
 	// O(1) and apply minhash on retuned index.
+	topK = minInt(topK, len(data))
 	pq := make(indexValuePriorityQueue, topK, topK+1)
 	for index, value := range data[0:topK] {
 		pq[index] = indexValuePair{index, value.Value}
@@ -144,6 +145,7 @@ func (dm *DensifiedMinhash) GetHashEasyDense(
 	// Read the data and add it to priority queue O(dlogk approx 7d)
 	// with index as key and values as priority value, get topk index
 	// O(1) and apply minhash on retuned index.
+	topK = minInt(topK, len(data))
 	pq := make(indexValuePriorityQueue, topK, topK+1)
 	for index, value := range data[0:topK] {
 		pq[index] = indexValuePair{index, value}
-- 
2.43.0


From f814ad99f8448e0138ae77f3d4ade5efdd527026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:38 +0000
Subject: [PATCH 19/28] fix: hash sparse values by feature index in densified
 minhash

---
 densified_minhash/densified_minhash.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/densified_minhash/densified_minhash.go b/densified_minhash/densified_minhash.go
index ffef286..1854324 100644
--- a/densified_minhash/densified_minhash.go
+++ b/densified_minhash/densified_minhash.go
@@ -88,14 +88,14 @@ func (dm *DensifiedMinhash) GetHashEasy(
 	// O(1) and apply minhash on retuned index.
 	topK = minInt(topK, len(data))
 	pq := make(indexValuePriorityQueue, topK, topK+1)
-	for index, value := range data[0:topK] {
-		pq[index] = indexValuePair{index, value.Value}
+	for i, pair := range data[0:topK] {
+		pq[i] = indexValuePair{pair.Index, pair.Value}
 	}
 	heap.Init(&pq)
 
 	dataLen := len(data)
-	for index := topK; index < dataLen; index++ {
-		heap.Push(&pq, indexValuePair{index, data[index].Value})
+	for i := topK; i < dataLen; i++ {
+		heap.Push(&pq, indexValuePair{data[i].Index, data[i].Value})
 		heap.Pop(&pq)
 	}
 
-- 
2.43.0


From 97a0d3947fc9d3d56892058a7e72d882467ee62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:38 +0000
Subject: [PATCH 20/28] fix: map features to valid minhash bins for any range

---
 densified_minhash/densified_minhash.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/densified_minhash/densified_minhash.go b/densified_minhash/densified_minhash.go
index 1854324..cf6474a 100644
--- a/densified_minhash/densified_minhash.go
+++ b/densified_minhash/densified_minhash.go
@@ -204,7 +204,9 @@ func (dm *DensifiedMinhash) GetRandDoubleHash(binId, count int) int {
 func (dm *DensifiedMinhash) GetMap(n int) []int {
 	binIds := make([]int, n)
 
-	rng := 1 << dm.rangePow
+	// Larger ranges overflow, or exceed the precision of floats
+	rangePow := minInt(dm.rangePow, 32)
+	rng := 1 << rangePow
 
 	// The number of times the range is larger than
 	// the total number of hashes we need.
@@ -221,7 +223,7 @@ func (dm *DensifiedMinhash) GetMap(n int) []int {
 		mh.Write(buf[:bufLen])
 		curHash := mh.Sum64()
 
-		curHash = curHash & ((1 << dm.rangePow) - 1)
+		curHash = curHash & ((1 << rangePow) - 1)
 		binIds[i] = int(math.Floor(float64(curHash) / float64(binSize)))
 	}
 
-- 
2.43.0


From 1ac925503cf370ec082e63d7407d02cdfc23b445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:39 +0000
Subject: [PATCH 21/28] fix: accept sparse vectors in any order in sparse
 random projection

---
 sparse_random_projection/sparse_random_projection.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sparse_random_projection/sparse_random_projection.go b/sparse_random_projection/sparse_random_projection.go
index 87e9d79..a76b82e 100644
--- a/sparse_random_projection/sparse_random_projection.go
+++ b/sparse_random_projection/sparse_random_projection.go
@@ -88,6 +88,13 @@ func (srp *SparseRandomProjection) GetHashSparse(
 	length := len(data)
 	hashes := make([]int, srp.numHashes)
 
+	// The merge below requires ascending indices
+	less := func(i, j int) bool { return data[i].Index < data[j].Index }
+	if !sort.SliceIsSorted(data, less) {
+		data = append([]index_value.Pair(nil), data...)
+		sort.Slice(data, less)
+	}
+
 	for p := range hashes {
 		s := 0.0
 
-- 
2.43.0


From 8b69b324704ed09e231b84ea2a5501cd84e17fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:40 +0000
Subject: [PATCH 22/28] fix: keep the bucket addresses of all hash functions
 inside the tables

---
 lsh/lsh.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lsh/lsh.go b/lsh/lsh.go
index eda739c..c3b0733 100644
--- a/lsh/lsh.go
+++ b/lsh/lsh.go
@@ -85,9 +85,7 @@ func (lsh *LSH) HashesToIndex(hashes []int) []int {
 			}
 		}
 
-		if hashFunction == configuration.DensifiedMinhashFunction {
-			index &= ((1 << lsh.rangePow) - 1)
-		}
+		index &= ((1 << lsh.rangePow) - 1)
 
 		indices[i] = int(index)
 	}
-- 
2.43.0


From d601acbd183fd03321b0c45838f814b66a4fd689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:40 +0000
Subject: [PATCH 23/28] fix: use three bits per WTA code in bucket addresses

---
 lsh/lsh.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsh/lsh.go b/lsh/lsh.go
index c3b0733..f6c0df7 100644
--- a/lsh/lsh.go
+++ b/lsh/lsh.go
@@ -14,7 +14,7 @@ import (
 
 const binSize = 8
 
-var logBinSize = int(math.Floor(math.Log(float64(binSize))))
+var logBinSize = int(math.Floor(math.Log2(float64(binSize))))
 
 type LSH struct {
 	buckets  [][]*fifo.FifoBucket
-- 
2.43.0


From c887339e4592314c06bc221b1a0c53dca0120632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:57 +0000
Subject: [PATCH 24/28] fix: do not divide by zero when rehash or rebuild
 periods are shorter than a batch

---
 goslide.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/goslide.go b/goslide.go
index ce796c2..ce00a8c 100644
--- a/goslide.go
+++ b/goslide.go
@@ -143,11 +143,13 @@ func trainSvmEpoch(cowId, numBatches int, myNet *network.Network, epoch int) {
 		rebuild := false
 
 		if config.LayerMode == configuration.LayerMode1 || config.LayerMode == configuration.LayerMode4 {
-			if (epoch*numBatches+i)%(config.Rehash/config.BatchSize) == (config.Rehash/config.BatchSize - 1) {
+			rehashPeriod := maxInt(1, config.Rehash/config.BatchSize)
+			if (epoch*numBatches+i)%rehashPeriod == rehashPeriod-1 {
 				rehash = true
 			}
 			// TODO: probably there was an error in the original code (using rehash at right)
-			if (epoch*numBatches+i)%(config.Rebuild/config.BatchSize) == (config.Rebuild/config.BatchSize - 1) {
+			rebuildPeriod := maxInt(1, config.Rebuild/config.BatchSize)
+			if (epoch*numBatches+i)%rebuildPeriod == rebuildPeriod-1 {
 				rebuild = true
 			}
 		}
@@ -237,3 +239,10 @@ func loadGlobalConfiguration() {
 
 	configuration.Global = config
 }
+
+func maxInt(a, b int) int {
+	if a > b {
+		return a
+	}
+	return b
+}
-- 
2.43.0


From ffc45528e09ff8c42f08b50b348858d69bf39caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:58 +0000
Subject: [PATCH 25/28] fix: read dataset lines longer than 64 KiB

---
 dataset/xcrepo/xcrepo.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dataset/xcrepo/xcrepo.go b/dataset/xcrepo/xcrepo.go
index 073f9dd..ca5ae47 100644
--- a/dataset/xcrepo/xcrepo.go
+++ b/dataset/xcrepo/xcrepo.go
@@ -12,6 +12,7 @@ import (
 	"bufio"
 	"errors"
 	"io"
+	"math"
 	"strconv"
 	"strings"
 
@@ -29,6 +30,10 @@ type Scanner struct {
 	example     dataset.Example
 }
 
+// The maximum size of a line. Lines of extreme classification datasets can
+// be much longer than the default limit of bufio.Scanner.
+const maxLineSize = math.MaxInt32
+
 // Errors returned by Scanner.
 var (
 	ErrMalformedHeader         = errors.New("xcrepo.Scanner: malformed or missing header")
@@ -45,6 +50,8 @@ func NewScanner(r io.Reader) *Scanner {
 		bufScanner: bufio.NewScanner(r),
 	}
 
+	s.bufScanner.Buffer(nil, maxLineSize)
+
 	if s.bufScanner.Err() != nil {
 		return s
 	}
-- 
2.43.0


From c71d887549f81ef4c809e0855247bad791761867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:24 +0000
Subject: [PATCH 26/28] fix: do not modify the original network or layers
 through copy-on-write clones

---
 bucket/fifo/fifo.go |  7 +++++++
 layer/layer.go      | 13 ++++++++++++-
 lsh/lsh.go          | 14 ++++++++++++++
 network/network.go  | 21 +++++++++++----------
 node/node.go        |  8 ++++++++
 5 files changed, 52 insertions(+), 11 deletions(-)

diff --git a/bucket/fifo/fifo.go b/bucket/fifo/fifo.go
index b383fb0..d05881d 100644
--- a/bucket/fifo/fifo.go
+++ b/bucket/fifo/fifo.go
@@ -52,3 +52,10 @@ func (b *FifoBucket) Retrieve(index int) int {
 func (b *FifoBucket) GetAll() []int {
 	return b.slice
 }
+
+// Clone returns an independent copy of the bucket.
+func (b *FifoBucket) Clone() *FifoBucket {
+	slice := make([]int, len(b.slice), bucketSize)
+	copy(slice, b.slice)
+	return &FifoBucket{slice: slice, count: b.count}
+}
diff --git a/layer/layer.go b/layer/layer.go
index abccfd0..4fe1250 100644
--- a/layer/layer.go
+++ b/layer/layer.go
@@ -636,6 +636,12 @@ func (l *Layer) innerproduct(
 	return total
 }
 
+// CloneIfNeeded returns the layer itself if it is owned by cowId, otherwise
+// a copy which can be modified without affecting the original.
+func (l *Layer) CloneIfNeeded(cowId int) *Layer {
+	return l.cloneIfNeeded(cowId)
+}
+
 func (l *Layer) cloneIfNeeded(cowId int) *Layer {
 	if l.cowId != cowId {
 		return l.clone(cowId)
@@ -644,10 +650,15 @@ func (l *Layer) cloneIfNeeded(cowId int) *Layer {
 }
 
 func (l *Layer) clone(cowId int) *Layer {
-	// TODO: copy slices and pointers too?
+	// The hashers and binIds are never modified, only replaced
 	newLayer := &Layer{}
 	*newLayer = *l
 	newLayer.cowId = cowId
+	newLayer.nodes = append([]*node.Node(nil), l.nodes...)
+	newLayer.randNode = append([]int(nil), l.randNode...)
+	newLayer.normalizationConstants =
+		append([]float64(nil), l.normalizationConstants...)
+	newLayer.hashTables = l.hashTables.Clone()
 	return newLayer
 }
 
diff --git a/lsh/lsh.go b/lsh/lsh.go
index f6c0df7..9749aca 100644
--- a/lsh/lsh.go
+++ b/lsh/lsh.go
@@ -52,6 +52,20 @@ func New(k, l, rangePow int) *LSH {
 	}
 }
 
+// Clone returns an independent copy of the tables.
+func (lsh *LSH) Clone() *LSH {
+	newLSH := &LSH{}
+	*newLSH = *lsh
+	newLSH.buckets = make([][]*fifo.FifoBucket, len(lsh.buckets))
+	for i, buckets := range lsh.buckets {
+		newLSH.buckets[i] = make([]*fifo.FifoBucket, len(buckets))
+		for j, bucket := range buckets {
+			newLSH.buckets[i][j] = bucket.Clone()
+		}
+	}
+	return newLSH
+}
+
 func (lsh *LSH) Clear() {
 	for _, buckets := range lsh.buckets {
 		for _, bucket := range buckets {
diff --git a/network/network.go b/network/network.go
index 8fe2f54..a2a4d79 100644
--- a/network/network.go
+++ b/network/network.go
@@ -212,8 +212,7 @@ func (ne *Network) ProcessInput(
 				node := layer.GetNodeById(pair.Index)
 				if layerIndex == n.numberOfLayers-1 {
 					//TODO: Compute Extra stats: labels[i];
-					// FIXME: we should reassign the cow-ed node into the layer
-					node.ComputeExtaStatsForSoftMax(
+					node = node.ComputeExtaStatsForSoftMax(
 						cowId,
 						layer.GetNomalizationConstant(i),
 						i,
@@ -222,24 +221,23 @@ func (ne *Network) ProcessInput(
 				}
 				if layerIndex != 0 {
 					prevLayer := hiddenLayers[layerIndex-1]
-					// FIXME: we should reassign the cow-ed node into the layer
 					allNodes := prevLayer.GetAllNodes()
-					node.BackPropagate(
+					node = node.BackPropagate(
 						cowId,
-						&allNodes, // FIXME: problematic...
+						&allNodes,
 						curLayerActiveNodes,
 						tmpLr,
 						i,
 					)
 				} else {
-					// FIXME: we should reassign the cow-ed node into the layer
-					node.BackPropagateFirstLayer(
+					node = node.BackPropagateFirstLayer(
 						cowId,
 						example.Features,
 						tmpLr,
 						i,
 					)
 				}
+				layer.GetAllNodes()[pair.Index] = node
 			}
 		}
 	}
@@ -262,7 +260,8 @@ func (ne *Network) ProcessInput(
 
 		// TODO: parallel!
 		for m := 0; m < layer.NumOfNodes(); m++ {
-			tmp := layer.GetNodeById(m)
+			tmp := layer.GetNodeById(m).CloneIfNeeded(cowId)
+			layer.GetAllNodes()[m] = tmp
 			curWeights := tmp.Weights()
 
 			if configuration.Global.UseAdam {
@@ -293,7 +292,6 @@ func (ne *Network) ProcessInput(
 				tmp = tmp.CopyWeightsAndBiasFromMirror(cowId)
 			}
 
-			// FIXME: now tmp was modified and should be set back into hiddenLayers[l]
 			if tmpRehash {
 				hashes := layer.GetHashForInputProcessing(curWeights)
 				hashIndices := layer.HashesToIndex(hashes)
@@ -322,10 +320,13 @@ func (n *Network) cloneIfNeeded(cowId int) *Network {
 }
 
 func (n *Network) clone(cowId int) *Network {
-	// TODO: copy slices too?
 	newNetwork := &Network{}
 	*newNetwork = *n
 	newNetwork.cowId = cowId
+	newNetwork.hiddenLayers = make([]*layer.Layer, len(n.hiddenLayers))
+	for i, l := range n.hiddenLayers {
+		newNetwork.hiddenLayers[i] = l.CloneIfNeeded(cowId)
+	}
 	return newNetwork
 }
 
diff --git a/node/node.go b/node/node.go
index 634601e..4e05ac0 100644
--- a/node/node.go
+++ b/node/node.go
@@ -459,6 +459,14 @@ func (n *Node) GetGradient(
 	return -n.train[inputId].lastDeltaforBPs * inputVal
 }
 
+// CloneIfNeeded returns the node itself if its parameters are owned by cowId,
+// otherwise a copy which can be modified without affecting the original.
+func (nd *Node) CloneIfNeeded(cowId int) *Node {
+	n := nd.cloneIfNeeded(cowId)
+	n.base = n.base.cloneIfNeeded(cowId)
+	return n
+}
+
 func (n *Node) cloneIfNeeded(cowId int) *Node {
 	if n.cowId != cowId {
 		return n.clone(cowId)
-- 
2.43.0


From 8f2ba554f014036fce85e226c24ec8debaaa2abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:00 +0000
Subject: [PATCH 27/28] fix: hash vectors of values below -2^63 in WTA hashing

---
 wta_hash/wta_hash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wta_hash/wta_hash.go b/wta_hash/wta_hash.go
index 100aa36..3ac7573 100644
--- a/wta_hash/wta_hash.go
+++ b/wta_hash/wta_hash.go
@@ -83,7 +83,7 @@ func (wh *WtaHash) GetHashDense(data []float64) []int {
 			jOffset := iOffset + j
 
 			curIndex := wh.indices[jOffset]
-			if value := data[curIndex]; values[i] < value {
+			if value := data[curIndex]; j == 0 || values[i] < value {
 				hashes[i] = curIndex
 				values[i] = value
 			}
-- 
2.43.0


From ea58ca020671786881ae11ac091c86ef9812b9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:10 +0000
Subject: [PATCH 28/28] fix: hash dense values below -2^63 in densified WTA
 hashing

---
 densified_wta_hash/densified_wta_hash.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/densified_wta_hash/densified_wta_hash.go b/densified_wta_hash/densified_wta_hash.go
index dfee98c..b46435c 100644
--- a/densified_wta_hash/densified_wta_hash.go
+++ b/densified_wta_hash/densified_wta_hash.go
@@ -133,7 +133,8 @@ func (dw *DensifiedWtaHash) GetHashEasy(data []float64, topK int) []int {
 		for i, dataValue := range data {
 			innerIndex := binIndex + i
 			binId := dw.indices[innerIndex]
-			if binId < dw.numHashes && values[binId] < dataValue {
+			if binId < dw.numHashes &&
+				(hashes[binId] == math.MinInt64 || values[binId] < dataValue) {
 				values[binId] = dataValue
 				hashes[binId] = dw.pos[innerIndex]
 			}
-- 
2.43.0

