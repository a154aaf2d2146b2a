From 2f93b78f5da085c045c9daa8ce91f7845e39de73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:50 +0000
Subject: [PATCH 01/14] fix: vectorizer failures are reported as errors

A non-200 answer returned a nil vector with a nil error, which the callers
dereference; an answer without a vector was passed on as an empty one, and a
service that never answers blocked the request for ever.
---
 pkg/vectorizer/rest/vectorizer.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pkg/vectorizer/rest/vectorizer.go b/pkg/vectorizer/rest/vectorizer.go
index 6613e36..67297fe 100644
--- a/pkg/vectorizer/rest/vectorizer.go
+++ b/pkg/vectorizer/rest/vectorizer.go
@@ -14,11 +14,15 @@ var (
 	healthCheckPath = "/health"
 	corpiPath       = "/vectorize"
 
+	corpiTimeout = time.Second * 60
+
 	ErrServiceUnavailable = errors.New("service unavailable")
+	ErrEmptyVector        = errors.New("vectorizer returned no vector")
 )
 
 type Vectorizer struct {
-	url string
+	url    string
+	client *http.Client
 }
 
 func NewVectorizer(url string) (*Vectorizer, error) {
@@ -37,7 +41,10 @@ func NewVectorizer(url string) (*Vectorizer, error) {
 		return nil, ErrServiceUnavailable
 	}
 
-	return &Vectorizer{url: url}, nil
+	return &Vectorizer{
+		url:    url,
+		client: &http.Client{Timeout: corpiTimeout},
+	}, nil
 }
 
 func (v *Vectorizer) Corpi(text []string) (*vctrzr.Vector, error) {
@@ -50,14 +57,14 @@ func (v *Vectorizer) Corpi(text []string) (*vctrzr.Vector, error) {
 		return nil, err
 	}
 
-	resp, err := http.Post(fmt.Sprintf("%s%s", v.url, corpiPath), "application/json", bytes.NewBuffer(payload))
+	resp, err := v.client.Post(fmt.Sprintf("%s%s", v.url, corpiPath), "application/json", bytes.NewBuffer(payload))
 	if err != nil {
 		return nil, err
 	}
 	defer resp.Body.Close()
 
 	if resp.StatusCode != http.StatusOK {
-		return nil, err
+		return nil, ErrServiceUnavailable
 	}
 
 	var result map[string][]float32
@@ -65,6 +72,9 @@ func (v *Vectorizer) Corpi(text []string) (*vctrzr.Vector, error) {
 		return nil, err
 	}
 
+	if len(result["vector"]) == 0 {
+		return nil, ErrEmptyVector
+	}
 	vector := vctrzr.NewVector(result["vector"])
 	return &vector, nil
 }
-- 
2.43.0


From 189a1c66271aebedbf885ac62d96f534ad268e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:20 +0000
Subject: [PATCH 02/14] fix: a graph node that cannot be read fails the search
 or insert

Read errors of linked nodes were swallowed: a search then answered with
documents missing, an insert linked the new node to a part of the graph only
(or looked for another entry point for 60 s in a busy loop). Nodes loaded from
the store are also no longer rewritten by every flush, and concurrent loads of
one node share one copy.
---
 pkg/hnsw/index.go                | 40 ++++++++++++++++++++++----------
 pkg/hnsw/neighbor_connections.go | 10 ++++----
 pkg/hnsw/search.go               | 21 ++++++++++-------
 pkg/hnsw/vertex.go               |  1 +
 4 files changed, 48 insertions(+), 24 deletions(-)

diff --git a/pkg/hnsw/index.go b/pkg/hnsw/index.go
index 814e4f9..dc5b4e0 100644
--- a/pkg/hnsw/index.go
+++ b/pkg/hnsw/index.go
@@ -530,9 +530,9 @@ func (h *hnsw) distBetweenNodeAndVec(nodeId uint64, vecB []float32) (float32, bo
 		return h.pq.DistanceBetweenCompressedAndUncompressedVectors(vecB, v1), true, nil
 	}
 
-	node := h.nodeByID(nodeId)
-	if node == nil {
-		return 0, false, fmt.Errorf("could not get node at docID %d", nodeId)
+	node, err := h.loadNode(nodeId)
+	if err != nil {
+		return 0, false, errors.Wrapf(err, "could not get node at docID %d", nodeId)
 	}
 
 	if len(node.Vector) == 0 {
@@ -592,6 +592,17 @@ func (h *hnsw) isEmptyUnsecured() bool {
 }
 
 func (h *hnsw) nodeByID(id uint64) *vertex {
+	v, err := h.loadNode(id)
+	if err != nil {
+		fmt.Println("nodeByID: could not get node", id, h.className, err)
+		return nil
+	}
+	return v
+}
+
+// loadNode is nodeByID with the reason why a node could not be had: a node the
+// graph links to and that cannot be read must not be mistaken for a deleted one
+func (h *hnsw) loadNode(id uint64) (*vertex, error) {
 	var (
 		value []byte
 		v     *vertex
@@ -601,24 +612,29 @@ func (h *hnsw) nodeByID(id uint64) *vertex {
 	if ok {
 		if vertexValue, ok := val.(*vertex); ok {
 			// Now vertexValue is a pointer to the cached vertex object
-			return vertexValue
+			return vertexValue, nil
 		} else {
-			fmt.Println("Value is not a vertex.")
-			return nil
+			return nil, fmt.Errorf("cached value of node %d is not a vertex", id)
 		}
 	} else {
 		_, value, err = h.nodes.KVGet(h.className, fmt.Sprintf("%d", id))
 		if err != nil {
-			fmt.Println("nodeByID: could not get node", id, h.className, err)
-			return nil
+			return nil, errors.Wrapf(err, "get node %d", id)
 		}
 		err = json.Unmarshal(value, &v)
 		if err != nil {
-			fmt.Println("nodeByID: could not Unmarshal node", err)
-			return nil
+			return nil, errors.Wrapf(err, "unmarshal node %d", id)
+		}
+		if v == nil {
+			return nil, fmt.Errorf("node %d is stored empty", id)
+		}
+		v.Committed = true
+		v.stored = true
+		// if it was loaded concurrently, everybody has to share one copy
+		if prev, ok, _ := h.indexCache.PeekOrAdd(id, v); ok {
+			return prev.(*vertex), nil
 		}
-		h.indexCache.Add(id, v)
-		return v
+		return v, nil
 	}
 }
 
diff --git a/pkg/hnsw/neighbor_connections.go b/pkg/hnsw/neighbor_connections.go
index b83bd2f..d1f6482 100644
--- a/pkg/hnsw/neighbor_connections.go
+++ b/pkg/hnsw/neighbor_connections.go
@@ -138,7 +138,10 @@ func (n *neighborFinderConnector) doAtLevel(level int) error {
 func (n *neighborFinderConnector) connectNeighborAtLevel(neighborID uint64,
 	level int,
 ) error {
-	neighbor := n.graph.nodeByID(neighborID)
+	neighbor, err := n.graph.loadNode(neighborID)
+	if err != nil {
+		return err
+	}
 	if skip := n.skipNeighbor(neighbor); skip {
 		return nil
 	}
@@ -290,9 +293,8 @@ func (n *neighborFinderConnector) pickEntrypoint() error {
 }
 
 func (n *neighborFinderConnector) tryEpCandidate(candidate uint64) (bool, error) {
-	node := n.graph.nodeByID(candidate)
-	if node == nil {
-		return false, nil
+	if _, err := n.graph.loadNode(candidate); err != nil {
+		return false, err
 	}
 
 	//if node.isUnderMaintenance() {
diff --git a/pkg/hnsw/search.go b/pkg/hnsw/search.go
index 1b39198..b5ab828 100644
--- a/pkg/hnsw/search.go
+++ b/pkg/hnsw/search.go
@@ -204,12 +204,10 @@ func (h *hnsw) searchLayerByVector(queryVector []float32,
 			break
 		}
 		//h.RLock()
-		candidateNode := h.nodeByID(candidate.ID)
+		candidateNode, err := h.loadNode(candidate.ID)
 		//h.RUnlock()
-		if candidateNode == nil {
-			// could have been a node that already had a tombstone attached and was
-			// just cleaned up while we were waiting for a read lock
-			continue
+		if err != nil {
+			return nil, err
 		}
 
 		candidateNode.Lock()
@@ -245,6 +243,7 @@ func (h *hnsw) searchLayerByVector(queryVector []float32,
 		nds := []neighbourDistance{}
 		wg := sync.WaitGroup{}
 		lock := sync.Mutex{}
+		var distErr error
 		for i, neighborID := range connectionsReusable {
 			if ok := visited.Visited(neighborID); ok {
 				// skip if we've already visited this neighbor
@@ -265,6 +264,9 @@ func (h *hnsw) searchLayerByVector(queryVector []float32,
 					distance, ok, err = h.distanceToFloatNode(floatDistancer, neighborID)
 				}
 				if err != nil {
+					lock.Lock()
+					distErr = err
+					lock.Unlock()
 					return
 				}
 				if !ok {
@@ -277,6 +279,9 @@ func (h *hnsw) searchLayerByVector(queryVector []float32,
 			}(i, neighborID)
 		}
 		wg.Wait()
+		if distErr != nil {
+			return nil, errors.Wrap(distErr, "distance to neighbor")
+		}
 		for _, nd := range nds {
 			distance, neighborID := nd.dist, nd.id
 			if distance < worstResultDistance || results.Len() < ef {
@@ -419,9 +424,9 @@ func (h *hnsw) distanceToByteNode(distancer *ssdhelpers.PQDistancer,
 func (h *hnsw) distanceToFloatNode(distancer distancer.Distancer,
 	nodeID uint64,
 ) (float32, bool, error) {
-	node := h.nodeByID(nodeID)
-	if node == nil {
-		return 0, false, fmt.Errorf("get vector of ID %d failed\n", nodeID)
+	node, err := h.loadNode(nodeID)
+	if err != nil {
+		return 0, false, errors.Wrapf(err, "get vector of ID %d failed", nodeID)
 	}
 
 	dist, _, err := distancer.Distance(node.Vector)
diff --git a/pkg/hnsw/vertex.go b/pkg/hnsw/vertex.go
index 5242958..09cea1c 100644
--- a/pkg/hnsw/vertex.go
+++ b/pkg/hnsw/vertex.go
@@ -24,6 +24,7 @@ type vertex struct {
 	Maintenance bool       `json:"maintenance"`
 	Vector      []float32  `json:"vector"`
 	Committed   bool       `json:"-"`
+	stored      bool       // a version of this node has been written to the store
 }
 
 func (v *vertex) markAsMaintenance() {
-- 
2.43.0


From 5ff1e068c445b9827fc08220572805866ff60a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:25 +0000
Subject: [PATCH 03/14] fix: the state of a stored index is read as stored

After a restart the index took a missing or unreadable entrypoint or count
record for an empty index: ids of stored nodes were handed out again and
searches started from node 0. An index without nodes stored an entrypoint that
does not exist, and was no longer taken for empty afterwards. A flush writes
new nodes before the nodes that may link to them. Searches of an empty index
answer with nothing instead of failing, and a result whose distance is rounded
below zero (an exact match) is no longer dropped.
---
 pkg/hnsw/delete.go               |   1 +
 pkg/hnsw/index.go                |  13 ++--
 pkg/hnsw/insert.go               | 116 +++++++++++++++++++++++++------
 pkg/hnsw/search_with_max_dist.go |  11 ++-
 4 files changed, 112 insertions(+), 29 deletions(-)

diff --git a/pkg/hnsw/delete.go b/pkg/hnsw/delete.go
index 4d13c75..c930d1d 100644
--- a/pkg/hnsw/delete.go
+++ b/pkg/hnsw/delete.go
@@ -115,6 +115,7 @@ func (h *hnsw) resetUnsecured() error {
 	h.resetCtxCancel = resetCtxCancel
 
 	h.entryPointID = 0
+	h.hasEntrypoint = false
 	h.currentMaximumLayer = 0
 	h.initialInsertOnce = &sync.Once{}
 	// TODO reset kv table
diff --git a/pkg/hnsw/index.go b/pkg/hnsw/index.go
index dc5b4e0..55f7aea 100644
--- a/pkg/hnsw/index.go
+++ b/pkg/hnsw/index.go
@@ -75,6 +75,13 @@ type hnsw struct {
 	// this point is always currentMaximumLayer
 	entryPointID uint64
 
+	// whether the graph has a node at all, i.e. entryPointID means something
+	hasEntrypoint bool
+
+	// whether the state of the graph (is there an entrypoint, which one) has
+	// been read from the store
+	entrypointLoaded bool
+
 	// ef parameter used in construction phases, should be higher than ef during querying
 	efConstruction int
 
@@ -584,11 +591,7 @@ func (h *hnsw) isEmpty() bool {
 }
 
 func (h *hnsw) isEmptyUnsecured() bool {
-	isEmpty, err := h.nodes.IsEmpty(h.className)
-	if err != nil {
-		return true
-	}
-	return isEmpty
+	return !h.hasEntrypoint
 }
 
 func (h *hnsw) nodeByID(id uint64) *vertex {
diff --git a/pkg/hnsw/insert.go b/pkg/hnsw/insert.go
index d817847..c4e3303 100644
--- a/pkg/hnsw/insert.go
+++ b/pkg/hnsw/insert.go
@@ -18,6 +18,7 @@ import (
 	"math"
 	"time"
 
+	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
 	"github.com/pkg/errors"
 	"github.com/weaviate/weaviate/adapters/repos/db/helpers"
 	"github.com/weaviate/weaviate/adapters/repos/db/vector/hnsw/distancer"
@@ -34,9 +35,14 @@ type entrypoint struct {
 
 type count struct {
 	Count uint64 `json:"count"`
+	// Empty is set as long as no node has been stored
+	Empty bool `json:"empty,omitempty"`
 }
 
 func (h *hnsw) ValidateBeforeInsert(vector []float32) error {
+	if err := h.LoadEntrypoint(); err != nil {
+		return err
+	}
 	if h.isEmpty() {
 		return nil
 	}
@@ -102,6 +108,8 @@ func (h *hnsw) insertInitialElement(node *vertex, nodeVec []float32) error {
 	}
 
 	h.indexCache.Add(node.Id, node)
+	h.hasEntrypoint = true
+	h.entrypointLoaded = true
 
 	if h.compressed.Load() {
 		compressed := h.pq.Encode(nodeVec)
@@ -117,8 +125,10 @@ func (h *hnsw) insertInitialElement(node *vertex, nodeVec []float32) error {
 
 func (h *hnsw) Flush(docCount uint64) error {
 	keys := h.indexCache.Keys()
+	dirty := []*vertex{}
+	updated := []*vertex{}
 	for _, key := range keys {
-		iNode, ok := h.indexCache.Get(key)
+		iNode, ok := h.indexCache.Peek(key)
 		if !ok {
 			continue
 		}
@@ -126,6 +136,16 @@ func (h *hnsw) Flush(docCount uint64) error {
 		if node.Committed {
 			continue
 		}
+		if node.stored {
+			updated = append(updated, node)
+		} else {
+			dirty = append(dirty, node)
+		}
+	}
+	// what is new comes before what may link to it, so that a flush that fails
+	// half way leaves no link to a node that is not there
+	dirty = append(dirty, updated...)
+	for _, node := range dirty {
 		nodeBytes, err := json.Marshal(node)
 		if err != nil {
 			return errors.Wrapf(err, "marshal node %d", node.Id)
@@ -135,22 +155,25 @@ func (h *hnsw) Flush(docCount uint64) error {
 			return errors.Wrapf(err, "put node %d", node.Id)
 		}
 		node.Committed = true
-		h.indexCache.Add(node.Id, node)
-	}
-	ep := &entrypoint{
-		ID: h.entryPointID,
-	}
-	epBytes, err := json.Marshal(ep)
-	if err != nil {
-		return errors.Wrapf(err, "marshal entrypoint %d", h.entryPointID)
+		node.stored = true
 	}
-	err = h.nodes.KVPut(h.className, entrypointKey, epBytes)
-	if err != nil {
-		return errors.Wrapf(err, "put entrypoint %d", h.entryPointID)
+	if h.hasEntrypoint {
+		ep := &entrypoint{
+			ID: h.entryPointID,
+		}
+		epBytes, err := json.Marshal(ep)
+		if err != nil {
+			return errors.Wrapf(err, "marshal entrypoint %d", h.entryPointID)
+		}
+		err = h.nodes.KVPut(h.className, entrypointKey, epBytes)
+		if err != nil {
+			return errors.Wrapf(err, "put entrypoint %d", h.entryPointID)
+		}
 	}
 
 	c := &count{
 		Count: docCount,
+		Empty: !h.hasEntrypoint,
 	}
 	cBytes, err := json.Marshal(c)
 	if err != nil {
@@ -164,37 +187,82 @@ func (h *hnsw) Flush(docCount uint64) error {
 }
 
 func (h *hnsw) GetDocCount() (uint64, error) {
+	c, err := h.loadCount()
+	if err != nil {
+		return 0, err
+	}
+	return c.Count, nil
+}
+
+// loadCount reads the count record. The store reports a record as not found
+// also when it failed to read its index, so that only counts if the store is
+// known to be empty.
+func (h *hnsw) loadCount() (*count, error) {
 	_, cBytes, err := h.nodes.KVGet(h.className, countKey)
+	if errors.Is(err, collection.ErrEntryNotFound) {
+		isEmpty, err := h.nodes.IsEmpty(h.className)
+		if err != nil {
+			return nil, errors.Wrap(err, "get count")
+		}
+		if !isEmpty {
+			return nil, errors.New("get count: record missing from an index that is not empty")
+		}
+		return &count{Empty: true}, nil
+	}
 	if err != nil {
-		return 0, errors.Wrapf(err, "put count %d", h.entryPointID)
+		return nil, errors.Wrap(err, "get count")
 	}
 
 	c := &count{}
 	err = json.Unmarshal(cBytes, c)
 	if err != nil {
-		return 0, err
+		return nil, errors.Wrap(err, "unmarshal count")
 	}
-
-	return c.Count, nil
+	if c.Count == 0 {
+		c.Empty = true
+	}
+	return c, nil
 }
 
 func (h *hnsw) LoadEntrypoint() error {
-	h.RLock()
-	defer h.RUnlock()
+	h.Lock()
+	defer h.Unlock()
 
-	_, v, err := h.nodes.KVGet(h.className, entrypointKey)
+	// the store only has the state of the last flush
+	if h.entrypointLoaded {
+		return nil
+	}
+
+	c, err := h.loadCount()
 	if err != nil {
-		h.entryPointID = 0
+		return err
+	}
+	if c.Count == 0 {
+		h.entrypointLoaded = true
 		return nil
 	}
+	_, v, err := h.nodes.KVGet(h.className, entrypointKey)
+	if err != nil {
+		if c.Empty && errors.Is(err, collection.ErrEntryNotFound) {
+			h.entrypointLoaded = true
+			return nil
+		}
+		return errors.Wrap(err, "get entrypoint")
+	}
 	ep := &entrypoint{}
 	err = json.Unmarshal(v, ep)
 	if err != nil {
-		h.entryPointID = 0
-		return nil
+		return errors.Wrap(err, "unmarshal entrypoint")
+	}
+	node, err := h.loadNode(ep.ID)
+	if err != nil {
+		return errors.Wrap(err, "get entrypoint")
 	}
 
 	h.entryPointID = ep.ID
+	h.currentMaximumLayer = node.Level
+	h.hasEntrypoint = true
+	h.entrypointLoaded = true
 	return nil
 }
 
@@ -204,6 +272,10 @@ func (h *hnsw) insert(node *vertex, nodeVec []float32) error {
 
 	before := time.Now()
 
+	if err := h.LoadEntrypoint(); err != nil {
+		return err
+	}
+
 	wasFirst := false
 	var firstInsertError error
 	h.initialInsertOnce.Do(func() {
diff --git a/pkg/hnsw/search_with_max_dist.go b/pkg/hnsw/search_with_max_dist.go
index 6cf2ab7..3e7475b 100644
--- a/pkg/hnsw/search_with_max_dist.go
+++ b/pkg/hnsw/search_with_max_dist.go
@@ -27,6 +27,12 @@ func (h *hnsw) KnnSearchByVectorMaxDist(searchVec []float32, dist float32,
 		// similarity are only identical if the vector is normalized
 		searchVec = distancer.Normalize(searchVec)
 	}
+	if err := h.LoadEntrypoint(); err != nil {
+		return nil, nil, err
+	}
+	if h.isEmpty() {
+		return []uint64{}, []float32{}, nil
+	}
 	entryPointID := h.entryPointID
 	entryPointDistance, ok, err := h.distBetweenNodeAndVec(entryPointID, searchVec)
 	if err != nil {
@@ -72,7 +78,8 @@ func (h *hnsw) KnnSearchByVectorMaxDist(searchVec []float32, dist float32,
 	i = 0
 	for _, elem := range all {
 		if elem.Dist < 0 {
-			continue
+			// a rounding error of the distance between equal directions
+			elem.Dist = 0
 		}
 		if elem.Dist > dist {
 			break
@@ -83,5 +90,5 @@ func (h *hnsw) KnnSearchByVectorMaxDist(searchVec []float32, dist float32,
 	}
 
 	h.pools.pqResults.Put(res)
-	return out[:i], dists, nil
+	return out[:i], dists[:i], nil
 }
-- 
2.43.0


From ccdb19b7793283e6707fdd119bb89bab758ba4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:45 +0000
Subject: [PATCH 04/14] fix: vectors are looked up in the stored nodes, for any
 id

Building the graph asked a cache of the last 1000 vectors, which is empty after
a restart and may hold vectors of a deleted collection; the vector cache had a
fixed size of 25000 ids and panicked beyond, and the entrypoint could be visited
twice there. The vector of a node can be replaced in place.
---
 pkg/hnsw/index.go                | 16 ++++++++++++++--
 pkg/hnsw/insert.go               | 33 ++++++++++++++++++++++++++++++++
 pkg/hnsw/neighbor_connections.go |  6 ++++++
 pkg/hnsw/search.go               |  4 ++--
 pkg/hnsw/vector_cache.go         | 16 +++++++++++++---
 5 files changed, 68 insertions(+), 7 deletions(-)

diff --git a/pkg/hnsw/index.go b/pkg/hnsw/index.go
index 55f7aea..be32f7c 100644
--- a/pkg/hnsw/index.go
+++ b/pkg/hnsw/index.go
@@ -192,7 +192,9 @@ type VectorIndex interface {
 	Flush(docCount uint64) error
 	GetDocCount() (uint64, error)
 	LoadEntrypoint() error
+	ValidateBeforeInsert(vector []float32) error
 	Add(id uint64, vector []float32) error
+	Replace(id uint64, vector []float32) error
 	KnnSearchByVectorMaxDist(query []float32, dist float32, ef int,
 		allowList helpers.AllowList) ([]uint64, []float32, error)
 	SearchByVectorDistance(query []float32, targetDistance float32, maxLimit int64, allowList helpers.AllowList) ([]uint64, []float32, error)
@@ -236,12 +238,22 @@ func New(cfg Config, uc UserConfig, kvStore *collection.KeyValue) (*hnsw, error)
 		normalizeOnRead = true
 	}
 
-	vectorCache := newShardedLockCache(cfg.VectorForIDThunk, uc.VectorCacheMaxObjects,
+	// the vector of a node is stored with the node, the thunk only has those it
+	// happens to remember
+	var index *hnsw
+	vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
+		node, err := index.loadNode(id)
+		if err != nil {
+			return nil, err
+		}
+		return node.Vector, nil
+	}
+	vectorCache := newShardedLockCache(vectorForID, uc.VectorCacheMaxObjects,
 		cfg.Logger, normalizeOnRead, defaultDeletionInterval)
 
 	compressedVectorsCache := newCompressedShardedLockCache(uc.VectorCacheMaxObjects, cfg.Logger)
 	resetCtx, resetCtxCancel := context.WithCancel(context.Background())
-	index := &hnsw{
+	index = &hnsw{
 		maximumConnections: uc.MaxConnections,
 
 		// inspired by original paper and other implementations
diff --git a/pkg/hnsw/insert.go b/pkg/hnsw/insert.go
index c4e3303..aba80f4 100644
--- a/pkg/hnsw/insert.go
+++ b/pkg/hnsw/insert.go
@@ -84,6 +84,39 @@ func (h *hnsw) Add(id uint64, vector []float32) error {
 	return h.insert(node, vector)
 }
 
+// Replace sets the vector of a node that is already in the graph. It stays
+// linked as it is: the links are what makes the other nodes reachable.
+func (h *hnsw) Replace(id uint64, vector []float32) error {
+	if err := h.LoadEntrypoint(); err != nil {
+		return err
+	}
+	node, err := h.loadNode(id)
+	if errors.Is(err, collection.ErrEntryNotFound) {
+		// the id was given out but the insert has not come to storing the node
+		return h.Add(id, vector)
+	}
+	if err != nil {
+		return err
+	}
+	if node.isUnderMaintenance() {
+		// the insert of this node has failed on the way
+		return h.Add(id, vector)
+	}
+	if err := h.ValidateBeforeInsert(vector); err != nil {
+		return err
+	}
+	if h.distancerProvider.Type() == "cosine-dot" {
+		vector = distancer.Normalize(vector)
+	}
+	node.Lock()
+	node.Vector = vector
+	node.Committed = false
+	node.Unlock()
+	h.indexCache.Add(id, node)
+	h.cache.preload(id, vector)
+	return nil
+}
+
 func (h *hnsw) insertInitialElement(node *vertex, nodeVec []float32) error {
 	h.Lock()
 	defer h.Unlock()
diff --git a/pkg/hnsw/neighbor_connections.go b/pkg/hnsw/neighbor_connections.go
index d1f6482..1af4a9f 100644
--- a/pkg/hnsw/neighbor_connections.go
+++ b/pkg/hnsw/neighbor_connections.go
@@ -154,6 +154,12 @@ func (n *neighborFinderConnector) connectNeighborAtLevel(neighborID uint64,
 		neighbor.upgradeToLevelNoLock(level)
 	}
 	currentConnections := neighbor.connectionsAtLevelNoLock(level)
+	for _, existingConnection := range currentConnections {
+		if existingConnection == n.node.Id {
+			// an earlier insert of this node failed after this point
+			return nil
+		}
+	}
 
 	maximumConnections := n.maximumConnections(level)
 	if len(currentConnections) < maximumConnections {
diff --git a/pkg/hnsw/search.go b/pkg/hnsw/search.go
index b5ab828..a3a755c 100644
--- a/pkg/hnsw/search.go
+++ b/pkg/hnsw/search.go
@@ -180,7 +180,7 @@ func (h *hnsw) searchLayerByVector(queryVector []float32,
 	}
 
 	h.insertViableEntrypointsAsCandidatesAndResults(entrypoints, candidates,
-		results, level, visited, allowList)
+		results, level, &visited, allowList)
 
 	var worstResultDistance float32
 	var err error
@@ -331,7 +331,7 @@ func (h *hnsw) searchLayerByVector(queryVector []float32,
 
 func (h *hnsw) insertViableEntrypointsAsCandidatesAndResults(
 	entrypoints, candidates, results *priorityqueue.Queue, level int,
-	visitedList visited.ListSet, allowList helpers.AllowList,
+	visitedList *visited.ListSet, allowList helpers.AllowList,
 ) {
 	for entrypoints.Len() > 0 {
 		ep := entrypoints.Pop()
diff --git a/pkg/hnsw/vector_cache.go b/pkg/hnsw/vector_cache.go
index 1f6e7b1..1a11c56 100644
--- a/pkg/hnsw/vector_cache.go
+++ b/pkg/hnsw/vector_cache.go
@@ -73,6 +73,7 @@ func (s *shardedLockCache) all() [][]float32 {
 }
 
 func (s *shardedLockCache) get(ctx context.Context, id uint64) ([]float32, error) {
+	s.grow(id)
 	s.shardedLocks[id%shardFactor].RLock()
 	vec := s.cache[id]
 	s.shardedLocks[id%shardFactor].RUnlock()
@@ -124,6 +125,7 @@ func (s *shardedLockCache) multiGet(ctx context.Context, ids []uint64) ([][]floa
 	errs := make([]error, len(ids))
 
 	for i, id := range ids {
+		s.grow(id)
 		s.shardedLocks[id%shardFactor].RLock()
 		vec := s.cache[id]
 		s.shardedLocks[id%shardFactor].RUnlock()
@@ -148,6 +150,7 @@ var prefetchFunc func(in uintptr) = func(in uintptr) {
 
 //nolint:unused
 func (s *shardedLockCache) prefetch(id uint64) {
+	s.grow(id)
 	s.shardedLocks[id%shardFactor].RLock()
 	defer s.shardedLocks[id%shardFactor].RUnlock()
 
@@ -156,8 +159,9 @@ func (s *shardedLockCache) prefetch(id uint64) {
 
 //nolint:unused
 func (s *shardedLockCache) preload(id uint64, vec []float32) {
-	s.shardedLocks[id%shardFactor].RLock()
-	defer s.shardedLocks[id%shardFactor].RUnlock()
+	s.grow(id)
+	s.shardedLocks[id%shardFactor].Lock()
+	defer s.shardedLocks[id%shardFactor].Unlock()
 
 	atomic.AddInt64(&s.count, 1)
 	s.trackDimensionsOnce.Do(func() {
@@ -169,7 +173,10 @@ func (s *shardedLockCache) preload(id uint64, vec []float32) {
 
 //nolint:unused
 func (s *shardedLockCache) grow(node uint64) {
-	if node < uint64(len(s.cache)) {
+	s.shardedLocks[node%shardFactor].RLock()
+	size := uint64(len(s.cache))
+	s.shardedLocks[node%shardFactor].RUnlock()
+	if node < size {
 		return
 	}
 	s.maintenanceLock.Lock()
@@ -178,6 +185,9 @@ func (s *shardedLockCache) grow(node uint64) {
 	s.obtainAllLocks()
 	defer s.releaseAllLocks()
 
+	if node < uint64(len(s.cache)) {
+		return
+	}
 	newSize := node + minimumIndexGrowthDelta
 	newCache := make([][]float32, newSize)
 	copy(newCache, s.cache)
-- 
2.43.0


From 5b0f74bc6b82f3cb48f0df0f8dedeb3afd729201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:45 +0000
Subject: [PATCH 05/14] fix: collections are opened, read and changed under one
 lock

Opening a collection was repeated in every request without a lock, and differed:
a lookup by property opened it without its index, on which the next search or
add panicked; two requests could open it twice and write to different copies of
the index; creating a collection again dropped the index in memory. Searches
ran into documents being added. Creating and deleting were not published, so a
restart undid them, and errors of a delete were not reported. A lookup answers
only with a document that has the value, and a search only with the documents
of the nodes found; a text search with a small limit no longer searches the
index with that limit.
---
 pkg/document/document.go | 506 ++++++++++++++++++---------------------
 1 file changed, 230 insertions(+), 276 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 0733c82..04c2df6 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"os"
+	"strconv"
 	"strings"
 	"sync"
 
@@ -16,7 +17,6 @@ import (
 	"github.com/fairdatasociety/fairOS-dfs/pkg/dfs"
 	"github.com/fairdatasociety/fairOS-dfs/pkg/logging"
 	"github.com/fairdatasociety/fairOS-dfs/pkg/pod"
-	lru "github.com/hashicorp/golang-lru"
 	"github.com/pkg/errors"
 	"github.com/sirupsen/logrus"
 )
@@ -27,6 +27,9 @@ const (
 
 	hnswIndexName = "hnswId"
 	namespace     = "fave_"
+
+	// how many candidates a search keeps, unless more are asked for
+	defaultSearchEF = 800
 )
 
 // Config for fairOS-dfs
@@ -36,16 +39,17 @@ type Config struct {
 }
 
 type Client struct {
-	lock          sync.Mutex
-	hnswLock      sync.RWMutex
-	api           *dfs.API
-	indices       map[string]h.VectorIndex
-	pod           string
-	logger        logging.Logger
-	sessionId     string
-	podInfo       *pod.Info
-	lookup        vectorizer.Vectorizer
-	documentCache *lru.Cache
+	// lock is held exclusively by what changes a collection (or opens it), and
+	// shared by what reads one
+	lock      sync.RWMutex
+	api       *dfs.API
+	indices   map[string]h.VectorIndex
+	schemas   map[string]map[string]collection.IndexType
+	pod       string
+	logger    logging.Logger
+	sessionId string
+	podInfo   *pod.Info
+	lookup    vectorizer.Vectorizer
 }
 
 type Collection struct {
@@ -70,6 +74,7 @@ func New(config Config, api *dfs.API) (*Client, error) {
 		api:     api,
 		logger:  logger,
 		indices: map[string]h.VectorIndex{},
+		schemas: map[string]map[string]collection.IndexType{},
 	}
 	// TODO support multiple languages
 	//if config.GlovePodRef != "" {
@@ -89,10 +94,6 @@ func New(config Config, api *dfs.API) (*Client, error) {
 		}
 		client.lookup = lkup
 	}
-	documentCache, err := lru.New(1000)
-	if err == nil {
-		client.documentCache = documentCache
-	}
 	return client, nil
 }
 
@@ -158,56 +159,147 @@ func (c *Client) CreateCollection(col *Collection) error {
 	namespacedCollection := namespace + col.Name
 	kvStore := c.podInfo.GetKVStore()
 
-	vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
-		// check if the document is in the cache
-		if v, ok := c.documentCache.Get(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, id)); ok {
-			return v.([]float32), nil
-		}
-		return nil, fmt.Errorf("document not found")
-	}
 	err := c.api.DocCreate(c.sessionId, c.pod, namespacedCollection, col.Indexes, true)
+	isNew := err == nil
 	if err != nil && !errors.Is(err, collection.ErrDocumentDBAlreadyPresent) && !errors.Is(err, collection.ErrDocumentDBAlreadyOpened) {
 		return err
 	}
 
 	err = kvStore.CreateKVTable(namespacedCollection, c.podInfo.GetPodPassword(), collection.StringIndex)
+	if isNew && errors.Is(err, collection.ErrKvTableAlreadyPresent) {
+		// the index of a collection of this name that was not deleted completely
+		err = kvStore.DeleteKVTable(namespacedCollection, c.podInfo.GetPodPassword())
+		if err != nil {
+			return err
+		}
+		err = kvStore.CreateKVTable(namespacedCollection, c.podInfo.GetPodPassword(), collection.StringIndex)
+	}
 	if err != nil && !errors.Is(err, collection.ErrKvTableAlreadyPresent) {
 		return err
 	}
 
-	err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
-	if err != nil && !errors.Is(err, collection.ErrDocumentDBAlreadyOpened) {
+	if isNew {
+		delete(c.indices, namespacedCollection)
+		delete(c.schemas, namespacedCollection)
+	}
+	_, err = c.openCollection(namespacedCollection)
+	if err != nil {
 		return err
 	}
+	return c.api.CommitPodFeeds(c.pod, c.sessionId)
+}
 
-	err = kvStore.OpenKVTable(namespacedCollection, c.podInfo.GetPodPassword())
+// isOpen tells whether a collection can be used as it is
+func (c *Client) isOpen(namespacedCollection string) (h.VectorIndex, bool, error) {
+	if c.podInfo == nil {
+		return nil, false, dfs.ErrPodNotOpen
+	}
+	index, ok := c.indices[namespacedCollection]
+	if !ok {
+		return nil, false, nil
+	}
+	_, err := c.podInfo.GetKVStore().KVCount(namespacedCollection)
 	if err != nil {
-		return err
+		return nil, false, nil
+	}
+	docIsOpen, err := c.api.IsDBOpened(c.sessionId, c.pod, namespacedCollection)
+	if err != nil {
+		return nil, false, err
 	}
+	return index, docIsOpen, nil
+}
 
-	makeCL := h.MakeNoopCommitLogger
-	index, err := h.New(h.Config{
-		RootPath:              "not-used",
-		ID:                    "not-used",
-		MakeCommitLoggerThunk: makeCL,
-		DistanceProvider:      distancer.NewCosineDistanceProvider(),
-		VectorForIDThunk:      vectorForID,
-		ClassName:             namespacedCollection,
-	}, h.UserConfig{
-		MaxConnections: 30,
-		EFConstruction: 60,
-	}, kvStore)
+// openCollection opens whatever is not open yet of a collection. c.lock has to
+// be held exclusively.
+func (c *Client) openCollection(namespacedCollection string) (h.VectorIndex, error) {
+	if c.podInfo == nil {
+		return nil, dfs.ErrPodNotOpen
+	}
+	// check if kv and doc table is open or not
+	kvStore := c.podInfo.GetKVStore()
+	_, err := kvStore.KVCount(namespacedCollection)
 	if err != nil {
-		return err
+		err = kvStore.OpenKVTable(namespacedCollection, c.podInfo.GetPodPassword())
+		if err != nil {
+			return nil, err
+		}
+		delete(c.indices, namespacedCollection)
 	}
+	docIsOpen, err := c.api.IsDBOpened(c.sessionId, c.pod, namespacedCollection)
+	if err != nil {
+		return nil, err
+	}
+	if !docIsOpen {
+		err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
+		if err != nil {
+			return nil, err
+		}
+		delete(c.schemas, namespacedCollection)
+	}
+	if c.schemas[namespacedCollection] == nil {
+		docs, err := c.api.DocList(c.sessionId, c.pod)
+		if err != nil {
+			return nil, err
+		}
+		schema, ok := docs[namespacedCollection]
+		if !ok {
+			return nil, collection.ErrDocumentDBNotPresent
+		}
+		c.schemas[namespacedCollection] = schemaIndexes(schema)
+	}
+	index, ok := c.indices[namespacedCollection]
+	if !ok {
+		vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
+			return nil, fmt.Errorf("document not found")
+		}
 
-	c.hnswLock.Lock()
-	c.indices[namespacedCollection] = index
-	c.hnswLock.Unlock()
-	return nil
+		makeCL := h.MakeNoopCommitLogger
+		index, err = h.New(h.Config{
+			RootPath:              "not-used",
+			ID:                    "not-used",
+			MakeCommitLoggerThunk: makeCL,
+			DistanceProvider:      distancer.NewCosineDistanceProvider(),
+			VectorForIDThunk:      vectorForID,
+			ClassName:             namespacedCollection,
+		}, h.UserConfig{
+			MaxConnections: 30,
+			EFConstruction: 60,
+		}, kvStore)
+		if err != nil {
+			return nil, err
+		}
+		c.indices[namespacedCollection] = index
+	}
+	return index, index.LoadEntrypoint()
+}
+
+// rlockCollection opens the collection if need be and returns its index with
+// c.lock held shared. The lock is not held if an error is returned.
+func (c *Client) rlockCollection(namespacedCollection string) (h.VectorIndex, error) {
+	for {
+		c.lock.RLock()
+		index, ok, err := c.isOpen(namespacedCollection)
+		if err == nil && ok {
+			err = index.LoadEntrypoint()
+			if err == nil {
+				return index, nil
+			}
+		}
+		c.lock.RUnlock()
+		if err != nil {
+			return nil, err
+		}
+
+		c.lock.Lock()
+		_, err = c.openCollection(namespacedCollection)
+		c.lock.Unlock()
+		if err != nil {
+			return nil, err
+		}
+	}
 }
 
-func (c *Client) DeleteCollection(collection string) error {
+func (c *Client) DeleteCollection(name string) error {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 	if c.sessionId == "" {
@@ -217,32 +309,23 @@ func (c *Client) DeleteCollection(collection string) error {
 		return dfs.ErrPodNotOpen
 	}
 
-	namespacedCollection := namespace + collection
-
-	wg := sync.WaitGroup{}
-	wg.Add(2)
-	go func() {
-		defer wg.Done()
-		err := c.api.DocDelete(c.sessionId, c.pod, namespacedCollection)
-		if err != nil {
-			c.logger.Errorf("delete collection failed :%s\n", err.Error())
-		}
-	}()
-
-	go func() {
-		defer wg.Done()
-		kvStore := c.podInfo.GetKVStore()
+	namespacedCollection := namespace + name
 
-		err := kvStore.DeleteKVTable(namespacedCollection, c.podInfo.GetPodPassword())
-		if err != nil {
-			c.logger.Errorf("delete kv table failed :%s\n", err.Error())
-		}
-	}()
-	wg.Wait()
-	c.hnswLock.Lock()
 	delete(c.indices, namespacedCollection)
-	c.hnswLock.Unlock()
-	return nil
+	delete(c.schemas, namespacedCollection)
+	// the documents go first: without them the collection does not exist
+	err := c.api.DocDelete(c.sessionId, c.pod, namespacedCollection)
+	if err != nil && !errors.Is(err, collection.ErrDocumentDBNotPresent) {
+		c.logger.Errorf("delete collection failed :%s\n", err.Error())
+		return err
+	}
+	kvStore := c.podInfo.GetKVStore()
+	err = kvStore.DeleteKVTable(namespacedCollection, c.podInfo.GetPodPassword())
+	if err != nil && !errors.Is(err, collection.ErrKVTableNotPresent) {
+		c.logger.Errorf("delete kv table failed :%s\n", err.Error())
+		return err
+	}
+	return c.api.CommitPodFeeds(c.pod, c.sessionId)
 }
 
 func (c *Client) GetCollections() ([]*Collection, error) {
@@ -262,19 +345,7 @@ func (c *Client) GetCollections() ([]*Collection, error) {
 	collections := []*Collection{}
 	for _, doc := range docs {
 		if strings.HasPrefix(doc.Name, namespace) {
-			indexes := map[string]collection.IndexType{}
-			for _, index := range doc.SimpleIndexes {
-				indexes[index.FieldName] = index.FieldType
-			}
-			for _, index := range doc.ListIndexes {
-				indexes[index.FieldName] = index.FieldType
-			}
-			for _, index := range doc.MapIndexes {
-				indexes[index.FieldName] = index.FieldType
-			}
-			for _, index := range doc.VectorIndexes {
-				indexes[index.FieldName] = index.FieldType
-			}
+			indexes := schemaIndexes(doc)
 			collections = append(collections, &Collection{
 				Name:    strings.TrimPrefix(doc.Name, namespace),
 				Indexes: indexes,
@@ -284,58 +355,32 @@ func (c *Client) GetCollections() ([]*Collection, error) {
 	return collections, nil
 }
 
+func schemaIndexes(schema collection.DBSchema) map[string]collection.IndexType {
+	indexes := map[string]collection.IndexType{}
+	for _, index := range schema.SimpleIndexes {
+		indexes[index.FieldName] = index.FieldType
+	}
+	for _, index := range schema.ListIndexes {
+		indexes[index.FieldName] = index.FieldType
+	}
+	for _, index := range schema.MapIndexes {
+		indexes[index.FieldName] = index.FieldType
+	}
+	for _, index := range schema.VectorIndexes {
+		indexes[index.FieldName] = index.FieldType
+	}
+	return indexes
+}
+
 func (c *Client) AddDocuments(collection string, propertiesToIndex []string, documents ...*Document) error {
 	namespacedCollection := namespace + collection
 
-	// check if kv and doc table is open or not
-	kvStore := c.podInfo.GetKVStore()
-	_, err := kvStore.KVCount(namespacedCollection)
-	if err != nil {
-		err = kvStore.OpenKVTable(namespacedCollection, c.podInfo.GetPodPassword())
-		if err != nil {
-			return err
-		}
-	}
-	docIsOpen, err := c.api.IsDBOpened(c.sessionId, c.pod, namespacedCollection)
+	c.lock.Lock()
+	defer c.lock.Unlock()
+	index, err := c.openCollection(namespacedCollection)
 	if err != nil {
 		return err
 	}
-	if !docIsOpen {
-		vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
-			if v, ok := c.documentCache.Get(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, id)); ok {
-				return v.([]float32), nil
-			}
-			return nil, fmt.Errorf("document not found")
-		}
-
-		makeCL := h.MakeNoopCommitLogger
-		index, err := h.New(h.Config{
-			RootPath:              "not-used",
-			ID:                    "not-used",
-			MakeCommitLoggerThunk: makeCL,
-			DistanceProvider:      distancer.NewCosineDistanceProvider(),
-			VectorForIDThunk:      vectorForID,
-			ClassName:             namespacedCollection,
-		}, h.UserConfig{
-			MaxConnections: 30,
-			EFConstruction: 60,
-		}, kvStore)
-		if err != nil {
-			return err
-		}
-
-		c.hnswLock.Lock()
-		c.indices[namespacedCollection] = index
-		c.hnswLock.Unlock()
-		err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
-		if err != nil {
-			return err
-		}
-	}
-
-	c.hnswLock.Lock()
-	index := c.indices[namespacedCollection]
-	c.hnswLock.Unlock()
 	count, err := index.GetDocCount()
 	if err != nil {
 		count = 0
@@ -378,7 +423,6 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 					c.logger.Errorf("index.Add failed :%s\n", err.Error())
 					continue
 				}
-				c.documentCache.Add(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, indexId), vector)
 
 				indexId++
 			} else if slice, ok := doc.Properties["vector"].([]float32); ok {
@@ -388,7 +432,6 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 					c.logger.Errorf("index.Add failed :%s\n", err.Error())
 					continue
 				}
-				c.documentCache.Add(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, indexId), slice)
 
 				indexId++
 			} else {
@@ -421,7 +464,6 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 					c.logger.Errorf("index.Add failed :%s\n", err.Error())
 					continue
 				}
-				c.documentCache.Add(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, indexId), vector.ToArray())
 
 				indexId++
 			} else {
@@ -455,50 +497,6 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 
 func (c *Client) GetNearDocuments(collection, text string, distance float32, limit int) ([][]byte, []float32, error) {
 	namespacedCollection := namespace + collection
-	kvStore := c.podInfo.GetKVStore()
-	_, err := kvStore.KVCount(namespacedCollection)
-	if err != nil {
-		err = kvStore.OpenKVTable(namespacedCollection, c.podInfo.GetPodPassword())
-		if err != nil {
-			return nil, nil, err
-		}
-	}
-	docIsOpen, err := c.api.IsDBOpened(c.sessionId, c.pod, namespacedCollection)
-	if err != nil {
-		return nil, nil, err
-	}
-	if !docIsOpen {
-		vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
-			if v, ok := c.documentCache.Get(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, id)); ok {
-				return v.([]float32), nil
-			}
-			return nil, fmt.Errorf("document not found")
-		}
-
-		makeCL := h.MakeNoopCommitLogger
-		index, err := h.New(h.Config{
-			RootPath:              "not-used",
-			ID:                    "not-used",
-			MakeCommitLoggerThunk: makeCL,
-			DistanceProvider:      distancer.NewCosineDistanceProvider(),
-			VectorForIDThunk:      vectorForID,
-			ClassName:             namespacedCollection,
-		}, h.UserConfig{
-			MaxConnections: 30,
-			EFConstruction: 60,
-		}, kvStore)
-		if err != nil {
-			return nil, nil, err
-		}
-
-		c.hnswLock.Lock()
-		c.indices[namespacedCollection] = index
-		c.hnswLock.Unlock()
-		err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
-		if err != nil {
-			return nil, nil, err
-		}
-	}
 	if c.lookup == nil {
 		return nil, nil, fmt.Errorf("vectorizer is not initialized")
 	}
@@ -506,110 +504,38 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 	if err != nil {
 		return nil, nil, err
 	}
-	c.hnswLock.Lock()
-	index := c.indices[namespacedCollection]
-	c.hnswLock.Unlock()
-	err = index.LoadEntrypoint()
-	if err != nil {
-		return nil, nil, err
-	}
-	ids, dists, err := index.KnnSearchByVectorMaxDist(vector.ToArray(), distance, limit, nil)
-	if err != nil {
-		return nil, nil, err
-	}
-	if limit != 0 && len(ids) > limit {
-		ids = ids[:limit]
-		dists = dists[:limit]
-	}
-	documents := make([][]byte, len(ids))
-	wg := sync.WaitGroup{}
-	errCh := make(chan error, len(ids))
-	for i, id := range ids {
-		wg.Add(1)
-		go func(i int, id uint64) {
-			defer wg.Done()
-			expr := fmt.Sprintf("%s=%d", hnswIndexName, id)
-			docs, err := c.api.DocFind(c.sessionId, c.pod, namespacedCollection, expr, 1)
-			if err != nil {
-				fmt.Println("doc find error", err, id, expr, ids)
-				errCh <- err
-				return
-			}
-			if len(docs) == 0 {
-				errCh <- fmt.Errorf("document not found %d", id)
-				return
-			}
-			documents[i] = docs[0]
-		}(i, id)
-	}
-	go func() {
-		wg.Wait()
-		close(errCh)
-	}()
-
-	for err := range errCh {
-		return nil, nil, err
-	}
-
-	return documents, dists, nil
+	return c.nearDocuments(namespacedCollection, vector.ToArray(), distance, limit)
 }
 
 func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, distance float32, limit int) ([][]byte, []float32, error) {
 	namespacedCollection := namespace + collection
+	return c.nearDocuments(namespacedCollection, vector, distance, limit)
+}
 
-	kvStore := c.podInfo.GetKVStore()
-	_, err := kvStore.KVCount(namespacedCollection)
-	if err != nil {
-		err = kvStore.OpenKVTable(namespacedCollection, c.podInfo.GetPodPassword())
-		if err != nil {
-			return nil, nil, err
-		}
+func (c *Client) nearDocuments(namespacedCollection string, vector []float32, distance float32, limit int) ([][]byte, []float32, error) {
+	if limit < 0 {
+		return nil, nil, fmt.Errorf("limit cannot be negative")
 	}
-	docIsOpen, err := c.api.IsDBOpened(c.sessionId, c.pod, namespacedCollection)
+	index, err := c.rlockCollection(namespacedCollection)
 	if err != nil {
 		return nil, nil, err
 	}
-	if !docIsOpen {
-		vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
-			if v, ok := c.documentCache.Get(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, id)); ok {
-				return v.([]float32), nil
-			}
-			return nil, fmt.Errorf("document not found")
-		}
+	defer c.lock.RUnlock()
 
-		makeCL := h.MakeNoopCommitLogger
-		index, err := h.New(h.Config{
-			RootPath:              "not-used",
-			ID:                    "not-used",
-			MakeCommitLoggerThunk: makeCL,
-			DistanceProvider:      distancer.NewCosineDistanceProvider(),
-			VectorForIDThunk:      vectorForID,
-			ClassName:             namespacedCollection,
-		}, h.UserConfig{
-			MaxConnections: 30,
-			EFConstruction: 60,
-		}, kvStore)
+	ef := defaultSearchEF
+	if limit > ef {
+		count, err := index.GetDocCount()
 		if err != nil {
 			return nil, nil, err
 		}
-
-		c.hnswLock.Lock()
-		c.indices[namespacedCollection] = index
-		c.hnswLock.Unlock()
-		err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
-		if err != nil {
-			return nil, nil, err
+		if count > uint64(ef) {
+			ef = limit
+			if count < uint64(limit) {
+				ef = int(count)
+			}
 		}
 	}
-
-	c.hnswLock.Lock()
-	index := c.indices[namespacedCollection]
-	c.hnswLock.Unlock()
-	err = index.LoadEntrypoint()
-	if err != nil {
-		return nil, nil, err
-	}
-	ids, dists, err := index.KnnSearchByVectorMaxDist(vector, distance, 800, nil)
+	ids, dists, err := index.KnnSearchByVectorMaxDist(vector, distance, ef, nil)
 	if err != nil {
 		return nil, nil, err
 	}
@@ -625,23 +551,22 @@ func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, d
 		wg.Add(1)
 		go func(i int, id uint64) {
 			defer wg.Done()
-			expr := fmt.Sprintf("%s=%d", hnswIndexName, id)
+			value := fmt.Sprintf("%d", id)
+			expr := fmt.Sprintf("%s=%s", hnswIndexName, value)
 			docs, err := c.api.DocFind(c.sessionId, c.pod, namespacedCollection, expr, 1)
 			if err != nil {
 				errCh <- err
 				return
 			}
-			if len(docs) == 0 {
+			if len(docs) == 0 || !propertyMatches(docs[0], hnswIndexName, value) {
 				errCh <- fmt.Errorf("document not found %d", id)
 				return
 			}
 			documents[i] = docs[0]
 		}(i, id)
 	}
-	go func() {
-		wg.Wait()
-		close(errCh)
-	}()
+	wg.Wait()
+	close(errCh)
 
 	for err := range errCh {
 		return nil, nil, err
@@ -652,16 +577,11 @@ func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, d
 
 func (c *Client) GetDocument(collection, property, value string) ([]byte, error) {
 	namespacedCollection := namespace + collection
-	docIsOpen, err := c.api.IsDBOpened(c.sessionId, c.pod, namespacedCollection)
+	_, err := c.rlockCollection(namespacedCollection)
 	if err != nil {
 		return nil, err
 	}
-	if !docIsOpen {
-		err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
-		if err != nil {
-			return nil, err
-		}
-	}
+	defer c.lock.RUnlock()
 
 	expr := ""
 	if property != "" && value != "" {
@@ -674,9 +594,43 @@ func (c *Client) GetDocument(collection, property, value string) ([]byte, error)
 	if len(docs) == 0 {
 		return nil, fmt.Errorf("document not found")
 	}
+	// the lookup takes the next value if there is none that is equal
+	if expr != "" && !propertyMatches(docs[0], property, value) {
+		return nil, fmt.Errorf("document not found")
+	}
 	return docs[0], nil
 }
 
+// propertyMatches tells whether a stored document has the value that was asked
+// for: the value itself, one of the values of a list, or a key:value pair of a map
+func propertyMatches(doc []byte, property, value string) bool {
+	props := map[string]interface{}{}
+	if err := json.Unmarshal(doc, &props); err != nil {
+		return false
+	}
+	switch v := props[property].(type) {
+	case string:
+		return v == value
+	case float64:
+		number, err := strconv.ParseFloat(value, 64)
+		return err == nil && number == v
+	case []interface{}:
+		for _, element := range v {
+			if element == value {
+				return true
+			}
+		}
+	case map[string]interface{}:
+		for key, element := range v {
+			text, ok := element.(string)
+			if ok && (key+":"+text == value || key+text == value) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 func convertToFloat32Slice(i interface{}) ([]float32, error) {
 	// Check if the underlying value is a slice
 	if slice, ok := i.([]interface{}); ok {
-- 
2.43.0


From 6715e4f4908ac40e503bc621dfc10ee6219d67d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:47 +0000
Subject: [PATCH 06/14] fix: adding documents reports failures and leaves
 nothing half done

Documents that could not be vectorized, indexed or marshalled were skipped and
the request answered with success; documents that do not fit the indexes of the
collection panicked half way. The batch is checked before anything is stored,
ids of a failed add are not given out again, the document is stored before its
node, and a document that is added again replaces the one that is there instead
of leaving its node without a document.
---
 pkg/document/document.go | 302 ++++++++++++++++++++++++++++-----------
 1 file changed, 219 insertions(+), 83 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 04c2df6..3e3d5b6 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/json"
 	"fmt"
+	"math"
 	"os"
 	"strconv"
 	"strings"
@@ -372,8 +373,145 @@ func schemaIndexes(schema collection.DBSchema) map[string]collection.IndexType {
 	return indexes
 }
 
-func (c *Client) AddDocuments(collection string, propertiesToIndex []string, documents ...*Document) error {
-	namespacedCollection := namespace + collection
+// documentVector is the vector a document is indexed by: the one it comes with,
+// or the one of the properties to vectorize. It is nil if there is neither.
+func (c *Client) documentVector(doc *Document, propertiesToIndex []string) ([]float32, error) {
+	//check if vector is already present in the properties
+	if doc.Properties["vector"] != nil {
+		if slice, ok := doc.Properties["vector"].([]interface{}); ok {
+			vector := make([]float32, len(slice))
+			for j, v := range slice {
+				var result float32
+
+				switch value := v.(type) {
+				case json.Number:
+					f64Val, err := value.Float64()
+					if err != nil {
+						return nil, fmt.Errorf("vector is not []float32")
+					} else {
+						result = float32(f64Val)
+					}
+				case float32:
+					result = value
+				case float64:
+					result = float32(value)
+				default:
+					return nil, fmt.Errorf("vector is not []float32")
+				}
+				vector[j] = result
+			}
+			return vector, validateVector(vector)
+		} else if slice, ok := doc.Properties["vector"].([]float32); ok {
+			return slice, validateVector(slice)
+		}
+		return nil, fmt.Errorf("vector format is now supported")
+	}
+
+	// vectorize the properties
+	vectorData := ""
+	for _, property := range propertiesToIndex {
+		dt, ok := doc.Properties[property]
+		if ok {
+			text, ok := dt.(string)
+			if !ok {
+				return nil, fmt.Errorf("property %s to vectorize is not a string", property)
+			}
+			vectorData += text + " "
+		}
+	}
+	if vectorData == "" {
+		return nil, nil
+	}
+	if c.lookup == nil {
+		return nil, fmt.Errorf("vectorizer is not initialized")
+	}
+	vector, err := c.lookup.Corpi([]string{vectorData})
+	if err != nil {
+		c.logger.Errorf("corpi failed :%s\n", err.Error())
+		return nil, err
+	}
+	return vector.ToArray(), validateVector(vector.ToArray())
+}
+
+func validateVector(vector []float32) error {
+	if len(vector) == 0 {
+		return fmt.Errorf("vector is empty")
+	}
+	for _, v := range vector {
+		if math.IsNaN(float64(v)) || math.IsInf(float64(v), 0) {
+			return fmt.Errorf("vector is not []float32")
+		}
+	}
+	return nil
+}
+
+// validateDocument checks that the document has what the indexes of its
+// collection need
+func validateDocument(doc *Document, schema map[string]collection.IndexType) error {
+	data, err := json.Marshal(doc.Properties)
+	if err != nil {
+		return err
+	}
+	props := map[string]interface{}{}
+	err = json.Unmarshal(data, &props)
+	if err != nil {
+		return err
+	}
+	for field, indexType := range schema {
+		if field == collection.DefaultIndexFieldName || field == hnswIndexName {
+			continue
+		}
+		ok := false
+		switch indexType {
+		case collection.StringIndex:
+			_, ok = props[field].(string)
+		case collection.NumberIndex:
+			_, ok = props[field].(float64)
+		case collection.ListIndex:
+			var list []interface{}
+			list, ok = props[field].([]interface{})
+			for _, v := range list {
+				if _, isString := v.(string); !isString {
+					ok = false
+				}
+			}
+		case collection.MapIndex:
+			var m map[string]interface{}
+			m, ok = props[field].(map[string]interface{})
+			for _, v := range m {
+				if _, isString := v.(string); !isString {
+					ok = false
+				}
+			}
+		default:
+			ok = true
+		}
+		if !ok {
+			return fmt.Errorf("document %s: property %s is missing or does not fit its index", doc.ID, field)
+		}
+	}
+	return nil
+}
+
+func (c *Client) AddDocuments(name string, propertiesToIndex []string, documents ...*Document) error {
+	namespacedCollection := namespace + name
+
+	// whatever is wrong with a document is found before the first one is stored
+	vectors := make([][]float32, len(documents))
+	newIds := uint64(0)
+	for i, doc := range documents {
+		if doc == nil || doc.ID == "" {
+			return fmt.Errorf("document without id or properties")
+		}
+		vector, err := c.documentVector(doc, propertiesToIndex)
+		if err != nil {
+			return err
+		}
+		if vector != nil {
+			vectors[i] = vector
+			newIds++
+		}
+	}
 
 	c.lock.Lock()
 	defer c.lock.Unlock()
@@ -381,110 +519,86 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 	if err != nil {
 		return err
 	}
+	dimensions := 0
+	for i, doc := range documents {
+		if err := validateDocument(doc, c.schemas[namespacedCollection]); err != nil {
+			return err
+		}
+		if vectors[i] == nil {
+			continue
+		}
+		if err := index.ValidateBeforeInsert(vectors[i]); err != nil {
+			return err
+		}
+		if dimensions != 0 && dimensions != len(vectors[i]) {
+			return fmt.Errorf("vectors of different dimensions: %d and %d", dimensions, len(vectors[i]))
+		}
+		dimensions = len(vectors[i])
+	}
+
 	count, err := index.GetDocCount()
 	if err != nil {
-		count = 0
+		return err
 	}
 
+	// take the ids first: if adding fails half way they must not be used again
+	// for other documents
 	indexId := count
-	for _, doc := range documents {
+	if newIds > 0 {
+		err = index.Flush(count + newIds)
+		if err != nil {
+			return err
+		}
+	}
+	for i, doc := range documents {
 		doc.Properties["id"] = doc.ID
+		delete(doc.Properties, "vector")
+		vector := vectors[i]
 
-		//check if vector is already present in the properties
-		if doc.Properties["vector"] != nil {
-			doc.Properties[hnswIndexName] = indexId
-
-			if slice, ok := doc.Properties["vector"].([]interface{}); ok {
-
-				vector := make([]float32, len(slice))
-				for j, v := range slice {
-					var result float32
-
-					switch value := v.(type) {
-					case json.Number:
-						f64Val, err := value.Float64()
-						if err != nil {
-							return fmt.Errorf("vector is not []float32")
-						} else {
-							result = float32(f64Val)
-						}
-					case float32:
-						result = value
-					case float64:
-						result = float32(value)
-					default:
-						return fmt.Errorf("vector is not []float32")
-					}
-					vector[j] = result
-				}
-				delete(doc.Properties, "vector")
-				err = index.Add(indexId, vector)
-				if err != nil {
-					c.logger.Errorf("index.Add failed :%s\n", err.Error())
-					continue
-				}
-
-				indexId++
-			} else if slice, ok := doc.Properties["vector"].([]float32); ok {
-				delete(doc.Properties, "vector")
-				err = index.Add(indexId, slice)
-				if err != nil {
-					c.logger.Errorf("index.Add failed :%s\n", err.Error())
-					continue
-				}
-
-				indexId++
-			} else {
-				return fmt.Errorf("vector format is now supported")
-			}
+		// a document that is added again keeps its place in the index
+		docId, exists, err := c.indexedAs(namespacedCollection, doc.ID)
+		if err != nil {
+			return err
+		}
+		if exists && vector == nil {
+			return fmt.Errorf("document %s is indexed by a vector and cannot be replaced by one without", doc.ID)
+		}
+		if vector == nil {
+			doc.Properties[hnswIndexName] = -1
 		} else {
-			// vectorize the properties
-			// add the vector in the properties before adding the document in the collection
-			vectorData := ""
-			for _, property := range propertiesToIndex {
-				dt, ok := doc.Properties[property]
-				if ok {
-					vectorData += dt.(string) + " "
-				}
-			}
-
-			if vectorData != "" {
-				if c.lookup == nil {
-					return fmt.Errorf("vectorizer is not initialized")
-				}
-				vector, err := c.lookup.Corpi([]string{vectorData})
-				if err != nil {
-					c.logger.Errorf("corpi failed :%s\n", err.Error())
-					continue
-				}
-
-				doc.Properties[hnswIndexName] = indexId
-				err = index.Add(indexId, vector.ToArray())
-				if err != nil {
-					c.logger.Errorf("index.Add failed :%s\n", err.Error())
-					continue
-				}
-
+			if !exists {
+				docId = indexId
 				indexId++
-			} else {
-				doc.Properties[hnswIndexName] = -1
 			}
+			doc.Properties[hnswIndexName] = docId
 		}
 
 		data, err := json.Marshal(doc.Properties)
 		if err != nil {
 			c.logger.Errorf("marshal document failed :%s\n", err.Error())
-			continue
+			return err
 		}
 
+		// the document comes first: the index must not lead to one that is not there
 		err = c.api.DocPut(c.sessionId, c.pod, namespacedCollection, data)
 		if err != nil {
 			c.logger.Errorf("DocPut failed :%v\n", err.Error())
 			return err
 		}
-		fmt.Println("added document", indexId)
+		if vector == nil {
+			continue
+		}
+		if exists {
+			err = index.Replace(docId, vector)
+		} else {
+			err = index.Add(docId, vector)
+		}
+		if err != nil {
+			c.logger.Errorf("index.Add failed :%s\n", err.Error())
+			return err
+		}
 	}
-	err = index.Flush(indexId)
+	err = index.Flush(count + newIds)
 	if err != nil {
 		return err
 	}
@@ -495,6 +609,28 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 	return nil
 }
 
+// indexedAs returns the id of a stored document in the vector index
+func (c *Client) indexedAs(namespacedCollection, id string) (uint64, bool, error) {
+	data, err := c.api.DocGet(c.sessionId, c.pod, namespacedCollection, id)
+	if errors.Is(err, collection.ErrEntryNotFound) || errors.Is(err, collection.ErrDocumentNotPresent) {
+		return 0, false, nil
+	}
+	if err != nil {
+		return 0, false, err
+	}
+	stored := struct {
+		HnswId *int64 `json:"hnswId"`
+	}{}
+	err = json.Unmarshal(data, &stored)
+	if err != nil {
+		return 0, false, err
+	}
+	if stored.HnswId == nil || *stored.HnswId < 0 {
+		return 0, false, nil
+	}
+	return uint64(*stored.HnswId), true, nil
+}
+
 func (c *Client) GetNearDocuments(collection, text string, distance float32, limit int) ([][]byte, []float32, error) {
 	namespacedCollection := namespace + collection
 	if c.lookup == nil {
-- 
2.43.0


From 1ece062f0b839bf4e922781e0486d7bbed53bc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:50 +0000
Subject: [PATCH 07/14] fix: null documents and indexes in a request are
 refused

They panicked in the handler; documents whose properties are no object were
passed on as nil.
---
 adapters/handlers/collections.go | 3 +++
 adapters/handlers/documents.go   | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/adapters/handlers/collections.go b/adapters/handlers/collections.go
index 6281488..de8fc35 100644
--- a/adapters/handlers/collections.go
+++ b/adapters/handlers/collections.go
@@ -18,6 +18,9 @@ func (s *Handler) FaveCreateCollectionHandler(request operations.FaveCreateColle
 	}
 	indexes := make(map[string]collection.IndexType)
 	for _, v := range collectionRaw.Indexes {
+		if v == nil {
+			return operations.NewFaveCreateCollectionBadRequest().WithPayload(createErrorResponseObject("Index cannot be blank"))
+		}
 		switch v.FieldType {
 		case "string":
 			indexes[v.FieldName] = collection.StringIndex
diff --git a/adapters/handlers/documents.go b/adapters/handlers/documents.go
index 0b43155..ecdff03 100644
--- a/adapters/handlers/documents.go
+++ b/adapters/handlers/documents.go
@@ -24,9 +24,12 @@ func (s *Handler) FaveAddDocumentsHandler(request operations.FaveAddDocumentsPar
 	documents := make([]*document.Document, len(documentsRaw.Documents))
 
 	for i, v := range documentsRaw.Documents {
+		if v == nil {
+			return operations.NewFaveAddDocumentsBadRequest().WithPayload(createErrorResponseObject("Document cannot be blank"))
+		}
 		props, ok := v.Properties.(map[string]interface{})
 		if !ok {
-			continue
+			return operations.NewFaveAddDocumentsBadRequest().WithPayload(createErrorResponseObject("Document properties should be an object"))
 		}
 		d := &document.Document{
 			ID:         string(v.ID),
-- 
2.43.0


From c99b81bf01212a702282252c041c27f947625318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:26 +0000
Subject: [PATCH 08/14] fix: a lookup returns the current version of a document

---
 pkg/document/document.go | 57 ++++++++++++++++++++++++++++++++--------
 1 file changed, 46 insertions(+), 11 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 3e3d5b6..2f1a1d2 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -711,8 +711,8 @@ func (c *Client) nearDocuments(namespacedCollection string, vector []float32, di
 	return documents, dists, nil
 }
 
-func (c *Client) GetDocument(collection, property, value string) ([]byte, error) {
-	namespacedCollection := namespace + collection
+func (c *Client) GetDocument(collectionName, property, value string) ([]byte, error) {
+	namespacedCollection := namespace + collectionName
 	_, err := c.rlockCollection(namespacedCollection)
 	if err != nil {
 		return nil, err
@@ -723,18 +723,53 @@ func (c *Client) GetDocument(collection, property, value string) ([]byte, error)
 	if property != "" && value != "" {
 		expr = fmt.Sprintf("%s=%s", property, value)
 	}
-	docs, err := c.api.DocFind(c.sessionId, c.pod, namespacedCollection, expr, 1)
-	if err != nil {
-		return nil, err
+	if expr == "" {
+		docs, err := c.api.DocFind(c.sessionId, c.pod, namespacedCollection, expr, 1)
+		if err != nil {
+			return nil, err
+		}
+		if len(docs) == 0 {
+			return nil, fmt.Errorf("document not found")
+		}
+		return docs[0], nil
 	}
-	if len(docs) == 0 {
-		return nil, fmt.Errorf("document not found")
+	// the first document found will do, unless it was replaced since or not
+	// stored completely: list and map indexes still lead to it
+	for _, limit := range []int{1, -1} {
+		docs, err := c.api.DocFind(c.sessionId, c.pod, namespacedCollection, expr, limit)
+		if err != nil {
+			return nil, err
+		}
+		for _, doc := range docs {
+			// the lookup takes the next value if there is none that is equal
+			if !propertyMatches(doc, property, value) {
+				continue
+			}
+			current, err := c.currentVersion(namespacedCollection, doc)
+			if errors.Is(err, collection.ErrEntryNotFound) || errors.Is(err, collection.ErrDocumentNotPresent) {
+				continue
+			}
+			if err != nil {
+				return nil, err
+			}
+			if propertyMatches(current, property, value) {
+				return current, nil
+			}
+		}
 	}
-	// the lookup takes the next value if there is none that is equal
-	if expr != "" && !propertyMatches(docs[0], property, value) {
-		return nil, fmt.Errorf("document not found")
+	return nil, fmt.Errorf("document not found")
+}
+
+// currentVersion returns the document that is stored now under the id of doc
+func (c *Client) currentVersion(namespacedCollection string, doc []byte) ([]byte, error) {
+	stored := struct {
+		ID string `json:"id"`
+	}{}
+	err := json.Unmarshal(doc, &stored)
+	if err != nil {
+		return nil, err
 	}
-	return docs[0], nil
+	return c.api.DocGet(c.sessionId, c.pod, namespacedCollection, stored.ID)
 }
 
 // propertyMatches tells whether a stored document has the value that was asked
-- 
2.43.0


From 7c6a41821e79c3eb66ef69bd6c433057aca8ac2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:04 +0000
Subject: [PATCH 09/14] fix: an insert that fails leaves no half linked node in
 the graph

---
 pkg/hnsw/insert.go               | 33 ++++++++++--------
 pkg/hnsw/neighbor_connections.go | 58 +++++++++++++++++++++++---------
 2 files changed, 62 insertions(+), 29 deletions(-)

diff --git a/pkg/hnsw/insert.go b/pkg/hnsw/insert.go
index aba80f4..24d20ef 100644
--- a/pkg/hnsw/insert.go
+++ b/pkg/hnsw/insert.go
@@ -363,6 +363,23 @@ func (h *hnsw) insert(node *vertex, nodeVec []float32) error {
 	}
 	h.Unlock()
 
+	h.insertMetrics.prepareAndInsertNode(before)
+	before = time.Now()
+	entryPointID, err = h.findBestEntrypointForNode(currentMaximumLayer, targetLevel,
+		entryPointID, nodeVec)
+	if err != nil {
+		return errors.Wrap(err, "find best entrypoint")
+	}
+
+	h.insertMetrics.findEntrypoint(before)
+	before = time.Now()
+
+	nfc := newNeighborFinderConnector(h, node, entryPointID, nodeVec,
+		targetLevel, currentMaximumLayer, helpers.NewAllowList())
+	if err := nfc.find(); err != nil {
+		return errors.Wrap(err, "find neighbors")
+	}
+
 	// // make sure this new vec is immediately present in the cache, so we don't
 	// // have to read it from disk again
 	if h.compressed.Load() {
@@ -375,20 +392,8 @@ func (h *hnsw) insert(node *vertex, nodeVec []float32) error {
 
 	h.indexCache.Add(node.Id, node)
 
-	h.insertMetrics.prepareAndInsertNode(before)
-	before = time.Now()
-	entryPointID, err = h.findBestEntrypointForNode(currentMaximumLayer, targetLevel,
-		entryPointID, nodeVec)
-	if err != nil {
-		return errors.Wrap(err, "find best entrypoint")
-	}
-
-	h.insertMetrics.findEntrypoint(before)
-	before = time.Now()
-
-	if err := h.findAndConnectNeighbors(node, entryPointID, nodeVec,
-		targetLevel, currentMaximumLayer, helpers.NewAllowList()); err != nil {
-		return errors.Wrap(err, "find and connect neighbors")
+	if err := nfc.connect(); err != nil {
+		return errors.Wrap(err, "connect neighbors")
 	}
 
 	h.insertMetrics.findAndConnectTotal(before)
diff --git a/pkg/hnsw/neighbor_connections.go b/pkg/hnsw/neighbor_connections.go
index 1af4a9f..05fe3b0 100644
--- a/pkg/hnsw/neighbor_connections.go
+++ b/pkg/hnsw/neighbor_connections.go
@@ -58,19 +58,40 @@ func newNeighborFinderConnector(graph *hnsw, node *vertex, entryPointID uint64,
 }
 
 func (n *neighborFinderConnector) Do() error {
+	if err := n.find(); err != nil {
+		return err
+	}
+
+	n.graph.indexCache.Add(n.node.Id, n.node)
+
+	return n.connect()
+}
+
+// find picks the neighbors of the node on all levels. The graph is left as it
+// is: no other node links to the node before it is linked itself.
+func (n *neighborFinderConnector) find() error {
 	for level := min(n.targetLevel, n.currentMaxLevel); level >= 0; level-- {
-		err := n.doAtLevel(level)
+		err := n.findAtLevel(level)
 		if err != nil {
 			return errors.Wrapf(err, "at Level %d", level)
 		}
 	}
+	return nil
+}
 
-	n.graph.indexCache.Add(n.node.Id, n.node)
-
+// connect links the neighbors to the node, from the bottom up: a node that can
+// be reached on a level can be reached, and left, on all levels below it.
+func (n *neighborFinderConnector) connect() error {
+	for level := 0; level <= min(n.targetLevel, n.currentMaxLevel); level++ {
+		err := n.connectAtLevel(level)
+		if err != nil {
+			return errors.Wrapf(err, "at Level %d", level)
+		}
+	}
 	return nil
 }
 
-func (n *neighborFinderConnector) doAtLevel(level int) error {
+func (n *neighborFinderConnector) findAtLevel(level int) error {
 	before := time.Now()
 	if err := n.pickEntrypoint(); err != nil {
 		return errors.Wrap(err, "pick entrypoint at Level beginning")
@@ -94,7 +115,6 @@ func (n *neighborFinderConnector) doAtLevel(level int) error {
 	}
 
 	n.graph.insertMetrics.findAndConnectHeuristic(before)
-	before = time.Now()
 
 	// // for distributed spike
 	// neighborsAtLevel[Level] = neighbors
@@ -110,16 +130,6 @@ func (n *neighborFinderConnector) doAtLevel(level int) error {
 	// set all outoing in one go
 	n.node.setConnectionsAtLevel(level, neighbors)
 
-	err = n.graph.commitLog.ReplaceLinksAtLevel(n.node.Id, level, neighbors)
-	if err != nil {
-		n.graph.logger.Error(errors.Wrapf(err, "replace links at Level %d", level))
-	}
-	for _, neighborID := range neighbors {
-		if err := n.connectNeighborAtLevel(neighborID, level); err != nil {
-			return errors.Wrapf(err, "connect neighbor %d", neighborID)
-		}
-	}
-
 	if len(neighbors) > 0 {
 		// there could be no neighbors left, if all are marked deleted, in this
 		// case, don't change the entrypoint
@@ -130,6 +140,24 @@ func (n *neighborFinderConnector) doAtLevel(level int) error {
 
 		n.entryPointID = nextEntryPointID
 	}
+	return nil
+}
+
+func (n *neighborFinderConnector) connectAtLevel(level int) error {
+	before := time.Now()
+	n.node.Lock()
+	neighbors := append([]uint64{}, n.node.connectionsAtLevelNoLock(level)...)
+	n.node.Unlock()
+
+	err := n.graph.commitLog.ReplaceLinksAtLevel(n.node.Id, level, neighbors)
+	if err != nil {
+		n.graph.logger.Error(errors.Wrapf(err, "replace links at Level %d", level))
+	}
+	for _, neighborID := range neighbors {
+		if err := n.connectNeighborAtLevel(neighborID, level); err != nil {
+			return errors.Wrapf(err, "connect neighbor %d", neighborID)
+		}
+	}
 
 	n.graph.insertMetrics.findAndConnectUpdateConnections(before)
 	return nil
-- 
2.43.0


From 0d5df54662ddb9f4204acaa0b6c0321813253f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:04 +0000
Subject: [PATCH 10/14] fix: changed nodes are kept until they are flushed

---
 pkg/hnsw/index.go                | 21 +++++++++++++++++++++
 pkg/hnsw/insert.go               | 22 +++++++++-------------
 pkg/hnsw/neighbor_connections.go |  6 +++---
 3 files changed, 33 insertions(+), 16 deletions(-)

diff --git a/pkg/hnsw/index.go b/pkg/hnsw/index.go
index be32f7c..76c2ba6 100644
--- a/pkg/hnsw/index.go
+++ b/pkg/hnsw/index.go
@@ -164,6 +164,11 @@ type hnsw struct {
 	shardName              string
 
 	indexCache *lru.Cache
+
+	// nodes that were changed since the last flush. The indexCache may drop a
+	// node any time, these have to be kept.
+	dirtyNodes     map[uint64]*vertex
+	dirtyNodesLock sync.Mutex
 }
 
 type CommitLogger interface {
@@ -294,6 +299,7 @@ func New(cfg Config, uc UserConfig, kvStore *collection.KeyValue) (*hnsw, error)
 		className:          cfg.ClassName,
 
 		indexCache: indexCache,
+		dirtyNodes: map[uint64]*vertex{},
 	}
 
 	index.tombstoneCleanupCycle = cyclemanager.New(
@@ -632,6 +638,13 @@ func (h *hnsw) loadNode(id uint64) (*vertex, error) {
 			return nil, fmt.Errorf("cached value of node %d is not a vertex", id)
 		}
 	} else {
+		h.dirtyNodesLock.Lock()
+		v, ok = h.dirtyNodes[id]
+		h.dirtyNodesLock.Unlock()
+		if ok {
+			h.indexCache.Add(id, v)
+			return v, nil
+		}
 		_, value, err = h.nodes.KVGet(h.className, fmt.Sprintf("%d", id))
 		if err != nil {
 			return nil, errors.Wrapf(err, "get node %d", id)
@@ -653,6 +666,14 @@ func (h *hnsw) loadNode(id uint64) (*vertex, error) {
 	}
 }
 
+// keepNode keeps a node that was changed until it is flushed
+func (h *hnsw) keepNode(node *vertex) {
+	h.dirtyNodesLock.Lock()
+	h.dirtyNodes[node.Id] = node
+	h.dirtyNodesLock.Unlock()
+	h.indexCache.Add(node.Id, node)
+}
+
 func (h *hnsw) Drop(ctx context.Context) error {
 	// cancel tombstone cleanup goroutine
 
diff --git a/pkg/hnsw/insert.go b/pkg/hnsw/insert.go
index 24d20ef..9eff395 100644
--- a/pkg/hnsw/insert.go
+++ b/pkg/hnsw/insert.go
@@ -112,7 +112,7 @@ func (h *hnsw) Replace(id uint64, vector []float32) error {
 	node.Vector = vector
 	node.Committed = false
 	node.Unlock()
-	h.indexCache.Add(id, node)
+	h.keepNode(node)
 	h.cache.preload(id, vector)
 	return nil
 }
@@ -140,7 +140,7 @@ func (h *hnsw) insertInitialElement(node *vertex, nodeVec []float32) error {
 		return errors.Wrapf(err, "grow HNSW index to accommodate node %d", node.Id)
 	}
 
-	h.indexCache.Add(node.Id, node)
+	h.keepNode(node)
 	h.hasEntrypoint = true
 	h.entrypointLoaded = true
 
@@ -157,24 +157,17 @@ func (h *hnsw) insertInitialElement(node *vertex, nodeVec []float32) error {
 }
 
 func (h *hnsw) Flush(docCount uint64) error {
-	keys := h.indexCache.Keys()
 	dirty := []*vertex{}
 	updated := []*vertex{}
-	for _, key := range keys {
-		iNode, ok := h.indexCache.Peek(key)
-		if !ok {
-			continue
-		}
-		node := iNode.(*vertex)
-		if node.Committed {
-			continue
-		}
+	h.dirtyNodesLock.Lock()
+	for _, node := range h.dirtyNodes {
 		if node.stored {
 			updated = append(updated, node)
 		} else {
 			dirty = append(dirty, node)
 		}
 	}
+	h.dirtyNodesLock.Unlock()
 	// what is new comes before what may link to it, so that a flush that fails
 	// half way leaves no link to a node that is not there
 	dirty = append(dirty, updated...)
@@ -189,6 +182,9 @@ func (h *hnsw) Flush(docCount uint64) error {
 		}
 		node.Committed = true
 		node.stored = true
+		h.dirtyNodesLock.Lock()
+		delete(h.dirtyNodes, node.Id)
+		h.dirtyNodesLock.Unlock()
 	}
 	if h.hasEntrypoint {
 		ep := &entrypoint{
@@ -390,7 +386,7 @@ func (h *hnsw) insert(node *vertex, nodeVec []float32) error {
 		h.cache.preload(node.Id, nodeVec)
 	}
 
-	h.indexCache.Add(node.Id, node)
+	h.keepNode(node)
 
 	if err := nfc.connect(); err != nil {
 		return errors.Wrap(err, "connect neighbors")
diff --git a/pkg/hnsw/neighbor_connections.go b/pkg/hnsw/neighbor_connections.go
index 05fe3b0..63f6a6f 100644
--- a/pkg/hnsw/neighbor_connections.go
+++ b/pkg/hnsw/neighbor_connections.go
@@ -62,7 +62,7 @@ func (n *neighborFinderConnector) Do() error {
 		return err
 	}
 
-	n.graph.indexCache.Add(n.node.Id, n.node)
+	n.graph.keepNode(n.node)
 
 	return n.connect()
 }
@@ -194,7 +194,7 @@ func (n *neighborFinderConnector) connectNeighborAtLevel(neighborID uint64,
 		// we can simply append
 		// updatedConnections = append(currentConnections, n.node.ID)
 		neighbor.appendConnectionAtLevelNoLock(level, n.node.Id, maximumConnections)
-		n.graph.indexCache.Add(neighbor.Id, neighbor)
+		n.graph.keepNode(neighbor)
 
 		if err := n.graph.commitLog.AddLinkAtLevel(neighbor.Id, level, n.node.Id); err != nil {
 			return err
@@ -243,7 +243,7 @@ func (n *neighborFinderConnector) connectNeighborAtLevel(neighborID uint64,
 		for candidates.Len() > 0 {
 			id := candidates.Pop().ID
 			neighbor.appendConnectionAtLevelNoLock(level, id, maximumConnections)
-			n.graph.indexCache.Add(neighbor.Id, neighbor)
+			n.graph.keepNode(neighbor)
 
 			if err := n.graph.commitLog.AddLinkAtLevel(neighbor.Id, level, id); err != nil {
 				return err
-- 
2.43.0


From c293c98330581f338540363495d765a21bf50de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:04 +0000
Subject: [PATCH 11/14] fix: a node that cannot be read is not taken for a
 deleted one

---
 pkg/hnsw/index.go  |  7 +++++--
 pkg/hnsw/search.go | 14 +++-----------
 2 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/pkg/hnsw/index.go b/pkg/hnsw/index.go
index 76c2ba6..5b31109 100644
--- a/pkg/hnsw/index.go
+++ b/pkg/hnsw/index.go
@@ -439,8 +439,11 @@ func (h *hnsw) findBestEntrypointForNode(currentMaxLevel, targetLevel int,
 			// if we could find a new entrypoint, use it
 			// in case everything was tombstoned, stick with the existing one
 			elem := res.Pop()
-			n := h.nodeByID(elem.ID)
-			if n != nil && !n.isUnderMaintenance() {
+			n, err := h.loadNode(elem.ID)
+			if err != nil {
+				return 0, errors.Wrapf(err, "update candidate at Level %d", level)
+			}
+			if !n.isUnderMaintenance() {
 				// but not if the entrypoint is under Maintenance
 				entryPointID = elem.ID
 			}
diff --git a/pkg/hnsw/search.go b/pkg/hnsw/search.go
index a3a755c..7364741 100644
--- a/pkg/hnsw/search.go
+++ b/pkg/hnsw/search.go
@@ -498,17 +498,9 @@ func (h *hnsw) knnSearchByVector(searchVec []float32, k int,
 		// deleted), and not under Maintenance is a viable candidate
 		for res.Len() > 0 {
 			cand := res.Pop()
-			n := h.nodeByID(cand.ID)
-			if n == nil {
-				// we have found a node in results that is nil. This means it was
-				// deleted, but not cleaned up properly. Make sure to add a tombstone to
-				// this node, so it can be cleaned up in the next cycle.
-				if err := h.addTombstone(cand.ID); err != nil {
-					return nil, nil, err
-				}
-
-				// skip the nil node, as it does not make a valid entrypoint
-				continue
+			n, err := h.loadNode(cand.ID)
+			if err != nil {
+				return nil, nil, errors.Wrapf(err, "knn search: entrypoint at Level %d", level)
 			}
 
 			if !n.isUnderMaintenance() {
-- 
2.43.0


From 5ebc3a1c7f5f33c463fe759b3114c42e831960fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:27 +0000
Subject: [PATCH 12/14] fix: numbers in documents come back as they were stored

---
 adapters/handlers/documents.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/adapters/handlers/documents.go b/adapters/handlers/documents.go
index ecdff03..6ce3322 100644
--- a/adapters/handlers/documents.go
+++ b/adapters/handlers/documents.go
@@ -1,6 +1,7 @@
 package handlers
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"github.com/fairDataSociety/FaVe/models"
@@ -60,7 +61,7 @@ func (s *Handler) FaveGetNearestDocumentsHandler(request operations.FaveGetNeare
 	documents := make([]*models.Document, len(documentsRaw))
 	for i, v := range documentsRaw {
 		props := map[string]interface{}{}
-		err := json.Unmarshal(v, &props)
+		err := decodeProperties(v, &props)
 		if err != nil {
 			return operations.NewFaveGetNearestDocumentsBadRequest().WithPayload(createErrorResponseObject("Failed to get nearest documents :" + err.Error()))
 		}
@@ -100,7 +101,7 @@ func (s *Handler) FaveGetNearestDocumentsByVectorHandler(request operations.Fave
 	documents := make([]*models.Document, len(documentsRaw))
 	for i, v := range documentsRaw {
 		props := map[string]interface{}{}
-		err := json.Unmarshal(v, &props)
+		err := decodeProperties(v, &props)
 		if err != nil {
 			return operations.NewFaveGetNearestDocumentsByVectorBadRequest().WithPayload(createErrorResponseObject("Failed to get nearest documents :" + err.Error()))
 		}
@@ -130,7 +131,7 @@ func (s *Handler) GetDocumentsHandlerFunc(request operations.FaveGetDocumentsPar
 		return operations.NewFaveGetNearestDocumentsBadRequest().WithPayload(createErrorResponseObject("Failed to get nearest documents :" + err.Error()))
 	}
 	props := map[string]interface{}{}
-	err = json.Unmarshal(documentRaw, &props)
+	err = decodeProperties(documentRaw, &props)
 	if err != nil {
 		return operations.NewFaveGetNearestDocumentsBadRequest().WithPayload(createErrorResponseObject("Failed to get nearest documents :" + err.Error()))
 	}
@@ -143,3 +144,10 @@ func (s *Handler) GetDocumentsHandlerFunc(request operations.FaveGetDocumentsPar
 
 	return operations.NewGetDocumentsOK().WithPayload(d)
 }
+
+// decodeProperties keeps numbers as they were stored: not all of them fit a float64
+func decodeProperties(data []byte, props *map[string]interface{}) error {
+	decoder := json.NewDecoder(bytes.NewReader(data))
+	decoder.UseNumber()
+	return decoder.Decode(props)
+}
-- 
2.43.0


From d8909f3180c90dbc235c5dba001d310b53bc1689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:28 +0000
Subject: [PATCH 13/14] fix: refuse a batch with a replacement without a vector
 before storing any of it

---
 pkg/document/document.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 2f1a1d2..64976f6 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -520,13 +520,22 @@ func (c *Client) AddDocuments(name string, propertiesToIndex []string, documents
 		return err
 	}
 	dimensions := 0
+	indexed := map[string]bool{}
 	for i, doc := range documents {
 		if err := validateDocument(doc, c.schemas[namespacedCollection]); err != nil {
 			return err
 		}
 		if vectors[i] == nil {
+			_, exists, err := c.indexedAs(namespacedCollection, doc.ID)
+			if err != nil {
+				return err
+			}
+			if exists || indexed[doc.ID] {
+				return fmt.Errorf("document %s is indexed by a vector and cannot be replaced by one without", doc.ID)
+			}
 			continue
 		}
+		indexed[doc.ID] = true
 		if err := index.ValidateBeforeInsert(vectors[i]); err != nil {
 			return err
 		}
@@ -560,9 +569,6 @@ func (c *Client) AddDocuments(name string, propertiesToIndex []string, documents
 		if err != nil {
 			return err
 		}
-		if exists && vector == nil {
-			return fmt.Errorf("document %s is indexed by a vector and cannot be replaced by one without", doc.ID)
-		}
 		if vector == nil {
 			doc.Properties[hnswIndexName] = -1
 		} else {
-- 
2.43.0


From 1aec6dd59c912aeffe3afd8fa97a6463f5660e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:48 +0000
Subject: [PATCH 14/14] fix: find documents by numbers and values an index
 lookup can not express

A lookup by an indexed value went to the document store as an expression. The
store takes strings as regular expressions, splits the expression at the
operators in the value, only takes whole numbers, builds the key of large ones
differently from the key it stores, and drops colons from map values, so
documents with such values were never found by them. The index is now read
completely for such a value.
---
 pkg/document/document.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 64976f6..31fd467 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"math"
 	"os"
+	"regexp"
 	"strconv"
 	"strings"
 	"sync"
@@ -741,7 +742,11 @@ func (c *Client) GetDocument(collectionName, property, value string) ([]byte, er
 	}
 	// the first document found will do, unless it was replaced since or not
 	// stored completely: list and map indexes still lead to it
-	for _, limit := range []int{1, -1} {
+	limits := []int{1, -1}
+	if all := scanExpression(c.schemas[namespacedCollection], property, value); all != "" {
+		expr, limits = all, []int{-1}
+	}
+	for _, limit := range limits {
 		docs, err := c.api.DocFind(c.sessionId, c.pod, namespacedCollection, expr, limit)
 		if err != nil {
 			return nil, err
@@ -766,6 +771,30 @@ func (c *Client) GetDocument(collectionName, property, value string) ([]byte, er
 	return nil, fmt.Errorf("document not found")
 }
 
+// scanExpression returns the expression that finds all documents of an index, if
+// the index can not be asked for the value itself: it takes strings as regular
+// expressions, operators as part of the expression, only small whole numbers, and
+// no colons in the keys and values of a map. It returns "" if the index can be asked.
+func scanExpression(indexes map[string]collection.IndexType, property, value string) string {
+	switch indexes[property] {
+	case collection.NumberIndex:
+		number, err := strconv.ParseInt(value, 10, 64)
+		if err != nil || number < 0 || number >= 1000000 {
+			return property + "=>-1"
+		}
+	case collection.StringIndex:
+		if regexp.QuoteMeta(value) != value || strings.ContainsAny(value, "<>=") {
+			return property + "=>"
+		}
+	case collection.ListIndex, collection.MapIndex:
+		colons := strings.Count(value, ":") > 1 && indexes[property] == collection.MapIndex
+		if colons || strings.ContainsAny(value, "<>=") {
+			return property + "=>"
+		}
+	}
+	return ""
+}
+
 // currentVersion returns the document that is stored now under the id of doc
 func (c *Client) currentVersion(namespacedCollection string, doc []byte) ([]byte, error) {
 	stored := struct {
-- 
2.43.0

